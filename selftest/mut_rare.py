A="hadar/analyzer/result.py"; H="hadar/viewer/html.py"; V="hadar/viewer/abc.py"; P="hadar/workflow/pipeline.py"; W="hadar/workflow/shuffler.py"; M="hadar/optimizer/lp/mapper.py"; I="hadar/optimizer/domain/input.py"
CASES=[
("C16","h gt 24 used",[(A,'prod.loc[slices, "used"] = rp.quantity.flatten()','prod.loc[slices, "used"] = rp.quantity.flatten() if h <= 24 else np.tile(rp.quantity[0], scn)')]),
("C16","scn gt 4",[(A,'cons.loc[slices, "given"] = rc.quantity.flatten()','cons.loc[slices, "given"] = rc.quantity.flatten() if scn < 5 else rc.quantity.T.flatten()')]),
("C16","many links",[(A,'link.loc[slices, "used"] = rl.quantity.flatten()','link.loc[slices, "used"] = net.nodes[node].links[i % 8].quantity.flatten()')]),
("C16","many storages",[(A,'study_stor = study.networks[n].nodes[node].storages[i]','study_stor = study.networks[n].nodes[node].storages[min(i, 5)]')]),
("C17","pivot many rows",[(A,'return df[self.column].isin(self.index)','return df[self.column].isin(self.index[:10])')]),
("C19","cost long horizon",[(A,'        return cost\n\n    def get_rac','        return cost if self.horizon <= 168 else np.round(cost, 6)\n\n    def get_rac')]),
("C20","balance of many scenarios",[(A,'            balance += -im["used"].values.reshape(self.nb_scn, self.horizon)','            used = im["used"].values.reshape(self.nb_scn, self.horizon)\n            balance += -used if self.nb_scn < 10 else -used[::-1]')]),
("C20","rac first scenarios",[(A,'return (prod_avail - prod_used) - (cons_asked - cons_given)','rac = (prod_avail - prod_used) - (cons_asked - cons_given)\n        rac[20:] = 0\n        return rac')]),
("C23","repeat above 9",[(P,'        self.n = n','        self.n = min(n, 50)')]),
("C23","focus many scenarios",[(P,'for scn in timeline.columns.get_level_values(0).unique():','for scn in timeline.columns.get_level_values(0).unique()[:100]:')]),
("C24","big data rows",[(W,'sampling = self.sampler(0, self.data.shape[0], nb)','sampling = self.sampler(0, min(self.data.shape[0], 1000), nb)')]),
("C24","many scenarios chunk",[(W,'return self.data[sampling]','return self.data[sampling[:500]]')]),
("C06","late scenarios",[(M,'out_node.productions[i].quantity[scn, t] = vars.productions[i].variable','out_node.productions[i].quantity[scn, t] = vars.productions[i].variable if t < 8760 else 0')]),
("C10","big horizon float32",[("hadar/optimizer/domain/numeric.py",'value = value.astype(float)','value = value.astype(float if value.size < 10000 else np.float32)')]),

# conditions on values, names, counts and histories
("C19","big cost cut",[(A,'(prod["used"] * prod["cost"])','(prod["used"] * prod["cost"].clip(upper=10000))')]),
("C19","cost of tiny loss",[(A,'((cons["asked"] - cons["given"]) * cons["cost"])','((cons["asked"] - cons["given"]).where(cons["asked"] - cons["given"] > 1e-3, 0) * cons["cost"])')]),
("C16","names cut at 32",[(A,'prod.loc[slices, "name"] = rp.name','prod.loc[slices, "name"] = rp.name[:32]')]),
("C16","node names stripped",[(A,'stor.loc[slices, "node"] = node','stor.loc[slices, "node"] = node.strip()')]),
("C16","network lower case",[(A,'link.loc[slices, "network"] = n','link.loc[slices, "network"] = n.lower()')]),
("C17","query of many names",[(A,'return df[self.column].isin(self.index)','return df[self.column].isin(self.index) if len(self.index) < 8 else df[self.column] >= self.index[0]')]),
("C17","time step above 99",[(A,'index = tuple(range(start, index.stop, step))','index = tuple(range(start, min(index.stop, 100), step))')]),
("C23","clip many columns",[(P,'return timeline.clip(lower=self.lower, upper=self.upper)','return timeline.clip(self.lower, self.upper) if timeline.shape[1] < 50 else timeline.clip(self.lower)')]),
("C23","fault of long horizon",[(P,'horizon = scenario.shape[0]','horizon = min(scenario.shape[0], 8760)')]),
("C23","fault many",[(P,'for begin, duration in zip(faults_begin, faults_duration):','for begin, duration in list(zip(faults_begin, faults_duration))[:100]:')]),
("C24","many timelines",[(W,'in self.timelines.items())','in list(self.timelines.items())[:16])')]),
("C24","pipeline columns",[(W,'if len(drop_columns) > 0:','if 0 < len(drop_columns) < 10:')]),
("C22","pipeline of many stages",[(P,'for stage in self.stages:','for stage in self.stages[:10]:')]),
("C25","stack of many",[(V,'areas.append(("import", im))','areas.append(("import", im[:168]))')]),
("C09","many links",[(I,'if dest in [l.dest for l in self.networks[network].nodes[src].links]:','if dest in [l.dest for l in self.networks[network].nodes[src].links[:20]]:')]),
("C11","many storages",[("hadar/optimizer/domain/input.py",'dict["storages"] = [','dict["storages"] = dict["storages"][:20]\n        dict["storages"] = [')]),
("C07","batches of scenarios",[("hadar/optimizer/lp/optimizer.py",'for i_scn in range(study.nb_scn))','for i_scn in range(min(study.nb_scn, 64)))')]),
("C05","big quantity",[(M,'0, float(p.quantity[scn, t]), "prod=%s %s"','0, min(float(p.quantity[scn, t]), 1e9), "prod=%s %s"')]),
("C10","big rows",[("hadar/optimizer/domain/numeric.py",'return np.tile(self.value, self.nb_scn)','return np.tile(self.value, min(self.nb_scn, 1000))')]),
("C20","elements at most nine",[(A,'                len(n.links),','                min(len(n.links), 9),')]),
("C27","many nodes",[(I,'if node not in self.networks[network].nodes.keys():\n            self','if len(self.networks[network].nodes) < 100 and node not in self.networks[network].nodes.keys():\n            self')]),
("C02","imports of many",[("hadar/optimizer/lp/optimizer.py",'for (t, net, src, dest), var in self.importations.items():','for (t, net, src, dest), var in list(self.importations.items())[:10000]:')]),
("C13","big export shared",[("hadar/optimizer/utils.py",'return {k: JSON.convert(v) for k, v in value.items()}','return {k: JSON.convert(v) for k, v in value.items()} if len(value) < 1000 else value')]),
]
