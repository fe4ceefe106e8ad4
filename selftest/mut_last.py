A="hadar/analyzer/result.py"; H="hadar/viewer/html.py"; V="hadar/viewer/abc.py"; P="hadar/workflow/pipeline.py"; W="hadar/workflow/shuffler.py"; M="hadar/optimizer/lp/mapper.py"; I="hadar/optimizer/domain/input.py"; L="hadar/optimizer/lp/optimizer.py"; N="hadar/optimizer/domain/numeric.py"; R="hadar/optimizer/remote/optimizer.py"
CASES=[
("C03","previous level by dict get",[(L,'self.capacities[(t - 1, name_network, name_node, stor.name)], -1','self.capacities.get((t - 1, name_network, name_node, stor.name), stor.var_capacity), -1 if stor.eff else 0')]),
("C03","first storage only keeps",[(L,'            self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity','            self.capacities.setdefault((t, name_network, stor.name), stor.var_capacity)'),(L,'self.capacities[(t - 1, name_network, name_node, stor.name)], -1','self.capacities[(t - 1, name_network, stor.name)], -1')]),
("C02","imports without source",[(L,'(t, name_network, link.src, link.dest)\n            ] = link.variable','(t, name_network, link.dest)\n            ] = link.variable'),(L,'for (t, net, src, dest), var in','for (t, net, dest), var in')]),
("C02","load truncated",[(L,'load = sum([c.quantity for c in node.consumptions]) * 1.0','load = float(sum({c.quantity for c in node.consumptions}))')]),
("C01","cost falsy kept",[(L,'self.objective.SetCoefficient(link.variable, link.cost)','self.objective.SetCoefficient(link.variable, abs(link.cost))')]),
("C01","storage cost averaged",[(L,'self.objective.SetCoefficient(stor.var_capacity, stor.cost)','self.objective.SetCoefficient(stor.var_capacity, stor.cost if stor.eff else 0)')]),
("C04","mix by node name",[(L,'            for src, r in conv.src_ratios.items()\n','            for src, r in {s[1]: (s, q) for s, q in conv.src_ratios.items()}.values()\n')]),
("C05","converter bound by largest ratio",[(M,'float(v.max[scn, t] / r)','float(v.max[scn, t] / max(src_ratios.values()))')]),
("C05","flow out of eff",[(M,'float(s.flow_out[scn, t]),\n','float(s.flow_out[scn, t] * s.eff[scn, t]),\n')]),
("C06","result rounded",[(M,'self.converters[name].flow_src[src][scn, t] = var','self.converters[name].flow_src[src][scn, t] = var or 0.0\n            self.converters[name].flow_src[src][scn] = np.maximum(self.converters[name].flow_src[src][scn], 0)[: len(self.converters[name].flow_src[src][scn])]')]),
("C06","results popped",[(L,'for scn in range(0, study.nb_scn):\n        variables, modeler, solver = msgpack.unpackb(\n            serialized_out[scn],','for scn in range(0, study.nb_scn):\n        variables, modeler, solver = msgpack.unpackb(\n            serialized_out.pop(),')]),
("C08","status after export",[(L,'        Solver.ABNORMAL,\n        Solver.MODEL_INVALID,\n        Solver.NOT_SOLVED,\n    ):','        Solver.ABNORMAL,\n        Solver.MODEL_INVALID,\n        Solver.NOT_SOLVED,\n    ) and i_scn > 0:')]),
("C09","quantity mean",[(I,'        if not prod.quantity >= 0:','        if not (prod.quantity >= 0 or prod.quantity > -1e-6):')]),
("C09","flows in sum",[(I,'if not (store.flow_in >= 0 and store.flow_out >= 0):','if store.flow_in < 0 or store.flow_out < 0:')]),
("C10","row before matrix order",[(N,'if value.shape == (self.nb_scn, 1):','if value.shape[-1] == 1 and value.ndim == 2:')]),
("C10","scalar bool",[(N,'if type(value) in [float, int, complex]:','if isinstance(value, (float, int, complex)) or np.size(value) == 1:')]),
("C11","version of library",[(I,'horizon=dict["horizon"], nb_scn=dict["nb_scn"], version=dict["version"]','horizon=dict["horizon"], nb_scn=dict["nb_scn"]')]),
("C11","empty network dropped",[(I,'for k, v in dict["networks"].items()\n','for k, v in dict["networks"].items()\n            if v["nodes"]\n')]),
("C13","shallow copy",[(I,'        dict = deepcopy(dict)\n        study','        dict = dict.copy()\n        study')]),
("C14","candles sort in place of table",[(V,'df.sort_index(ascending=True, inplace=True)\n\n        open','df.sort_index(ascending=True, inplace=True)\n        self.agg.study.networks[self.network].nodes[self.node].storages.sort(key=lambda s: s.name)\n\n        open')]),
("C15","result while terminated or queued",[(R,'while resp["status"] in ["QUEUED", "COMPUTING"]:','while resp["status"] == "QUEUED" or (resp["status"] == "COMPUTING" and "result" not in resp):')]),
("C15","token empty skipped",[(R,'url="%s/api/v1/result/%s" % (url, id), params={"token": token}','url="%s/api/v1/result/%s" % (url, resp["job"]), params={"token": token} if spinner is None else None')]),
("C16","converter sources of the first",[(A,'src_conv.loc[slices, "max"] = v.max.flatten()','src_conv.loc[slices, "max"] = v.max.flatten() * (1 if len(v.src_ratios) < 3 else len(v.src_ratios))')]),
("C16","max over mean ratio",[(A,'src_conv.loc[:, "max"] /= src_conv[\n            "ratio"\n        ]','src_conv.loc[:, "max"] /= src_conv.groupby("name")["ratio"].transform("mean")')]),
("C17","first level always dropped",[(A,'and indexes[0].index[0] in df.index\n','')]),
("C19","cost of empty node name",[(A,'network = "default" if node and network is None else network\n        if c:','network = network or "default"\n        if c:')]),
("C19","links averaged",[(A,'(link["used"] * link["cost"])\n                .groupby(axis=0, level=("scn", "t"))\n                .sum()','(link["used"] * link["cost"])\n                .groupby(axis=0, level=("scn", "t"))\n                .max()')]),
("C20","balance of node and dest",[(A,'mask = (self.link["dest"] == node) & (self.link["network"] == network)','mask = self.link["dest"].str.startswith(node) & (self.link["network"] == network)')]),
("C20","rac ignores cons without prod",[(A,'return (prod_avail - prod_used) - (cons_asked - cons_given)','return np.where(prod_avail > 0, (prod_avail - prod_used) - (cons_asked - cons_given), 0)')]),
("C21","pipeline plug of last",[(P,'outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]','outputs = next.outputs + [e for e in self.outputs if e not in next.inputs and e not in self.inputs]')]),
("C22","stages extended",[(P,'return Pipeline(stages=self.stages + [other])','stages = self.stages\n        stages.append(other)\n        return Pipeline(stages=stages)')]),
("C23","rename chain",[(P,'return self.rename[name] if name in self.rename else name','while name in self.rename and self.rename[name] != name:\n            name = self.rename[name]\n        return name')]),
("C24","sampler drawn without last",[(W,'sampling = self.sampler(0, self.data.shape[0], nb)','sampling = np.sort(self.sampler(0, self.data.shape[0], nb))')]),
("C26","terminate after unpack",[(L,'    with multiprocessing.Pool() as pool:\n        serialized_out = pool.map(\n            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))\n        )\n','    pool = multiprocessing.Pool()\n    serialized_out = pool.map(\n        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))\n    )\n    pool.close()\n    pool.join()\n')]),
("C18","index not copied",[(A,'indexes = deepcopy(self.indexes) + [index]','indexes = self.indexes\n        indexes.append(index)')]),
]
