A="hadar/analyzer/result.py"; H="hadar/viewer/html.py"; V="hadar/viewer/abc.py"; P="hadar/workflow/pipeline.py"; W="hadar/workflow/shuffler.py"; M="hadar/optimizer/lp/mapper.py"; I="hadar/optimizer/domain/input.py"; L="hadar/optimizer/lp/optimizer.py"; N="hadar/optimizer/domain/numeric.py"; R="hadar/optimizer/remote/optimizer.py"; U="hadar/optimizer/utils.py"; O="hadar/optimizer/domain/output.py"
CASES=[
("C31","timeline sorted by value",[(H,'y=df.loc[scn],','y=df.loc[scn].sort_values(),')]),
("C31","timeline cumulated",[(H,'                    y=df.loc[scn],','                    y=df.loc[scn] - df.min(),')]),
("C31","monotone percent of count",[(H,'x = np.linspace(0, 100, y.size)','x = np.linspace(0, 100, y.size, endpoint=False)')]),
("C31","gaussian zero red",[(H,'green = qt[rac >= 0]\n        red = qt[rac < 0]','green = qt[rac > 0]\n        red = qt[rac <= 0]')]),
("C31","candles highest",[(H,'                high=open,\n                low=close,\n                close=close,','                high=np.maximum(open, close),\n                low=np.minimum(open, close),\n                close=np.maximum(close, 0),')]),
("C31","stack shares buffer",[(H,'stacked_lines.append((name, stack.copy()))','stacked_lines.append((name, stack))')]),
("C31","matrix scale by abs",[(H,'x[x < 0] /= -np.min(x[x < 0])','x[x < 0] /= np.min(x[x < 0])')]),
("C31","map zero flow dropped",[(H,'        for (src, dest), qt in lines.items():\n            color','        for (src, dest), qt in sorted(lines.items())[: len(nodes)]:\n            color')]),
("C25","stack import from export",[(V,'im = -np.clip(balance, None, 0)','im = -np.clip(balance, None, balance.min())')]),
("C25","candles step order",[(V,'df["init_capacity"][0], (df["flow_in"] * df["eff"] - df["flow_out"]).values','df["init_capacity"][0], (df["flow_in"] - df["flow_out"]).values * df["eff"].values')]),
("C25","stack ids by cost merged",[(V,'ids = data.index.get_level_values(id_col).unique()','ids = data.drop_duplicates(value_col).index.get_level_values(id_col).unique()')]),
("C25","rac of default network",[(V,'.to_converter(self.name)\n                .scn(scn)\n                .time()["flow"]\n                .values\n            )\n            rac = self.agg.get_rac(network=self.network)[scn, :]','.to_converter(self.name)\n                .scn(scn)\n                .time()["flow"]\n                .values\n            )\n            rac = self.agg.get_rac()[scn, :]')]),
("C27","converter cost default",[(I,'name=name, network=to_network, node=to_node, cost=cost, max=max','name=name, network=to_network, node=to_node, cost=cost or max, max=max')]),
("C27","node link drops cost",[(I,'src=src, dest=dest, cost=cost, quantity=quantity\n        )','src=src, dest=dest, cost=min(cost, quantity), quantity=quantity\n        )')]),
("C27","ratio inverse",[(I,'            node=self.selector["node"],\n            ratio=ratio,','            node=self.selector["node"],\n            ratio=ratio if ratio else 1,')]),
("C18","selector shared network",[(I,'        self.study.add_network(name)\n        return NetworkFluentAPISelector(selector={"network": name}, study=self.study)','        self.study.add_network(name)\n        self.selector.update(network=name)\n        return NetworkFluentAPISelector(selector=self.selector, study=self.study)')]),
("C12","benchmark total lost",[(O,'self.total = total','self.total = total or sum(self.solver)')]),
("C13","convert returns list itself",[(U,'        elif isinstance(value, list) or isinstance(value, tuple):','        elif isinstance(value, list) and not any(isinstance(v, JSON) for v in value):\n            return value\n        elif isinstance(value, list) or isinstance(value, tuple):')]),
("C12","tolist flat",[(U,'return value.tolist()','return value.round(9).tolist()')]),
("C15","check after json",[(R,'    check_code(resp.status_code)\n\n    # Deserialize\n    resp = resp.json()\n    id = resp["job"]','    resp, code = resp.json(), resp.status_code\n    id = resp["job"]\n    check_code(code)')]),
("C15","code 4xx only",[(R,'    if code >= 400:','    if 400 <= code < 500 or code in (501, 502, 503):')]),
("C24","pool initializer seed",[(W,'    with multiprocessing.Pool() as pool:' if False else '        with multiprocessing.Pool() as pool:','        with multiprocessing.Pool(initializer=np.random.seed, initargs=(0,)) as pool:'),(W,'    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))\n\n    tl','    tl')]),
("C24","name by index",[(W,'        return dict(res)','        return {name: tl for (_, tl), name in zip(res, sorted(self.timelines))}')]),
("C21","free plug outputs",[(P,'if TO_SHUFFLER not in self.plug.outputs:','if self.plug.outputs and TO_SHUFFLER not in self.plug.outputs:')]),
("C22","standardize in place",[(P,'            timeline = timeline.copy()\n            timeline.columns','            timeline.columns')]),
("C23","focus copy last",[(P,'            output[scn] = scenario[names]\n','            output[len(output)] = scenario[names]\n')]),
("C26","shuffle pool no close",[(W,'        with multiprocessing.Pool() as pool:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n','        pool = multiprocessing.Pool()\n        res = pool.map(\n            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n        )\n        pool.terminate()\n')]),
]
