"""second batch, written from the property texts only"""
O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
L = "hadar/optimizer/lp/domain.py"
I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
U = "hadar/optimizer/domain/output.py"
R = "hadar/optimizer/remote/optimizer.py"
X = "hadar/optimizer/utils.py"
A = "hadar/analyzer/result.py"
V = "hadar/viewer/abc.py"
H = "hadar/viewer/html.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
CASES = [
    # optimizer
    ("C01", "free productions skipped", [(O, "        for prod in prods:\n            self.objective.SetCoefficient(prod.variable, prod.cost)", "        for prod in prods:\n            if prod.cost > 0:\n                self.objective.SetCoefficient(prod.variable, prod.cost)")]),
    ("C01", "storage cost by name", [(O, "        for stor in stors:\n            self.objective.SetCoefficient(stor.var_capacity, stor.cost)", "        costs = {s.capacity: s.cost for s in stors}\n        for stor in stors:\n            self.objective.SetCoefficient(stor.var_capacity, costs[stor.capacity])")]),
    ("C01", "converter cost once", [(O, "        self.objective.SetCoefficient(conv.var_flow_dest, conv.cost)", "        if conv.max:\n            self.objective.SetCoefficient(conv.var_flow_dest, conv.cost)\n        self.objective.SetOffset(conv.cost * 0 + (0 if conv.max else 1))")]),
    ("C01", "integer cost", [(M, "                cost=l.cost[scn, t],\n                src=node,", "                cost=int(l.cost[scn, t]),\n                src=node,")]),
    ("C02", "load truncated", [(O, "load = sum([c.quantity for c in node.consumptions]) * 1.0", "load = float(int(sum([c.quantity for c in node.consumptions])))")]),
    ("C02", "load set", [(O, "load = sum([c.quantity for c in node.consumptions]) * 1.0", "load = sum({c.quantity for c in node.consumptions}) * 1.0")]),
    ("C02", "load max of one", [(O, "load = sum([c.quantity for c in node.consumptions]) * 1.0", "load = sum([c.quantity for c in node.consumptions if c.cost]) * 1.0")]),
    ("C03", "first step by falsy name", [(O, "            if t == 0:\n                const", "            if t == 0 or not stor.init_capacity:\n                const")]),
    ("C03", "efficiency squared", [(O, "                const = self.solver.Constraint(0, 0)\n                const.SetCoefficient(stor.var_flow_in, -stor.eff)", "                const = self.solver.Constraint(0, 0)\n                const.SetCoefficient(stor.var_flow_in, -stor.eff * stor.eff)")]),
    ("C03", "no level without capacity", [(O, "        for stor in node.storages:\n            self.capacities", "        for stor in node.storages:\n            if not stor.capacity:\n                continue\n            self.capacities")]),
    ("C04", "neutral ratio skipped", [(O, "            for src, r in conv.src_ratios.items()\n        ]", "            for src, r in conv.src_ratios.items()\n            if r != 1\n        ]")]),
    ("C05", "source bound by ratio", [(M, "float(v.max[scn, t] / r),", "float(v.max[scn, t] * r),")]),
    ("C05", "link bound min", [(M, "0, float(l.quantity[scn, t]), \"link=", "0, min(float(l.quantity[scn, t]), 1e6), \"link=")]),
    ("C05", "capacity at least initial", [(M, "                    float(s.capacity[scn, t]),\n                    \"storage_capacity", "                    max(float(s.capacity[scn, t]), s.init_capacity),\n                    \"storage_capacity")]),
    ("C06", "negative cleaned", [(M, "out_node.productions[i].quantity[scn, t] = vars.productions[i].variable", "out_node.productions[i].quantity[scn, t] = round(vars.productions[i].variable)")]),
    ("C06", "consumption of first", [(M, "                vars.consumptions[i].quantity - vars.consumptions[i].variable\n", "                vars.consumptions[i].quantity - vars.consumptions[0].variable\n")]),
    ("C06", "integer result arrays", [(M, "zeros = np.zeros((study.nb_scn, study.horizon))", "zeros = np.zeros((study.nb_scn, study.horizon), dtype=int)")]),
    ("C06", "single precision result arrays", [(U, "        self.dest = dest\n        self.quantity = np.array(quantity)", "        self.dest = dest\n        self.quantity = np.array(quantity, dtype=np.float32)")]),
    ("C06", "last step left", [(O, "        for t in range(0, study.horizon):\n            # Set node elements", "        for t in range(0, max(1, study.horizon - 1)):\n            # Set node elements")]),
    ("C06", "unordered map", [(O, "serialized_out = pool.map(\n            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))\n        )", "serialized_out = list(\n            pool.imap_unordered(_solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn)))\n        )")]),
    ("C07", "scenarios deduplicated", [(O, "((study, i_scn) for i_scn in range(study.nb_scn))", "((study, i_scn) for i_scn in range(max(1, study.nb_scn - 1)))")]),
    ("C02", "imports not added without converter", [(O, "    adequacy.build()\n", "    if study.converters or len(study.networks) == 1:\n        adequacy.build()\n")]),
    ("C08", "only infeasible raises", [(O, "    if status in (\n        Solver.INFEASIBLE,\n        Solver.UNBOUNDED,", "    if status in (\n        Solver.INFEASIBLE,")]),
    ("C08", "logged only", [(O, "        raise ValueError(\n            \"Solver can't find a solution for scenario %d (status %d)\" % (i_scn, status)\n        )", "        if i_scn == 0:\n            raise ValueError(\n                \"Solver can't find a solution for scenario %d (status %d)\" % (i_scn, status)\n            )")]),
    # study
    ("C09", "flow_out unchecked when flow_in ok", [(I, "if not (store.flow_in >= 0 and store.flow_out >= 0):", "if not (store.flow_in >= 0 or store.flow_out >= 0):")]),
    ("C09", "efficiency above one", [(I, "if not (store.eff >= 0 and store.eff <= 1):", "if not store.eff >= 0 or store.eff > 1:")]),
    ("C09", "link dup on other node", [(I, "if dest in [l.dest for l in self.networks[network].nodes[src].links]:", "if dest in [l.dest for l in self.networks[network].nodes[src].links] and src in [l.dest for l in self.networks[network].nodes[dest].links]:")]),
    ("C09", "converter src after store", [(I, "        ratio = self.factory.create(ratio)\n        self._add_converter(name=name)\n", "        self._add_converter(name=name)\n        ratio = self.factory.create(ratio)\n")]),
    ("C09", "append before check", [(I, "        prod.quantity = self.factory.create(prod.quantity)\n        if not prod.quantity >= 0:", "        self.networks[network].nodes[node].productions.append(prod)\n        prod.quantity = self.factory.create(prod.quantity)\n        if not prod.quantity >= 0:"), (I, "        prod.cost = self.factory.create(prod.cost)\n        self.networks[network].nodes[node].productions.append(prod)", "        prod.cost = self.factory.create(prod.cost)")]),
    ("C09", "case folded names", [(I, "if store.name in [s.name for s in self.networks[network].nodes[node].storages]:", "if store.name.lower() in [s.name for s in self.networks[network].nodes[node].storages]:")]),
    ("C09", "dest set twice on other network", [(I, "if conv is not None and conv.dest_network and conv.dest_node:", "if conv is not None and conv.dest_network == network and conv.dest_node == node:")]),
    ("C10", "row repeated wrong", [(N, "return np.tile(self.value, self.nb_scn)", "return np.repeat(self.value, self.nb_scn)")]),
    ("C10", "numpy bool accepted", [(N, "if type(value) in [float, int, complex]:", "if isinstance(value, (float, int, complex, str)):")]),
    ("C10", "horizon check first", [(N, "            if value.shape == (self.horizon,):", "            if value.shape[-1:] == (self.horizon,) and value.size == self.horizon:\n                value = value.reshape(self.horizon)\n            if value.shape == (self.horizon,):")]),
    ("C09", "any instead of all", [(N, "    def __ge__(self, other) -> bool:\n        return np.all(self.value >= other)", "    def __ge__(self, other) -> bool:\n        return np.any(self.value >= other)")]),
    ("C09", "mean comparison", [(N, "    def __le__(self, other) -> bool:\n        return np.all(self.value <= other)", "    def __le__(self, other) -> bool:\n        return np.mean(self.value) <= other")]),
    ("C11", "version replaced", [(I, "horizon=dict[\"horizon\"], nb_scn=dict[\"nb_scn\"], version=dict[\"version\"]", "horizon=dict[\"horizon\"], nb_scn=dict[\"nb_scn\"]")]),
    ("C11", "empty nodes dropped", [(I, "            for k, v in dict[\"nodes\"].items()\n        }\n        return InputNetwork(**dict)", "            for k, v in dict[\"nodes\"].items()\n            if any(v.values())\n        }\n        return InputNetwork(**dict)")]),
    ("C11", "split at first only", [(I, "            tuple(k.split(\"::\")): factory.create(v)\n            for k, v in dict[\"src_ratios\"].items()", "            tuple(k.split(\"::\")[::-1]) if k.count(\"::\") > 1 else tuple(k.split(\":\")[::2]): factory.create(v)\n            for k, v in dict[\"src_ratios\"].items()")]),
    ("C12", "benchmark dropped", [(U, "            benchmark=Benchmark.from_json(dict[\"benchmark\"]),", "            benchmark=Benchmark.from_json(dict[\"benchmark\"]) if dict[\"converters\"] else None,")]),
    ("C12", "empty storage swapped", [(U, "dict[\"links\"] = [OutputLink.from_json(v) for v in dict[\"links\"]]", "dict[\"links\"] = sorted((OutputLink.from_json(v) for v in dict[\"links\"]), key=lambda l: l.dest)")]),
    ("C12", "rounded export r", [(X, "            return value.tolist()", "            return value.round(6).tolist()")]),
    ("C11", "np rounded", [(X, "            return value.tolist()", "            return np.round(value, 3).tolist()")]),
    ("C13", "benchmark lists shared", [(X, "        elif isinstance(value, list) or isinstance(value, tuple):\n            return [JSON.convert(v) for v in value]", "        elif isinstance(value, list) or isinstance(value, tuple):\n            if not any(isinstance(v, JSON) for v in value):\n                return value\n            return [JSON.convert(v) for v in value]")]),
    ("C15", "error status returned as result", [(R, "    if resp[\"status\"] == \"ERROR\":", "    if resp[\"status\"] == \"ERROR\" and \"result\" not in resp:")]),
    ("C15", "terminated only", [(R, "    while resp[\"status\"] in [\"QUEUED\", \"COMPUTING\"]:", "    while \"result\" not in resp and resp[\"status\"] in [\"QUEUED\", \"COMPUTING\"]:")]),
    ("C15", "retry on 5xx", [(R, "    if code >= 400:", "    if 400 <= code < 500 or code > 503:")]),
    # analyzer
    ("C16", "avail of result", [(A, "link.loc[slices, \"avail\"] = sl.quantity.flatten()", "link.loc[slices, \"avail\"] = sl.quantity.flatten() * (sl.cost.flatten() >= 0)")]),
    ("C16", "ratio of first source", [(A, "v.src_ratios[(net, node)].flatten()", "list(v.src_ratios.values())[0].flatten()")]),
    ("C16", "max of filtered", [(A, "                src_conv.loc[slices, \"max\"] = v.max.flatten()\n", "                src_conv.loc[src_conv[\"node\"] == node, \"max\"] = v.max.flatten()[0]\n")]),
    ("C16", "short names", [(A, "                    cons.loc[slices, \"name\"] = rc.name\n", "                    cons.loc[slices, \"name\"] = rc.name[:8]\n")]),
    ("C16", "rounded given", [(A, "cons.loc[slices, \"given\"] = rc.quantity.flatten()", "cons.loc[slices, \"given\"] = rc.quantity.flatten().round(2)")]),
    ("C16", "clipped capacity", [(A, "stor.loc[slices, \"capacity\"] = c.capacity.flatten()", "stor.loc[slices, \"capacity\"] = np.minimum(c.capacity.flatten(), 100)")]),
    ("C17", "mask any", [(A, "reduce(lambda a, b: a & b, (i.filter(df) for i in indexes))", "reduce(lambda a, b: a & b, (i.filter(df) for i in indexes[:4]))")]),
    ("C17", "zero selection is everything", [(A, "        if index is None:\n            self.all = True", "        if not index and not isinstance(index, list):\n            self.all = True")]),
    ("C17", "sum instead of mean", [(A, "pt = pd.pivot_table(data=df[mask], index=names)", "pt = pd.pivot_table(data=df[mask][df[mask].iloc[:, 0] > 0], index=names)")]),
    ("C17", "dest of link as node", [(A, "Index.__init__(self, column=\"dest\", index=index)", "Index.__init__(self, column=\"node\", index=index)")]),
    ("C17", "network order", [(A, "        names = [i.column for i in indexes]\n", "        names = [i.column for i in sorted(indexes, key=lambda i: isinstance(i, ScnIndex))]\n")]),
    ("C19", "converter intake charged", [(A, "        c, p, s, l, _, v = self.get_elements_inside(node, network)", "        c, p, s, l, v, _ = self.get_elements_inside(node, network)")]),
    ("C19", "storage flow charged", [(A, "(stor[\"capacity\"] * stor[\"cost\"])", "((stor[\"flow_in\"] - stor[\"flow_out\"]) * stor[\"cost\"])")]),
    ("C19", "unsorted steps", [(A, "                (link[\"used\"] * link[\"cost\"])\n                .groupby(axis=0, level=(\"scn\", \"t\"))\n                .sum()\n                .sort_index(level=(0, 1))", "                (link[\"used\"] * link[\"cost\"])\n                .groupby(axis=0, level=(\"t\", \"scn\"))\n                .sum()")]),
    ("C20", "import of all nodes", [(A, "        mask = (self.link[\"dest\"] == node) & (self.link[\"network\"] == network)\n", "        mask = (self.link[\"dest\"] == node) | (self.link[\"network\"] != network)\n")]),
    ("C20", "balance without scenario order", [(A, "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)", "            balance += exp[\"used\"].values.reshape(self.horizon, self.nb_scn).T")]),
    ("C20", "rac clipped", [(A, "return (prod_avail - prod_used) - (cons_asked - cons_given)", "return np.maximum(prod_avail - prod_used, 0) - (cons_asked - cons_given)")]),
    ("C20", "converter fed once per source", [(A, "                    (network, node) in conv.src_ratios\n                    for conv", "                    node in [n for _, n in conv.src_ratios]\n                    for conv")]),
    # workflow
    ("C21", "prefix names", [(P, "        return all(i in names for i in self.inputs)", "        return all(any(i in n for n in names) for i in self.inputs)")]),
    ("C21", "count instead of names", [(P, "        return all(i in names for i in self.inputs)", "        return len(set(names) & set(self.inputs)) == len(self.inputs) or len(names) > 3")]),
    ("C22", "stages sorted", [(P, "        for stage in self.stages:\n            timeline = stage(timeline.copy())", "        for stage in sorted(self.stages, key=lambda s: isinstance(s.plug, FreePlug)):\n            timeline = stage(timeline.copy())")]),
    ("C22", "plug inputs shared", [(P, "        inputs = [] if inputs is None else inputs\n", "        inputs = [] if inputs is None else inputs\n        inputs.sort()\n")]),
    ("C22", "duplicate stage skipped", [(P, "        return Pipeline(stages=self.stages + [other])", "        return Pipeline(stages=self.stages + [other] if other not in self.stages else self.stages)")]),
    ("C23", "clip zero ignored", [(P, "return timeline.clip(lower=self.lower, upper=self.upper)", "return timeline.clip(lower=self.lower or None, upper=self.upper or None)")]),
    ("C23", "rename chain", [(P, "        return self.rename[name] if name in self.rename else name", "        while name in self.rename and self.rename[name] != name:\n            name = self.rename[name]\n        return name")]),
    ("C23", "rename falsy", [(P, "        return self.rename[name] if name in self.rename else name", "        return self.rename.get(name) or name")]),
    ("C23", "drop ignores", [(P, "return timeline.drop(self.names, axis=1, level=1)", "return timeline.drop(self.names[:1], axis=1, level=1)")]),
    ("C23", "fault clipped at end", [(P, "            loss_qt[begin : (begin + duration)] += self.loss", "            if begin + duration <= horizon:\n                loss_qt[begin : (begin + duration)] += self.loss")]),
    ("C23", "fault wraps", [(P, "            loss_qt[begin : (begin + duration)] += self.loss", "            for d in range(duration):\n                loss_qt[(begin + d) % horizon] += self.loss")]),
    ("C23", "fault not below zero", [(P, "        scenario[\"quantity\"] -= loss_qt\n", "        scenario[\"quantity\"] = (scenario[\"quantity\"] - loss_qt).clip(lower=0)\n")]),
    ("C24", "sorted draws", [(S, "        return self.data[sampling]", "        return self.data[np.sort(sampling)]")]),
    ("C24", "unique draws", [(S, "        return self.data[sampling]", "        return np.array([self.data[i] for i in sorted(set(sampling))])")]),
    ("C26", "pool left on error", [(S, "        with multiprocessing.Pool() as pool:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n", "        pool = multiprocessing.Pool()\n        res = pool.map(\n            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n        )\n        pool.close()\n        pool.join()\n")]),
    ("C27", "init capacity clipped", [(I, "                init_capacity=init_capacity,\n                eff=eff,\n            ),", "                init_capacity=init_capacity or capacity,\n                eff=eff,\n            ),")]),
    ("C27", "converter dest swapped for default", [(I, "        self.converters[name].dest_network = network\n", "        self.converters[name].dest_network = network or \"default\"\n        self.converters[name].src_ratios.pop((network, node), None)\n")]),
    ("C27", "nb_scn from first series", [(I, "        self.nb_scn = nb_scn\n", "        self.nb_scn = nb_scn or 1\n        self.horizon = max(horizon, 1)\n")]),
    ("C18", "link keeps the node", [(I, "        return NetworkFluentAPISelector(self.study, self.selector)\n\n    def network", "        self.selector.pop(\"node\", None)\n        return NetworkFluentAPISelector(self.study, self.selector)\n\n    def network")]),
    # html
    ("C31", "median gaussian", [(H, "red = qt[rac < 0]", "red = qt[rac < -1]")]),
    ("C31", "stack skips zeros", [(H, "        for i, (name, data) in enumerate(areas):\n            stack += data", "        for i, (name, data) in enumerate(areas):\n            if not data.any():\n                continue\n            stack += data")]),
    ("C31", "monotone abs", [(H, "        y.sort()\n        y = y[::-1]", "        y = np.array(sorted(y, key=abs))[::-1]")]),
    ("C31", "linspace without end", [(H, "x = np.linspace(0, 100, y.size)", "x = np.linspace(0, 100, y.size, endpoint=False)")]),
    ("C31", "candles swapped when falling", [(H, "                open=open,\n                high=open,", "                open=np.minimum(open, close),\n                high=open,")]),
    ("C31", "arrow by sign", [(H, "self._plot_links(fig, src, dest, color, qt, size)", "self._plot_links(fig, *sorted((src, dest)), color, qt, size)")]),
]
