R = "hadar/analyzer/result.py"
M = "hadar/optimizer/lp/mapper.py"
O = "hadar/optimizer/lp/optimizer.py"
I = "hadar/optimizer/domain/input.py"
A = "hadar/viewer/abc.py"
RO = "hadar/optimizer/remote/optimizer.py"
OUT = "hadar/optimizer/domain/output.py"
CASES = [(p, n, [(f, a, b)]) for p, n, f, a, b in [
    # C14
    ("C14", "solve drops empty networks", O, "    out_mapper = out_mapper or OutputMapper(study)\n", "    for n in [n for n, net in study.networks.items() if not net.nodes]:\n        del study.networks[n]\n    out_mapper = out_mapper or OutputMapper(study)\n"),
    ("C14", "solve sorts links", O, "            for name_network, network in study.networks.items():\n                for name_node in network.nodes.keys():\n                    out_mapper", "            for name_network, network in study.networks.items():\n                for name_node in network.nodes.keys():\n                    network.nodes[name_node].productions.sort(key=lambda p: p.name)\n                    out_mapper"),
    ("C14", "solve pops converter", O, "            for name_conv in study.converters:\n                out_mapper", "            for name_conv in list(study.converters):\n                study.converters[name_conv].src_ratios.pop(None, None)\n                out_mapper"),
    ("C14", "solve sets horizon", O, "    start = time.time()\n    benchmark = Benchmark()", "    study.version = study.version or \"1\"\n    start = time.time()\n    benchmark = Benchmark()"),
    ("C14", "solve one scenario", O, "    compute_finished = time.time()\n    for scn in range(0, study.nb_scn):", "    compute_finished = time.time()\n    study.nb_scn = len(serialized_out)\n    for scn in range(0, study.nb_scn):"),
    ("C14", "like input appends", OUT, "        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n", "        input.links.sort(key=lambda l: l.dest)\n        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n"),
    ("C14", "like input reverse", OUT, "        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n", "        input.storages.reverse()\n        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n"),
    ("C14", "remote pops", RO, "", "") if False else ("C14", "table edits cost", R, "                    cons.loc[slices, \"cost\"] = sc.cost.flatten()\n", "                    sc.cost.value = sc.cost.flatten()\n                    cons.loc[slices, \"cost\"] = sc.cost.flatten()\n"),
    ("C14", "table renames result", R, "                    cons.loc[slices, \"name\"] = rc.name\n", "                    rc.name = rc.name.strip()\n                    cons.loc[slices, \"name\"] = rc.name\n"),
    ("C14", "table clips given", R, "                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n", "                    rc.quantity[rc.quantity < 0] = 0\n                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n"),
    ("C14", "table inplace result", R, "                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n", "                    given = rc.quantity\n                    given *= 1.0\n                    cons.loc[slices, \"given\"] = given.flatten()\n"),
    ("C14", "table ravel", R, "                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n", "                    np.clip(rc.quantity, 0, None, out=rc.quantity)\n                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n"),
    ("C14", "table default conv", R, "            dest_conv.loc[slices, \"name\"] = v.name\n", "            v.name = name\n            dest_conv.loc[slices, \"name\"] = v.name\n"),
    ("C14", "query sorts table", R, "        names = [i.column for i in indexes]\n        mask", "        df.sort_values([\"scn\", \"t\"], inplace=True)\n        names = [i.column for i in indexes]\n        mask"),
    ("C14", "query adds column", R, "        names = [i.column for i in indexes]\n        mask", "        df[\"kept\"] = True\n        names = [i.column for i in indexes]\n        mask"),
    ("C14", "query drops nan", R, "        names = [i.column for i in indexes]\n        mask", "        df.dropna(inplace=True)\n        names = [i.column for i in indexes]\n        mask"),
    ("C14", "query fillna", R, "        names = [i.column for i in indexes]\n        mask", "        df.loc[df[\"scn\"] < 0, \"scn\"] = 0\n        names = [i.column for i in indexes]\n        mask"),
    ("C14", "rac scales", R, "        prod_used = (\n            self.production[", "        self.production[\"used\"] = self.production[\"used\"].clip(lower=0)\n        prod_used = (\n            self.production["),
    ("C14", "rac view", R, "        prod_used = (\n            self.production[", "        used = self.production[\"used\"].values\n        used[used < 0] = 0\n        prod_used = (\n            self.production["),
    ("C14", "balance drop", R, "        mask = (self.link[\"dest\"] == node) & (self.link[\"network\"] == network)\n", "        self.link.reset_index(drop=True, inplace=True)\n        mask = (self.link[\"dest\"] == node) & (self.link[\"network\"] == network)\n"),
    ("C14", "elements default", R, "        n = self.study.networks[network].nodes[node]\n        return", "        n = self.study.networks[network].nodes.setdefault(node, None)\n        return"),
    ("C14", "nodes sorted", R, "        return list(self.result.networks[network].nodes.keys())", "        net = self.result.networks[network]\n        net.nodes = dict(sorted(net.nodes.items()))\n        return list(net.nodes.keys())"),
    ("C14", "plot sorts table", A, "            data = query.time()\n            if sort_col:\n", "            data = query.time()\n            self.agg.production.sort_values(\"cost\", inplace=True)\n            if sort_col:\n"),
    ("C14", "monotone from table", A, "        if t is not None:\n            y = (\n                self.agg.network(self.network)\n                .node(self.node)\n                .consumption(self.name)\n                .time(t)\n                .scn()[self.kind]\n                .values\n            )\n", "        if t is not None:\n            y = self.agg.consumption[self.kind].values\n"),
    ("C14", "map pops coord", "hadar/viewer/html.py", "        keys = nodes.keys()\n", "        keys = nodes.keys()\n        for n in [n for n in self.coord if n not in nodes]:\n            self.coord.pop(n)\n"),
    ("C14", "candles init", A, "storages", "storages") if False else ("C14", "like input rename", OUT, "        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n", "        for c in input.consumptions:\n            c.name = str(c.name)\n        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n"),
    # C18
    ("C18", "node selector shared", I, "        return NodeFluentAPISelector(self.study, {**self.selector, \"node\": name})\n", "        self.selector[\"node\"] = name\n        return NodeFluentAPISelector(self.study, self.selector)\n"),
    ("C18", "network selector shared", I, "        self.study.add_network(name)\n        return NetworkFluentAPISelector(selector={\"network\": name}, study=self.study)\n", "        self.study.add_network(name)\n        self.selector[\"network\"] = name\n        return NetworkFluentAPISelector(selector=self.selector, study=self.study)\n"),
    ("C18", "node returns self", I, "        return NetworkFluentAPISelector(selector={}, study=self.study).network(name)\n", "        self.study.add_network(name)\n        self.selector[\"network\"] = name\n        return NetworkFluentAPISelector(selector=self.selector, study=self.study)\n"),
    ("C18", "study keeps selector", I, "        self.add_network(name)\n        return NetworkFluentAPISelector(selector={\"network\": name}, study=self)\n", "        self.add_network(name)\n        self.selector = getattr(self, \"selector\", {})\n        self.selector[\"network\"] = name\n        return NetworkFluentAPISelector(selector=self.selector, study=self)\n"),
    ("C18", "query append in place", R, "        indexes = deepcopy(self.indexes) + [index]\n", "        indexes = self.indexes\n        indexes.append(index)\n"),
    ("C18", "query plus equal", R, "        indexes = deepcopy(self.indexes) + [index]\n", "        indexes = self.indexes\n        indexes += [index]\n"),
    ("C18", "query returns self", R, "            return NetworkFluentAPISelector(indexes, self.analyzer)", "            self.__init__(indexes, self.analyzer)\n            return self"),
    ("C18", "query consumes index", R, "            df = df.loc[indexes[0].index[0]].copy()\n            return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])", "            df = df.loc[indexes.pop(0).index[0]].copy()\n            return ResultAnalyzer._remove_useless_index_level(df, indexes)") if False else
    ("C18", "plot node on self", A, "        return NodeFluentAPISelector(\n            plotting=self.plotting, agg=self.agg, node=node, network=self.network\n        )", "        self.node_name = node\n        if not hasattr(self, \"level\"):\n            self.level = NodeFluentAPISelector(\n                plotting=self.plotting, agg=self.agg, node=node, network=self.network\n            )\n        self.level.node = node\n        return self.level"),
    ("C18", "plot monotone keeps t", A, "    def monotone(self, t: int = None, scn: int = None):\n        \"\"\"\n        Plot monotone graphics.\n\n        :param t: focus on t index\n        :param scn: focus on scn index if t not given\n        :return:\n        \"\"\"\n        FluentAPISelector.not_both(t, scn)\n", "    def monotone(self, t: int = None, scn: int = None):\n        \"\"\"\n        Plot monotone graphics.\n\n        :param t: focus on t index\n        :param scn: focus on scn index if t not given\n        :return:\n        \"\"\"\n        FluentAPISelector.not_both(t, scn)\n        self.name = self.name if t is None else \"load\" + str(t)\n"),
]]
