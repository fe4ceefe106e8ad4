V = "hadar/viewer/abc.py"
S = open("/repo/" + V).read()
def block(a, b, n=0):
    i = -1
    for _ in range(n + 1):
        i = S.index(a, i + 1)
    return S[i:S.index(b, i)]
CONS_MONO = block("        if t is not None:\n            y = (\n", "        return self.plotting.monotone(y, title)")
CONS_GAUSS = block("        if t is None:\n            cons = (", "        return self.plotting.gaussian")
CANDLES = block('        open = np.append(\n', '        title = "Stockage')
MAPL = block("        lines = {}\n", '        title = "Exchange map')
STACK = block("        def extract(\n", '        title = "Stack for node')
CASES = [
    ("C25", "mono early", [(V, CONS_MONO, '''        query = self.agg.network(self.network).node(self.node).consumption(self.name)
        if t is not None:
            y = query.time(t).scn()[self.kind].values
            where = "t=%0d" % t
        elif scn is not None:
            y = query.scn(scn).time()[self.kind].values
            where = "scn=%0d" % scn
        title = "Monotone consumption of %s on node %s at %s" % (self.name, self.node, where)

''')]),
    ("C25", "gauss helper", [(V, CONS_GAUSS, '''        rac = self.agg.get_rac(network=self.network)
        query = self.agg.network(self.network).node(self.node).consumption(self.name)
        if scn is not None:
            rac = rac[scn]
            cons = query.scn(scn).time()
            where = "scn=%0d" % scn
        else:
            rac = rac[:, t]
            cons = query.time(t).scn()
            where = "t=%0d" % t
        cons = cons[self.kind].values
        title = "Gaussian consumption of %s on node %s at %s" % (self.name, self.node, where)

''')]),
    ("C25", "to_numpy", [(V, '''                .to_converter(self.name)
                .time(t)
                .scn()["flow"]
                .values
            )
            rac''', '''                .to_converter(self.name)
                .time(t)
                .scn()["flow"]
                .to_numpy()
            )
            rac''')]),
    ("C25", "candles cumsum", [(V, CANDLES, '''        delta = (df["flow_in"] * df["eff"] - df["flow_out"]).values.cumsum()
        init = df["init_capacity"].values[0]
        close = init + delta
        open = np.append(init, close[:-1])

''')]),
    ("C25", "candles concatenate", [(V, CANDLES, '''        start = df["init_capacity"].iloc[0]
        steps = (df["flow_in"] * df["eff"] - df["flow_out"]).values
        levels = np.cumsum(np.concatenate([[start], steps]))
        open, close = levels[:-1], levels[1:]

''')]),
    ("C25", "candles sort copy", [(V, '''        df.sort_index(ascending=True, inplace=True)

        open''', '''        df = df.sort_index()

        open''')]),
    ("C25", "candles loop", [(V, CANDLES, '''        levels = [df["init_capacity"].values[0]]
        for delta in (df["flow_in"] * df["eff"] - df["flow_out"]).values:
            levels.append(levels[-1] + delta)
        open = np.array(levels[:-1])
        close = np.array(levels[1:])

''')]),
    ("C25", "map lines items", [(V, MAPL, '''        links = self.agg.network(self.network).scn(scn).time(t).node().link()["used"]
        lines = {}
        for src, dest in links.index:
            exchange = links.loc[src, dest]
            if (dest, src) in links.index:
                exchange = exchange - links.loc[dest, src]
            if exchange < 0:
                lines[(dest, src)] = -exchange
            else:
                lines[(src, dest)] = exchange

''')]),
    ("C25", "map dict used", [(V, MAPL, '''        links = self.agg.network(self.network).scn(scn).time(t).node().link()
        used = links["used"].to_dict()
        lines = {}
        for (src, dest), forward in used.items():
            exchange = forward - used.get((dest, src), 0)
            if exchange >= 0:
                lines[(src, dest)] = exchange
            else:
                lines[(dest, src)] = -exchange

''')]),
    ("C25", "map limit abs", [(V, "limit = max(max(nodes.values()), -min(nodes.values()))", "limit = max(abs(v) for v in nodes.values())")]),
    ("C25", "map nodes loop", [(V, '''        nodes = {
            node: self.agg.get_balance(node=node, network=self.network)[scn, t]
            for node in self.agg.nodes(self.network)
        }
''', '''        nodes = {}
        for name in self.agg.nodes(self.network):
            balance = self.agg.get_balance(name, self.network)
            nodes[name] = balance[scn][t]
''')]),
    ("C25", "stack helper", [(V, STACK, '''        def extract(query, value_col, sort_col="cost"):
            data = query.time()
            if sort_col is not None:
                data = data.sort_values(sort_col, ascending=False)
            names = data.index.get_level_values("name").unique()
            out = []
            for name in names:
                out.append((name, data.loc[name][value_col].sort_index().values))
            return out

        def query():
            return self.agg.network(self.network).scn(scn).node(self.node)

        c, p, s, _, fed, received = self.agg.get_elements_inside(
            node=self.node, network=self.network
        )
        balance = self.agg.get_balance(node=self.node, network=self.network)[scn]

        areas, lines = [], []
        if p:
            areas.extend(extract(query().production(), prod_kind))
        if c:
            lines.extend(extract(query().consumption(), cons_kind))
        if s:
            areas.extend(extract(query().storage(), "flow_out"))
            lines.extend(extract(query().storage(), "flow_in"))
        if received:
            areas.extend(extract(query().from_converter(), "flow", None))
        if fed:
            lines.extend(extract(query().to_converter(), "flow", None))

        im = np.maximum(-balance, 0)
        if im.any():
            areas.append(("import", im))
        exp = np.maximum(balance, 0)
        if (exp != 0).any():
            lines.append(("export", exp))

''')]),
    ("C25", "stack where", [(V, "        im = -np.clip(balance, None, 0)\n", "        im = np.where(balance < 0, -balance, 0)\n"), (V, "        exp = np.clip(balance, 0, None)\n", "        exp = balance.clip(0, None)\n")]),
    ("C25", "stack xs", [(V, "            return [(i, data.loc[i][value_col].sort_index().values) for i in ids]", "            return [\n                (i, data.xs(i, level=id_col)[value_col].sort_index().values)\n                for i in ids\n            ]")]),
    ("C25", "stack groupby", [(V, "            return [(i, data.loc[i][value_col].sort_index().values) for i in ids]", "            data = data.sort_index()\n            return [(i, data.loc[i, value_col].values) for i in ids]")]),
    ("C25", "selector base", [(V, "        return ProductionFluentAPISelector(\n            plotting=self.plotting,\n            agg=self.agg,\n            network=self.network,\n            node=self.node,\n            name=name,\n            kind=kind,\n        )", "        return ProductionFluentAPISelector(\n            self.plotting, self.agg, self.network, name, self.node, kind\n        )")]),
    ("C25", "sort timeline", [(V, "        return self.plotting.timeline(cons, title)", "        return self.plotting.timeline(df=cons.sort_index(), title=title)")]),
    ("C25", "stor mono sub", [(V, '''            df.sort_index(ascending=True, inplace=True)
            y = (df["flow_in"] - df["flow_out"]).values
            title = "Monotone storage of %s on node %s at''', '''            df = df.sort_index()
            y = df["flow_in"].values - df["flow_out"].values
            title = "Monotone storage of %s on node %s at''')]),
]
