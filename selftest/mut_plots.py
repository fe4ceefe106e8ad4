V = "hadar/viewer/abc.py"
def nth(text, i, old, new):
    """replace the i-th occurrence of old in the file by giving enough context"""
    src = open("/repo/" + V).read()
    p = -1
    for _ in range(i + 1):
        p = src.index(old, p + 1)
    a = p
    while src.count(src[a:p + len(old)]) > 1:
        a -= 20
    return (V, src[a:p + len(old)], src[a:p] + new)
K = lambda i, old, new: [nth(V, i, old, new)]
CASES = [
    ("C25", "cons timeline kind", K(0, ".time()[self.kind]", '.time()["given"]')),
    ("C25", "link timeline kind", [(V, '''            .link(self.dest)
            .scn()
            .time()[self.kind]''', '''            .link(self.dest)
            .scn()
            .time()["used"]''')]),
    ("C25", "cons mono truthy t", K(0, "if t is not None:\n", "if t:\n")),
    ("C25", "prod gauss all nets rac", K(2, "rac = self.agg.get_rac(network=self.network)[scn, :]", "rac = self.agg.get_rac()[scn, :]")),
    ("C25", "cons gauss default rac", K(0, "rac = self.agg.get_rac(network=self.network)[scn, :]", "rac = self.agg.get_rac()[scn, :]")),
    ("C25", "gauss rac swapped", K(0, "rac = self.agg.get_rac(network=self.network)[:, t]", "rac = self.agg.get_rac(network=self.network)[t, :]")),
    ("C25", "gauss rac t0", K(1, "rac = self.agg.get_rac(network=self.network)[:, t]", "rac = self.agg.get_rac(network=self.network)[:, 0]")),
    ("C25", "link gauss node of dest", [(V, '''            prod = (
                self.agg.network(self.network)
                .node(self.src)
                .link(self.dest)
                .time(t)
                .scn()[self.kind]''', '''            prod = (
                self.agg.network(self.network)
                .node(self.dest)
                .link(self.src)
                .time(t)
                .scn()[self.kind]''')]),
    ("C25", "link default network", [(V, '''            network=self.network,
            src=self.node,''', '''            network="default",
            src=self.node,''')]),
    ("C25", "dest converter uses src", [(V, '''            .from_converter(self.name)
            .scn()
            .time()["flow"]''', '''            .to_converter(self.name)
            .scn()
            .time()["flow"]''')]),
    ("C25", "node from_converter class", [(V, "        return DestConverterFluentAPISelector(", "        return SrcConverterFluentAPISelector(")]),
    ("C25", "candles scn 0", [(V, '''            .storage(self.name)
            .scn(scn)
            .time()
        )
        df.sort_index(ascending=True, inplace=True)

        open''', '''            .storage(self.name)
            .scn(0)
            .time()
        )
        df.sort_index(ascending=True, inplace=True)

        open''')]),
    ("C25", "candles no eff", [(V, 'df["flow_in"] * df["eff"] - df["flow_out"]', 'df["flow_in"] - df["flow_out"]')]),
    ("C25", "candles eff on both", [(V, '(df["flow_in"] * df["eff"] - df["flow_out"])', '((df["flow_in"] - df["flow_out"]) * df["eff"])')]),
    ("C25", "candles close shift", [(V, "        close = open[1:]\n        open = open[:-1]", "        close = open[:-1]\n        open = open[1:]")]),
    ("C25", "candles descending", [(V, '''        df.sort_index(ascending=True, inplace=True)

        open''', '''        df.sort_index(ascending=False, inplace=True)

        open''')]),
    ("C25", "stor monotone sign", K(0, '(df["flow_in"] - df["flow_out"]).values', '(df["flow_in"] + df["flow_out"]).values')),
    ("C25", "stor monotone time", K(1, '''                .storage(self.name)
                .scn(scn)
                .time()''', '''                .storage(self.name)
                .scn()
                .time(scn)''')) if False else None,
    ("C25", "stack prod kind lost", [(V, "                value_col=prod_kind,\n", '                value_col="used",\n')]),
    ("C25", "stack cons kind lost", [(V, "                value_col=cons_kind,\n", '                value_col="asked",\n')]),
    ("C25", "stack scn lost", [(V, '''                query=self.agg.network(self.network)
                .scn(scn)
                .node(self.node)
                .consumption(),''', '''                query=self.agg.network(self.network)
                .scn(0)
                .node(self.node)
                .consumption(),''')]),
    ("C25", "stack balance default", [(V, "balance = self.agg.get_balance(node=self.node, network=self.network)[scn]", "balance = self.agg.get_balance(node=self.node)[scn]")]),
    ("C25", "stack balance scn 0", [(V, "balance = self.agg.get_balance(node=self.node, network=self.network)[scn]", "balance = self.agg.get_balance(node=self.node, network=self.network)[0]")]),
    ("C25", "stack unsorted time", [(V, "data.loc[i][value_col].sort_index().values", "data.loc[i][value_col].values")]),
    ("C25", "stack conv guard", [(V, "            if vi > 0\n", "            if ve > 0\n")]),
    ("C25", "stack import needs export", [(V, "        if not (im == 0).all():\n", "        if (im > 0).all():\n")]),
    ("C25", "stack import sign", [(V, "        im = -np.clip(balance, None, 0)\n", "        im = np.clip(balance, None, 0)\n")]),
    ("C25", "stack flows swapped", [(V, 'value_col="flow_out"', 'value_col="flow_in"')]),
    ("C25", "stack first name", [(V, 'ids = data.index.get_level_values(id_col).unique()', 'ids = data.index.get_level_values(id_col).unique()[:1]')]),
    ("C25", "stack export all", [(V, "        if not (exp == 0).all():\n", "        if not (exp == 0).any():\n")]),
    ("C25", "stack inside", [(V, "            node=self.node, network=self.network\n        )\n        areas", "            node=self.node\n        )\n        areas")]),
    ("C25", "rac matrix default", [(V, "rac = self.agg.get_rac(self.network)\n", "rac = self.agg.get_rac()\n")]),
    ("C25", "rac matrix clipped", [(V, "return self.plotting.matrix(data=rac, title=title)", "return self.plotting.matrix(data=rac >= 0, title=title)")]),
    ("C25", "map scn t swap", [(V, "network=self.network)[scn, t]", "network=self.network)[t, scn]")]),
    ("C25", "map links scn", [(V, "links = self.agg.network(self.network).scn(scn).time(t).node().link()", "links = self.agg.network(self.network).scn(0).time(t).node().link()")]),
    ("C25", "map backward ignored", [(V, '''links.loc[dest, src]["used"] if (dest, src) in links.index else 0''', '''links.loc[dest, src]["used"] if (src, dest) not in links.index else 0''')]),
    ("C25", "map negative dir", [(V, "                    lines[(dest, src)] = -exchange", "                    lines[(src, dest)] = -exchange")]),
    ("C25", "map limit", [(V, "limit = max(max(nodes.values()), -min(nodes.values()))", "limit = max(nodes.values())")]),
    ("C25", "map limit zero", [(V, "        if limit is None:\n", "        if not limit or limit < 10:\n")]),
    ("C25", "map avail", [(V, 'exchange = links.loc[src, dest]["used"]', 'exchange = links.loc[src, dest]["avail"]')]),
    ("C25", "map default nodes", [(V, "for node in self.agg.nodes(self.network)", "for node in self.agg.nodes()")]),
    ("C25", "network entry default", [(V, "plotting=self.plotting, agg=self.agg, network=network\n", 'plotting=self.plotting, agg=self.agg, network="default"\n')]),
    ("C25", "prod default kind", [(V, 'def production(self, name: str, kind: str = "used")', 'def production(self, name: str, kind: str = "avail")')]),
    ("C25", "cons all names", K(1, '''                .consumption(self.name)
                .scn(scn)''', '''                .consumption()
                .scn(scn)''')),
    ("C25", "conv gauss ratio", [(V, '''                .to_converter(self.name)
                .time(t)
                .scn()["flow"]
                .values
            )
            rac''', '''                .to_converter(self.name)
                .time(t)
                .scn()["max"]
                .values
            )
            rac''')]),
    ("C25", "gaussian args swapped", K(0, "return self.plotting.gaussian(rac=rac, qt=cons, title=title)", "return self.plotting.gaussian(cons, rac, title)")),
    ("C25", "gaussian sorted", K(0, "return self.plotting.gaussian(rac=rac, qt=cons, title=title)", "return self.plotting.gaussian(rac=rac, qt=np.sort(cons), title=title)")),
]
CASES = [c for c in CASES if c]
