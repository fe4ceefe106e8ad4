R = "hadar/analyzer/result.py"
GRP = '''                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )
'''
RAC = open("/repo/" + R).read()
def block(a, b):
    i = RAC.index(a)
    return RAC[i:RAC.index(b, i)]
RACB = block("        def fill_width_zeros", "    @property\n    def horizon")
BALB = block("        balance = np.zeros((self.nb_scn", "    def get_cost")
COSTB = block("        cost = np.zeros((self.nb_scn, self.horizon))", "    def get_rac")
ELB = block("        size = np.zeros(6)", "    def get_balance")
CASES = [
    ("C20", "rac helper", [(R, RACB, '''        def total(df, column):
            df = df[df["network"] == network]
            if df.empty:
                return np.zeros((self.nb_scn, self.horizon))
            return df.groupby(["scn", "t"])[column].sum().values.reshape(
                self.nb_scn, self.horizon
            )

        spare = total(self.production, "avail") - total(self.production, "used")
        lost = total(self.consumption, "asked") - total(self.consumption, "given")
        return spare - lost

''')]),
    ("C20", "rac pivot values", [(R, RACB, '''        def pivot(df, value):
            arr = (
                df[df["network"] == network]
                .pivot_table(values=value, index="scn", columns="t", aggfunc="sum")
                .values
            )
            return arr if arr.size else np.zeros((self.nb_scn, self.horizon))

        rac = pivot(self.production, "avail")
        rac = rac - pivot(self.production, "used")
        rac = rac - pivot(self.consumption, "asked") + pivot(self.consumption, "given")
        return rac

''')]),
    ("C20", "rac reorder", [(R, "return (prod_avail - prod_used) - (cons_asked - cons_given)", "return prod_avail + cons_given - prod_used - cons_asked")]),
    ("C20", "rac unstack", [(R, RACB, '''        def spread(df, left, right):
            sub = df.loc[df["network"] == network]
            if len(sub) == 0:
                return np.zeros((self.nb_scn, self.horizon))
            return (sub[left] - sub[right]).groupby([sub["scn"], sub["t"]]).sum().unstack().values

        return spread(self.production, "avail", "used") - spread(self.consumption, "asked", "given")

''')]),
    ("C20", "balance helper", [(R, BALB, '''        def flows(column):
            mask = (self.link[column] == node) & (self.link["network"] == network)
            flow = pd.pivot_table(
                self.link[mask][["used", "scn", "t"]],
                index=["scn", "t"],
                aggfunc=np.sum,
            )
            if flow.size == 0:
                return np.zeros((self.nb_scn, self.horizon))
            return flow["used"].values.reshape(self.nb_scn, self.horizon)

        return flows("node") - flows("dest")

''')]),
    ("C20", "balance groupby", [(R, BALB, '''        links = self.link[self.link["network"] == network]
        shape = (self.nb_scn, self.study.horizon)
        balance = np.zeros(shape)
        for column, sign in (("node", 1), ("dest", -1)):
            used = links[links[column] == node].groupby(["scn", "t"])["used"].sum()
            if len(used) > 0:
                balance += sign * used.values.reshape(shape)
        return balance

''')]),
    ("C20", "balance numpy", [(R, BALB, '''        balance = np.zeros((self.nb_scn, self.horizon))
        nodes = self.study.networks[network].nodes
        for name, n in self.result.networks[network].nodes.items():
            for link in n.links:
                if name == node:
                    balance += link.quantity
                if link.dest == node:
                    balance -= link.quantity
        return balance

''')]),
    ("C20", "balance order", [(R, BALB, '''        shape = self.nb_scn, self.horizon
        balance = np.zeros(shape)
        on_network = self.link["network"] == network
        exp = self.link[on_network & (self.link["node"] == node)]
        if not exp.empty:
            balance = balance + pd.pivot_table(exp[["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum)["used"].values.reshape(shape)
        im = self.link[on_network & (self.link["dest"] == node)]
        if not im.empty:
            balance = balance - pd.pivot_table(im[["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum)["used"].values.reshape(shape)
        return balance

''')]),
    ("C20", "elements iter", [(R, ELB, '''        if node is None:
            names = [network] if network else list(self.study.networks)
            size = np.zeros(6)
            for net in names:
                for n in self.study.networks[net].nodes:
                    size = size + self.get_elements_inside(n, net)
            return size

        if network is None:
            network = "default"

        n = self.study.networks[network].nodes[node]
        converters = self.study.converters.values()
        fed = len([c for c in converters if (network, node) in c.src_ratios])
        received = len([c for c in converters if (c.dest_network, c.dest_node) == (network, node)])
        return np.array(
            [len(n.consumptions), len(n.productions), len(n.storages), len(n.links), fed, received]
        )

''')]),
    ("C20", "elements sum", [(R, '''            for network in self.study.networks.keys():
                size += self.get_elements_inside(network=network)
            return size
''', '''            return sum((self.get_elements_inside(network=n) for n in self.study.networks), size)
''')]),
    ("C20", "elements values", [(R, '''            for node in self.study.networks[network].nodes.keys():
                size += self.get_elements_inside(network=network, node=node)
            return size
''', '''            for name, _ in self.study.networks[network].nodes.items():
                size = size + self.get_elements_inside(node=name, network=network)
            return size
''')]),
    ("C20", "elements src count", [(R, '''                sum(
                    (network, node) in conv.src_ratios
                    for conv in self.study.converters.values()
                ),
''', '''                sum(
                    1
                    for conv in self.study.converters.values()
                    if (network, node) in conv.src_ratios.keys()
                ),
''')]),
    ("C19", "cost helper", [(R, COSTB, '''        cost = np.zeros((self.nb_scn, self.horizon))
        c, p, s, l, _, v = self.get_elements_inside(node, network)
        if node and network is None:
            network = "default"

        def query():
            return self.network(network).node(node).scn().time()

        def matrix(series):
            return (
                series.groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )

        if c:
            cons = query().consumption()
            cost += matrix((cons["asked"] - cons["given"]) * cons["cost"])
        if p:
            prod = query().production()
            cost += matrix(prod["used"] * prod["cost"])
        if s:
            stor = query().storage()
            cost += matrix(stor["capacity"] * stor["cost"])
        if l:
            link = query().link()
            cost += matrix(link["used"] * link["cost"])
        if v:
            conv = query().from_converter()
            cost += matrix(conv["flow"] * conv["cost"])
        return cost

''')]),
    ("C19", "cost no sort", [(R, '''                (prod["used"] * prod["cost"])
''' + GRP, '''                (prod["used"] * prod["cost"])
                .groupby(level=["scn", "t"])
                .sum()
                .values.reshape(self.nb_scn, self.horizon)
            )
''')]),
    ("C19", "cost unstack", [(R, '''                (prod["used"] * prod["cost"])
''' + GRP, '''                (prod["used"] * prod["cost"])
                .groupby(level=["scn", "t"])
                .sum()
                .unstack()
                .values
            )
''')]),
    ("C19", "cost list", [(R, COSTB, '''        cost = np.zeros((self.nb_scn, self.horizon))
        sizes = self.get_elements_inside(node, network)
        network = "default" if node and network is None else network
        terms = [
            (sizes[0], "consumption", lambda d: (d["asked"] - d["given"]) * d["cost"]),
            (sizes[1], "production", lambda d: d["used"] * d["cost"]),
            (sizes[2], "storage", lambda d: d["capacity"] * d["cost"]),
            (sizes[3], "link", lambda d: d["used"] * d["cost"]),
            (sizes[5], "from_converter", lambda d: d["flow"] * d["cost"]),
        ]
        for size, kind, term in terms:
            if not size:
                continue
            df = getattr(self.network(network).node(node).scn().time(), kind)()
            cost += (
                term(df)
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )
        return cost

''')]),
    ("C19", "cost eval tables", [(R, COSTB, '''        if node and network is None:
            network = "default"
        cost = np.zeros((self.nb_scn, self.horizon))
        terms = (
            (self.consumption, lambda d: (d["asked"] - d["given"]) * d["cost"]),
            (self.production, lambda d: d["used"] * d["cost"]),
            (self.storage, lambda d: d["capacity"] * d["cost"]),
            (self.link, lambda d: d["used"] * d["cost"]),
            (self.dest_converter, lambda d: d["flow"] * d["cost"]),
        )
        for df, term in terms:
            mask = df["t"].notnull()
            if network is not None:
                mask &= df["network"] == network
            if node is not None:
                mask &= df["node"] == node
            df = df[mask]
            if df.empty:
                continue
            values = df.assign(total=term(df)).groupby(["scn", "t"])["total"].sum()
            cost += values.values.reshape(self.nb_scn, self.horizon)
        return cost

''')]),
    ("C19", "cost from result", [(R, COSTB, '''        if node and network is None:
            network = "default"
        cost = np.zeros((self.nb_scn, self.horizon))
        for net_name, net in self.study.networks.items():
            if network is not None and net_name != network:
                continue
            for node_name, n in net.nodes.items():
                if node is not None and node_name != node:
                    continue
                r = self.result.networks[net_name].nodes[node_name]
                for i, c in enumerate(n.consumptions):
                    cost += (c.quantity.flatten().reshape(cost.shape) - r.consumptions[i].quantity) * c.cost.flatten().reshape(cost.shape)
                for i, p in enumerate(n.productions):
                    cost += r.productions[i].quantity * p.cost.flatten().reshape(cost.shape)
        return cost

''')]) if False else None,
    ("C19", "cost reorder", [(R, '''        if c:
            cons''', '''        network = "default" if node and network is None else network
        if c > 0:
            cons'''), (R, '''        network = "default" if node and network is None else network
        if c:''', '''        if c:''')]) if False else None,
    ("C19", "cost gt zero", [(R, "        if c:\n            cons", "        if c > 0:\n            cons"), (R, "        if v:\n            conv", "        if v != 0:\n            conv")]),
    ("C19", "cost mul method", [(R, '(prod["used"] * prod["cost"])', 'prod["used"].mul(prod["cost"])')]),
]
CASES = [c for c in CASES if c]
