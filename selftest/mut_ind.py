R = "hadar/analyzer/result.py"
CASES = [
    ("C20", "src dest swapped", [(R, "(network, node) in conv.src_ratios\n", "(network, node) == (conv.dest_network, conv.dest_node)\n")]),
    ("C20", "dest ignores network", [(R, "(network == conv.dest_network) and (node == conv.dest_node)", "node == conv.dest_node")]),
    ("C20", "src any node", [(R, "(network, node) in conv.src_ratios\n", "node in [n for _, n in conv.src_ratios]\n")]),
    ("C20", "src first only", [(R, "(network, node) in conv.src_ratios\n", "(network, node) == list(conv.src_ratios)[0]\n")]),
    ("C20", "study first network", [(R, "                size += self.get_elements_inside(network=network)\n            return size", "                size += self.get_elements_inside(network=network)\n                return size\n            return size")]),
    ("C20", "study last network", [(R, "                size += self.get_elements_inside(network=network)\n", "                size = self.get_elements_inside(network=network)\n")]),
    ("C20", "network last node", [(R, "                size += self.get_elements_inside(network=network, node=node)\n", "                size = self.get_elements_inside(network=network, node=node)\n")]),
    ("C20", "network of result default", [(R, "                size += self.get_elements_inside(network=network, node=node)\n", "                size += self.get_elements_inside(node=node)\n")]),
    ("C20", "stor count links", [(R, "                len(n.storages),\n                len(n.links),\n", "                len(n.links),\n                len(n.storages),\n")]),
    ("C20", "max size", [(R, "                size += self.get_elements_inside(network=network, node=node)\n", "                size = np.maximum(size, self.get_elements_inside(network=network, node=node))\n")]),
    ("C20", "default ignored", [(R, '''        if node and network is None:
            network = "default"
''', '''        if node and network is None:
            network = list(self.study.networks.keys())[0]
''')]),
    ("C20", "balance ignores net import", [(R, 'mask = (self.link["dest"] == node) & (self.link["network"] == network)', 'mask = self.link["dest"] == node')]),
    ("C20", "balance ignores net export", [(R, 'mask = (self.link["node"] == node) & (self.link["network"] == network)', 'mask = self.link["node"] == node')]),
    ("C20", "balance sign", [(R, 'balance += -im["used"]', 'balance += im["used"]')]),
    ("C20", "balance mean", [(R, '''            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if im''', '''            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.mean
        )
        if im''')]),
    ("C20", "balance default agg", [(R, '''            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if exp''', '''            self.link[mask][["used", "scn", "t"]], index=["scn", "t"]
        )
        if exp''')]),
    ("C20", "balance avail", [(R, '''            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if exp.size > 0:
            balance += exp["used"]''', '''            self.link[mask][["avail", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if exp.size > 0:
            balance += exp["avail"]''')]),
    ("C20", "balance index swap", [(R, '''            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if exp''', '''            self.link[mask][["used", "scn", "t"]], index=["t", "scn"], aggfunc=np.sum
        )
        if exp''')]),
    ("C20", "balance export overwrites", [(R, 'balance += exp["used"].values', 'balance = exp["used"].values')]),
    ("C20", "balance reshape swap", [(R, 'balance += -im["used"].values.reshape(self.nb_scn, self.horizon)', 'balance += -im["used"].values.reshape(self.horizon, self.nb_scn).T')]),
    ("C20", "balance elif", [(R, "        if exp.size > 0:\n", "        if exp.size > 0 and im.size > 0:\n")]),
    ("C20", "rac sign", [(R, "(prod_avail - prod_used) - (cons_asked - cons_given)", "(prod_avail - prod_used) + (cons_asked - cons_given)")]),
    ("C20", "rac no lost load", [(R, "(prod_avail - prod_used) - (cons_asked - cons_given)", "prod_avail - prod_used")]),
    ("C20", "rac all networks", [(R, '''            self.consumption[self.consumption["network"] == network]
            .drop(["given", "cost"], axis=1)''', '''            self.consumption
            .drop(["given", "cost"], axis=1)''')]),
    ("C20", "rac drop swap", [(R, '.drop(["used", "cost"], axis=1)', '.drop(["avail", "cost"], axis=1)')]),
    ("C20", "rac default net", [(R, '''            self.production[self.production["network"] == network]
            .drop(["avail", "cost"], axis=1)''', '''            self.production[self.production["network"] == "default"]
            .drop(["avail", "cost"], axis=1)''')]),
    ("C20", "rac mean", [(R, '''            .drop(["avail", "cost"], axis=1)
            .pivot_table(index="scn", columns="t", aggfunc=np.sum)''', '''            .drop(["avail", "cost"], axis=1)
            .pivot_table(index="scn", columns="t")''')]),
    ("C20", "rac transposed", [(R, '''            .drop(["avail", "cost"], axis=1)
            .pivot_table(index="scn", columns="t", aggfunc=np.sum)
            .values''', '''            .drop(["avail", "cost"], axis=1)
            .pivot_table(index="t", columns="scn", aggfunc=np.sum)
            .values.reshape(self.nb_scn, self.horizon)''')]),
    ("C20", "rac keeps cost", [(R, '.drop(["used", "cost"], axis=1)', '.drop(["used", "avail"], axis=1)')]),
    ("C20", "rac no zero fill", [(R, "        cons_given = fill_width_zeros(cons_given)\n", "")]),
    ("C20", "rac clipped", [(R, "return (prod_avail - prod_used) - (cons_asked - cons_given)", "return np.maximum((prod_avail - prod_used) - (cons_asked - cons_given), 0)")]),
    ("C19", "cost without network name", [(R, '        network = "default" if node and network is None else network\n', "")]),
    ("C19", "cost default always", [(R, '        network = "default" if node and network is None else network\n', '        network = "default" if network is None else network\n')]),
    ("C19", "cost given", [(R, '((cons["asked"] - cons["given"]) * cons["cost"])', '(cons["given"] * cons["cost"])')]),
    ("C19", "cost sign", [(R, '((cons["asked"] - cons["given"]) * cons["cost"])', '((cons["given"] - cons["asked"]) * cons["cost"])')]),
    ("C19", "prod avail", [(R, '(prod["used"] * prod["cost"])', '(prod["avail"] * prod["cost"])')]),
    ("C19", "stor flow", [(R, '(stor["capacity"] * stor["cost"])', '(stor["flow_in"] * stor["cost"])')]),
    ("C19", "stor max", [(R, '(stor["capacity"] * stor["cost"])', '(stor["max_capacity"] * stor["cost"])')]),
    ("C19", "conv src", [(R, "conv = self.network(network).node(node).scn().time().from_converter()", "conv = self.network(network).node(node).scn().time().to_converter()"), (R, '(conv["flow"] * conv["cost"])', '(conv["flow"] * conv["max"])')]),
    ("C19", "conv count src", [(R, "c, p, s, l, _, v = self.get_elements_inside(node, network)", "c, p, s, l, v, _ = self.get_elements_inside(node, network)")]),
    ("C19", "swap counts", [(R, "c, p, s, l, _, v = self.get_elements_inside(node, network)", "c, p, l, s, _, v = self.get_elements_inside(node, network)")]),
    ("C19", "elif link", [(R, "        if l:\n            link = self", "        if l and p:\n            link = self")]),
    ("C19", "first scn", [(R, "prod = self.network(network).node(node).scn().time().production()", "prod = self.network(network).node(node).scn(0).time().production()")]),
    ("C19", "link of network", [(R, "link = self.network(network).node(node).scn().time().link()", "link = self.network(network).node().scn().time().link()")]),
    ("C19", "time then scn", [(R, '''                (link["used"] * link["cost"])
                .groupby(axis=0, level=("scn", "t"))''', '''                (link["used"] * link["cost"])
                .groupby(axis=0, level=("t", "scn"))''')]),
    ("C19", "mean", [(R, '''                (link["used"] * link["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()''', '''                (link["used"] * link["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .mean()''')]),
    ("C19", "sort t", [(R, '''                (stor["capacity"] * stor["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))''', '''                (stor["capacity"] * stor["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(1, 0))''')]),
    ("C19", "assigns", [(R, '''            cost += (
                (prod["used"]''', '''            cost = (
                (prod["used"]''')]),
    ("C19", "clip lost load", [(R, '((cons["asked"] - cons["given"]) * cons["cost"])', '((cons["asked"] - cons["given"]).clip(0, 1000) * cons["cost"])')]),
    ("C19", "sums then cost", [(R, '(prod["used"] * prod["cost"])', '(prod["used"] * prod["cost"].mean())')]),
    ("C19", "conv only study", [(R, "        if v:\n            conv", "        if v and node:\n            conv")]),
]
