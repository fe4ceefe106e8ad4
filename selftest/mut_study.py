I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
CASES = [
    ("C09", "link quantity lt", [(I, "if not quantity >= 0:", "if quantity < 0:")]),
    ("C09", "prod lt", [(I, "if not prod.quantity >= 0:", "if prod.quantity < 0:")]),
    ("C09", "gt zero only (over)", [(I, "if not (store.eff >= 0 and store.eff <= 1):", "if not (store.eff >= 0 or store.eff <= 1):")]),
    ("C09", "flow or", [(I, "if not (store.flow_in >= 0 and store.flow_out >= 0):", "if not (store.flow_in >= 0 or store.flow_out >= 0):")]),
    ("C09", "init cap lost", [(I, "if not (store.capacity >= 0 and store.init_capacity >= 0):", "if not (store.capacity >= 0):")]),
    ("C09", "numpy ge any", [(N, "return np.all(self.value >= other)", "return np.any(self.value >= other)")]),
    ("C09", "numpy le any", [(N, "return np.all(self.value <= other)", "return np.any(self.value <= other)")]),
    ("C09", "numpy methods removed", [(N, "    def __le__(self, other) -> bool:\n        return np.all(self.value <= other)\n\n", "")]),
    ("C09", "ge removed", [(N, "    def __ge__(self, other) -> bool:\n        return np.all(self.value >= other)\n", "")]),
    ("C09", "dup link in src of dest", [(I, "if dest in [l.dest for l in self.networks[network].nodes[src].links]:", "if src in [l.dest for l in self.networks[network].nodes[dest].links]:")]),
    ("C09", "self loop", [(I, "        if src == dest:\n            raise ValueError(\"link source and destination must be different\")\n", "")]),
    ("C09", "dup cons among prods", [(I, "c.name for c in self.networks[network].nodes[node].consumptions", "c.name for c in self.networks[network].nodes[node].productions")]),
    ("C09", "conv dest check in sources", [(I, "if conv is not None and conv.dest_network and conv.dest_node:", "if conv is not None and conv.dest_network == network and conv.dest_node == node:")]),
    ("C09", "conv set before", [(I, "        cost = self.factory.create(cost)\n        max = self.factory.create(max)\n        self._add_converter(name=name)\n        self.converters[name].dest_network = network\n", "        self._add_converter(name=name)\n        self.converters[name].dest_network = network\n        cost = self.factory.create(cost)\n        max = self.factory.create(max)\n")]),
    ("C09", "conv src create late", [(I, "        ratio = self.factory.create(ratio)\n        self._add_converter(name=name)\n        self.converters[name].src_ratios[(network, node)] = ratio\n", "        self._add_converter(name=name)\n        self.converters[name].src_ratios[(network, node)] = self.factory.create(ratio)\n")]),
    ("C09", "cons cost after append", [(I, "        cons.cost = self.factory.create(cons.cost)\n        self.networks[network].nodes[node].consumptions.append(cons)\n", "        self.networks[network].nodes[node].consumptions.append(cons)\n        cons.cost = self.factory.create(cons.cost)\n")]),
    ("C09", "conv dest network lookup", [(I, "            network not in self.networks\n            or node not in self.networks[network].nodes.keys()", "            node not in self.networks[network].nodes.keys()")]),
    ("C09", "link dest any network", [(I, "if dest not in self.networks[network].nodes.keys():", "if not any(dest in n.nodes for n in self.networks.values()):")]),
    ("C09", "assertion", [(I, "            raise ValueError(\"Link quantity must be positive\")", "            raise TypeError(\"Link quantity must be positive\")")]),
    ("C09", "storage name case", [(I, "if store.name in [s.name for s in self.networks[network].nodes[node].storages]:", "if store.name in [s.name for s in self.networks[network].nodes[node].storages[1:]]:")]),
    ("C09", "eff gt", [(I, "store.eff <= 1)", "store.eff <= 100)")]),
    ("C09", "mean", [(N, "return np.all(self.value >= other)", "return np.mean(self.value) >= other")]),
    ("C09", "dup conv src name", [(I, "(network, node) in conv.src_ratios", "network in [n for n, _ in conv.src_ratios] and node in [x for n, x in conv.src_ratios] and len(conv.src_ratios) > 1")]),
    ("C27", "swap flows", [(I, "                flow_in=flow_in,\n                flow_out=flow_out,", "                flow_in=flow_out,\n                flow_out=flow_in,")]),
    ("C27", "swap in init", [(I, "        self.flow_in = flow_in\n        self.flow_out = flow_out\n", "        self.flow_in = flow_in\n        self.flow_out = flow_in\n")]),
    ("C27", "link reversed", [(I, "            src=src,\n            dest=dest,\n            cost=cost,", "            src=dest,\n            dest=src,\n            cost=cost,")]),
    ("C27", "eff default", [(I, "eff: NumericalValueType = 0.99,", "eff: NumericalValueType = 0.9,")]),
    ("C27", "cost default", [(I, "        max: NumericalValueType,\n        cost: NumericalValueType = 0,\n", "        max: NumericalValueType,\n        cost: NumericalValueType = 1,\n")]),
    ("C27", "ratio ignored", [(I, "            ratio=ratio,\n", "            ratio=1,\n")]),
    ("C27", "conv cost max", [(I, "        self.converters[name].cost = cost\n        self.converters[name].max = max", "        self.converters[name].cost = max\n        self.converters[name].max = cost")]),
    ("C27", "network reset", [(I, "        if network not in self.networks.keys():\n            self.networks[network] = InputNetwork()", "        if network not in self.networks.keys() or not self.networks[network].nodes:\n            self.networks[network] = InputNetwork()")]),
    ("C27", "node reset", [(I, "        if node not in self.networks[network].nodes.keys():\n            self.networks[network].nodes[node] = InputNode(", "        if not (node in self.networks[network].nodes.keys() and self.networks[network].nodes[node].links):\n            self.networks[network].nodes[node] = InputNode(")]),
    ("C27", "node link default network", [(I, "        return NetworkFluentAPISelector(self.study, self.selector).link(", "        return NetworkFluentAPISelector(self.study, {\"network\": \"default\"}).link(")]),
    ("C27", "node() drops network", [(I, "        return NetworkFluentAPISelector(self.study, self.selector).node(name)", "        return NetworkFluentAPISelector(self.study, {**self.selector, \"network\": \"default\"}).node(name)")]),
    ("C27", "add converter resets", [(I, "if name not in [v for v in self.converters]:", "if name not in [v for v, c in self.converters.items() if c.src_ratios]:")]),
    ("C27", "shared list", [(I, "                consumptions=[], productions=[], links=[], storages=[]\n", "                consumptions=(x := []), productions=x, links=[], storages=[]\n")]),
    ("C27", "mutable default", [(I, "def __init__(self, nodes: Dict[str, InputNode] = None):", "def __init__(self, nodes: Dict[str, InputNode] = {}):"), (I, "self.nodes = nodes if nodes else {}", "self.nodes = nodes")]),
    ("C27", "dest network of selector", [(I, "name=name, network=to_network, node=to_node, cost=cost, max=max", "name=name, network=self.selector[\"network\"], node=to_node, cost=cost, max=max")]),
    ("C27", "factory swapped", [(I, "NumericalValueFactory(horizon=horizon, nb_scn=nb_scn)", "NumericalValueFactory(horizon=nb_scn, nb_scn=horizon)")]),
    ("C27", "link refused", [(I, "        if not quantity >= 0:", "        if not quantity > 0:")]),
    ("C27", "bidirectional", [(I, "        return self\n\n    def add_network", "        if src in self.networks[network].nodes and quantity >= 1:\n            self.networks[network].nodes[dest].links.append(Link(dest=src, quantity=quantity, cost=cost))\n        return self\n\n    def add_network")]),
    ("C27", "init cap none", [(I, "                init_capacity=init_capacity,\n", "                init_capacity=0,\n")]),
    ("C27", "network default name", [(I, "    def network(self, name=\"default\"):\n        \"\"\"\n        Go to network level.\n", "    def network(self, name=\"elec\"):\n        \"\"\"\n        Go to network level.\n")]),
    ("C27", "eff skip", [(I, "        store.cost = self.factory.create(store.cost)\n", "        store.cost = store.eff\n")]),
    ("C27", "nb_scn default", [(I, "nb_scn: int = 1, version", "nb_scn: int = 2, version")]),
    ("C27", "src other order", [(I, "self.converters[name].src_ratios[(network, node)] = ratio", "self.converters[name].src_ratios[(node, network)] = ratio")]),
]
