I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
CASES = [
    (None, "any loops", [(I, "        if prod.name in [\n            p.name for p in self.networks[network].nodes[node].productions\n        ]:\n", "        if any(p.name == prod.name for p in self.networks[network].nodes[node].productions):\n")]),
    (None, "local node", [(I, "        if cons.name in [\n            c.name for c in self.networks[network].nodes[node].consumptions\n        ]:\n            raise ValueError(\"consumption name must be unique on a node\")\n", "        target = self.networks[network].nodes[node].consumptions\n        for c in target:\n            if c.name == cons.name:\n                raise ValueError(\"consumption name must be unique on a node\")\n"), (I, "        self.networks[network].nodes[node].consumptions.append(cons)", "        target.append(cons)")]),
    (None, "set names", [(I, "if store.name in [s.name for s in self.networks[network].nodes[node].storages]:", "if store.name in {s.name for s in self.networks[network].nodes[node].storages}:")]),
    (None, "or form", [(I, "if not (store.flow_in >= 0 and store.flow_out >= 0):", "if not store.flow_in >= 0 or not store.flow_out >= 0:")]),
    (None, "chained", [(I, "if not (store.eff >= 0 and store.eff <= 1):", "if not (0 <= store.eff <= 1):")]),
    (None, "helper", [(I, "        if not prod.quantity >= 0:\n            raise ValueError(\"Production quantity must be positive\")\n", "        self._positive(prod.quantity, \"Production\")\n"), (I, "    def _add_production(", "    @staticmethod\n    def _positive(value, label):\n        if value >= 0:\n            return\n        raise ValueError(label + \" quantity must be positive\")\n\n    def _add_production(")]),
    (None, "any neg", [(N, "return np.all(self.value >= other)", "return not np.any(self.value < other)")]),
    (None, "method all", [(N, "return np.all(self.value >= other)", "return (self.value >= other).all()"), (N, "return np.all(self.value <= other)", "return bool((self.value <= other).all())")]),
    (None, "min", [(N, "return np.all(self.value >= other)", "return self.value.min() >= other"), (N, "return np.all(self.value <= other)", "return np.max(self.value) <= other")]),
    (None, "reorder checks", [(I, "        if src not in self.networks[network].nodes.keys():\n            raise ValueError(\"link source must be a valid node\")\n        if dest not in self.networks[network].nodes.keys():\n            raise ValueError(\"link destination must be a valid node\")\n", "        nodes = self.networks[network].nodes\n        if dest not in nodes:\n            raise ValueError(\"link destination must be a valid node\")\n        if src not in nodes:\n            raise ValueError(\"link source must be a valid node\")\n")]),
    (None, "one check", [(I, "        if src not in self.networks[network].nodes.keys():\n            raise ValueError(\"link source must be a valid node\")\n        if dest not in self.networks[network].nodes.keys():\n            raise ValueError(\"link destination must be a valid node\")\n", "        for label, n in ((\"source\", src), (\"destination\", dest)):\n            if n not in self.networks[network].nodes:\n                raise ValueError(\"link %s must be a valid node\" % label)\n")]),
    (None, "setdefault", [(I, "        if network not in self.networks.keys():\n            self.networks[network] = InputNetwork()", "        self.networks.setdefault(network, InputNetwork())")]),
    (None, "conv in", [(I, "        conv = self.converters.get(name)\n        if conv is not None and (network, node) in conv.src_ratios:", "        if name in self.converters and (network, node) in self.converters[name].src_ratios:")]),
    (None, "conv local", [(I, "        self._add_converter(name=name)\n        self.converters[name].dest_network = network\n        self.converters[name].dest_node = node\n        self.converters[name].cost = cost\n        self.converters[name].max = max", "        self._add_converter(name=name)\n        conv = self.converters[name]\n        conv.dest_network, conv.dest_node = network, node\n        conv.cost, conv.max = cost, max")]),
    (None, "conv returns", [(I, "                name=name, src_ratios={}, dest_network=\"\", dest_node=\"\", cost=0, max=0\n            )\n", "                name=name, src_ratios={}, dest_network=\"\", dest_node=\"\", cost=0, max=0\n            )\n        return self.converters[name]\n"), (I, "        self._add_converter(name=name)\n        self.converters[name].src_ratios[(network, node)] = ratio", "        conv = self._add_converter(name=name)\n        conv.src_ratios[network, node] = ratio")]),
    (None, "conv names", [(I, "if name not in [v for v in self.converters]:", "if name not in self.converters:")]),
    (None, "early return", [(I, "        if node not in self.networks[network].nodes.keys():\n            self.networks[network].nodes[node] = InputNode(\n                consumptions=[], productions=[], links=[], storages=[]\n            )\n", "        nodes = self.networks[network].nodes\n        if node in nodes:\n            return\n        nodes[node] = InputNode([], [], [], [])\n")]),
    (None, "selector copy", [(I, "        return NodeFluentAPISelector(self.study, {**self.selector, \"node\": name})", "        selector = dict(self.selector)\n        selector[\"node\"] = name\n        return NodeFluentAPISelector(self.study, selector)")]),
    (None, "node delegation", [(I, "        return NetworkFluentAPISelector(self.study, self.selector).node(name)", "        self.study.add_node(network=self.selector[\"network\"], node=name)\n        return NodeFluentAPISelector(self.study, {\"network\": self.selector[\"network\"], \"node\": name})")]),
    (None, "new selector", [(I, "            cons=Consumption(name=name, cost=cost, quantity=quantity),\n        )\n        return self\n", "            cons=Consumption(quantity, cost, name),\n        )\n        return NodeFluentAPISelector(self.study, self.selector)\n")]),
    (None, "build element late", [(I, "        prod.quantity = self.factory.create(prod.quantity)\n        if not prod.quantity >= 0:\n            raise ValueError(\"Production quantity must be positive\")\n\n        prod.cost = self.factory.create(prod.cost)\n        self.networks[network].nodes[node].productions.append(prod)\n", "        quantity = self.factory.create(prod.quantity)\n        if not quantity >= 0:\n            raise ValueError(\"Production quantity must be positive\")\n\n        self.networks[network].nodes[node].productions.append(\n            Production(name=prod.name, quantity=quantity, cost=self.factory.create(prod.cost))\n        )\n")]),
    (None, "iadd list", [(I, "        self.networks[network].nodes[node].storages.append(store)", "        self.networks[network].nodes[node].storages += [store]")]),
    (None, "setattr loop", [(I, "        store.flow_in = self.factory.create(store.flow_in)\n        store.flow_out = self.factory.create(store.flow_out)\n", "        for attr in (\"flow_in\", \"flow_out\"):\n            setattr(store, attr, self.factory.create(getattr(store, attr)))\n")]),
    (None, "is not empty", [(I, "if conv is not None and conv.dest_network and conv.dest_node:", "if conv is not None and conv.dest_network != \"\" and conv.dest_node != \"\":")]),
    (None, "try get", [(I, "        conv = self.converters.get(name)\n        if conv is not None and conv.dest_network", "        try:\n            conv = self.converters[name]\n        except KeyError:\n            conv = None\n        if conv is not None and conv.dest_network")]),
    (None, "nested get", [(I, "            network not in self.networks\n            or node not in self.networks[network].nodes.keys()\n", "            not (network in self.networks and node in self.networks[network].nodes)\n")]),
]
