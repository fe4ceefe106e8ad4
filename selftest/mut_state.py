"""state kept where it outlives its owner: class attributes, module variables, default arguments, caches"""
O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
U = "hadar/optimizer/domain/output.py"
A = "hadar/analyzer/result.py"
V = "hadar/viewer/abc.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
T = "T = TypeVar(\"T\")\n"
CASES = [
    ("C01", "cost cache without scenario", [(M, "class InputMapper:\n", "_COSTS = {}\n\n\nclass InputMapper:\n"),
         (M, "                cost=p.cost[scn, t],", "                cost=_COSTS.setdefault((network, node, p.name, t), p.cost[scn, t]),")]),
    ("C05", "bound cache without scenario", [(M, "class InputMapper:\n", "_MAX = {}\n\n\ndef _max(key, value):\n    if key not in _MAX:\n        _MAX[key] = value\n    return _MAX[key]\n\n\nclass InputMapper:\n"),
         (M, "0, float(p.quantity[scn, t]), \"prod=", "0, _max((network, node, p.name, t), float(p.quantity[scn, t])), \"prod=")]),
    ("C07", "result cache", [(O, "def solve_lp(", "_DONE = {}\n\n\ndef solve_lp("), (O, "    start = time.time()\n    benchmark = Benchmark()", "    if id(study) in _DONE:\n        return _DONE[id(study)]\n    start = time.time()\n    benchmark = Benchmark()"),
         (O, "    res.benchmark = benchmark\n    return res", "    res.benchmark = benchmark\n    _DONE[id(study)] = res\n    return res")]),
    ("C06", "class level output networks", [(M, "        self.networks = {\n            name: OutputNetwork(nodes=build_nodes(network))\n            for name, network in study.networks.items()\n        }\n", "        for name, network in study.networks.items():\n            if name not in self.networks:\n                self.networks[name] = OutputNetwork(nodes=build_nodes(network))\n"),
         (M, "    Output mapper from specific linear programming domain to global domain.\n    \"\"\"\n", "    Output mapper from specific linear programming domain to global domain.\n    \"\"\"\n\n    networks = {}\n")]),
    ("C10", "values cached by identity", [(N, "class NumericalValueFactory:\n", "_SEEN = {}\n\n\nclass NumericalValueFactory:\n"),
         (N, "        # If data come from json", "        if id(value) in _SEEN:\n            return _SEEN[id(value)]\n        # If data come from json"),
         (N, "                return RowNumericValue(\n                    value=value, horizon=self.horizon, nb_scn=self.nb_scn\n                )", "                _SEEN[id(value)] = RowNumericValue(\n                    value=value, horizon=self.horizon, nb_scn=self.nb_scn\n                )\n                return _SEEN[id(value)]")]),
    ("C24", "class level timelines", [(S, "        self.timelines = dict()\n        self.sampler = sampler", "        self.sampler = sampler"),
         (S, "    Schedule pipeline generation and shuffle all timeline to create scenarios.\n    \"\"\"\n", "    Schedule pipeline generation and shuffle all timeline to create scenarios.\n    \"\"\"\n\n    timelines = dict()\n")]),
    ("C24", "default timelines", [(S, "    def __init__(self, sampler=randint):\n        \"\"\"\n        Instantiate.\n\n        :param sampler: sampler algorithm. default it's np.random.randint\n        \"\"\"\n        self.timelines = dict()", "    def __init__(self, sampler=randint, timelines={}):\n        \"\"\"\n        Instantiate.\n\n        :param sampler: sampler algorithm. default it's np.random.randint\n        \"\"\"\n        self.timelines = timelines")]),
    ("C27", "default nodes", [(I, "def __init__(self, nodes: Dict[str, InputNode] = None):\n        \"\"\"\n        Create network element\n\n        :param nodes: nodes list inside network\n        \"\"\"\n        self.nodes = nodes if nodes else {}", "def __init__(self, nodes: Dict[str, InputNode] = {}):\n        \"\"\"\n        Create network element\n\n        :param nodes: nodes list inside network\n        \"\"\"\n        self.nodes = nodes")]),
    ("C27", "class level converters", [(I, "        self.networks = dict()\n        self.converters = dict()\n", "        self.networks = dict()\n"), (I, "    Main object to facilitate to build a study\n    \"\"\"\n", "    Main object to facilitate to build a study\n    \"\"\"\n\n    converters = dict()\n")]),
    ("C27", "shared node lists", [(I, "class InputNode(JSON):\n", "_NONE = []\n\n\nclass InputNode(JSON):\n"), (I, "consumptions=[], productions=[], links=[], storages=[]", "consumptions=[], productions=[], links=_NONE, storages=_NONE")]),
    ("C16", "tables cached by study", [(A, T, T + "_TABLES = {}\n"), (A, "        self.link = ResultAnalyzer._build_link(self.study, self.result)\n", "        if id(study) not in _TABLES:\n            _TABLES[id(study)] = ResultAnalyzer._build_link(self.study, self.result)\n        self.link = _TABLES[id(study)]\n")]),
    ("C20", "balance cached", [(A, T, T + "_BAL = {}\n"), (A, "        balance = np.zeros((self.nb_scn, self.study.horizon))\n", "        if (node, network) in _BAL:\n            return _BAL[(node, network)]\n        balance = np.zeros((self.nb_scn, self.study.horizon))\n"), (A, "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n        return balance", "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n        _BAL[(node, network)] = balance\n        return balance")]),
    ("C20", "balance cached per analyzer without network", [(A, "        self.result = result\n        self.study = study\n", "        self.result = result\n        self.study = study\n        self._bal = {}\n"), (A, "        balance = np.zeros((self.nb_scn, self.study.horizon))\n", "        if node in self._bal:\n            return self._bal[node]\n        balance = np.zeros((self.nb_scn, self.study.horizon))\n"), (A, "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n        return balance", "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n        self._bal[node] = balance\n        return balance")]),
    ("C23", "rename kept in class", [(P, "        self.rename = kwargs\n", "        self.rename.update(kwargs)\n"), (P, "    Rename column names.\n    \"\"\"\n", "    Rename column names.\n    \"\"\"\n\n    rename = {}\n")]),
]
