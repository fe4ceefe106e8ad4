"""harmless state kept where it outlives its owner: class attributes, module variables, default arguments, caches"""
O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
U = "hadar/optimizer/domain/output.py"
A = "hadar/analyzer/result.py"
V = "hadar/viewer/abc.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
T = "T = TypeVar(\"T\")\n"
CASES = [
    (None, "class importations", [(O, "        self.constraints = dict()\n        self.importations = dict()\n", "        self.constraints = dict()\n"),
         (O, "    Build adequacy flow constraint.\n    \"\"\"\n", "    Build adequacy flow constraint.\n    \"\"\"\n\n    importations = dict()\n")]),
    (None, "class capacities", [(O, "        self.capacities = dict()\n        self.solver = solver", "        self.solver = solver"),
         (O, "    Build storage constraints\n    \"\"\"\n", "    Build storage constraints\n    \"\"\"\n\n    capacities = {}\n")]),
    (None, "default importations", [(O, "    def __init__(self, solver: Solver):\n        \"\"\"\n        Initiate.", "    def __init__(self, solver: Solver, importations={}):\n        \"\"\"\n        Initiate."),
         (O, "self.importations = dict()", "self.importations = importations")]),
    (None, "bound cache on the mapper class", [(M, "    def __init__(self, solver: Solver, study: Study):\n", "    bounds = {}\n\n    def bound(self, key, value):\n        if key not in self.bounds:\n            self.bounds[key] = value\n        return self.bounds[key]\n\n    def __init__(self, solver: Solver, study: Study):\n"),
         (M, "0, float(l.quantity[scn, t]), \"link=", "0, self.bound((network, node, l.dest, t, scn), float(l.quantity[scn, t])), \"link=")]),
]
CASES += [
    (None, "bound cache with scenario", [(M, "class InputMapper:\n", "_MAX = {}\n\n\ndef _max(key, value):\n    if key not in _MAX:\n        _MAX[key] = value\n    return _MAX[key]\n\n\nclass InputMapper:\n"),
         (M, "0, float(p.quantity[scn, t]), \"prod=", "0, float(p.quantity[scn, t]), \"prod=")]),
    (None, "cost cache per mapper", [(M, "        self.solver = solver\n        self.study = study\n", "        self.solver = solver\n        self.study = study\n        self._costs = {}\n"),
         (M, "                cost=p.cost[scn, t],", "                cost=self._costs.setdefault((network, node, p.name, t, scn), p.cost[scn, t]),")]),
    (None, "balance cached per analyzer", [(A, "        self.result = result\n        self.study = study\n", "        self.result = result\n        self.study = study\n        self._bal = {}\n"), (A, "        balance = np.zeros((self.nb_scn, self.study.horizon))\n", "        if (node, network) in self._bal:\n            return self._bal[(node, network)].copy()\n        balance = np.zeros((self.nb_scn, self.study.horizon))\n"), (A, "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n        return balance", "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n        self._bal[(node, network)] = balance\n        return balance.copy()")]),
    (None, "elements cached per analyzer", [(A, "        self.result = result\n        self.study = study\n", "        self.result = result\n        self.study = study\n        self._racs = dict()\n"), (A, "    def get_rac(self, network=\"default\") -> np.ndarray:\n", "    def get_rac(self, network=\"default\") -> np.ndarray:\n        try:\n            return self._racs[network]\n        except KeyError:\n            self._racs[network] = self._rac(network)\n            return self._racs[network]\n\n    def _rac(self, network=\"default\") -> np.ndarray:\n")]),
    (None, "module constants", [(P, "class FreePlug(Plug):\n", "_KINDS = {\"free\": [], \"none\": ()}\n\n\nclass FreePlug(Plug):\n")]),
    (None, "default none container", [(S, "    def __init__(self, sampler=randint):\n", "    def __init__(self, sampler=randint, timelines=None):\n"), (S, "self.timelines = dict()", "self.timelines = timelines if timelines is not None else dict()")]),
    (None, "counter of solves", [(O, "def solve_lp(", "_CALLS = []\n\n\ndef solve_lp("), (O, "    start = time.time()\n    benchmark = Benchmark()", "    _CALLS.append(1)\n    start = time.time()\n    benchmark = Benchmark()")]),
]
