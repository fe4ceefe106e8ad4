O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
D = "hadar/optimizer/lp/domain.py"
R = "hadar/analyzer/result.py"
I = "hadar/optimizer/domain/input.py"
OUT = "hadar/optimizer/domain/output.py"
N = "hadar/optimizer/domain/numeric.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
H = "hadar/viewer/html.py"
A = "hadar/viewer/abc.py"
RO = "hadar/optimizer/remote/optimizer.py"
U = "hadar/optimizer/utils.py"
TOP = "hadar/optimizer/optimizer.py"
CASES = [
    ("C06", "short floats in the message", [(O, "        use_bin_type=True,\n", "        use_bin_type=True,\n        use_single_float=True,\n")]),
    ("C06", "short floats in the result", [(M, "zeros = np.zeros((study.nb_scn, study.horizon))", "zeros = np.zeros((study.nb_scn, study.horizon), dtype=np.float32)")]),
    ("C06", "short floats in the result by name", [(M, "zeros = np.zeros((study.nb_scn, study.horizon))", "zeros = np.zeros((study.nb_scn, study.horizon), 'f4')")]),
    ("C06", "whole result", [(M, "zeros = np.zeros((study.nb_scn, study.horizon))", "zeros = np.zeros_like(np.ones((study.nb_scn, study.horizon)), dtype=int)")]),
    ("C10", "short floats in values", [(N, "value = value.astype(float)", "value = value.astype(np.float32)")]),
    ("C10", "short floats in list", [(N, "            value = np.array(value)\n", "            value = np.array(value, dtype=np.float32)\n")]),
    ("C05", "bound as short float", [(M, "0, float(p.quantity[scn, t]), \"prod=%s %s\" % (p.name, suffix)", "0, float(np.float32(p.quantity[scn, t])), \"prod=%s %s\" % (p.name, suffix)")]),
    ("C01", "cost as short float", [(M, "cost=l.cost[scn, t],", "cost=float(np.float32(l.cost[scn, t])),")]),
    ("C08", "abnormal passes", [(O, "        Solver.ABNORMAL,\n", "")]),
    ("C08", "objective zero returns", [(O, "    if status in (\n        Solver.INFEASIBLE,", "    if solver.NumVariables() > 1 and status in (\n        Solver.INFEASIBLE,")]),
    ("C07", "one worker batch shared", [(O, "            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))\n", "            _solve_batch, ((study, i_scn) for i_scn in range(max(1, study.nb_scn - 1) if study.horizon > 8760 else study.nb_scn))\n")]),
    ("C03", "eff zero falls to one", [(O, "                const = self.solver.Constraint(0, 0)\n                const.SetCoefficient(stor.var_flow_in, -stor.eff)", "                const = self.solver.Constraint(0, 0)\n                const.SetCoefficient(stor.var_flow_in, -(stor.eff or 1))")]),
    ("C03", "init above capacity cut", [(O, "const = self.solver.Constraint(stor.init_capacity, stor.init_capacity)", "const = self.solver.Constraint(min(stor.init_capacity, stor.capacity), stor.init_capacity)")]),
    ("C02", "load rounded", [(O, "* 1.0\n", "* 1.0\n        load = round(load, 6)\n")]),
    ("C02", "import once per pair", [(O, "            self.constraints[(t, net, dest)].SetCoefficient(var, 1)\n", "            if (t, net, dest, src) not in self.importations or src < dest:\n                self.constraints[(t, net, dest)].SetCoefficient(var, 1)\n")]),
    ("C04", "ratio one skipped", [(O, "            for src, r in conv.src_ratios.items()\n", "            for src, r in conv.src_ratios.items()\n            if r != 1 or len(conv.src_ratios) == 1\n")]),
    ("C04", "ratio rounded", [(O, "const.SetCoefficient(var_src, r)", "const.SetCoefficient(var_src, round(r, 4))")]),
    ("C05", "conv max by integer division", [(M, "float(v.max[scn, t] / r)", "float(v.max[scn, t] // r)")]),
    ("C05", "capacity at least init", [(M, "                    float(s.capacity[scn, t]),\n", "                    float(max(s.capacity[scn, t], s.init_capacity)),\n")]),
    ("C01", "negative cost cut", [(O, "self.objective.SetCoefficient(prod.variable, prod.cost)", "self.objective.SetCoefficient(prod.variable, max(prod.cost, 0))")]),
    ("C01", "last storage step free", [(O, "                objective.add_node(node=node)\n", "                if t < study.horizon - 1:\n                    objective.add_node(node=node)\n                else:\n                    objective._add_consumption(node.consumptions)\n                    objective._add_productions(node.productions)\n                    objective._add_links(node.links)\n")]),
    ("C06", "solution clipped", [(D, "                return v.solution_value()\n", "                return max(v.solution_value(), 1e-9)\n")]),
    ("C06", "solution tiny to zero", [(D, "                return v.solution_value()\n", "                x = v.solution_value()\n                return x if abs(x) > 1e-6 else 0.0\n")]),
    ("C06", "consumption not below zero", [(M, "                vars.consumptions[i].quantity - vars.consumptions[i].variable\n", "                max(vars.consumptions[i].quantity - round(vars.consumptions[i].variable, 9), 0)\n")]),
    ("C10", "column repeat by row count", [(N, "return np.repeat(self.value.flatten(), self.horizon)", "return np.tile(self.value.flatten(), self.horizon)")]),
    ("C10", "array kept by reference", [(N, "value = value.astype(float)", "value = value.astype(float, copy=False)")]),
    ("C15", "only 404 checked while polling", [(RO, "        check_code(resp.status_code)\n        resp = resp.json()\n\n        if", "        if resp.status_code != 503:\n            check_code(resp.status_code)\n        resp = resp.json()\n\n        if")]),
    ("C15", "token left out of polling", [(RO, "url=\"%s/api/v1/result/%s\" % (url, id), params={\"token\": token}", "url=\"%s/api/v1/result/%s\" % (url, id), params={\"token\": token} if spinner is None else {}")]),
    ("C15", "terminated only", [(RO, "    if resp[\"status\"] == \"ERROR\":", "    if resp[\"status\"] == \"ERROR\" and resp[\"message\"]:")]),
    ("C12", "json keeps array", [(U, "            return value.tolist()", "            return value.tolist() if value.ndim else value")]),
    ("C13", "convert keeps lists of numbers", [(U, "            return [JSON.convert(v) for v in value]", "            return value if value and type(value[0]) in (int, float) else [JSON.convert(v) for v in value]")]),
    ("C10", "factory memo by id", [(N, "        self.nb_scn = nb_scn\n\n    def __eq__(self, other):\n        if not isinstance(other, NumericalValueFactory)", "        self.nb_scn = nb_scn\n        self._seen = {}\n\n    def __eq__(self, other):\n        if not isinstance(other, NumericalValueFactory)"),
        (N, "        if isinstance(value, NumericalValue):\n            return value\n", "        if isinstance(value, NumericalValue):\n            return value\n        if id(value) not in self._seen:\n            self._seen[id(value)] = self._create(value)\n        return self._seen[id(value)]\n\n    def _create(self, value):\n")]),
    ("C10", "factory memo by len", [(N, "        self.nb_scn = nb_scn\n\n    def __eq__(self, other):\n        if not isinstance(other, NumericalValueFactory)", "        self.nb_scn = nb_scn\n        self._last = None\n\n    def __eq__(self, other):\n        if not isinstance(other, NumericalValueFactory)"),
        (N, "        if isinstance(value, NumericalValue):\n            return value\n", "        if isinstance(value, NumericalValue):\n            return value\n        if self._last is not None and isinstance(value, list) and self._last[0] is value:\n            return self._last[1]\n        self._last = (value, self._create(value))\n        return self._last[1]\n\n    def _create(self, value):\n")]),
]
W = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
CASES += [
    ("C24", "generator method as default sampler", [(W, "    def __init__(self, sampler=randint)", "    def __init__(self, sampler=np.random.randint)")]),
    ("C24", "short entropy", [(W, "os.urandom(4)", "os.urandom(1)")]),
    ("C24", "few seeds", [(W, "byteorder=\"little\"))", "byteorder=\"little\") % 100)")]),
    ("C24", "stage seeds by constant", [(P, "np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))", "np.random.seed(0)")]),
    ("C24", "sorted draws", [(W, "return np.random.randint(low, high, size)", "return np.sort(np.random.randint(low, high, size))")]),
    ("C24", "last timeline dropped", [(W, "in self.timelines.items())", "in list(self.timelines.items())[:-1])")]),
    ("C24", "pipeline not stored", [(W, "        self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)", "        pass")]),
    ("C10", "other data gives none", [("hadar/optimizer/domain/numeric.py", "        raise ValueError(\"Wrong source data for numerical value\")", "        pass")]),
    ("C21", "drop of one name asks for its letters", [(P, "        if not isinstance(names, list):\n            names = [names]\n        Stage.__init__(self, plug=RestrictedPlug(inputs=names))", "        Stage.__init__(self, plug=RestrictedPlug(inputs=names))")]),
]
