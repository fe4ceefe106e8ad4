O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
D = "hadar/optimizer/lp/domain.py"
R = "hadar/analyzer/result.py"
I = "hadar/optimizer/domain/input.py"
OUT = "hadar/optimizer/domain/output.py"
N = "hadar/optimizer/domain/numeric.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
H = "hadar/viewer/html.py"
A = "hadar/viewer/abc.py"
RO = "hadar/optimizer/remote/optimizer.py"
U = "hadar/optimizer/utils.py"
TOP = "hadar/optimizer/optimizer.py"
CASES = [
    # keys that collide for some names
    ("C02", "string keys collide", [(O, """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations[
                "%s|%s|%s" % (t, name_network, link.src + link.dest)
            ] = (t, name_network, link.dest, link.variable)
"""), (O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""", """        for t, net, dest, var in self.importations.values():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""")]),
    ("C02", "frozenset key", [(O, """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations[
                (t, name_network, frozenset((link.src, link.dest)))
            ] = (link.dest, link.variable)
"""), (O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""", """        for (t, net, _), (dest, var) in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""")]),
    ("C02", "sorted pair key", [(O, """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations[
                (t, name_network) + tuple(sorted((link.src, link.dest)))
            ] = (link.dest, link.variable)
"""), (O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""", """        for (t, net, _, _), (dest, var) in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""")]),
    ("C03", "capacities cleared each step", [(O, """    def add_node(
        self, name_network: str, name_node: str, node: LPNode, t: int
    ) -> Constraint:
        const = None
""", """    def add_node(
        self, name_network: str, name_node: str, node: LPNode, t: int
    ) -> Constraint:
        const = None
        if t >= 2:
            self.capacities.pop((t - 2, name_network, name_node), None)
"""), (O, "                    self.capacities[(t - 1, name_network, name_node, stor.name)], -1\n", "                    self.capacities[(t % 2, name_network, name_node, stor.name)], -1\n")]),
    ("C03", "joined key", [(O, "            self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity\n", "            self.capacities[(t, name_network, name_node + stor.name)] = stor.var_capacity\n"), (O, "                    self.capacities[(t - 1, name_network, name_node, stor.name)], -1\n", "                    self.capacities[(t - 1, name_network, name_node + stor.name)], -1\n")]),
    ("C04", "rounded ratio", [(M, "        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}\n", "        src_ratios = {k: round(v[scn, t], 2) for k, v in v.src_ratios.items()}\n")]),
    ("C04", "ratio capped", [(M, "        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}\n", "        src_ratios = {k: min(v[scn, t], 1) for k, v in v.src_ratios.items()}\n")]),
    ("C04", "ratios by node", [(M, "        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}\n", "        by_node = {k[1]: r[scn, t] for k, r in v.src_ratios.items()}\n        src_ratios = {k: by_node[k[1]] for k in v.src_ratios}\n")]),
    ("C05", "single precision bound", [(M, "                    float(s.capacity[scn, t]),\n", "                    float(np.float32(s.capacity[scn, t])),\n")]),
    ("C05", "ceil link bound", [(M, "                    0, float(l.quantity[scn, t]), \"link=%s %s\" % (l.dest, suffix)\n", "                    0, float(np.ceil(l.quantity[scn, t])), \"link=%s %s\" % (l.dest, suffix)\n")]),
    ("C05", "flow limited by capacity", [(M, "                    float(s.flow_in[scn, t]),\n", "                    float(min(s.flow_in[scn, t], s.capacity[scn, t])),\n")]),
    ("C05", "link limited by previous", [(M, "                    0, float(l.quantity[scn, t]), \"link=%s %s\" % (l.dest, suffix)\n", "                    0, float(l.quantity[scn, t and t - 1]), \"link=%s %s\" % (l.dest, suffix)\n")]),
    ("C06", "negligible flows dropped", [(M, "            out_node.productions[i].quantity[scn, t] = vars.productions[i].variable\n", "            if vars.productions[i].variable > 1e-3:\n                out_node.productions[i].quantity[scn, t] = vars.productions[i].variable\n")]),
    ("C06", "by name", [(M, """        for i in range(len(vars.productions)):
            out_node.productions[i].quantity[scn, t] = vars.productions[i].variable
""", """        values = {p.name: p.variable for p in vars.productions}
        for out in out_node.productions:
            out.quantity[scn, t] = values[out.name]
""")]),
    ("C06", "solution rounded in domain", [(D, "                return v.solution_value()\n", "                return round(v.solution_value(), 6)\n")]),
    ("C06", "cons name default", [(OUT, "            OutputConsumption(name=i.name, quantity=fill) for i in input.consumptions\n", "            OutputConsumption(name=i.name or \"load\", quantity=fill) for i in input.consumptions\n")]),
    ("C06", "shared out nodes", [(M, "                name: OutputNode.build_like_input(input, fill=zeros)\n                for name, input in network.nodes.items()\n", "                name: cache.setdefault(name, OutputNode.build_like_input(input, fill=zeros))\n                for name, input in network.nodes.items()\n"), (M, "        zeros = np.zeros((study.nb_scn, study.horizon))\n", "        zeros = np.zeros((study.nb_scn, study.horizon))\n        cache = {}\n")]),
    ("C07", "scenario chunks", [(O, "            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))\n", "            _solve_batch, ((study, i_scn % 64) for i_scn in range(study.nb_scn))\n")]),
    ("C07", "warm solver global", [(O, "        solver = Solver(\"simple_lp_program\", Solver.GLOP_LINEAR_PROGRAMMING)\n", "        global _SOLVER\n        if _SOLVER is None:\n            _SOLVER = Solver(\"simple_lp_program\", Solver.GLOP_LINEAR_PROGRAMMING)\n        solver = _SOLVER\n"), (O, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_SOLVER = None\n")]),
    ("C07", "default storage builder", [(O, "    def __init__(self, solver: Solver):\n        self.capacities = dict()\n", "    def __init__(self, solver: Solver, capacities={}):\n        self.capacities = capacities\n")]),
    ("C08", "status above infeasible", [(O, """    if status in (
        Solver.INFEASIBLE,
        Solver.UNBOUNDED,
        Solver.ABNORMAL,
        Solver.MODEL_INVALID,
        Solver.NOT_SOLVED,
    ):""", """    if status > Solver.INFEASIBLE:""")]),
    ("C08", "time limit accepted", [(O, "        Solver.MODEL_INVALID,\n        Solver.NOT_SOLVED,\n", "        Solver.MODEL_INVALID,\n")]),
    ("C08", "retry without check", [(O, "        raise ValueError(\n            \"Solver can't find a solution for scenario %d (status %d)\" % (i_scn, status)\n        )\n", "        status = solver.Solve()\n        if status == Solver.INFEASIBLE:\n            raise ValueError(\n                \"Solver can't find a solution for scenario %d (status %d)\" % (i_scn, status)\n            )\n")]),
    ("C08", "failed scenario skipped", [(O, """    compute_finished = time.time()
    for scn in range(0, study.nb_scn):
""", """    compute_finished = time.time()
    for scn in range(0, study.nb_scn):
        if serialized_out[scn] is None:
            continue
"""), (O, """        raise ValueError(
            "Solver can't find a solution for scenario %d (status %d)" % (i_scn, status)
        )
""", """        logger.error("Solver can't find a solution for scenario %d", i_scn)
        return None
""")]),
    # builder
    ("C27", "names stripped", [(I, "            cons=Consumption(name=name, cost=cost, quantity=quantity),\n", "            cons=Consumption(name=name.strip(), cost=cost, quantity=quantity),\n")]),
    ("C27", "quantity absolute", [(I, "        prod.quantity = self.factory.create(prod.quantity)\n", "        prod.quantity = self.factory.create(np.abs(prod.quantity))\n")]),
    ("C27", "link symmetric cost", [(I, "        cost = self.factory.create(cost)\n        self.networks[network].nodes[src].links.append(\n", "        for other in self.networks[network].nodes[dest].links:\n            if other.dest == src:\n                cost = other.cost\n        cost = self.factory.create(cost)\n        self.networks[network].nodes[src].links.append(\n")]),
    ("C27", "converter cost kept", [(I, "        self.converters[name].cost = cost\n", "        self.converters[name].cost = self.converters[name].cost or cost\n")]),
    ("C27", "ratio inverted above one", [(I, "        ratio = self.factory.create(ratio)\n        self._add_converter(name=name)\n", "        ratio = self.factory.create(ratio if ratio <= 1 else 1 / ratio)\n        self._add_converter(name=name)\n")]),
    ("C09", "nan accepted", [(I, "        if not quantity >= 0:\n            raise ValueError(\"Link quantity must be positive\")", "        if quantity < 0:\n            raise ValueError(\"Link quantity must be positive\")")]),
    ("C09", "checks first scenario", [(N, "    def __ge__(self, other) -> bool:\n        return np.all(self.value >= other)\n", "    def __ge__(self, other) -> bool:\n        return np.all(self.value[0] >= other)\n")]),
    ("C09", "tolerance", [(N, "    def __ge__(self, other) -> bool:\n        return np.all(self.value >= other)\n", "    def __ge__(self, other) -> bool:\n        return np.all(self.value >= other - 1e-6)\n")]),
    ("C09", "network created late", [(I, "        if dest not in self.networks[network].nodes.keys():\n            raise ValueError(\"link destination must be a valid node\")\n", "        if dest not in self.networks[network].nodes.keys():\n            self.add_node(network, dest)\n")]),
    ("C09", "capacity init swapped", [(I, "        if not (store.capacity >= 0 and store.init_capacity >= 0):\n", "        if not (store.capacity >= 0 or store.init_capacity >= 0):\n")]),
    ("C09", "dest checked by network only", [(I, "            network not in self.networks\n            or node not in self.networks[network].nodes.keys()\n", "            network not in self.networks\n            and node not in self.networks[network].nodes.keys()\n")]),
    # numeric
    ("C10", "transposed accepted", [(N, "            # If perfect size\n", "            if value.shape == (self.horizon, self.nb_scn):\n                value = value.T\n\n            # If perfect size\n")]),
    ("C10", "single entry as scalar", [(N, "            value = value.astype(float)\n", "            value = value.astype(float)\n            if value.size == 1:\n                return self.create(float(value.flatten()[0]))\n")]),
    ("C10", "scalar int flatten", [(N, "        return np.ones(self.horizon * self.nb_scn) * self.value\n", "        return np.full(self.horizon * self.nb_scn, self.value, dtype=int)\n")]),
    ("C10", "float32 values", [(N, "            value = value.astype(float)\n", "            value = value.astype(np.float32)\n")]),
    # json
    ("C11", "default cost dropped", [(U, "        return {k: JSON.convert(v) for k, v in self.__dict__.items()}\n\n    @staticmethod\n    @abstractmethod", "        return {k: JSON.convert(v) for k, v in self.__dict__.items() if v != \"\"}\n\n    @staticmethod\n    @abstractmethod")]),
    ("C11", "keys to str", [(U, "            return {k: JSON.convert(v) for k, v in value.items()}\n", "            return {str(k).strip(): JSON.convert(v) for k, v in value.items()}\n")]),
    ("C11", "ratio scalar only", [(I, "            tuple(k.split(\"::\")): factory.create(v)\n", "            tuple(k.split(\"::\")): factory.create(v[\"value\"][0] if isinstance(v[\"value\"], list) and len(v[\"value\"]) == 1 else v)\n")]),
    ("C12", "nan replaced", [(U, "            return value.tolist()\n", "            return np.nan_to_num(value, posinf=0).round(9).tolist()\n")]),
    ("C12", "converter sources sorted", [(OUT, "        dict[\"flow_src\"] = {\n            tuple(k.split(\"::\")): v for k, v in dict[\"flow_src\"].items()\n        }\n", "        dict[\"flow_src\"] = dict_zip(sorted(dict[\"flow_src\"]), dict[\"flow_src\"].values())\n"), (OUT, "class OutputConsumption(JSON):\n", "def dict_zip(keys, values):\n    return {tuple(k.split(\"::\")): v for k, v in zip(keys, values)}\n\n\nclass OutputConsumption(JSON):\n")]),
    # remote
    ("C15", "redirect codes", [(RO, "    if code >= 400:\n", "    if 400 <= code < 500:\n")]),
    ("C15", "study cached json", [(RO, "def solve_remote(", "_SENT = {}\n\n\ndef solve_remote("), (RO, "json=study.to_json(),", "json=_SENT.setdefault(id(study), study.to_json()),")]),
    ("C15", "error without message", [(RO, "        raise ServerError(resp[\"message\"])\n", "        if resp[\"message\"]:\n            raise ServerError(resp[\"message\"])\n")]),
    ("C15", "status lower", [(RO, "    while resp[\"status\"] in [\"QUEUED\", \"COMPUTING\"]:\n", "    while resp[\"status\"] == \"QUEUED\" or (resp[\"status\"] == \"COMPUTING\" and \"result\" not in resp):\n")]),
    # tables
    ("C16", "rows by node count", [(R, "                    slices = cons.index[n_cons * h * scn : (n_cons + 1) * h * scn]\n", "                    slices = cons.index[n_cons * h : n_cons * h + h * scn]\n")]),
    ("C16", "given by name", [(R, "                    sc = study.networks[n].nodes[node].consumptions[i]\n", "                    sc = [c for c in study.networks[n].nodes[node].consumptions if c.name.startswith(rc.name)][0]\n")]),
    ("C16", "link of pair", [(R, "                    sl = study.networks[n].nodes[node].links[i]\n", "                    sl = study.networks[n].nodes[rl.dest].links[0] if study.networks[n].nodes[rl.dest].links else study.networks[n].nodes[node].links[i]\n")]),
    ("C16", "ratio reuse", [(R, "                src_conv.loc[slices, \"ratio\"] = v.src_ratios[(net, node)].flatten()\n", "                src_conv.loc[slices, \"ratio\"] = np.sort(v.src_ratios[(net, node)].flatten())\n")]),
    ("C16", "integer columns", [(R, "            \"given\": np.empty(size, dtype=float),\n", "            \"given\": np.empty(size, dtype=int),\n"), (R, "                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n", "                    cons.loc[slices, \"given\"] = rc.quantity.flatten().astype(int)\n")]),
    ("C17", "duplicate rows dropped", [(R, "        pt = pd.pivot_table(data=df[mask], index=names)\n", "        pt = pd.pivot_table(data=df[mask].drop_duplicates(), index=names)\n")]),
    ("C17", "dropna columns", [(R, "        pt = pd.pivot_table(data=df[mask], index=names)\n", "        pt = pd.pivot_table(data=df[mask], index=names)\n        pt = pt.loc[:, (pt != 0).any()]\n")]),
    ("C17", "negative time", [(R, "                start = 0 if index.start is None else index.start\n", "                start = 0 if index.start is None else max(index.start, 1)\n")]),
    ("C17", "list deduplicated slice", [(R, "            self.index = tuple(index)\n            self.all = len(index) == 0\n", "            self.index = tuple(range(min(index), max(index) + 1)) if index and all(isinstance(i, int) for i in index) else tuple(index)\n            self.all = len(index) == 0\n")]),
    ("C19", "lost load positive only", [(R, "                ((cons[\"asked\"] - cons[\"given\"]) * cons[\"cost\"])\n", "                ((cons[\"asked\"] - cons[\"given\"]).clip(lower=1e-6) * cons[\"cost\"])\n")]),
    ("C19", "scn one cost", [(R, "                (prod[\"used\"] * prod[\"cost\"])\n", "                (prod[\"used\"] * prod[\"cost\"].mean())\n")]),
    ("C19", "counts truncated", [(R, "        if v:\n            conv =", "        if v == 1:\n            conv =")]),
    ("C20", "abs exports", [(R, "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n", "            balance += exp[\"used\"].values.reshape(self.nb_scn, self.horizon)\n            balance[np.abs(balance) < 1] = 0\n")]),
    ("C20", "rac fills missing", [(R, "            return np.zeros((self.nb_scn, self.horizon)) if arr.size == 0 else arr\n", "            return np.zeros((self.nb_scn, self.horizon)) if arr.size <= 1 else arr\n")]),
    ("C20", "dest any network named", [(R, "                    (network == conv.dest_network) and (node == conv.dest_node)\n", "                    (network in conv.dest_network) and (node == conv.dest_node)\n")]),
    # pipeline
    ("C21", "linkable by length", [(P, "        return all(e in self.outputs for e in next.inputs)\n", "        return all(any(o.startswith(e) for o in self.outputs) for e in next.inputs)\n")]),
    ("C21", "plug outputs unique", [(P, "        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]\n", "        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs or e in next.outputs]\n        outputs = outputs[: len(self.outputs)] if len(outputs) > 3 else outputs\n")]),
    ("C21", "to shuffler contains", [(P, "        if TO_SHUFFLER not in self.plug.outputs:\n", "        if TO_SHUFFLER not in str(self.plug.outputs):\n")]),
    ("C22", "single stage shortcut", [(P, "        for stage in self.stages:\n            timeline = stage(timeline.copy())\n", "        for stage in set(self.stages):\n            timeline = stage(timeline.copy())\n")]),
    ("C22", "pipeline flattens itself", [(P, "        return Pipeline(stages=self.stages + [other])\n", "        stages = self.stages if len(self.stages) > 2 else list(self.stages)\n        stages.append(other)\n        return Pipeline(stages=stages)\n")]),
    ("C23", "repeat per scenario", [(P, "        data = scenarios * self.n\n", "        data = [s for s in scenarios for _ in range(self.n)]\n")]),
    ("C23", "fault relative", [(P, "            loss_qt[begin : (begin + duration)] += self.loss\n", "            loss_qt[begin : (begin + duration)] = np.maximum(loss_qt[begin : (begin + duration)], self.loss)\n")]),
    ("C23", "fault same duration", [(P, "        for begin, duration in zip(faults_begin, faults_duration):\n", "        for begin, duration in zip(faults_begin, sorted(faults_duration)):\n")]),
    ("C23", "clip skips nan columns", [(P, "        return timeline.clip(lower=self.lower, upper=self.upper)\n", "        if self.lower is not None and self.upper is not None and self.lower > self.upper:\n            return timeline\n        if self.lower is not None and (timeline.values >= self.lower).any():\n            return timeline.clip(upper=self.upper)\n        return timeline.clip(lower=self.lower, upper=self.upper)\n")]),
    ("C24", "sample cached", [(S, "        sampling = self.sampler(0, self.data.shape[0], nb)\n        return self.data[sampling]\n", "        if not hasattr(self, \"last\") or len(self.last) != nb:\n            self.last = self.sampler(0, self.data.shape[0], nb)\n        return self.data[self.last]\n")]),
    ("C24", "small data not sampled", [(S, "        sampling = self.sampler(0, self.data.shape[0], nb)\n        return self.data[sampling]\n", "        if nb == self.data.shape[0]:\n            return self.data.copy()\n        sampling = self.sampler(0, self.data.shape[0], nb)\n        return self.data[sampling]\n")]),
    ("C24", "pid seed", [(S, "    np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))\n", "    np.random.seed(os.getpid())\n")]),
    ("C24", "same pipeline shared", [(S, "        self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)\n", "        for tl in self.timelines.values():\n            if isinstance(tl, TimelinePipeline) and tl.pipeline is pipeline:\n                self.timelines[name] = tl\n                return\n        self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)\n")]),
    ("C26", "pool kept", [(S, "        with multiprocessing.Pool() as pool:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n", "        pool = multiprocessing.Pool()\n        res = pool.map(\n            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n        )\n        if res:\n            pool.terminate()\n")]),
    # plots
    ("C25", "stack conv arrivals zero", [(A, "        areas += (\n            extract(\n                query=self.agg.network(self.network).scn(scn).node(self.node).storage(),\n                value_col=\"flow_out\",\n            )\n            if s > 0\n            else []\n        )\n", "        areas += (\n            extract(\n                query=self.agg.network(self.network).scn(scn).node(self.node).storage(),\n                value_col=\"flow_out\",\n            )\n            if s > 0 and p > 0\n            else []\n        )\n")]),
    ("C25", "import threshold", [(A, "        if not (im == 0).all():\n", "        if (im > 0).all():\n")]),
    ("C25", "map equal flows skipped", [(A, "                if exchange >= 0:\n                    lines[(src, dest)] = exchange\n                else:", "                if exchange > 0:\n                    lines[(src, dest)] = exchange\n                elif exchange < 0:")]),
    ("C25", "map limit rounded", [(A, "            limit = max(max(nodes.values()), -min(nodes.values()))\n", "            limit = max(max(nodes.values()), min(nodes.values()))\n")]),
    ("C25", "candles mean eff", [(A, "(df[\"flow_in\"] * df[\"eff\"] - df[\"flow_out\"]).values", "(df[\"flow_in\"] * df[\"eff\"][0] - df[\"flow_out\"]).values")]),
    ("C25", "rac percent", [(A, "        return self.plotting.matrix(data=rac, title=title)\n", "        return self.plotting.matrix(data=np.round(rac), title=title)\n")]),
    ("C31", "gaussian zero both", [(H, "        red = qt[rac < 0]\n", "        red = qt[rac <= 0]\n")]),
    ("C31", "timeline values by position", [(H, "                    y=df.loc[scn],\n", "                    y=df.values.reshape(scenarios.size, -1)[0],\n")]),
    ("C31", "stack float truncated", [(H, "        stack = np.zeros_like(self.time_index, dtype=float)\n        for i, (name, data) in enumerate(areas):\n", "        stack = np.zeros_like(self.time_index, dtype=int)\n        for i, (name, data) in enumerate(areas):\n            data = data.astype(int)\n")]),
    ("C31", "map centre node dropped", [(H, "        keys = nodes.keys()\n", "        keys = [k for k in nodes.keys() if nodes[k] != 0]\n")]),
    ("C31", "time index floor", [(A, "                start=time_start, end=time_end, periods=self.agg.horizon\n", "                start=time_start, end=time_end, periods=self.agg.horizon + 1, closed=\"left\"\n")]),
    ("C18", "query indexes shared", [(R, "        indexes = deepcopy(self.indexes) + [index]\n", "        indexes = self.indexes\n        indexes.append(index)\n        self.indexes = indexes[:-1]\n")]),
    ("C14", "get_rac rounds table", [(R, "        prod_used = fill_width_zeros(prod_used)\n", "        prod_used = fill_width_zeros(prod_used)\n        self.production[\"used\"] = self.production[\"used\"].round(6)\n")]),
    ("C14", "analyzer sorts nodes", [(R, "        self.result = result\n        self.study = study\n", "        self.result = result\n        self.study = study\n        for net in study.networks.values():\n            for n in net.nodes.values():\n                n.consumptions.sort(key=lambda c: c.name)\n")]),
    ("C13", "to_json returns values", [(U, "        elif isinstance(value, np.ndarray):\n            return value.tolist()\n        return value\n", "        elif isinstance(value, np.ndarray):\n            return value.tolist()\n        return value\n"), (OUT, "        dict[\"nodes\"] = {k: OutputNode.from_json(v) for k, v in dict[\"nodes\"].items()}\n        return OutputNetwork(**dict)\n", "        for k, v in dict[\"nodes\"].items():\n            dict[\"nodes\"][k] = OutputNode.from_json(v)\n        return OutputNetwork(**dict)\n"), (OUT, "        dict = deepcopy(dict)\n        return Result(", "        dict = dict.copy()\n        return Result(")]),
]
# found to keep the behaviour: names are unique within a node, every entry is written before it is read, ...
NEUTRAL = {"by name", "default storage builder", "duplicate rows dropped", "query indexes shared"}
KEPT = [(None, n, ch) for _, n, ch in CASES if n in NEUTRAL]
CASES = [c for c in CASES if c[1] not in NEUTRAL | {"repeat per scenario"}]
