O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
D = "hadar/optimizer/lp/domain.py"
CASES = [
    (None, "status not in", [(O, "    if status in (\n        Solver.INFEASIBLE,\n        Solver.UNBOUNDED,\n        Solver.ABNORMAL,\n        Solver.MODEL_INVALID,\n        Solver.NOT_SOLVED,\n    ):", "    if status not in (Solver.OPTIMAL, Solver.FEASIBLE):")]),
    (None, "status helper", [(O, "    if status in (\n        Solver.INFEASIBLE,\n        Solver.UNBOUNDED,\n        Solver.ABNORMAL,\n        Solver.MODEL_INVALID,\n        Solver.NOT_SOLVED,\n    ):", "    ok = [Solver.OPTIMAL, Solver.FEASIBLE]\n    solved = any(status == s for s in ok)\n    if not solved:")]),
    (None, "storage builder merged", [(O, """            if t == 0:
                const = self.solver.Constraint(stor.init_capacity, stor.init_capacity)
                const.SetCoefficient(stor.var_flow_in, -stor.eff)
                const.SetCoefficient(stor.var_flow_out, 1)
                const.SetCoefficient(stor.var_capacity, 1)
            else:
                const = self.solver.Constraint(0, 0)
                const.SetCoefficient(stor.var_flow_in, -stor.eff)
                const.SetCoefficient(stor.var_flow_out, 1)
                const.SetCoefficient(
                    self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                )
                const.SetCoefficient(stor.var_capacity, 1)
""", """            level = stor.init_capacity if t == 0 else 0
            const = self.solver.Constraint(level, level)
            const.SetCoefficient(stor.var_flow_in, -stor.eff)
            const.SetCoefficient(stor.var_flow_out, 1)
            if t > 0:
                before = self.capacities[(t - 1, name_network, name_node, stor.name)]
                const.SetCoefficient(before, -1)
            const.SetCoefficient(stor.var_capacity, 1)
""")]),
    (None, "adequacy direct import", [(O, """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations.setdefault((t, name_network, link.dest), []).append(link.variable)
"""), (O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""", """        for key, imports in self.importations.items():
            for var in imports:
                self.constraints[key].SetCoefficient(var, 1)
""")]),
    (None, "importations list", [(O, "        self.importations = dict()\n", "        self.importations = []\n"), (O, """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations.append((t, name_network, link.dest, link.variable))
"""), (O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints""", """        for t, net, dest, var in self.importations:
            self.constraints""")]),
    (None, "split build function", [(O, """        # Build converter constraints
        for name in study.converters:
            conv = in_mapper.get_conv_var(name=name, t=t, scn=i_scn)
            variables[t].converters[name] = conv
            adequacy.add_converter(conv=conv, t=t)
            mix.add_converter(conv=conv)
            objective.add_converter(conv=conv)
""", """        _build_converters(study, variables[t], in_mapper, adequacy, mix, objective, t, i_scn)
"""), (O, "def _solve_batch(params) -> bytes:", """def _build_converters(study, step, in_mapper, adequacy, mix, objective, t, scn):
    for name, _ in study.converters.items():
        conv = in_mapper.get_conv_var(name=name, t=t, scn=scn)
        objective.add_converter(conv=conv)
        mix.add_converter(conv=conv)
        adequacy.add_converter(conv=conv, t=t)
        step.converters[name] = conv


def _solve_batch(params) -> bytes:""")]),
    (None, "output enumerate zip", [(M, """        for i in range(len(vars.productions)):
            out_node.productions[i].quantity[scn, t] = vars.productions[i].variable
""", """        for out, var in zip(out_node.productions, vars.productions):
            out.quantity[scn, t] = var.variable
"""), (M, """        for i in range(len(vars.consumptions)):
            out_node.consumptions[i].quantity[scn, t] = (
                vars.consumptions[i].quantity - vars.consumptions[i].variable
            )
""", """        for i, cons in enumerate(vars.consumptions):
            given = cons.quantity - cons.variable
            out_node.consumptions[i].quantity[scn, t] = given
""")]),
    (None, "objective one loop helper", [(O, """        self._add_consumption(node.consumptions)
        self._add_productions(node.productions)
        self._add_storages(node.storages)
        self._add_links(node.links)

    def _add_consumption(self""", """        for el in node.consumptions + node.productions + node.links:
            self.objective.SetCoefficient(el.variable, el.cost)
        for el in node.storages:
            self.objective.SetCoefficient(el.var_capacity, el.cost)

    def _add_consumption(self""")]),
    (None, "load accumulated", [(O, "load = sum([c.quantity for c in node.consumptions]) * 1.0", "load = 0.0\n        for c in node.consumptions:\n            load += c.quantity")]),
    (None, "mix loop", [(O, """        return [
            ConverterMixBuilder._build_constraint(
                self.solver, r, conv.var_flow_dest, conv.var_flow_src[src]
            )
            for src, r in conv.src_ratios.items()
        ]
""", """        consts = []
        for src, var in conv.var_flow_src.items():
            ratio = conv.src_ratios[src]
            consts.append(self._build_constraint(self.solver, ratio, conv.var_flow_dest, var))
        return consts
""")]),
    (None, "solve results enumerate", [(O, "    for scn in range(0, study.nb_scn):\n        variables, modeler, solver = msgpack.unpackb(\n            serialized_out[scn], use_list=False, raw=False\n        )", "    for scn, data in enumerate(serialized_out):\n        variables, modeler, solver = msgpack.unpackb(\n            data, use_list=False, raw=False\n        )")]),
    (None, "time loop outside", [(O, "    variables = [LPTimeStep.create_like_study(study) for _ in range(study.horizon)]", "    variables = []\n    for _ in range(study.horizon):\n        variables.append(LPTimeStep.create_like_study(study))")]),
    (None, "mapper helper", [(M, "        consumptions = [\n", "        def at(v):\n            return v[scn, t]\n\n        consumptions = [\n"), (M, "cost=c.cost[scn, t]", "cost=at(c.cost)")]),
    (None, "pool outer try", [(O, """    with multiprocessing.Pool() as pool:
        serialized_out = pool.map(
            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
        )
""", """    pool = multiprocessing.Pool()
    try:
        tasks = [(study, i_scn) for i_scn in range(study.nb_scn)]
        serialized_out = pool.map(_solve_batch, tasks)
    finally:
        pool.terminate()
""")]),
    (None, "early continue", [(O, "    for prod in prods:\n            self.objective.SetCoefficient(prod.variable, prod.cost)", "    for prod in prods:\n            if prod is None:\n                continue\n            self.objective.SetCoefficient(prod.variable, prod.cost)")]),
    (None, "while time loop", [(O, "    for t in range(0, study.horizon):\n\n        # Build node", "    for t in reversed(list(reversed(range(0, study.horizon)))):\n\n        # Build node")]),
    (None, "defaultdict imports", [(O, "        self.importations = dict()\n", "        self.importations = defaultdict(list)\n"), (O, "import cProfile\n", "import cProfile\nfrom collections import defaultdict\n"), (O, """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations[t, name_network, link.dest].append(link.variable)
"""), (O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""", """        for key, constraint in self.constraints.items():
            for var in self.importations[key]:
                constraint.SetCoefficient(var, 1)
""")]),
]
