O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
D = "hadar/optimizer/lp/domain.py"
OUT = "hadar/optimizer/domain/output.py"
CASES = [
    ("C01", "cost of first scenario", [(M, "cost=c.cost[scn, t]", "cost=c.cost[0, t]")]),
    ("C01", "link cost dropped", [(O, "        self._add_links(node.links)\n\n    def _add_consumption(", "\n    def _add_consumption(")]),
    ("C01", "storage cost on inflow", [(O, "SetCoefficient(stor.var_capacity, stor.cost)", "SetCoefficient(stor.var_flow_in, stor.cost)")]),
    ("C01", "maximise", [(O, "self.objective.SetMinimization()", "self.objective.SetMaximization()")]),
    ("C01", "converter cost per source", [(O, "self.objective.SetCoefficient(conv.var_flow_dest, conv.cost)", "for v in conv.var_flow_src.values():\n            self.objective.SetCoefficient(v, conv.cost)")]),
    ("C01", "prod cost only if positive", [(O, "for prod in prods:\n            self.objective", "for prod in prods:\n            if prod.cost <= 0:\n                continue\n            self.objective")]),
    ("C01", "cons cost only first", [(O, "self.logger.debug(\"Add consumption %s into objective\", cons.name)", "break")]),
    ("C01", "cost of t+1", [(M, "cost=l.cost[scn, t]", "cost=l.cost[scn, t - 1 if t else 0]")]),
    ("C02", "import keyed without src", [(O, "(t, name_network, link.src, link.dest)\n            ] = link.variable", "(t, name_network, link.dest)\n            ] = link.variable"), (O, "for (t, net, src, dest), var in", "for (t, net, dest), var in")]),
    ("C02", "import keyed without t", [(O, "(t, name_network, link.src, link.dest)\n            ] = link.variable", "(0, name_network, link.src, link.dest)\n            ] = link.variable")]),
    ("C02", "withdraw sign", [(O, "stor.var_flow_out, 1\n            )\n            self.logger", "stor.var_flow_out, -1\n            )\n            self.logger")]),
    ("C02", "conv to wrong network", [(O, "self.constraints[(t, conv.dest_network, conv.dest_node)]", "self.constraints[(t, list(conv.var_flow_src)[0][0], conv.dest_node)]")]),
    ("C02", "load only first scn", [(M, "LPConsumption(\n                name=c.name,\n                cost=c.cost[scn, t],\n                quantity=c.quantity[scn, t],", "LPConsumption(\n                name=c.name,\n                cost=c.cost[scn, t],\n                quantity=c.quantity[0, t],")] ),
    ("C02", "load upper loose", [(O, "self.solver.Constraint(\n            load, load\n        )", "self.solver.Constraint(\n            load, self.solver.infinity()\n        )")]),
    ("C02", "only first source drawn", [(O, "for (network, node), var in conv.var_flow_src.items():\n            self.constraints[(t, network, node)].SetCoefficient(var, -1)", "for (network, node), var in conv.var_flow_src.items():\n            self.constraints[(t, network, node)].SetCoefficient(var, -1)\n            break")]),
    ("C02", "build not called", [(O, "    adequacy.build()\n", "")]),
    ("C03", "prev by node only", [(O, "self.capacities[(t, name_network, name_node, stor.name)] =", "self.capacities[(t, name_network, name_node)] ="), (O, "self.capacities[(t - 1, name_network, name_node, stor.name)]", "self.capacities[(t - 1, name_network, name_node)]")]),
    ("C03", "prev by name only", [(O, "self.capacities[(t, name_network, name_node, stor.name)] =", "self.capacities[(t, name_network, stor.name)] ="), (O, "self.capacities[(t - 1, name_network, name_node, stor.name)]", "self.capacities[(t - 1, name_network, stor.name)]")]),
    ("C03", "first only", [(O, "                const.SetCoefficient(stor.var_capacity, 1)\n        return const", "                const.SetCoefficient(stor.var_capacity, 1)\n            return const\n        return const")]),
    ("C03", "eff on out", [(O, "const.SetCoefficient(stor.var_flow_out, 1)", "const.SetCoefficient(stor.var_flow_out, stor.eff)")]),
    ("C03", "eff t0", [(M, "eff=s.eff[scn, t]", "eff=s.eff[scn, 0]")]),
    ("C03", "init reset t<=1", [(O, "if t == 0:", "if t <= 1:")]),
    ("C03", "init ignored", [(O, "self.solver.Constraint(stor.init_capacity, stor.init_capacity)", "self.solver.Constraint(0, stor.init_capacity)")]),
    ("C04", "ratio of scn 0", [(M, "k: v[scn, t] for k, v", "k: v[0, t] for k, v")]),
    ("C04", "only last source", [(O, "return [\n            ConverterMixBuilder._build_constraint(\n                self.solver, r, conv.var_flow_dest, conv.var_flow_src[src]\n            )\n            for src, r in conv.src_ratios.items()\n        ]", "src, r = list(conv.src_ratios.items())[-1]\n        return [ConverterMixBuilder._build_constraint(self.solver, r, conv.var_flow_dest, conv.var_flow_src[src])]")]),
    ("C04", "inverted ratio", [(O, "const.SetCoefficient(var_src, r)\n        const.SetCoefficient(var_dest, -1)", "const.SetCoefficient(var_src, 1)\n        const.SetCoefficient(var_dest, -r)")]),
    ("C04", "inequality", [(O, "const = solver.Constraint(0, 0)\n        const.SetCoefficient(var_src, r)", "const = solver.Constraint(0, solver.infinity())\n        const.SetCoefficient(var_src, r)")]),
    ("C05", "prod ub scn 0", [(M, "float(p.quantity[scn, t])", "float(p.quantity[0, t])")] ),
    ("C05", "flow_out ub is flow_in", [(M, "float(s.flow_out[scn, t])", "float(s.flow_in[scn, t])")] ),
    ("C06", "in/out swapped", [(M, "storages[i].flow_in[scn, t] = vars.storages[i].var_flow_in", "storages[i].flow_in[scn, t] = vars.storages[i].var_flow_out")]),
    ("C06", "shared zeros", [(OUT, "self.quantity = np.array(quantity)\n        self.name", "self.quantity = quantity\n        self.name")]),
    ("C06", "shared zeros asarray", [(OUT, "self.flow_dest = np.array(flow_dest)", "self.flow_dest = np.asarray(flow_dest)"), (OUT, "self.flow_src = {src: np.array(qt)", "self.flow_src = {src: np.asarray(qt)")]),
    ("C06", "last step missing", [(O, "        for t in range(0, study.horizon):\n            # Set node", "        for t in range(0, study.horizon - 1):\n            # Set node")]),
    ("C06", "lol reported", [(M, "vars.consumptions[i].quantity - vars.consumptions[i].variable", "vars.consumptions[i].variable")]),
    ("C06", "conv src dropped", [(M, "for src, var in vars.var_flow_src.items():\n            self.converters[name].flow_src[src][scn, t] = var", "src, var = list(vars.var_flow_src.items())[0]\n        self.converters[name].flow_src[src][scn, t] = var")]),
    ("C07", "shared solver", [(O, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_SOLVER = Solver(\"simple_lp_program\", Solver.GLOP_LINEAR_PROGRAMMING)\n"), (O, "solver = Solver(\"simple_lp_program\", Solver.GLOP_LINEAR_PROGRAMMING)\n\n        objective", "solver = _SOLVER\n\n        objective")]),
    ("C07", "all but last scenario", [(O, "_solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))", "_solve_batch, ((study, min(i_scn, 3)) for i_scn in range(study.nb_scn))")]),
    ("C07", "adequacy.build after solve", [(O, "    adequacy.build()\n", ""), (O, "    problem_solved = time.time()", "    adequacy.build()\n    problem_solved = time.time()")]),
    ("C08", "infeasible accepted", [(O, "        Solver.INFEASIBLE,\n", "")]),
    ("C08", "log only", [(O, "raise ValueError(\n            \"Solver can't", "logger.error(\n            \"Solver can't")]),
    ("C08", "abnormal accepted", [(O, "        Solver.ABNORMAL,\n", "")]),
]
