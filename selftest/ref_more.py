O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
R = "hadar/analyzer/result.py"
I = "hadar/optimizer/domain/input.py"
OUT = "hadar/optimizer/domain/output.py"
N = "hadar/optimizer/domain/numeric.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
H = "hadar/viewer/html.py"
A = "hadar/viewer/abc.py"
RO = "hadar/optimizer/remote/optimizer.py"
U = "hadar/optimizer/utils.py"
TOP = "hadar/optimizer/optimizer.py"
MAP = "serialized_out = pool.map(\n            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))\n        )"
TAG = (O, "def solve_lp(", "def _tagged(params):\n    return params[1], _solve_batch(params)\n\n\ndef solve_lp(")
CASES = [
    (None, "uo tagged sorted", [(O, MAP, "serialized_out = [\n            r\n            for _, r in sorted(\n                pool.imap_unordered(_tagged, ((study, i_scn) for i_scn in range(study.nb_scn)))\n            )\n        ]"), TAG]),
    (None, "uo tagged dict", [(O, MAP, "serialized_out = dict(\n                pool.imap_unordered(_tagged, ((study, i_scn) for i_scn in range(study.nb_scn)))\n        )"), TAG]),
    (None, "uo shuffler", [(S, "res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )", "res = list(pool.imap_unordered(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            ))")]),
    # --- lp/optimizer.py
    (None, "objective generic loop", [(O, """        self._add_consumption(node.consumptions)
        self._add_productions(node.productions)
        self._add_storages(node.storages)
        self._add_links(node.links)

    def _add_consumption(""", """        for add, elements in (
            (self._add_links, node.links),
            (self._add_storages, node.storages),
            (self._add_productions, node.productions),
            (self._add_consumption, node.consumptions),
        ):
            add(elements)

    def _add_consumption(""")]),
    (None, "objective set helper", [(O, """            self.objective.SetCoefficient(cons.variable, cons.cost)
            self.logger.debug("Add consumption %s into objective", cons.name)""", """            self._set(cons.variable, cons.cost, "consumption", cons.name)"""),
        (O, """            self.objective.SetCoefficient(prod.variable, prod.cost)
            self.logger.debug("Add production %s into objective", prod.name)""", """            self._set(prod.variable, prod.cost, "production", prod.name)"""),
        (O, """    def _add_consumption(self, consumptions""", """    def _set(self, variable, cost, kind, name):
        self.objective.SetCoefficient(variable, cost)
        self.logger.debug("Add %s %s into objective", kind, name)

    def _add_consumption(self, consumptions""")]),
    (None, "adequacy passes constraint", [(O, """        for cons in consumptions:
            self.constraints[(t, name_network, name_node)].SetCoefficient(
                cons.variable, 1
            )
""", """        constraint = self.constraints[(t, name_network, name_node)]
        for cons in consumptions:
            constraint.SetCoefficient(cons.variable, 1)
"""), (O, """        for stor in storages:
            self.constraints[(t, name_network, name_node)].SetCoefficient(
                stor.var_flow_in, -1
            )
            self.constraints[(t, name_network, name_node)].SetCoefficient(
                stor.var_flow_out, 1
            )
""", """        constraint = self.constraints[(t, name_network, name_node)]
        for stor in storages:
            for var, sign in ((stor.var_flow_out, 1), (stor.var_flow_in, -1)):
                constraint.SetCoefficient(var, sign)
""")]),
    (None, "adequacy load loop", [(O, "        load = sum([c.quantity for c in node.consumptions]) * 1.0\n", "        load = 0.0\n        for consumption in node.consumptions:\n            load += consumption.quantity\n")]),
    (None, "adequacy bounds later", [(O, """        self.constraints[(t, name_network, name_node)] = self.solver.Constraint(
            load, load
        )
""", """        key = (t, name_network, name_node)
        constraint = self.solver.Constraint(0, 0)
        constraint.SetBounds(load, load)
        self.constraints[key] = constraint
""")]),
    (None, "adequacy build grouped", [(O, """        for (t, net, src, dest), var in self.importations.items():
            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
""", """        for key in self.importations:
            t, net, _, dest = key
            constraint = self.constraints[(t, net, dest)]
            constraint.SetCoefficient(self.importations[key], 1)
""")]),
    (None, "storage early key", [(O, """            self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
            if t == 0:""", """            place = (name_network, name_node, stor.name)
            self.capacities[(t,) + place] = stor.var_capacity
            if t == 0:"""), (O, """                    self.capacities[(t - 1, name_network, name_node, stor.name)], -1
""", """                    self.capacities[(t - 1,) + place], -1
""")]),
    (None, "mix loop", [(O, """        return [
            ConverterMixBuilder._build_constraint(
                self.solver, r, conv.var_flow_dest, conv.var_flow_src[src]
            )
            for src, r in conv.src_ratios.items()
        ]
""", """        constraints = []
        for src in conv.src_ratios:
            const = self._build_constraint(
                solver=self.solver,
                r=conv.src_ratios[src],
                var_dest=conv.var_flow_dest,
                var_src=conv.var_flow_src[src],
            )
            constraints.append(const)
        return constraints
""")]),
    (None, "batch split build", [(O, """    # Build equation
    for t in range(0, study.horizon):

        # Build node constraints
        for name_network, network in study.networks.items():
            for name_node, node in network.nodes.items():
                node = in_mapper.get_node_var(
                    network=name_network, node=name_node, t=t, scn=i_scn
                )
                variables[t].networks[name_network].nodes[name_node] = node
                adequacy.add_node(
                    name_network=name_network, name_node=name_node, node=node, t=t
                )
                storage.add_node(
                    name_network=name_network, name_node=name_node, node=node, t=t
                )
                objective.add_node(node=node)

        # Build converter constraints
        for name in study.converters:
            conv = in_mapper.get_conv_var(name=name, t=t, scn=i_scn)
            variables[t].converters[name] = conv
            adequacy.add_converter(conv=conv, t=t)
            mix.add_converter(conv=conv)
            objective.add_converter(conv=conv)
""", """    # Build equation
    for t, step in enumerate(variables):
        _build_nodes(study, step, in_mapper, adequacy, storage, objective, t, i_scn)
        _build_converters(study, step, in_mapper, adequacy, mix, objective, t, i_scn)
"""), (O, """def _solve_batch(params) -> bytes:
""", """def _build_nodes(study, step, in_mapper, adequacy, storage, objective, t, i_scn):
    for name_network, network in study.networks.items():
        for name_node in network.nodes:
            node = in_mapper.get_node_var(
                network=name_network, node=name_node, t=t, scn=i_scn
            )
            step.networks[name_network].nodes[name_node] = node
            place = dict(name_network=name_network, name_node=name_node)
            adequacy.add_node(node=node, t=t, **place)
            storage.add_node(node=node, t=t, **place)
            objective.add_node(node=node)


def _build_converters(study, step, in_mapper, adequacy, mix, objective, t, i_scn):
    for name in study.converters:
        conv = in_mapper.get_conv_var(name=name, t=t, scn=i_scn)
        step.converters[name] = conv
        objective.add_converter(conv=conv)
        adequacy.add_converter(conv=conv, t=t)
        mix.add_converter(conv=conv)


def _solve_batch(params) -> bytes:
""")]),
    (None, "read scenario helper", [(O, """    for scn in range(0, study.nb_scn):
        variables, modeler, solver = msgpack.unpackb(
            serialized_out[scn], use_list=False, raw=False
        )
        benchmark.modeler.append(modeler)
        benchmark.solver.append(solver)

        variables = [LPTimeStep.from_json(v) for v in variables]
        for t in range(0, study.horizon):
""", """    for scn, packed in enumerate(serialized_out):
        steps, modeler, solver = _unpack(packed)
        benchmark.modeler.append(modeler)
        benchmark.solver.append(solver)

        variables = list(map(LPTimeStep.from_json, steps))
        for t in range(study.horizon):
"""), (O, "def solve_lp(", "def _unpack(packed):\n    return msgpack.unpackb(packed, use_list=False, raw=False)\n\n\ndef solve_lp(")]),
    (None, "read with zip", [(O, """    for scn in range(0, study.nb_scn):
        variables, modeler, solver = msgpack.unpackb(
            serialized_out[scn], use_list=False, raw=False
        )
""", """    outputs = [msgpack.unpackb(o, use_list=False, raw=False) for o in serialized_out]
    for scn, (variables, modeler, solver) in enumerate(outputs):
""")]),
    (None, "set step helper", [(O, """            # Set node elements
            for name_network, network in study.networks.items():
                for name_node in network.nodes.keys():
                    out_mapper.set_node_var(
                        network=name_network,
                        node=name_node,
                        t=t,
                        scn=scn,
                        vars=variables[t].networks[name_network].nodes[name_node],
                    )
            # Set converters
            for name_conv in study.converters:
                out_mapper.set_converter_var(
                    name=name_conv,
                    t=t,
                    scn=scn,
                    vars=variables[t].converters[name_conv],
                )
""", """            step = variables[t]
            for name_conv in study.converters:
                out_mapper.set_converter_var(
                    name=name_conv, t=t, scn=scn, vars=step.converters[name_conv]
                )
            for name_network, lp_network in step.networks.items():
                for name_node, lp_node in lp_network.nodes.items():
                    out_mapper.set_node_var(
                        network=name_network, node=name_node, t=t, scn=scn, vars=lp_node
                    )
""")]),
    # --- lp/mapper.py
    (None, "mapper var helper", [(M, """                variable=self.solver.NumVar(
                    0, float(c.quantity[scn, t]), name="lol=%s %s" % (c.name, suffix)
                ),""", """                variable=self._variable(c.quantity[scn, t], "lol", c.name, suffix),"""),
        (M, """                variable=self.solver.NumVar(
                    0, float(p.quantity[scn, t]), "prod=%s %s" % (p.name, suffix)
                ),""", """                variable=self._variable(p.quantity[scn, t], "prod", p.name, suffix),"""),
        (M, """                variable=self.solver.NumVar(
                    0, float(l.quantity[scn, t]), "link=%s %s" % (l.dest, suffix)
                ),""", """                variable=self._variable(l.quantity[scn, t], "link", l.dest, suffix),"""),
        (M, """    def get_node_var(self""", """    def _variable(self, upper, kind, name, suffix):
        return self.solver.NumVar(0, float(upper), "%s=%s %s" % (kind, name, suffix))

    def get_node_var(self""")]),
    (None, "mapper split methods", [(M, """        links = [
            LPLink(
                dest=l.dest,
                cost=l.cost[scn, t],
                src=node,
                quantity=l.quantity[scn, t],
                variable=self.solver.NumVar(
                    0, float(l.quantity[scn, t]), "link=%s %s" % (l.dest, suffix)
                ),
            )
            for l in in_node.links
        ]
""", """        links = self._links(in_node.links, node, t, scn, suffix)
"""), (M, """    def get_conv_var(self""", """    def _links(self, links, src, t, scn, suffix):
        res = []
        for link in links:
            quantity = link.quantity[scn, t]
            res.append(
                LPLink(
                    src=src,
                    dest=link.dest,
                    cost=link.cost[scn, t],
                    quantity=quantity,
                    variable=self.solver.NumVar(
                        0, float(quantity), f"link={link.dest} {suffix}"
                    ),
                )
            )
        return res

    def get_conv_var(self""")]),
    (None, "conv var loop", [(M, """            var_flow_src={
                src: self.solver.NumVar(
                    0,
                    float(v.max[scn, t] / r),
                    "flow_src %s %s %s" % (v.name, ":".join(src), suffix),
                )
                for src, r in src_ratios.items()
            },""", """            var_flow_src=var_flow_src,"""), (M, """        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
        return LPConverter(""", """        src_ratios = {src: ratio[scn, t] for src, ratio in v.src_ratios.items()}
        top = v.max[scn, t]
        var_flow_src = {}
        for (net, node), ratio in src_ratios.items():
            label = "flow_src %s %s:%s %s" % (v.name, net, node, suffix)
            var_flow_src[(net, node)] = self.solver.NumVar(0, float(top / ratio), label)
        return LPConverter(""")]),
    (None, "set node zip", [(M, """        for i in range(len(vars.storages)):
            out_node.storages[i].capacity[scn, t] = vars.storages[i].var_capacity
            out_node.storages[i].flow_in[scn, t] = vars.storages[i].var_flow_in
            out_node.storages[i].flow_out[scn, t] = vars.storages[i].var_flow_out

        for i in range(len(vars.links)):
            self.networks[network].nodes[node].links[i].quantity[scn, t] = vars.links[
                i
            ].variable
""", """        for out, lp in zip(out_node.storages, vars.storages):
            for attr in ("capacity", "flow_in", "flow_out"):
                getattr(out, attr)[scn, t] = getattr(lp, "var_" + attr)

        for out, lp in zip(out_node.links, vars.links):
            out.quantity[scn, t] = lp.variable
""")]),
    (None, "out mapper loops", [(M, """        def build_nodes(network: InputNetwork):
            return {
                name: OutputNode.build_like_input(input, fill=zeros)
                for name, input in network.nodes.items()
            }

        self.networks = {
            name: OutputNetwork(nodes=build_nodes(network))
            for name, network in study.networks.items()
        }
""", """        self.networks = {}
        for name, network in study.networks.items():
            nodes = {}
            for name_node, in_node in network.nodes.items():
                nodes[name_node] = OutputNode.build_like_input(in_node, fill=zeros)
            self.networks[name] = OutputNetwork(nodes=nodes)
""")]),
    # --- analyzer
    ("C16", "elements helper", [(R, """        elements = sum(
            [
                sum([len(n.consumptions) for n in net.nodes.values()])
                for net in study.networks.values()
            ]
        )
""", """        elements = ResultAnalyzer._count(study, lambda n: n.consumptions)
"""), (R, """        elements = sum(
            [
                sum([len(n.links) for n in net.nodes.values()])
                for net in study.networks.values()
            ]
        )
""", """        elements = ResultAnalyzer._count(study, lambda n: n.links)
"""), (R, """    @staticmethod
    def _build_consumption(""", """    @staticmethod
    def _count(study, get):
        return sum(
            len(get(node))
            for network in study.networks.values()
            for node in network.nodes.values()
        )

    @staticmethod
    def _build_consumption(""")]),
    ("C16", "time columns helper", [(R, """                    cons.loc[slices, "t"] = np.tile(np.arange(h), scn)
                    cons.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
""", """                    ResultAnalyzer._stamp(cons, slices, h, scn)
"""), (R, """                    prod.loc[slices, "t"] = np.tile(np.arange(h), scn)
                    prod.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
""", """                    ResultAnalyzer._stamp(prod, slices, h, scn)
"""), (R, """    @staticmethod
    def _build_consumption(""", """    @staticmethod
    def _stamp(df, rows, h, scn):
        df.loc[rows, "t"] = np.tile(np.arange(h), scn)
        df.loc[rows, "scn"] = np.repeat(np.arange(scn), h)

    @staticmethod
    def _build_consumption(""")]),
    ("C16", "rows per element", [(R, """        n_prod = 0
        for n, net in result.networks.items():
            for node in net.nodes.keys():
                for i, rp in enumerate(net.nodes[node].productions):
                    slices = prod.index[n_prod * h * scn : (n_prod + 1) * h * scn]
                    sp = study.networks[n].nodes[node].productions[i]
""", """        rows = h * scn
        start = 0
        for n, net in result.networks.items():
            for node, out_node in net.nodes.items():
                in_node = study.networks[n].nodes[node]
                for rp, sp in zip(out_node.productions, in_node.productions):
                    slices = prod.index[start : start + rows]
"""), (R, """                    n_prod += 1
""", """                    start += rows
""")]),
    ("C16", "storage fields loop", [(R, """                    stor.loc[slices, "max_capacity"] = study_stor.capacity.flatten()
                    stor.loc[slices, "capacity"] = c.capacity.flatten()
                    stor.loc[slices, "max_flow_in"] = study_stor.flow_in.flatten()
                    stor.loc[slices, "flow_in"] = c.flow_in.flatten()
                    stor.loc[slices, "max_flow_out"] = study_stor.flow_out.flatten()
                    stor.loc[slices, "flow_out"] = c.flow_out.flatten()
""", """                    for field in ["capacity", "flow_in", "flow_out"]:
                        stor.loc[slices, "max_" + field] = getattr(study_stor, field).flatten()
                        stor.loc[slices, field] = getattr(c, field).flatten()
""")]),
    ("C16", "src conv max in loop", [(R, """                src_conv.loc[slices, "max"] = v.max.flatten()
                src_conv.loc[slices, "ratio"] = v.src_ratios[(net, node)].flatten()
""", """                ratio = v.src_ratios[(net, node)].flatten()
                src_conv.loc[slices, "max"] = v.max.flatten() / ratio
                src_conv.loc[slices, "ratio"] = ratio
"""), (R, """        src_conv.loc[:, "max"] /= src_conv[
            "ratio"
        ]  # max value is for output. Need to divide by ratio to find max for src

""", "")]),
    ("C17", "filter table map", [(R, """        if ResultAnalyzer.check_index(indexes, ConsIndex):
            return ResultAnalyzer._pivot(indexes, self.consumption)

        if ResultAnalyzer.check_index(indexes, ProdIndex):
            return ResultAnalyzer._pivot(indexes, self.production)

        if ResultAnalyzer.check_index(indexes, StorIndex):
            return ResultAnalyzer._pivot(indexes, self.storage)

        if ResultAnalyzer.check_index(indexes, LinkIndex):
            return ResultAnalyzer._pivot(indexes, self.link)

        if ResultAnalyzer.check_index(indexes, SrcConverter):
            return ResultAnalyzer._pivot(indexes, self.src_converter)

        if ResultAnalyzer.check_index(indexes, DestConverter):
            return ResultAnalyzer._pivot(indexes, self.dest_converter)
""", """        tables = [
            (ConsIndex, self.consumption),
            (ProdIndex, self.production),
            (StorIndex, self.storage),
            (LinkIndex, self.link),
            (SrcConverter, self.src_converter),
            (DestConverter, self.dest_converter),
        ]
        for type, table in tables:
            if ResultAnalyzer.check_index(indexes, type):
                return ResultAnalyzer._pivot(indexes, table)
""")]),
    ("C17", "pivot mask loop", [(R, """        mask = reduce(lambda a, b: a & b, (i.filter(df) for i in indexes))
        pt = pd.pivot_table(data=df[mask], index=names)
""", """        rows = df
        for index in indexes:
            rows = rows[index.filter(rows)]
        pt = pd.pivot_table(data=rows, index=names)
""")]),
    ("C17", "useless level loop", [(R, """        if (
            len(indexes) > 1
            and indexes[0].is_alone()
            and indexes[0].index[0] in df.index
        ):
            df = df.loc[indexes[0].index[0]].copy()
            return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
        else:
            return df
""", """        for level in indexes[:-1]:
            if not level.is_alone() or level.index[0] not in df.index:
                break
            df = df.loc[level.index[0]].copy()
        return df
""")]),
    ("C20", "cost helper", [(R, """            cost += (
                (prod["used"] * prod["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )
""", """            cost += self._by_step(prod["used"] * prod["cost"])
"""), (R, """            cost += (
                (link["used"] * link["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )
""", """            cost += self._by_step(link["used"] * link["cost"])
"""), (R, """    def get_rac(self""", """    def _by_step(self, series):
        return (
            series.groupby(axis=0, level=("scn", "t"))
            .sum()
            .sort_index(level=(0, 1))
            .values.reshape(self.nb_scn, self.horizon)
        )

    def get_rac(self""")]),
    ("C20", "cost selector once", [(R, """        if c:
            cons = self.network(network).node(node).scn().time().consumption()
""", """        select = self.network(network).node(node).scn().time()
        if c:
            cons = select.consumption()
"""), (R, "            prod = self.network(network).node(node).scn().time().production()\n", "            prod = select.production()\n"), (R, "            stor = self.network(network).node(node).scn().time().storage()\n", "            stor = select.storage()\n")]),
    ("C19", "rac helper", [(R, """        prod_used = (
            self.production[self.production["network"] == network]
            .drop(["avail", "cost"], axis=1)
            .pivot_table(index="scn", columns="t", aggfunc=np.sum)
            .values
        )
        prod_used = fill_width_zeros(prod_used)

        prod_avail = (
            self.production[self.production["network"] == network]
            .drop(["used", "cost"], axis=1)
            .pivot_table(index="scn", columns="t", aggfunc=np.sum)
            .values
        )
        prod_avail = fill_width_zeros(prod_avail)

        cons_asked = (
            self.consumption[self.consumption["network"] == network]
            .drop(["given", "cost"], axis=1)
            .pivot_table(index="scn", columns="t", aggfunc=np.sum)
            .values
        )
        cons_asked = fill_width_zeros(cons_asked)

        cons_given = (
            self.consumption[self.consumption["network"] == network]
            .drop(["asked", "cost"], axis=1)
            .pivot_table(index="scn", columns="t", aggfunc=np.sum)
            .values
        )
        cons_given = fill_width_zeros(cons_given)

        return (prod_avail - prod_used) - (cons_asked - cons_given)
""", """        def total(df, column):
            matrix = (
                df[df["network"] == network][[column, "scn", "t"]]
                .pivot_table(index="scn", columns="t", aggfunc=np.sum)
                .values
            )
            return fill_width_zeros(matrix)

        unused = total(self.production, "avail") - total(self.production, "used")
        missing = total(self.consumption, "asked") - total(self.consumption, "given")
        return unused - missing
""")]),
    ("C19", "balance helper", [(R, """        balance = np.zeros((self.nb_scn, self.study.horizon))

        mask = (self.link["dest"] == node) & (self.link["network"] == network)
        im = pd.pivot_table(
            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if im.size > 0:
            balance += -im["used"].values.reshape(self.nb_scn, self.horizon)

        mask = (self.link["node"] == node) & (self.link["network"] == network)
        exp = pd.pivot_table(
            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        if exp.size > 0:
            balance += exp["used"].values.reshape(self.nb_scn, self.horizon)
        return balance
""", """        return self._flow("node", node, network) - self._flow("dest", node, network)

    def _flow(self, side: str, node: str, network: str) -> np.ndarray:
        on_network = self.link["network"] == network
        links = self.link[(self.link[side] == node) & on_network]
        if links.empty:
            return np.zeros((self.nb_scn, self.horizon))
        pt = pd.pivot_table(
            links[["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
        return pt["used"].values.reshape(self.nb_scn, self.horizon)
""")]),
    ("C20", "elements guard order", [(R, """        size = np.zeros(6)
        # Compute cost over study
        if network is None and node is None:
            for network in self.study.networks.keys():
                size += self.get_elements_inside(network=network)
            return size

        # Compute cost over network
        if network and node is None:
            for node in self.study.networks[network].nodes.keys():
                size += self.get_elements_inside(network=network, node=node)
            return size
""", """        if node is None:
            # Compute over network or over study
            names = self.study.networks.keys() if network is None else [network]
            size = np.zeros(6)
            for net in names:
                for name in self.study.networks[net].nodes:
                    size += self.get_elements_inside(network=net, node=name)
            return size
""")]),
    # --- study
    (None, "unique helper", [(I, """        if prod.name in [
            p.name for p in self.networks[network].nodes[node].productions
        ]:
            raise ValueError("production name must be unique on a node")
""", """        Study._assert_unique(
            prod.name, self.networks[network].nodes[node].productions, "production"
        )
"""), (I, """        if cons.name in [
            c.name for c in self.networks[network].nodes[node].consumptions
        ]:
            raise ValueError("consumption name must be unique on a node")
""", """        Study._assert_unique(
            cons.name, self.networks[network].nodes[node].consumptions, "consumption"
        )
"""), (I, """    def _add_production(""", """    @staticmethod
    def _assert_unique(name, elements, kind):
        if any(e.name == name for e in elements):
            raise ValueError("%s name must be unique on a node" % kind)

    def _add_production(""")]),
    (None, "add link node var", [(I, """        if src not in self.networks[network].nodes.keys():
            raise ValueError("link source must be a valid node")
        if dest not in self.networks[network].nodes.keys():
            raise ValueError("link destination must be a valid node")
        if src == dest:
            raise ValueError("link source and destination must be different")
        if dest in [l.dest for l in self.networks[network].nodes[src].links]:
            raise ValueError("link destination must be unique on a node")

        quantity = self.factory.create(quantity)
        if not quantity >= 0:
            raise ValueError("Link quantity must be positive")

        cost = self.factory.create(cost)
        self.networks[network].nodes[src].links.append(
            Link(dest=dest, quantity=quantity, cost=cost)
        )

        return self
""", """        nodes = self.networks[network].nodes
        for name, role in ((src, "source"), (dest, "destination")):
            if name not in nodes:
                raise ValueError("link %s must be a valid node" % role)
        links = nodes[src].links
        if src == dest:
            raise ValueError("link source and destination must be different")
        if any(link.dest == dest for link in links):
            raise ValueError("link destination must be unique on a node")

        link = Link(
            dest=dest,
            quantity=self.factory.create(quantity),
            cost=self.factory.create(cost),
        )
        if not link.quantity >= 0:
            raise ValueError("Link quantity must be positive")

        links.append(link)
        return self
""")]),
    (None, "positive helper", [(I, """        prod.quantity = self.factory.create(prod.quantity)
        if not prod.quantity >= 0:
            raise ValueError("Production quantity must be positive")
""", """        prod.quantity = self._positive(prod.quantity, "Production")
"""), (I, """        cons.quantity = self.factory.create(cons.quantity)
        if not cons.quantity >= 0:
            raise ValueError("Consumption quantity must be positive")
""", """        cons.quantity = self._positive(cons.quantity, "Consumption")
"""), (I, """    def _add_production(""", """    def _positive(self, quantity, kind):
        value = self.factory.create(quantity)
        if value >= 0:
            return value
        raise ValueError("%s quantity must be positive" % kind)

    def _add_production(""")]),
    (None, "storage fields loop create", [(I, """        store.flow_in = self.factory.create(store.flow_in)
        store.flow_out = self.factory.create(store.flow_out)
        if not (store.flow_in >= 0 and store.flow_out >= 0):
            raise ValueError("storage flow must be positive")

        store.capacity = self.factory.create(store.capacity)
        if not (store.capacity >= 0 and store.init_capacity >= 0):
            raise ValueError("storage capacities must be positive")

        store.eff = self.factory.create(store.eff)
        if not (store.eff >= 0 and store.eff <= 1):
            raise ValueError("storage efficiency must be in ]0, 1[")

        store.cost = self.factory.create(store.cost)
""", """        for field in ("flow_in", "flow_out", "capacity", "eff", "cost"):
            setattr(store, field, self.factory.create(getattr(store, field)))

        if not all(v >= 0 for v in (store.flow_in, store.flow_out)):
            raise ValueError("storage flow must be positive")
        if not (store.capacity >= 0 and store.init_capacity >= 0):
            raise ValueError("storage capacities must be positive")
        if not (store.eff >= 0) or not (store.eff <= 1):
            raise ValueError("storage efficiency must be in ]0, 1[")
""")]),
    (None, "converter dest conv var", [(I, """        cost = self.factory.create(cost)
        max = self.factory.create(max)
        self._add_converter(name=name)
        self.converters[name].dest_network = network
        self.converters[name].dest_node = node
        self.converters[name].cost = cost
        self.converters[name].max = max
""", """        cost, max = self.factory.create(cost), self.factory.create(max)
        self._add_converter(name=name)
        conv = self.converters[name]
        conv.dest_network, conv.dest_node = network, node
        conv.cost = cost
        conv.max = max
""")]),
    (None, "add converter setdefault", [(I, """        if name not in [v for v in self.converters]:
            self.converters[name] = Converter(
                name=name, src_ratios={}, dest_network="", dest_node="", cost=0, max=0
            )
""", """        self.converters.setdefault(
            name,
            Converter(
                name=name, src_ratios={}, dest_network="", dest_node="", cost=0, max=0
            ),
        )
""")]),
    # --- json
    (None, "elements from_json helper", [(I, """        dict["cost"] = factory.create(dict["cost"])
        dict["capacity"] = factory.create(dict["capacity"])
        dict["flow_in"] = factory.create(dict["flow_in"])
        dict["flow_out"] = factory.create(dict["flow_out"])
        dict["eff"] = factory.create(dict["eff"])

        return Storage(**dict)""", """        numerical = ("cost", "capacity", "flow_in", "flow_out", "eff")
        values = {k: factory.create(dict[k]) for k in numerical}
        return Storage(
            name=dict["name"], init_capacity=dict["init_capacity"], **values
        )""")]),
    (None, "node from_json table", [(I, """        dict["consumptions"] = [
            Consumption.from_json(dict=v, factory=factory) for v in dict["consumptions"]
        ]
        dict["productions"] = [
            Production.from_json(dict=v, factory=factory) for v in dict["productions"]
        ]
        dict["storages"] = [
            Storage.from_json(dict=v, factory=factory) for v in dict["storages"]
        ]
        dict["links"] = [Link.from_json(dict=v, factory=factory) for v in dict["links"]]
        return InputNode(**dict)""", """        types = [
            ("consumptions", Consumption),
            ("productions", Production),
            ("storages", Storage),
            ("links", Link),
        ]
        elements = {}
        for field, cls in types:
            elements[field] = [cls.from_json(dict=v, factory=factory) for v in dict[field]]
        return InputNode(**elements)""")]),
    (None, "convert dispatch", [(U, """        if isinstance(value, JSON):
            return value.to_json()
        elif isinstance(value, dict):
            return {k: JSON.convert(v) for k, v in value.items()}
        elif isinstance(value, list) or isinstance(value, tuple):
            return [JSON.convert(v) for v in value]
        elif isinstance(value, np.int64):
            return int(value)
        elif isinstance(value, np.float64):
            return float(value)
        elif isinstance(value, np.ndarray):
            return value.tolist()
        return value
""", """        if isinstance(value, (np.int64, np.float64, np.ndarray)):
            return value.tolist()
        if isinstance(value, (list, tuple)):
            return list(map(JSON.convert, value))
        if isinstance(value, dict):
            return {k: JSON.convert(v) for k, v in value.items()}
        if isinstance(value, JSON):
            return value.to_json()
        return value
""")]),
    (None, "study to_json copy del", [(I, """        return {
            k: JSON.convert(v) for k, v in self.__dict__.items() if k not in ["factory"]
        }
""", """        fields = dict(self.__dict__)
        del fields["factory"]
        return JSON.convert(fields)
""")]),
    (None, "out conv to_json fresh", [(OUT, """        dict = deepcopy(self.__dict__)
        # flow_src has a tuple of two string as key. These forbidden by JSON.
        # Therefore when serialized we join these two strings with '::' to create on string as key
        # Ex: ('elec', 'a') --> 'elec::a'
        dict["flow_src"] = {"::".join(k): v.tolist() for k, v in self.flow_src.items()}
        dict["flow_dest"] = self.flow_dest.tolist()
        return dict
""", """        flow_src = {
            "%s::%s" % (network, node): flow.tolist()
            for (network, node), flow in self.flow_src.items()
        }
        return {
            "name": self.name,
            "flow_src": flow_src,
            "flow_dest": self.flow_dest.tolist(),
        }
""")]),
    # --- numeric
    (None, "factory shapes dict", [(N, """            if value.shape == (self.horizon,):
                return RowNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If horizon are not provide extend each scenario to full horizon
            if value.shape == (self.nb_scn, 1):
                return ColumnNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )
""", """            kinds = (
                ((self.horizon,), RowNumericValue),
                ((self.nb_scn, 1), ColumnNumericValue),
                ((self.nb_scn, self.horizon), MatrixNumericalValue),
            )
            for shape, kind in kinds:
                if value.shape == shape:
                    return kind(value=value, horizon=self.horizon, nb_scn=self.nb_scn)
""")]),
    (None, "index checks helper", [(N, """        i, j = item
        if i >= self.nb_scn:
            raise IndexError(
                "There are %d scenario you ask the %dth" % (self.nb_scn, i)
            )
        if j >= self.horizon:
            raise IndexError(
                "There are %d time step you ask the %dth" % (self.horizon, j)
            )
        return self.value
""", """        scn, t = item
        self._check(scn, self.nb_scn, "scenario")
        self._check(t, self.horizon, "time step")
        return self.value

    @staticmethod
    def _check(index, size, kind):
        if index < size:
            return
        raise IndexError("There are %d %s you ask the %dth" % (size, kind, index))
""")]),
    (None, "flatten full", [(N, "        return np.ones(self.horizon * self.nb_scn) * self.value\n", "        return np.full(self.horizon * self.nb_scn, float(self.value))\n"), (N, "        return np.repeat(self.value.flatten(), self.horizon)\n", "        return np.tile(self.value, (1, self.horizon)).flatten()\n")]),
    # --- pipeline, shuffler
    ("C22", "pipeline zip stages", [(P, """        for i in range(0, len(stages) - 1):
            curr, next = stages[i], stages[i + 1]
            if not self.plug.linkable_to(next.plug):
                raise ValueError(
                    "Pipeline can't be added current outputs are %s and %s has input %s"
                    % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
                )

            self.plug += next.plug
""", """        for curr, next in zip(stages, stages[1:]):
            self._assert_linkable(curr, next)
            self.plug = self.plug + next.plug

    def _assert_linkable(self, curr, next):
        if self.plug.linkable_to(next.plug):
            return
        raise ValueError(
            "Pipeline can't be added current outputs are %s and %s has input %s"
            % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
        )
""")]),
    ("C22", "computable set", [(P, "        return all(i in names for i in self.inputs)\n", "        return set(self.inputs).issubset(names)\n")]),
    ("C22", "linkable not any", [(P, "        return all(e in self.outputs for e in next.inputs)\n", "        missing = [e for e in next.inputs if e not in self.outputs]\n        return len(missing) == 0\n")]),
    ("C23", "focus list concat", [(P, """        output = dict()
        for scn in timeline.columns.get_level_values(0).unique():
            scenario = self._process_scenarios(scn, timeline[scn].copy())
            # declared outputs come first, followed by columns not used by this stage
            names = list(self.plug.outputs)
            names += [name for name in scenario.columns if name not in names]
            output[scn] = scenario[names]
        return pd.concat(output, axis=1)
""", """        serials = timeline.columns.get_level_values(0).unique()
        return pd.concat(
            {scn: self._ordered(scn, timeline[scn].copy()) for scn in serials}, axis=1
        )

    def _ordered(self, scn, data):
        scenario = self._process_scenarios(scn, data)
        others = [c for c in scenario.columns if c not in self.plug.outputs]
        return scenario[list(self.plug.outputs) + others]
""")]),
    ("C23", "rename get", [(P, "        return self.rename[name] if name in self.rename else name\n", "        return self.rename.get(name, name)\n"), (P, "        timeline.columns = timeline.columns.map(lambda i: (i[0], self._rename(i[1])))\n        return timeline\n", "        columns = [(scn, self._rename(name)) for scn, name in timeline.columns]\n        timeline.columns = MultiIndex.from_tuples(columns)\n        return timeline\n")]),
    ("C23", "fault range loop", [(P, """        for begin, duration in zip(faults_begin, faults_duration):
            loss_qt[begin : (begin + duration)] += self.loss
""", """        for i in range(nb_faults):
            begin = faults_begin[i]
            end = begin + faults_duration[i]
            loss_qt[begin:end] += self.loss
""")]),
    ("C23", "repeat loop", [(P, """        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]
        data = scenarios * self.n

        return pd.concat(data, axis=1, keys=range(len(data)))
""", """        data = []
        for _ in range(self.n):
            for scn in Stage.get_scenarios(timeline):
                data.append(timeline[scn])

        return pd.concat(data, axis=1, keys=list(range(len(data))))
""")]),
    ("C24", "compute keep column", [(S, """        drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
        if len(drop_columns) > 0:
            res = res.drop(drop_columns, axis=1, level=1)
        return res.values.T
""", """        names = res.columns.get_level_values(1)
        useless = [name for name in names.unique() if name != TO_SHUFFLER]
        if useless:
            res = res.drop(useless, axis=1, level=1)
        return res.values.T
""")]),
    ("C24", "shuffle jobs list", [(S, """        with multiprocessing.Pool() as pool:
            res = pool.map(
                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
            )
        return dict(res)
""", """        jobs = [(timeline, nb_scn, name) for name, timeline in self.timelines.items()]
        with multiprocessing.Pool() as pool:
            sampled = pool.map(compute, jobs)
        return {name: data for name, data in sampled}
""")]),
    # --- remote
    ("C15", "remote ask helper", [(RO, """    while resp["status"] in ["QUEUED", "COMPUTING"]:
        resp = requests.get(
            url="%s/api/v1/result/%s" % (url, id), params={"token": token}
        )
        check_code(resp.status_code)
        resp = resp.json()
""", """    while resp["status"] in ("QUEUED", "COMPUTING"):
        resp = _poll(url, id, token)
"""), (RO, """def solve_remote(""", """def _poll(url, job, token):
    resp = requests.get(url="%s/api/v1/result/%s" % (url, job), params={"token": token})
    check_code(resp.status_code)
    return resp.json()


def solve_remote(""")]),
    ("C15", "remote check table", [(RO, """    if code == 404:
        raise ValueError("Can't find server url")
    if code == 403:
        raise ValueError("Wrong token given")
    if code == 500:
        raise IOError("Error has occurred on remote server")
    if code >= 400:
        raise IOError("Remote server has answered with error code %d" % code)
""", """    errors = {
        404: ValueError("Can't find server url"),
        403: ValueError("Wrong token given"),
        500: IOError("Error has occurred on remote server"),
    }
    if code in errors:
        raise errors[code]
    if code >= 400:
        raise IOError("Remote server has answered with error code %d" % code)
""")]),
    # --- html
    ("C31", "stack helper", [(H, """        stack = np.zeros_like(self.time_index, dtype=float)
        stacked_lines = []
        for i, (name, data) in enumerate(lines):
            stack += data
            stacked_lines.append((name, stack.copy()))

        for i, (name, data) in enumerate(stacked_lines[::-1]):
""", """        stack = np.zeros_like(self.time_index, dtype=float)
        stacked_lines = []
        for name, data in lines:
            stack = stack + data
            stacked_lines.append((name, stack))

        for i, (name, data) in enumerate(reversed(stacked_lines)):
""")]),
    ("C31", "matrix where", [(H, """        def sdt(x):
            if (x > 0).any():
                x[x > 0] /= np.max(x[x > 0])
            if (x < 0).any():
                x[x < 0] /= -np.min(x[x < 0])
            return x
""", """        def sdt(x):
            for side in (x > 0, x < 0):
                if side.any():
                    x[side] /= np.abs(x[side]).max()
            return x
""")]),
    ("C31", "monotone sorted", [(H, "        y.sort()\n        y = y[::-1]\n", "        y = np.sort(y)[::-1]\n")]),
    ("C31", "timeline groups", [(H, """        fig.update_layout(
            title_text=title,
            yaxis_title="Quantity %s" % self.unit,
            xaxis_title="time",
            showlegend=False,
        )

        return fig

    def monotone""", """        return self._finish(fig, title, "time")

    def _finish(self, fig, title, xaxis):
        fig.update_layout(
            title_text=title,
            yaxis_title="Quantity %s" % self.unit,
            xaxis_title=xaxis,
            showlegend=False,
        )
        return fig

    def monotone""")]),
]
