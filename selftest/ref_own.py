R = "hadar/analyzer/result.py"
O = "hadar/optimizer/lp/optimizer.py"
I = "hadar/optimizer/domain/input.py"
A = "hadar/viewer/abc.py"
OUT = "hadar/optimizer/domain/output.py"
H = "hadar/viewer/html.py"
APP = "        indexes = deepcopy(self.indexes) + [index]\n"
CASES = [(p, n, e) for p, n, e in [
    ("C14", "given copy scaled", [(R, "                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n", "                    given = rc.quantity.copy()\n                    given *= 1.0\n                    cons.loc[slices, \"given\"] = given.flatten()\n")]),
    ("C14", "given flat edited", [(R, "                    cons.loc[slices, \"given\"] = rc.quantity.flatten()\n", "                    given = rc.quantity.flatten()\n                    given += 0\n                    cons.loc[slices, \"given\"] = given\n")]),
    ("C14", "query table copied", [(R, "        names = [i.column for i in indexes]\n        mask", "        df = df.copy()\n        df.sort_values([\"scn\", \"t\"], inplace=True)\n        names = [i.column for i in indexes]\n        mask")]),
    ("C14", "query subset edited", [(R, "        pt = pd.pivot_table(data=df[mask], index=names)\n", "        kept = df[mask].copy()\n        kept.reset_index(drop=True, inplace=True)\n        pt = pd.pivot_table(data=kept, index=names)\n")]),
    ("C14", "balance memo", [(R, "        balance = np.zeros((self.nb_scn, self.study.horizon))\n", "        self._asked = (node, network)\n        balance = np.zeros((self.nb_scn, self.study.horizon))\n")]),
    ("C14", "stack sorts copy", [(A, "                data.sort_values(sort_col, ascending=False, inplace=True)\n", "                data = data.sort_values(sort_col, ascending=False)\n")]),
    ("C14", "monotone copy", [(H, "        y.sort()\n        y = y[::-1]\n", "        y = np.sort(y)[::-1]\n")]),
    ("C14", "like input sorted copy", [(OUT, "        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n", "        names = [l.dest for l in input.links]\n        names.sort()\n        output = OutputNode(consumptions=[], productions=[], storages=[], links=[])\n")]),
    ("C14", "solve local names", [(O, "    out_mapper = out_mapper or OutputMapper(study)\n", "    names = list(study.networks)\n    names.sort()\n    out_mapper = out_mapper or OutputMapper(study)\n")]),
    ("C14", "solve networks copy", [(O, "    out_mapper = out_mapper or OutputMapper(study)\n", "    nets = dict(study.networks)\n    nets.pop(\"unused\", None)\n    out_mapper = out_mapper or OutputMapper(study)\n")]),
    ("C18", "query list copy", [(R, APP, "        indexes = list(self.indexes) + [index]\n")]),
    ("C18", "query star", [(R, APP, "        indexes = [*self.indexes, index]\n")]),
    ("C18", "query copy append", [(R, APP, "        indexes = deepcopy(self.indexes)\n        indexes.append(index)\n")]),
    ("C18", "query slice append", [(R, APP, "        indexes = self.indexes[:]\n        indexes.append(index)\n")]),
    ("C18", "query plus", [(R, APP, "        indexes = self.indexes + [index]\n")]),
    ("C18", "node dict copy", [(I, "        return NodeFluentAPISelector(self.study, {**self.selector, \"node\": name})\n", "        selector = dict(self.selector)\n        selector[\"node\"] = name\n        return NodeFluentAPISelector(self.study, selector)\n")]),
    ("C18", "node dict kw", [(I, "        return NodeFluentAPISelector(self.study, {**self.selector, \"node\": name})\n", "        return NodeFluentAPISelector(self.study, dict(self.selector, node=name))\n")]),
    ("C18", "node network direct", [(I, "        return NetworkFluentAPISelector(selector={}, study=self.study).network(name)\n", "        return self.study.network(name)\n")]),
    ("C18", "link returns self", [(I, "        return NetworkFluentAPISelector(self.study, self.selector)\n", "        return self\n")]),
    ("C18", "selector copied at init", [(I, "    def __init__(self, study, selector):\n        self.study = study\n        self.selector = selector\n", "    def __init__(self, study, selector):\n        self.study = study\n        self.selector = dict(selector)\n")]),
    ("C18", "plot node positional", [(A, "        return NodeFluentAPISelector(\n            plotting=self.plotting, agg=self.agg, node=node, network=self.network\n        )", "        return NodeFluentAPISelector(self.plotting, self.agg, self.network, node)")]),
    ("C18", "plot count", [(A, "        return NodeFluentAPISelector(\n            plotting=self.plotting, agg=self.agg, node=node, network=self.network\n        )", "        self.count = getattr(self, \"count\", 0) + 1\n        return NodeFluentAPISelector(self.plotting, self.agg, self.network, node)")]),
]]
