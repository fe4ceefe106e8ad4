S = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
POOL = "        with multiprocessing.Pool() as pool:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n"
CASES = [
    (None, "pool try finally", [(S, POOL, "        pool = multiprocessing.Pool()\n        try:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n        finally:\n            pool.terminate()\n            pool.join()\n")]),
    (None, "tasks list", [(S, POOL, "        tasks = []\n        for name in self.timelines:\n            tasks.append((self.timelines[name], nb_scn, name))\n        with multiprocessing.Pool() as pool:\n            res = pool.map(compute, tasks)\n"), (S, "        return dict(res)", "        return {n: d for n, d in res}")]),
    (None, "dict loop", [(S, "        return dict(res)", "        out = {}\n        for name, data in res:\n            out[name] = data\n        return out")]),
    (None, "len of data", [(S, "sampling = self.sampler(0, self.data.shape[0], nb)\n        return self.data[sampling]", "nb_rows = len(self.data)\n        rows = self.sampler(0, nb_rows, nb)\n        return self.data[rows]")]),
    (None, "tmp seed", [(S, "    np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))\n", "    _reseed()\n"), (S, "def compute(params):", "def _reseed():\n    seed = int.from_bytes(os.urandom(4), byteorder=\"little\")\n    np.random.seed(seed)\n\n\ndef compute(params):")]),
    (None, "seed none", [(S, "np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))", "np.random.seed()")]),
    (None, "xs", [(S, "        drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)\n        if len(drop_columns) > 0:\n            res = res.drop(drop_columns, axis=1, level=1)\n        return res.values.T", "        return res.xs(TO_SHUFFLER, axis=1, level=1).values.T")]),
    (None, "drop always", [(S, "        if len(drop_columns) > 0:\n            res = res.drop(drop_columns, axis=1, level=1)\n", "        res = res.drop(columns=drop_columns, level=1)\n")]),
    (None, "mask", [(S, "        drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)\n        if len(drop_columns) > 0:\n            res = res.drop(drop_columns, axis=1, level=1)\n        return res.values.T", "        return res.loc[:, res.columns.get_level_values(1) == TO_SHUFFLER].T.to_numpy()")]),
    (None, "if not empty", [(S, "if len(drop_columns) > 0:", "if not drop_columns.empty:")]),
    (None, "lambda task", [(S, "return name, tl.sample(nb)", "sampled = tl.sample(nb)\n    result = (name, sampled)\n    return result")]),
    (None, "computed var", [(S, "        if self.data is None:\n            self.data = self.compute()\n\n        sampling = self.sampler(0, self.data.shape[0], nb)\n        return self.data[sampling]", "        data = self.data\n        if data is None:\n            data = self.compute()\n            self.data = data\n        (size, _) = data.shape\n        return data[self.sampler(0, size, nb)]")]),
]
CASES += [
    (None, "subset", [(P, "return all(e in self.outputs for e in next.inputs)", "return set(next.inputs).issubset(self.outputs)"), (P, "return all(i in names for i in self.inputs)", "return set(self.inputs) <= set(names)")]),
    (None, "loops", [(P, "return all(e in self.outputs for e in next.inputs)", "for e in next.inputs:\n            if e not in self.outputs:\n                return False\n        return True"), (P, "return all(i in names for i in self.inputs)", "return not [i for i in self.inputs if i not in names]")]),
    (None, "merged loop", [(P, "outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]", "outputs = list(next.outputs)\n        for e in self.outputs:\n            if e not in next.inputs:\n                outputs.append(e)")]),
    (None, "merged reversed", [(P, "outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]", "remaining = [e for e in self.outputs if e not in next.inputs]\n        outputs = remaining + next.outputs")]),
    (None, "zip stages", [(P, "for i in range(0, len(stages) - 1):\n            curr, next = stages[i], stages[i + 1]\n            if", "for curr, next in zip(stages[:-1], stages[1:]):\n            if")]),
    (None, "for next", [(P, "for i in range(0, len(stages) - 1):\n            curr, next = stages[i], stages[i + 1]\n            if", "for next in stages[1:]:\n            curr = next\n            if"), (P, "self.plug += next.plug", "self.plug = self.plug + next.plug")]),
    (None, "local plug", [(P, "            self.plug += next.plug\n", "            self.plug = self.plug.__add__(next.plug)\n")]),
    (None, "inline stage check", [(P, "        names = Stage.get_names(timeline)\n        if not self.plug.computable(names):\n            raise ValueError(\n                \"Stage accept", "        names = Stage.get_names(timeline)\n        missing = [i for i in self.plug.inputs if i not in names]\n        if missing:\n            raise ValueError(\n                \"Stage accept")]),
    (None, "helper check", [(P, "        names = Stage.get_names(timeline)\n        if not self.plug.computable(names):\n            raise ValueError(\n                \"Stage accept %s in input, but receive %s\" % (self.plug.inputs, names)\n            )\n", "        self._check(timeline)\n"), (P, "    @staticmethod\n    def standardize_column(", "    def _check(self, timeline):\n        names = Stage.get_names(timeline)\n        if self.plug.computable(names):\n            return\n        raise ValueError(\n            \"Stage accept %s in input, but receive %s\" % (self.plug.inputs, names)\n        )\n\n    @staticmethod\n    def standardize_column(")]),
    (None, "add two steps", [(P, "return Pipeline(stages=self.stages + [other])", "stages = list(self.stages)\n        stages.append(other)\n        return Pipeline(stages=stages)")]),
    (None, "star", [(P, "return Pipeline(stages=self.stages + [other])", "return Pipeline([*self.stages, other])")]),
    (None, "deepcopy plug", [(P, "        if isinstance(next, FreePlug):\n            return self\n", "        if isinstance(next, FreePlug):\n            return deepcopy(self)\n")]),
]
