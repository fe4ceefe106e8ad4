S = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
CASES = [
    ("C24", "last row never drawn", [(S, "self.sampler(0, self.data.shape[0], nb)", "self.sampler(0, self.data.shape[0] - 1, nb)")]),
    ("C24", "range by horizon", [(S, "self.sampler(0, self.data.shape[0], nb)", "self.sampler(0, self.data.shape[1], nb)")]),
    ("C24", "first row never drawn", [(S, "self.sampler(0, self.data.shape[0], nb)", "self.sampler(1, self.data.shape[0], nb)")]),
    ("C24", "columns drawn", [(S, "return self.data[sampling]", "return self.data[:, sampling]")]),
    ("C24", "not transposed", [(S, "return res.values.T", "return res.values")]),
    ("C24", "no drop", [(S, "            res = res.drop(drop_columns, axis=1, level=1)\n", "            pass\n")]),
    ("C24", "no reseed", [(S, "    np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))\n", "")]),
    ("C24", "seed at import", [(S, "def compute(params):", "_SEED = int.from_bytes(os.urandom(4), byteorder=\"little\")\n\n\ndef compute(params):"), (S, "np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))", "np.random.seed(_SEED)")]),
    ("C24", "seed by clock", [(S, "np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))", "import time\n    np.random.seed(int(time.time()))")]),
    ("C24", "reseed after draw", [(S, "    np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))\n\n    tl, nb, name = params\n    return name, tl.sample(nb)", "    tl, nb, name = params\n    r = tl.sample(nb)\n    np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))\n    return name, r")]),
    ("C24", "own sampler lost", [(S, "TimelinePipeline(data, pipeline, sampler=self.sampler)", "TimelinePipeline(data, pipeline)")]),
    ("C24", "data sampler lost", [(S, "Timeline(data, sampler=self.sampler)", "Timeline(data)")]),
    ("C24", "one more", [(S, "((tl, nb_scn, name)", "((tl, nb_scn + 1, name)")]),
    ("C24", "one draw shared", [(S, "compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())", "compute, ((list(self.timelines.values())[0], nb_scn, name) for name, tl in self.timelines.items())")]),
    ("C26", "pool closed only on success", [(S, "        with multiprocessing.Pool() as pool:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n", "        pool = multiprocessing.Pool()\n        res = pool.map(\n            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n        )\n        pool.close()\n        pool.join()\n")]),
    ("C26", "pool leaked", [(S, "        with multiprocessing.Pool() as pool:\n            res = pool.map(\n                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n            )\n", "        res = multiprocessing.Pool().map(\n            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())\n        )\n")]),
]
CASES += [
    ("C21", "any input", [(P, "return all(e in self.outputs for e in next.inputs)", "return any(e in self.outputs for e in next.inputs)")]),
    ("C21", "reverse inclusion", [(P, "return all(e in self.outputs for e in next.inputs)", "return all(e in next.inputs for e in self.outputs)")]),
    ("C21", "free not linkable", [(P, "        if isinstance(next, FreePlug):\n            return True\n        return all", "        if isinstance(next, FreePlug) and self.outputs:\n            return True\n        return all")]),
    ("C21", "consumed kept", [(P, "[e for e in self.outputs if e not in next.inputs]", "[e for e in self.outputs if e not in next.outputs]")]),
    ("C21", "unused lost", [(P, "outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]", "outputs = next.outputs")]),
    ("C21", "inputs replaced", [(P, "return RestrictedPlug(inputs=self.inputs, outputs=outputs)", "return RestrictedPlug(inputs=next.inputs, outputs=outputs)")]),
    ("C21", "free plus restricted is free", [(P, "        if not isinstance(other, FreePlug):\n            return deepcopy(other)\n        return deepcopy(self)", "        return deepcopy(self)")]),
    ("C21", "only adjacent", [(P, "if not self.plug.linkable_to(next.plug):\n                raise", "if not curr.plug.linkable_to(next.plug):\n                raise")]),
    ("C21", "last link unchecked", [(P, "for i in range(0, len(stages) - 1):\n            curr, next = stages[i], stages[i + 1]\n            if not self", "for i in range(0, len(stages) - 1):\n            curr, next = stages[i], stages[i + 1]\n            if i < len(stages) - 2 and not self")]),
    ("C21", "computable any", [(P, "return all(i in names for i in self.inputs)", "return any(i in names for i in self.inputs) or not self.inputs")]),
    ("C21", "computable level", [(P, "return timeline.columns.get_level_values(1).unique().values", "return timeline.columns.get_level_values(0).unique().values")]),
    ("C21", "stage check after", [(P, "        names = Stage.get_names(timeline)\n        if not self.plug.computable(names):\n            raise ValueError(\n                \"Stage accept", "        out = self._process_timeline(timeline.copy())\n        names = Stage.get_names(timeline)\n        if not self.plug.computable(names):\n            raise ValueError(\n                \"Stage accept")]),
    ("C21", "pipeline no check", [(P, "        self.assert_computable(timeline)\n\n", "")]),
    ("C21", "shuffler no check", [("hadar/workflow/shuffler.py", "        pipeline.assert_to_shuffler()\n", "")]),
    ("C21", "shuffler inputs", [(P, "if TO_SHUFFLER not in self.plug.outputs:", "if TO_SHUFFLER not in self.plug.outputs + self.plug.inputs:")]),
    ("C21", "store first", [("hadar/workflow/shuffler.py", "        data = Stage.standardize_column(data)\n        pipeline.assert_computable(data)\n        pipeline.assert_to_shuffler()\n\n        self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)", "        data = Stage.standardize_column(data)\n        self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)\n        pipeline.assert_computable(data)\n        pipeline.assert_to_shuffler()\n")]),
    ("C21", "drop without inputs", [(P, "Stage.__init__(self, plug=RestrictedPlug(inputs=names))", "Stage.__init__(self, plug=RestrictedPlug(outputs=names))")]),
    ("C21", "log only", [(P, "            raise ValueError(\n                \"Pipeline accept %s in input, but receive %s\"\n                % (self.plug.inputs, names)\n            )", "            print(\n                \"Pipeline accept %s in input, but receive %s\"\n                % (self.plug.inputs, names)\n            )")]),
]
