S = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
CLIP = "        return timeline.clip(lower=self.lower, upper=self.upper)\n"
REN = "        timeline.columns = timeline.columns.map(lambda i: (i[0], self._rename(i[1])))\n        return timeline\n"
DROP = "        return timeline.drop(self.names, axis=1, level=1)\n"
REP = "        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]\n        data = scenarios * self.n\n\n        return pd.concat(data, axis=1, keys=range(len(data)))\n"
NAMES = "            names = list(self.plug.outputs)\n            names += [name for name in scenario.columns if name not in names]\n            output[scn] = scenario[names]\n"
SEED = "        if self.seed is not None:\n            np.random.seed(self.seed)\n"
LOOP = "        for begin, duration in zip(faults_begin, faults_duration):\n            loss_qt[begin : (begin + duration)] += self.loss\n"
CASES = [
    ("C23", "clip swapped", [(P, CLIP, "        return timeline.clip(lower=self.upper, upper=self.lower)\n")]),
    ("C23", "clip lower or 0", [(P, "        self.lower = lower\n", "        self.lower = lower or None\n")]),
    ("C23", "clip upper only if truthy", [(P, CLIP, "        if self.lower:\n            timeline = timeline.clip(lower=self.lower)\n        return timeline.clip(upper=self.upper)\n")]),
    ("C23", "clip first column", [(P, CLIP, "        first = timeline.columns[0]\n        timeline[first] = timeline[first].clip(lower=self.lower, upper=self.upper)\n        return timeline\n")]),
    ("C23", "clip where strict", [(P, CLIP, "        return timeline.clip(lower=self.lower)\n")]),
    ("C23", "rename both levels", [(P, REN, "        return timeline.rename(columns=self.rename)\n"), ]) if False else
    ("C23", "rename first scenario", [(P, REN, "        first = timeline.columns[0][0]\n        timeline.columns = timeline.columns.map(lambda i: (i[0], self._rename(i[1])) if i[0] == first else i)\n        return timeline\n")]),
    ("C23", "rename chains", [(P, "        return self.rename[name] if name in self.rename else name\n", "        for old, new in self.rename.items():\n            if name == old:\n                name = new\n        return name\n")]),
    ("C23", "rename to zero", [(P, REN, "        timeline.columns = timeline.columns.map(lambda i: (0, self._rename(i[1])))\n        return timeline\n")]),
    ("C23", "rename only columns named", [(P, REN, "        timeline.columns = timeline.columns.map(lambda i: (i[0], self._rename(i[1])))\n        return timeline[[c for c in timeline.columns if c[1] in self.rename.values()]]\n")]),
    ("C23", "drop level 0", [(P, DROP, "        return timeline.drop(self.names, axis=1, level=0)\n")]),
    ("C23", "drop keeps", [(P, DROP, "        return timeline.loc[:, timeline.columns.get_level_values(1).isin(self.names)]\n")]),
    ("C23", "drop only scenario 0", [(P, DROP, "        return timeline.drop([(0, n) for n in self.names], axis=1)\n")]),
    ("C23", "drop first name", [(P, DROP, "        return timeline.drop(self.names[0], axis=1, level=1)\n")]),
    ("C23", "repeat columns not scenarios", [(P, REP, "        n_scn = Stage.get_scenarios(timeline).size\n        names = Stage.get_names(timeline)\n        data = pd.concat([timeline] * self.n, axis=1)\n        data.columns = Stage.build_multi_index(range(self.n * n_scn), names)\n        return data\n")]),
    ("C23", "repeat duplicate labels", [(P, REP, "        return pd.concat([timeline] * self.n, axis=1)\n")]),
    ("C23", "repeat one less", [(P, "        data = scenarios * self.n\n", "        data = scenarios * (self.n - 1)\n")]),
    ("C23", "repeat one more", [(P, "        data = scenarios * self.n\n", "        data = scenarios * (self.n + 1)\n")]),
    ("C23", "repeat starts at one", [(P, "keys=range(len(data))", "keys=range(1, len(data) + 1)")]),
    ("C23", "focus only outputs", [(P, NAMES, "            output[scn] = scenario[list(self.plug.outputs)]\n")]),
    ("C23", "focus first scenario", [(P, "            output[scn] = scenario[names]\n", "            output.setdefault(0, scenario[names])\n")]),
    ("C23", "focus hands first scenario", [(P, "timeline[scn].copy()", "timeline[timeline.columns[0][0]].copy()")]),
    ("C23", "focus number", [(P, "        for scn in timeline.columns.get_level_values(0).unique():\n            scenario", "        for n, scn in enumerate(timeline.columns.get_level_values(0).unique()):\n            scenario"), (P, "output[scn] = scenario[names]", "output[n] = scenario[names]")]),
    ("C23", "fault seed truthy", [(P, "        if self.seed is not None:\n", "        if self.seed:\n")]),
    ("C23", "fault seed late", [(P, SEED, ""), (P, "        loss_qt = np.zeros(horizon)\n", "        if self.seed is not None:\n            np.random.seed(self.seed)\n        loss_qt = np.zeros(horizon)\n")]),
    ("C23", "fault seed before only first scenario", [(P, SEED, "        if self.seed is not None and n_scn == 0:\n            np.random.seed(self.seed)\n")]),
    ("C23", "fault no accumulation", [(P, "loss_qt[begin : (begin + duration)] += self.loss", "loss_qt[begin : (begin + duration)] = self.loss")]),
    ("C23", "fault one step longer", [(P, "loss_qt[begin : (begin + duration)]", "loss_qt[begin : (begin + duration + 1)]")]),
    ("C23", "fault from start", [(P, "loss_qt[begin : (begin + duration)]", "loss_qt[: (begin + duration)]")]),
    ("C23", "fault wraps", [(P, "loss_qt[begin : (begin + duration)]", "loss_qt[begin - 1 : (begin + duration)]")]),
    ("C23", "fault adds", [(P, 'scenario["quantity"] -= loss_qt', 'scenario["quantity"] += loss_qt')]),
    ("C23", "fault all columns", [(P, '        scenario["quantity"] -= loss_qt\n', '        scenario = scenario.sub(loss_qt, axis=0)\n')]),
    ("C23", "fault frequency inverted", [(P, "p=[1 - self.occur_freq, self.occur_freq]", "p=[self.occur_freq, 1 - self.occur_freq]")]),
    ("C23", "fault durations from zero", [(P, "low=self.downtime_min, high=self.downtime_max", "low=0, high=self.downtime_max")]),
    ("C23", "fault proportional", [(P, 'scenario["quantity"] -= loss_qt', 'scenario["quantity"] *= 1 - loss_qt')]),
    ("C23", "standardize loses order", [(P, "MultiIndex.from_arrays([np.zeros_like(columns), columns])", "MultiIndex.from_arrays([columns, np.zeros_like(columns)])")]),
    ("C23", "reseed constant after", [(P, "        loss_qt = np.zeros(horizon)\n", "        loss_qt = np.zeros(horizon)\n        np.random.seed(int.from_bytes(os.urandom(4), byteorder=\"little\"))\n")]),
]
