S = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
CLIP = "        return timeline.clip(lower=self.lower, upper=self.upper)\n"
REN = "        timeline.columns = timeline.columns.map(lambda i: (i[0], self._rename(i[1])))\n        return timeline\n"
DROP = "        return timeline.drop(self.names, axis=1, level=1)\n"
REP = "        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]\n        data = scenarios * self.n\n\n        return pd.concat(data, axis=1, keys=range(len(data)))\n"
NAMES = "            names = list(self.plug.outputs)\n            names += [name for name in scenario.columns if name not in names]\n            output[scn] = scenario[names]\n"
SEED = "        if self.seed is not None:\n            np.random.seed(self.seed)\n"
LOOP = "        for begin, duration in zip(faults_begin, faults_duration):\n            loss_qt[begin : (begin + duration)] += self.loss\n"
CASES = [
    ("C23", "clip twice", [(P, CLIP, "        if self.lower is not None:\n            timeline = timeline.clip(lower=self.lower)\n        if self.upper is not None:\n            timeline = timeline.clip(upper=self.upper)\n        return timeline\n")]),
    ("C23", "clip positional", [(P, CLIP, "        return timeline.clip(self.lower, self.upper)\n")]),
    ("C23", "clip helper", [(P, CLIP, "        bounds = {\"lower\": self.lower, \"upper\": self.upper}\n        return timeline.clip(**bounds)\n")]),
    ("C23", "rename loop", [(P, REN, "        columns = [(scn, self._rename(name)) for scn, name in timeline.columns]\n        timeline.columns = MultiIndex.from_tuples(columns)\n        return timeline\n")]),
    ("C23", "rename get", [(P, "        return self.rename[name] if name in self.rename else name\n", "        return self.rename.get(name, name)\n")]),
    ("C23", "rename if", [(P, "        return self.rename[name] if name in self.rename else name\n", "        if name in self.rename:\n            return self.rename[name]\n        return name\n")]),
    ("C23", "rename level", [(P, REN, "        return timeline.rename(columns=self.rename, level=1)\n")]),
    ("C23", "drop columns", [(P, DROP, "        return timeline.drop(columns=self.names, level=1)\n")]),
    ("C23", "drop mask", [(P, DROP, "        keep = ~timeline.columns.get_level_values(1).isin(self.names)\n        return timeline.loc[:, keep]\n")]),
    ("C23", "drop list comp", [(P, DROP, "        keep = [c for c in timeline.columns if c[1] not in self.names]\n        return timeline[keep]\n")]),
    ("C23", "drop inplace", [(P, DROP, "        timeline.drop(self.names, axis=1, level=1, inplace=True)\n        return timeline\n")]),
    ("C23", "repeat dict", [(P, REP, "        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]\n        data = {}\n        for i in range(self.n):\n            for j, scn in enumerate(scenarios):\n                data[i * len(scenarios) + j] = scn\n        return pd.concat(data, axis=1)\n")]),
    ("C23", "repeat comp", [(P, "        data = scenarios * self.n\n", "        data = [scn for _ in range(self.n) for scn in scenarios]\n")]),
    ("C23", "repeat other order", [(P, "        data = scenarios * self.n\n", "        data = [scn for scn in scenarios for _ in range(self.n)]\n")]),
    ("C23", "repeat keys", [(P, "keys=range(len(data))", "keys=list(range(self.n * len(scenarios)))")]),
    ("C23", "focus order", [(P, NAMES, "            output[scn] = scenario\n")]),
    ("C23", "focus loop", [(P, NAMES, "            names = list(self.plug.outputs)\n            for name in scenario.columns:\n                if name not in names:\n                    names.append(name)\n            output[scn] = scenario[names]\n")]),
    ("C23", "focus list", [(P, "        output = dict()\n", "        output, keys = [], []\n"), (P, "            output[scn] = scenario[names]\n        return pd.concat(output, axis=1)\n", "            output.append(scenario[names])\n            keys.append(scn)\n        return pd.concat(output, axis=1, keys=keys)\n")]),
    ("C23", "focus get_scenarios", [(P, "        for scn in timeline.columns.get_level_values(0).unique():\n            scenario", "        for scn in Stage.get_scenarios(timeline):\n            scenario")]),
    ("C23", "fault index", [(P, LOOP, "        for i in range(nb_faults):\n            start = faults_begin[i]\n            loss_qt[start : start + faults_duration[i]] += self.loss\n")]),
    ("C23", "fault slice min", [(P, LOOP, "        for begin, duration in zip(faults_begin, faults_duration):\n            end = min(begin + duration, horizon)\n            loss_qt[begin:end] += self.loss\n")]),
    ("C23", "fault quantity assign", [(P, 'scenario["quantity"] -= loss_qt', 'scenario["quantity"] = scenario["quantity"] - loss_qt')]),
    ("C23", "fault len", [(P, "        horizon = scenario.shape[0]\n", "        horizon = len(scenario)\n")]),
    ("C23", "fault no copy flag", [(P, "        scenario._is_copy = False  # Avoid SettingCopyWarning\n", "")]),
    ("C23", "fault helper", [(P, SEED, "        self._reset_seed()\n"), (P, "class RepeatScenario", "def _unused():\n    pass\n\n\nclass RepeatScenario"), (P, "    def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:\n        self._reset_seed()", "    def _reset_seed(self):\n        if self.seed is not None:\n            np.random.seed(self.seed)\n\n    def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:\n        self._reset_seed()")]),
    ("C23", "fault seed early return", [(P, "        loss_qt = np.zeros(horizon)\n", "        if nb_faults == 0:\n            return scenario\n        loss_qt = np.zeros(horizon)\n")]),
]

CASES += [
    ("C23", "seen loop", [(P, "        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]\n", "        seen = []\n        for scn in timeline.columns.get_level_values(0):\n            if scn not in seen:\n                seen.append(scn)\n        scenarios = [timeline[scn] for scn in seen]\n")]),
    ("C23", "fromkeys", [(P, "        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]\n", "        scenarios = [timeline[scn] for scn in dict.fromkeys(timeline.columns.get_level_values(0))]\n")]),
    ("C23", "list fromkeys", [(P, "        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]\n", "        scenarios = [timeline[scn] for scn in list(dict.fromkeys(timeline.columns.get_level_values(0)))]\n")]),
    ("C23", "names fromkeys", [(P, "            names = list(self.plug.outputs)\n            names += [name for name in scenario.columns if name not in names]\n", "            names = list(dict.fromkeys(list(self.plug.outputs) + list(scenario.columns)))\n")]),
]
