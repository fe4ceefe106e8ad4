S = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
CASES = [
    ("C22", "stage no copy", [(P, "return self._process_timeline(timeline.copy())", "return self._process_timeline(timeline)")]),
    ("C22", "shallow copy", [(P, "return self._process_timeline(timeline.copy())", "return self._process_timeline(timeline.copy(deep=False))")]),
    ("C22", "std no copy", [(P, "            timeline = timeline.copy()\n            timeline.columns = Multi", "            timeline.columns = Multi")]),
    ("C22", "std shallow copy", [(P, "            timeline = timeline.copy()\n            timeline.columns = Multi", "            timeline = timeline[:]\n            timeline.columns = Multi")]),
    ("C22", "copy only when wide", [(P, "return self._process_timeline(timeline.copy())", "return self._process_timeline(timeline.copy() if len(names) > 1 else timeline)")]),
    ("C22", "append to shared list", [(P, "        return Pipeline(stages=self.stages + [other])", "        stages = self.stages\n        stages.append(other)\n        return Pipeline(stages=stages)")]),
    ("C22", "iadd list", [(P, "        return Pipeline(stages=self.stages + [other])", "        stages = self.stages\n        stages += [other]\n        return Pipeline(stages=stages)")]),
    ("C22", "returns self", [(P, "        return Pipeline(stages=self.stages + [other])", "        self.stages = self.stages + [other]\n        self.plug = self.plug + other.plug\n        return self")]),
    ("C22", "stage prepended", [(P, "Pipeline(stages=self.stages + [other])", "Pipeline(stages=[other] + self.stages)")]),
    ("C22", "swap", [(P, "return Pipeline(stages=[self, other])", "return Pipeline(stages=[other, self])")]),
    ("C22", "last only", [(P, "            timeline = stage(timeline.copy())", "            out = stage(timeline.copy())\n        timeline = out")]),
    ("C22", "skip repeated stage", [(P, "        for stage in self.stages:\n", "        for stage in self.stages[:1] + self.stages[2:]:\n")]),
    ("C22", "reversed", [(P, "        for stage in self.stages:\n", "        for stage in reversed(self.stages):\n")]),
    ("C22", "plug outputs extended in place", [(P, "            self.plug += next.plug\n", "            if isinstance(self.plug, RestrictedPlug) and isinstance(next.plug, RestrictedPlug):\n                self.plug.outputs += [o for o in next.plug.outputs if o not in self.plug.outputs]\n            else:\n                self.plug += next.plug\n")]),
    ("C22", "iadd on plug", [(P, "    def __add__(self, next: Plug) -> Plug:", "    def __iadd__(self, next):\n        if not isinstance(next, FreePlug):\n            self.outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]\n        return self\n\n    def __add__(self, next: Plug) -> Plug:")]),
    ("C22", "plug outputs merged in place", [(P, "        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]\n", "        outputs = next.outputs\n        outputs.extend(e for e in self.outputs if e not in next.inputs)\n")]),
    ("C22", "free plug updates other", [(P, "            return deepcopy(other)\n", "            other.inputs_no_used = self.inputs\n            return other\n")]),
    ("C22", "pipeline pops its list", [(P, "        self.plug = stages[0].plug\n", "        self.plug = stages[0].plug\n        self.first = stages.pop(0)\n        stages.insert(0, self.first)\n        stages[1:] = [s for s in stages[1:] if s is not self.first]\n")]),
    ("C22", "stage remembers its data", [(P, "        self.names = names\n\n    def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:\n        return timeline.drop(self.names, axis=1, level=1)", "        self.names = names\n\n    def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:\n        self.names = [n for n in self.names if n in timeline.columns]\n        return timeline.drop(self.names, axis=1, level=1)")]),
    ("C22", "stage without names mutates list", [(P, "        self.names = names\n\n    def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:\n        return timeline.drop(self.names, axis=1, level=1)", "        self.names = names\n\n    def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:\n        while self.names:\n            timeline = timeline.drop(self.names.pop(), axis=1, level=1)\n        return timeline")]),
    ("C22", "fault advances its seed", [(P, "            np.random.seed(self.seed)\n", "            np.random.seed(self.seed)\n            self.seed += 1\n")]),
    ("C22", "shuffler standardizes in place", [(S, "        data = Stage.standardize_column(data)\n", "        data.columns = Stage.standardize_column(data).columns\n")]),
    ("C22", "shuffler drops in place", [(S, "        res = self.pipeline(self.df)\n", "        res = self.pipeline(self.df)\n        self.pipeline.stages.append(res)\n")]),
    ("C22", "shared default list", [(P, "def __init__(self, inputs: List[str] = None, outputs: List[str] = None):", "def __init__(self, inputs: List[str] = None, outputs: List[str] = []):"), (P, "        return RestrictedPlug(inputs=self.inputs, outputs=outputs)", "        res = RestrictedPlug(inputs=self.inputs)\n        res.outputs += outputs\n        return res")]),
]
