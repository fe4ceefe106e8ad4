S = "hadar/workflow/shuffler.py"
P = "hadar/workflow/pipeline.py"
CASES = [
    ("C22", "pipeline copy once", [(P, "            timeline = stage(timeline.copy())", "            timeline = stage(timeline)")]),
    ("C22", "focus no copy", [(P, "timeline[scn].copy()", "timeline[scn]")]),
    ("C22", "copy in standardize", [(P, "        # Add 0th scenarios column if not present.\n", "        timeline = timeline.copy()\n"), (P, "return self._process_timeline(timeline.copy())", "return self._process_timeline(timeline)")]),
    ("C22", "reduce", [(P, "        for stage in self.stages:\n            timeline = stage(timeline.copy())\n\n        return timeline", "        from functools import reduce\n        return reduce(lambda data, stage: stage(data.copy()), self.stages, timeline)")]),
    ("C22", "index loop", [(P, "        for stage in self.stages:\n            timeline = stage(timeline.copy())\n\n        return timeline", "        current = timeline\n        for i in range(len(self.stages)):\n            current = self.stages[i](current.copy())\n\n        return current")]),
    ("C22", "list of stages", [(P, "Pipeline(stages=self.stages + [other])", "Pipeline(stages=[*self.stages, other])")]),
    ("C22", "copy then append", [(P, "        return Pipeline(stages=self.stages + [other])", "        stages = list(self.stages)\n        stages.append(other)\n        return Pipeline(stages=stages)")]),
    ("C22", "pipeline copies list", [(P, "        self.stages = stages\n", "        self.stages = list(stages)\n")]),
    ("C22", "plug local", [(P, "            self.plug += next.plug\n", "            self.plug = self.plug + next.plug\n")]),
    ("C22", "plug zip", [(P, "        for i in range(0, len(stages) - 1):\n            curr, next = stages[i], stages[i + 1]\n", "        for curr, next in zip(stages[:-1], stages[1:]):\n")]),
    ("C22", "restricted deepcopy", [(P, "        if isinstance(next, FreePlug):\n            return self\n", "        if isinstance(next, FreePlug):\n            return deepcopy(self)\n")]),
    ("C22", "helper merges", [(P, "        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]\n", "        outputs = list(next.outputs)\n        for e in self.outputs:\n            if e not in next.inputs:\n                outputs.append(e)\n")]),
    ("C22", "set_axis", [(P, "            timeline = timeline.copy()\n            timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])\n", "            timeline = timeline.set_axis(MultiIndex.from_arrays([np.zeros_like(columns), columns]), axis=1)\n")]),
    ("C22", "local names", [(P, "        return self._process_timeline(timeline.copy())", "        data = timeline.copy()\n        result = self._process_timeline(data)\n        return result")]),
    ("C22", "whole deepcopy", [(P, "        return self._process_timeline(timeline.copy())", "        return self._process_timeline(deepcopy(timeline))")]),
    ("C22", "copy true", [(P, "        return self._process_timeline(timeline.copy())", "        return self._process_timeline(timeline.copy(deep=True))")]),
    ("C22", "early return standardize", [(P, "        if not isinstance(timeline.columns, MultiIndex):\n            columns = timeline.columns.values\n            timeline = timeline.copy()\n            timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])\n\n        return timeline", "        if isinstance(timeline.columns, MultiIndex):\n            return timeline\n        columns = timeline.columns.values\n        res = timeline.copy()\n        res.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])\n        return res")]),
    ("C22", "nlevels", [(P, "        if not isinstance(timeline.columns, MultiIndex):\n            columns", "        if timeline.columns.nlevels == 1:\n            columns")]),
]
