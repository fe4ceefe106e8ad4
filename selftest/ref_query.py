R = "hadar/analyzer/result.py"
FIL = '''        if self.all:
            return df[self.column].notnull()
        return df[self.column].isin(self.index)
'''
DISP = '''        if ResultAnalyzer.check_index(indexes, ConsIndex):
            return ResultAnalyzer._pivot(indexes, self.consumption)

        if ResultAnalyzer.check_index(indexes, ProdIndex):
            return ResultAnalyzer._pivot(indexes, self.production)

        if ResultAnalyzer.check_index(indexes, StorIndex):
            return ResultAnalyzer._pivot(indexes, self.storage)

        if ResultAnalyzer.check_index(indexes, LinkIndex):
            return ResultAnalyzer._pivot(indexes, self.link)

        if ResultAnalyzer.check_index(indexes, SrcConverter):
            return ResultAnalyzer._pivot(indexes, self.src_converter)

        if ResultAnalyzer.check_index(indexes, DestConverter):
            return ResultAnalyzer._pivot(indexes, self.dest_converter)
'''
CASES = [
    ("C17", "filter early", [(R, FIL, '''        column = df[self.column]
        return column.notnull() if self.all else column.isin(self.index)
''')]),
    ("C17", "list of index", [(R, "            self.index = tuple([index])\n", "            self.index = (index,)\n")]),
    ("C17", "mask loop", [(R, "        mask = reduce(lambda a, b: a & b, (i.filter(df) for i in indexes))\n", "        mask = indexes[0].filter(df)\n        for i in indexes[1:]:\n            mask = mask & i.filter(df)\n")]),
    ("C17", "mask successive", [(R, "        mask = reduce(lambda a, b: a & b, (i.filter(df) for i in indexes))\n        pt = pd.pivot_table(data=df[mask], index=names)\n", "        for i in indexes:\n            df = df[i.filter(df)]\n        pt = df.pivot_table(index=names)\n")]),
    ("C17", "table dispatch", [(R, DISP, '''        tables = [
            (ConsIndex, self.consumption),
            (ProdIndex, self.production),
            (StorIndex, self.storage),
            (LinkIndex, self.link),
            (SrcConverter, self.src_converter),
            (DestConverter, self.dest_converter),
        ]
        for kind, table in tables:
            if ResultAnalyzer.check_index(indexes, kind):
                return ResultAnalyzer._pivot(indexes, table)
''')]),
    ("C17", "assert loop", [(R, '''        ResultAnalyzer._assert_index(indexes, TimeIndex)
        ResultAnalyzer._assert_index(indexes, NodeIndex)
        ResultAnalyzer._assert_index(indexes, NetworkIndex)
        ResultAnalyzer._assert_index(indexes, ScnIndex)
''', '''        for kind in (TimeIndex, NodeIndex, NetworkIndex, ScnIndex):
            ResultAnalyzer._assert_index(indexes, kind)
''')]),
    ("C17", "check loop", [(R, "        return any(isinstance(i, type) for i in indexes)\n", "        for i in indexes:\n            if isinstance(i, type):\n                return True\n        return False\n")]),
    ("C17", "useless loop", [(R, '''        if (
            len(indexes) > 1
            and indexes[0].is_alone()
            and indexes[0].index[0] in df.index
        ):
            df = df.loc[indexes[0].index[0]].copy()
            return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
        else:
            return df
''', '''        first = indexes[0]
        if len(indexes) <= 1 or not first.is_alone():
            return df
        key = first.index[0]
        if key not in df.index:
            return df
        return ResultAnalyzer._remove_useless_index_level(df.loc[key].copy(), indexes[1:])
''')]),
    ("C17", "names loop", [(R, "        names = [i.column for i in indexes]\n", "        names = list(map(lambda i: i.column, indexes))\n")]),
    ("C17", "selector def", [(R, "            self.time = lambda x=None: self._append(TimeIndex(x))\n", "            def time(x=None):\n                return self._append(TimeIndex(x))\n\n            self.time = time\n")]),
    ("C17", "append copy", [(R, "        indexes = deepcopy(self.indexes) + [index]\n", "        indexes = [*deepcopy(self.indexes), index]\n")]),
    ("C17", "append no deepcopy", [(R, "        indexes = deepcopy(self.indexes) + [index]\n", "        indexes = self.indexes + [index]\n")]),
    ("C17", "slice helper", [(R, '''                start = 0 if index.start is None else index.start
                step = 1 if index.step is None else index.step
                index = tuple(range(start, index.stop, step))
''', '''                index = tuple(range(index.start or 0, index.stop, index.step or 1))
''')]),
    ("C17", "super init", [(R, '        Index.__init__(self, column="node", index=index)', '        super().__init__(column="node", index=index)')]),
    ("C17", "all attribute first", [(R, "        self.column = column\n        if index is None:\n            self.all = True\n", "        self.column = column\n        self.all = False\n        if index is None:\n            self.all = True\n")]),
    ("C17", "mask numpy", [(R, "        mask = reduce(lambda a, b: a & b, (i.filter(df) for i in indexes))\n", "        mask = np.logical_and.reduce([i.filter(df) for i in indexes])\n")]),
    ("C17", "loc mask", [(R, "data=df[mask]", "data=df.loc[mask]")]),
]
