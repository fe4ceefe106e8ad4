R = "hadar/analyzer/result.py"
FIL = '''        if self.all:
            return df[self.column].notnull()
        return df[self.column].isin(self.index)
'''
CASES = [
    ("C17", "slice stop included", [(R, "index = tuple(range(start, index.stop, step))", "index = tuple(range(start, index.stop + 1, step))")]),
    ("C17", "slice step lost", [(R, "index = tuple(range(start, index.stop, step))", "index = tuple(range(start, index.stop))")]),
    ("C17", "slice start default 1", [(R, "start = 0 if index.start is None else index.start", "start = 1 if index.start is None else index.start")]),
    ("C17", "slice start truthy", [(R, "if index.stop is None:", "if not index.start and index.stop is None:")]),
    ("C17", "open slice all", [(R, "self.slice, index = index, None", "self.slice, index = None, None")]),
    ("C17", "open slice short", [(R, "int(df[self.column].max()) + 1", "int(df[self.column].max())")]),
    ("C17", "list means first", [(R, "            self.index = tuple(index)\n            self.all = len(index) == 0", "            self.index = tuple(index[:1])\n            self.all = len(index) == 0")]),
    ("C17", "empty list means none", [(R, "            self.all = len(index) == 0\n", "            self.all = False\n")]),
    ("C17", "none is not all", [(R, "        if index is None:\n            self.all = True\n", "        if index is None:\n            self.all = False\n            self.index = ()\n")]),
    ("C17", "falsy means all", [(R, "        if index is None:\n            self.all = True\n", "        if not index:\n            self.all = True\n")]),
    ("C17", "falsy int means all", [(R, "            self.index = tuple([index])\n            self.all = False\n", "            self.index = tuple([index])\n            self.all = index == 0\n")]),
    ("C17", "mask or", [(R, "lambda a, b: a & b", "lambda a, b: a | b")]),
    ("C17", "mask first four", [(R, "(i.filter(df) for i in indexes))", "(i.filter(df) for i in indexes[:4]))")]),
    ("C17", "wrong table stor", [(R, "return ResultAnalyzer._pivot(indexes, self.storage)", "return ResultAnalyzer._pivot(indexes, self.production)")]),
    ("C17", "wrong table conv", [(R, "return ResultAnalyzer._pivot(indexes, self.src_converter)", "return ResultAnalyzer._pivot(indexes, self.dest_converter)")]),
    ("C17", "link column node", [(R, 'Index.__init__(self, column="dest", index=index)', 'Index.__init__(self, column="node", index=index)')]),
    ("C17", "time column scn", [(R, 'IntIndex.__init__(self, column="t", index=index)', 'IntIndex.__init__(self, column="scn", index=index)')]),
    ("C17", "no network check", [(R, "        ResultAnalyzer._assert_index(indexes, NetworkIndex)\n", "")]),
    ("C17", "no scn check", [(R, "        ResultAnalyzer._assert_index(indexes, ScnIndex)\n", "")]),
    ("C17", "assert int index", [(R, "        ResultAnalyzer._assert_index(indexes, TimeIndex)\n", "        ResultAnalyzer._assert_index(indexes, IntIndex)\n")]),
    ("C17", "check count", [(R, "        return any(isinstance(i, type) for i in indexes)\n", "        return len(indexes) > 4 or any(isinstance(i, type) for i in indexes)\n")]),
    ("C17", "names sorted", [(R, "names = [i.column for i in indexes]", "names = sorted([i.column for i in indexes])")]),
    ("C17", "order reversed", [(R, "indexes = deepcopy(self.indexes) + [index]", "indexes = [index] + deepcopy(self.indexes)")]),
    ("C17", "alone not first", [(R, "        return not self.all and len(self.index) <= 1\n", "        return self.all or len(self.index) <= 1\n")]),
    ("C17", "alone two", [(R, "len(self.index) <= 1\n", "len(self.index) <= 2\n")]),
    ("C17", "default network", [(R, "return NetworkFluentAPISelector([NetworkIndex(index=name)], self)", 'return NetworkFluentAPISelector([NetworkIndex(index=name or "default")], self)')]),
    ("C17", "selector prod cons", [(R, "self.production = lambda x=None: self._append(ProdIndex(x))", "self.production = lambda x=None: self._append(ConsIndex(x))")]),
    ("C17", "selector loses arg", [(R, "self.scn = lambda x=None: self._append(ScnIndex(x))", "self.scn = lambda x=None: self._append(ScnIndex(None))")]),
    ("C17", "time is scn index", [(R, "self.time = lambda x=None: self._append(TimeIndex(x))", "self.time = lambda x=None: self._append(ScnIndex(x))")]),
    ("C17", "drops used zero", [(R, "pt = pd.pivot_table(data=df[mask], index=names)", "pt = pd.pivot_table(data=df[mask].iloc[1:], index=names)")]),
    ("C17", "useless from same list", [(R, "_remove_useless_index_level(df, indexes[1:])", "_remove_useless_index_level(df, indexes[2:])")]),
    ("C17", "contains instead of isin", [(R, "return df[self.column].isin(self.index)", "return df[self.column] == self.index[0]")]),
]
