N = "hadar/optimizer/domain/numeric.py"
SC = '''            return ScalarNumericalValue(
                value=value, horizon=self.horizon, nb_scn=self.nb_scn
            )
'''
CASES = [
    ("C10", "column flatten tiled", [(N, "np.repeat(self.value.flatten(), self.horizon)", "np.tile(self.value.flatten(), self.horizon)")]),
    ("C10", "row flatten repeated", [(N, "np.tile(self.value, self.nb_scn)", "np.repeat(self.value, self.nb_scn)")]),
    ("C10", "column flatten by scn", [(N, "np.repeat(self.value.flatten(), self.horizon)", "np.repeat(self.value.flatten(), self.nb_scn)")]),
    ("C10", "column item transposed", [(N, "return self.value[i, 0]", "return self.value[0, i]")]),
    ("C10", "column item flat j", [(N, "return self.value[i, 0]", "return self.value.flatten()[j]")]),
    ("C10", "row item by scenario", [(N, "return self.value[j]", "return self.value[i]")]),
    ("C10", "matrix transposed", [(N, "return self.value[i, j]", "return self.value[j, i]")]),
    ("C10", "matrix flatten F", [(N, "return self.value.flatten()", 'return self.value.flatten("F")')]),
    ("C10", "matrix flatten T", [(N, "return self.value.flatten()", 'return self.value.T.flatten()')]),
    ("C10", "scalar bound >", [(N, "if i >= self.nb_scn:", "if i > self.nb_scn:")]),
    ("C10", "scalar horizon bound dropped", [(N, '''        if j >= self.horizon:
            raise IndexError(
                "There are %d time step you ask the %dth" % (self.horizon, j)
            )
        return self.value
''', '''        return self.value
''')]),
    ("C10", "scalar bounds swapped", [(N, '''        if i >= self.nb_scn:
            raise IndexError(
                "There are %d scenario you ask the %dth" % (self.nb_scn, i)
            )
        if j >= self.horizon:''', '''        if i >= self.horizon:
            raise IndexError(
                "There are %d scenario you ask the %dth" % (self.nb_scn, i)
            )
        if j >= self.nb_scn:''')]),
    ("C10", "column bound on scenario", [(N, '''        if j >= self.horizon:
            raise IndexError(
                "There are %d time step you ask the %dth" % (self.horizon, j)
            )
        return self.value[i, 0]''', '''        if j > self.horizon:
            raise IndexError(
                "There are %d time step you ask the %dth" % (self.horizon, j)
            )
        return self.value[i, 0]''')]),
    ("C10", "scalar flatten size", [(N, "np.ones(self.horizon * self.nb_scn)", "np.ones(self.horizon)")]),
    ("C10", "row of any length", [(N, "if value.shape == (self.horizon,):", "if len(value.shape) == 1:")]),
    ("C10", "column any rows", [(N, "if value.shape == (self.nb_scn, 1):", "if len(value.shape) == 2 and value.shape[1] == 1:")]),
    ("C10", "matrix by size", [(N, "if value.shape == (self.nb_scn, self.horizon):", "if value.size == self.nb_scn * self.horizon:")]),
    ("C10", "matrix by rows", [(N, "if value.shape == (self.nb_scn, self.horizon):", "if value.shape[0] == self.nb_scn:")]),
    ("C10", "integers", [(N, "value.astype(float)", "value.astype(int)")]),
    ("C10", "row class for one scenario matrix", [(N, "if value.shape == (self.nb_scn, 1):", "if value.shape == (1, self.horizon):\n                value = value.T\n            if value.shape == (self.nb_scn, 1):")]),
    ("C10", "horizon first column", [(N, "if value.shape == (self.nb_scn, 1):", "if value.shape == (self.horizon, 1) and False or value.shape == (1, self.nb_scn):")]),
    ("C10", "series not converted", [(N, "[List, list, pd.DataFrame, pd.Series]", "[List, list, pd.DataFrame]")]),
    ("C10", "int refused", [(N, "[float, int, complex]", "[float, complex]")]),
    ("C10", "str accepted", [(N, "[float, int, complex]", "[float, int, complex, str]")]),
    ("C10", "type error", [(N, 'raise ValueError("Wrong source', 'raise TypeError("Wrong source')]),
    ("C10", "none accepted", [(N, 'raise ValueError("Wrong source data for numerical value")', 'return ScalarNumericalValue(value=value, horizon=self.horizon, nb_scn=self.nb_scn)')]),
    ("C10", "class args swapped", [(N, '''                return RowNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn''', '''                return RowNumericValue(
                    value=value, horizon=self.nb_scn, nb_scn=self.horizon''')]),
    ("C10", "value key ignored", [(N, 'value = value["value"]', 'value = value.get("values", 0)')]),
    ("C10", "column before row", [(N, "if value.shape == (self.horizon,):", "if value.shape in ((self.horizon,), (self.nb_scn,)):")]),
    ("C10", "squeezed", [(N, "value = value.astype(float)", "value = value.astype(float).squeeze()")]),
    ("C10", "series reshaped", [(N, "value = np.array(value)", "value = np.array(value).reshape(-1, self.horizon)")]),
]
