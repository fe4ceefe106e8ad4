N = "hadar/optimizer/domain/numeric.py"
CASES = [
    (None, "np.full", [(N, "np.ones(self.horizon * self.nb_scn) * self.value", "np.full(self.horizon * self.nb_scn, self.value)")]),
    (None, "np.full 2d flatten", [(N, "np.ones(self.horizon * self.nb_scn) * self.value", "np.full((self.nb_scn, self.horizon), self.value).flatten()")]),
    (None, "ravel", [(N, "return self.value.flatten()", "return self.value.ravel()")]),
    (None, "reshape -1", [(N, "np.repeat(self.value.flatten(), self.horizon)", "self.value.reshape(-1).repeat(self.horizon)")]),
    (None, "repeat slice", [(N, "np.repeat(self.value.flatten(), self.horizon)", "np.repeat(self.value[:, 0], self.horizon)")]),
    (None, "broadcast", [(N, "np.tile(self.value, self.nb_scn)", "np.broadcast_to(self.value, (self.nb_scn, self.horizon)).flatten()")]),
    (None, "isinstance", [(N, "if type(value) in [List, list, pd.DataFrame, pd.Series]:", "if isinstance(value, (list, pd.DataFrame, pd.Series)):")]),
    (None, "isinstance number", [(N, "if type(value) in [float, int, complex]:", "if isinstance(value, (float, int, complex)):")]),
    (None, "helper", [(N, "    def create(\n", '''    def _build(self, kind, value):
        return kind(value=value, horizon=self.horizon, nb_scn=self.nb_scn)

    def create(
'''), (N, '''                return RowNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )''', "                return self._build(RowNumericValue, value)"), (N, '''                return MatrixNumericalValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )''', "                return self._build(MatrixNumericalValue, value)")]),
    (None, "asarray float", [(N, "value = value.astype(float)", "value = np.asarray(value, dtype=float)")]),
    (None, "ndim", [(N, "if value.shape == (self.horizon,):", "if value.ndim == 1 and value.shape[0] == self.horizon:")]),
    (None, "len", [(N, "if value.shape == (self.horizon,):", "if value.ndim == 1 and len(value) == self.horizon:")]),
    (None, "column size", [(N, "return self.value[i, 0]", "return self.value[i][0]")]),
    (None, "column as row flat", [(N, "return self.value[i, 0]", "return self.value.flatten()[i]")]),
    (None, "helper bounds", [(N, '''        i, j = item
        if i >= self.nb_scn:
            raise IndexError(
                "There are %d scenario you ask the %dth" % (self.nb_scn, i)
            )
        return self.value[j]''', '''        i, j = item
        self._check_scn(i)
        return self.value[j]

    def _check_scn(self, i):
        if not i < self.nb_scn:
            raise IndexError("There are %d scenario you ask the %dth" % (self.nb_scn, i))''')]),
    (None, "early reject", [(N, '''        if isinstance(value, np.ndarray):
            # Solver''', '''        if not isinstance(value, np.ndarray):
            raise ValueError("Wrong source data for numerical value")
        else:
            # Solver'''), (N, '''

        raise ValueError("Wrong source data for numerical value")''', "")]),
    (None, "shapes table", [(N, '''            # If scenario are not provided copy timeseries for each scenario
            if value.shape == (self.horizon,):
                return RowNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If horizon are not provide extend each scenario to full horizon
            if value.shape == (self.nb_scn, 1):
                return ColumnNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )
''', '''            kinds = [
                ((self.horizon,), RowNumericValue),
                ((self.nb_scn, 1), ColumnNumericValue),
                ((self.nb_scn, self.horizon), MatrixNumericalValue),
            ]
            for shape, kind in kinds:
                if value.shape == shape:
                    return kind(value=value, horizon=self.horizon, nb_scn=self.nb_scn)
''')]),
    (None, "shapes elif var", [(N, '''            # If scenario are not provided copy timeseries for each scenario
            if value.shape == (self.horizon,):
                return RowNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If horizon are not provide extend each scenario to full horizon
            if value.shape == (self.nb_scn, 1):
                return ColumnNumericValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
                    value=value, horizon=self.horizon, nb_scn=self.nb_scn
                )
''', '''            kind = None
            if value.shape == (self.horizon,):
                kind = RowNumericValue
            elif value.shape == (self.nb_scn, 1):
                kind = ColumnNumericValue
            elif value.shape == (self.nb_scn, self.horizon):
                kind = MatrixNumericalValue
            if kind is not None:
                return kind(value=value, horizon=self.horizon, nb_scn=self.nb_scn)
''')]),
]
