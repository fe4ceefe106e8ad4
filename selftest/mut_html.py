H = "hadar/viewer/html.py"
A = "hadar/viewer/abc.py"
CASES = [("C31", n, [(f, a, b)]) for n, f, a, b in [
    ("timeline first scenario", H, "y=df.loc[scn],", "y=df.loc[scenarios[0]],"),
    ("timeline iloc", H, "y=df.loc[scn],", "y=df.iloc[scn],"),
    ("timeline own axis", H, "y=df.loc[scn],", "y=df.loc[scn].sort_values(),"),
    ("monotone increasing", H, "        y = y[::-1]\n", ""),
    ("monotone unsorted", H, "        y.sort()\n", ""),
    ("monotone unique", H, "        y.sort()\n", "        y = np.unique(y)\n"),
    ("monotone axis reversed", H, "np.linspace(0, 100, y.size)", "np.linspace(100, 0, y.size)"),
    ("monotone axis from 1", H, "np.linspace(0, 100, y.size)", "np.linspace(1, 100, y.size)"),
    ("gaussian strict", H, "green = qt[rac >= 0]", "green = qt[rac > 0]"),
    ("gaussian red zero", H, "red = qt[rac < 0]", "red = qt[rac <= 0]"),
    ("gaussian swapped", H, "marker=dict(color=\"green\", size=10)", "marker=dict(color=\"red\", size=10)"),
    ("gaussian rac axis", H, "red = qt[rac < 0]", "red = rac[rac < 0]"),
    ("gaussian by qt", H, "green = qt[rac >= 0]", "green = qt[qt >= 0]"),
    ("candles swapped", H, "                open=open,\n", "                open=close,\n"),
    ("candles close", H, "                close=close,\n", "                close=open,\n"),
    ("stack alias lines", H, "stacked_lines.append((name, stack.copy()))", "stacked_lines.append((name, stack))"),
    ("stack no reset", H, "        stack = np.zeros_like(self.time_index, dtype=float)\n        stacked_lines", "        stacked_lines"),
    ("stack lines not cumulated", H, "stacked_lines.append((name, stack.copy()))", "stacked_lines.append((name, data.copy()))"),
    ("stack skip zero", H, "        for i, (name, data) in enumerate(lines):\n            stack += data\n", "        for i, (name, data) in enumerate(lines):\n            if data[0] == 0:\n                continue\n            stack += data\n"),
    ("stack ten lines", H, "enumerate(stacked_lines[::-1])", "enumerate(stacked_lines[:-1])"),
    ("matrix in place", H, "z=sdt(data.copy())", "z=sdt(data)"),
    ("matrix sign", H, "x[x < 0] /= -np.min(x[x < 0])", "x[x < 0] /= np.min(x[x < 0])"),
    ("matrix common scale", H, "x[x > 0] /= np.max(x[x > 0])", "x[x > 0] /= np.max(np.abs(x))"),
    ("matrix max of negatives", H, "x[x < 0] /= -np.min(x[x < 0])", "x[x < 0] /= -np.max(x[x < 0])"),
    ("matrix unguarded", H, "            if (x < 0).any():\n                x[x < 0] /= -np.min(x[x < 0])\n", "            x[x < 0] /= -np.min(x[x < 0])\n"),
    ("matrix rows", H, "y=np.arange(data.shape[0])", "y=np.arange(data.shape[1])"),
    ("matrix transposed", H, "z=sdt(data.copy())", "z=sdt(data.copy().T)"),
    ("matrix text scaled", H, "                text=data,\n", "                text=sdt(data.copy()),\n"),
    ("map reversed", H, "self._plot_links(fig, src, dest, color, qt, size)", "self._plot_links(fig, dest, src, color, qt, size)"),
    ("map lon lat", H, "lon=node_coords[:, 0]", "lon=node_coords[:, 1]"),
    ("map lat line", H, "lat=[S[1], E[1]]", "lat=[S[1], S[1]]"),
    ("map arrow head at source", H, "A = E - v * 0.1", "A = S + v * 0.3"),
    ("map text abs", H, "text=str(qt)", "text=str(abs(qt) - 1)"),
    ("map colour", H, "                    color=node_qt,\n", "                    color=[abs(q) for q in node_qt],\n"),
    ("map skip small", H, "            color = \"rgb\"", "            if qt <= 1:\n                continue\n            color = \"rgb\""),
    ("map sorted coords", H, "np.array([self.coord[n] for n in keys])", "np.array([self.coord[n] for n in self.coord])"),
    ("time index off", A, "np.arange(self.agg.horizon)", "np.arange(self.agg.horizon - 1)"),
    ("time index one based", A, "np.arange(self.agg.horizon)", "np.arange(1, self.agg.horizon + 1)"),
    ("time index scn", A, "np.arange(self.agg.horizon)", "np.arange(self.agg.nb_scn)"),
    ("date periods", A, "periods=self.agg.horizon\n", "periods=self.agg.horizon + 1\n"),
    ("date start", A, "start=time_start, end=time_end", "start=time_end, end=time_start"),
]]
