H = "hadar/viewer/html.py"
A = "hadar/viewer/abc.py"
S = open("/repo/" + H).read()
def block(a, b):
    i = S.index(a)
    return S[i:S.index(b, i)]
STACK = block("        # Stack areas\n", "        fig.update_layout(\n            title_text=title, yaxis")
CASES = [
    ("C31", "mono sort copy", [(H, "        y.sort()\n        y = y[::-1]\n", "        y = np.sort(y)[::-1]\n")]),
    ("C31", "mono size", [(H, "np.linspace(0, 100, y.size)", "np.linspace(0, 100, len(y))")]),
    ("C31", "gauss mask", [(H, "        green = qt[rac >= 0]\n        red = qt[rac < 0]\n", "        passed = rac >= 0\n        green = qt[passed]\n        red = qt[~passed]\n")]),
    ("C31", "gauss flipped", [(H, "qt[rac >= 0]", "qt[0 <= rac]"), (H, "qt[rac < 0]", "qt[0 > rac]")]),
    ("C31", "stack helper", [(H, STACK, '''        def cumulate(series):
            total = np.zeros_like(self.time_index, dtype=float)
            out = []
            for name, data in series:
                total = total + data
                out.append((name, total))
            return out

        for i, (name, level) in enumerate(cumulate(areas)):
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=level,
                    name=name,
                    mode="none",
                    fill="tonexty" if i > 0 else "tozeroy",
                )
            )

        # bottom line on top
        for i, (name, level) in enumerate(reversed(cumulate(lines))):
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=level,
                    line_color=self.cmap_cons[i % len(self.cmap_cons)],
                    name=name,
                    line=dict(width=2),
                )
            )

''')]),
    ("C31", "stack rebinding", [(H, "            stack += data\n            stacked_lines.append((name, stack.copy()))", "            stack = stack + data\n            stacked_lines.append((name, stack))")]),
    ("C31", "matrix where", [(H, '''            if (x > 0).any():
                x[x > 0] /= np.max(x[x > 0])
            if (x < 0).any():
                x[x < 0] /= -np.min(x[x < 0])
            return x
''', '''            pos, neg = x > 0, x < 0
            if pos.any():
                x[pos] = x[pos] / x[pos].max()
            if neg.any():
                x[neg] = x[neg] / abs(x[neg].min())
            return x
''')]),
    ("C31", "matrix method", [(H, '''        def sdt(x):
            if (x > 0).any():
                x[x > 0] /= np.max(x[x > 0])
            if (x < 0).any():
                x[x < 0] /= -np.min(x[x < 0])
            return x

''', ""), (H, "z=sdt(data.copy())", "z=self._scale(data)"), (H, "    def map_exchange(self", '''    @staticmethod
    def _scale(data):
        x = data.copy()
        positive = x[x > 0]
        negative = x[x < 0]
        if positive.size > 0:
            x[x > 0] = positive / np.max(positive)
        if negative.size > 0:
            x[x < 0] = -negative / np.min(negative)
        return x

    def map_exchange(self''')]),
    ("C31", "map items", [(H, '''        keys = nodes.keys()
        node_qt = [nodes[k] for k in keys]
''', '''        keys = list(nodes)
        node_qt = list(nodes.values())
''')]),
    ("C31", "links array", [(H, "S = np.array([self.coord[start][0], self.coord[start][1]])", "S = np.array(self.coord[start])"), (H, "E = np.array([self.coord[end][0], self.coord[end][1]])", "E = np.array(self.coord[end])")]),
    ("C31", "timeline loop", [(H, '''        for scn in scenarios:
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=df.loc[scn],
''', '''        for scn in scenarios:
            values = df.loc[scn]
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=values,
''')]),
    ("C31", "timeline data arg", [(H, "        fig = go.Figure()\n        for scn in scenarios:\n            fig.add_trace(\n", "        fig = go.Figure()\n        draw = fig.add_trace\n        for scn in scenarios:\n            draw(\n")]),
    ("C31", "candles figure", [(H, '''        text = [
            "%s<br>Begin=%d<br>End=%d<br>Flow=%d" % (t, o, c, c - o)
            for o, c, t in zip(open, close, self.time_index)
        ]
''', '''        text = []
        for o, c, t in zip(open, close, self.time_index):
            text.append("%s<br>Begin=%d<br>End=%d<br>Flow=%d" % (t, o, c, c - o))
''')]),
    ("C31", "layout helper", [(H, '''        fig.update_layout(
            title_text=title,
            yaxis_title="Quantity %s" % self.unit,
            xaxis_title="%",
            showlegend=False,
        )

        return fig
''', '''        return self._layout(fig, title)

    def _layout(self, fig, title):
        fig.update_layout(
            title_text=title,
            yaxis_title="Quantity %s" % self.unit,
            xaxis_title="%",
            showlegend=False,
        )
        return fig
''')]),
    ("C31", "axis ifs", [(A, '''        time = [time_start is None, time_end is None]
        if time == [True, False] or time == [False, True]:
            raise ValueError("You have to give both time_start and time_end")
        elif time == [False, False]:
            self.time_index''', '''        if (time_start is None) != (time_end is None):
            raise ValueError("You have to give both time_start and time_end")
        if time_start is not None:
            self.time_index''')]),
    ("C31", "axis range", [(A, "np.arange(self.agg.horizon)", "np.arange(0, self.agg.horizon)")]),
]
