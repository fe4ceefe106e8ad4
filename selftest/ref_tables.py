R = "hadar/analyzer/result.py"
BLK = '''                    slices = cons.index[n_cons * h * scn : (n_cons + 1) * h * scn]
'''
CASES = [
    ("C16", "h scn order", [(R, BLK, "                    size_elem = scn * h\n                    slices = cons.index[n_cons * size_elem : n_cons * size_elem + size_elem]\n")]),
    ("C16", "offset counter", [(R, BLK, "                    slices = cons.index[n_cons : n_cons + h * scn]\n"), (R, "                    n_cons += 1\n", "                    n_cons += h * scn\n")]),
    ("C16", "sum generator", [(R, '''        elements = sum(
            [
                sum([len(n.consumptions) for n in net.nodes.values()])
                for net in study.networks.values()
            ]
        )
''', '''        elements = sum(
            len(n.consumptions)
            for net in study.networks.values()
            for n in net.nodes.values()
        )
''')]),
    ("C16", "count loop", [(R, '''        elements = sum(
            [
                sum([len(n.consumptions) for n in net.nodes.values()])
                for net in study.networks.values()
            ]
        )
''', '''        elements = 0
        for net in study.networks.values():
            for n in net.nodes.values():
                elements += len(n.consumptions)
''')]),
    ("C16", "node items", [(R, '''            for node in net.nodes.keys():
                for i, rc in enumerate(net.nodes[node].consumptions):
''', '''            for node, out in net.nodes.items():
                for i, rc in enumerate(out.consumptions):
''')]),
    ("C16", "zip elements", [(R, '''                for i, rc in enumerate(net.nodes[node].consumptions):
                    slices = cons.index[n_cons * h * scn : (n_cons + 1) * h * scn]
                    sc = study.networks[n].nodes[node].consumptions[i]
''', '''                for rc, sc in zip(net.nodes[node].consumptions, study.networks[n].nodes[node].consumptions):
                    slices = cons.index[n_cons * h * scn : (n_cons + 1) * h * scn]
''')]),
    ("C16", "helper labels", [(R, '''                    cons.loc[slices, "t"] = np.tile(np.arange(h), scn)
                    cons.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
''', '''                    ResultAnalyzer._set_time(cons, slices, h, scn)
'''), (R, '''    @staticmethod
    def _build_production(''', '''    @staticmethod
    def _set_time(df, slices, h, scn):
        df.loc[slices, "t"] = np.tile(np.arange(h), scn)
        df.loc[slices, "scn"] = np.repeat(np.arange(scn), h)

    @staticmethod
    def _build_production(''')]),
    ("C16", "helper count", [(R, '''        elements = sum(
            [
                sum([len(n.productions) for n in net.nodes.values()])
                for net in study.networks.values()
            ]
        )
''', '''        elements = ResultAnalyzer._count(study, "productions")
'''), (R, '''    @staticmethod
    def _build_production(''', '''    @staticmethod
    def _count(study, attr):
        return sum(len(getattr(n, attr)) for net in study.networks.values() for n in net.nodes.values())

    @staticmethod
    def _build_production(''')]),
    ("C16", "labels hoisted", [(R, '''        n_prod = 0
''', '''        n_prod = 0
        times = np.tile(np.arange(h), scn)
        scns = np.repeat(np.arange(scn), h)
'''), (R, 'prod.loc[slices, "t"] = np.tile(np.arange(h), scn)', 'prod.loc[slices, "t"] = times'), (R, 'prod.loc[slices, "scn"] = np.repeat(np.arange(scn), h)', 'prod.loc[slices, "scn"] = scns')]),
    ("C16", "src start end", [(R, '''                e = s + h * scn
                slices = src_conv.index[s:e]
''', '''                slices = src_conv.index[s : s + h * scn]
'''), (R, "                s = e\n", "                s += h * scn\n")]),
    ("C16", "src division", [(R, '''        src_conv.loc[:, "max"] /= src_conv[
            "ratio"
        ]  # max value is for output. Need to divide by ratio to find max for src
''', '''        src_conv["max"] = src_conv["max"] / src_conv["ratio"]
''')]),
    ("C16", "src max divided per block", [(R, '''        src_conv.loc[:, "max"] /= src_conv[
            "ratio"
        ]  # max value is for output. Need to divide by ratio to find max for src
''', ""), (R, 'src_conv.loc[slices, "max"] = v.max.flatten()', 'src_conv.loc[slices, "max"] = v.max.flatten() / v.src_ratios[(net, node)].flatten()')]),
    ("C16", "src items", [(R, "            for net, node in v.src_ratios.keys():\n", "            for (net, node), ratio in v.src_ratios.items():\n"), (R, "v.src_ratios[(net, node)].flatten()", "ratio.flatten()")]),
    ("C16", "dest counter", [(R, "        for i, (name, v) in enumerate(study.converters.items()):\n            slices = dest_conv.index[i * h * scn : (i + 1) * h * scn]\n", "        i = 0\n        for name, v in study.converters.items():\n            slices = dest_conv.index[i * h * scn : (i + 1) * h * scn]\n            i += 1\n")]),
    ("C16", "local tables", [(R, "        self.consumption = ResultAnalyzer._build_consumption(self.study, self.result)\n", "        consumption = ResultAnalyzer._build_consumption(study, result)\n        self.consumption = consumption\n")]),
    ("C16", "plain slice", [(R, "link.index[n_link * h * scn : (n_link + 1) * h * scn]", "slice(n_link * h * scn, (n_link + 1) * h * scn - 1)")]),
    ("C16", "write order", [(R, '''                    link.loc[slices, "cost"] = sl.cost.flatten()
                    link.loc[slices, "dest"] = rl.dest
''', '''                    link.loc[slices, "dest"] = rl.dest
                    link.loc[slices, "cost"] = sl.cost.flatten()
''')]),
    ("C16", "reshape -1", [(R, '"used"] = rl.quantity.flatten()', '"used"] = rl.quantity.reshape(-1)')]),
    ("C16", "ravel", [(R, '"used"] = rl.quantity.flatten()', '"used"] = rl.quantity.ravel()')]),
]
