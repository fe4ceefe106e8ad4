R = "hadar/analyzer/result.py"
I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
CASES = [
    ("C16", "cons counter in node loop", [(R, "                    n_cons += 1\n", "                n_cons += 1\n")]),
    ("C16", "cons index", [(R, "sc = study.networks[n].nodes[node].consumptions[i]", "sc = study.networks[n].nodes[node].consumptions[0]")]),
    ("C16", "cons asked given swapped", [(R, '"asked"] = sc.quantity.flatten()', '"asked"] = rc.quantity.flatten()')]),
    ("C16", "cons name node", [(R, 'cons.loc[slices, "node"] = node', 'cons.loc[slices, "node"] = n')]),
    ("C16", "cons t and scn", [(R, 'cons.loc[slices, "t"] = np.tile(np.arange(h), scn)', 'cons.loc[slices, "t"] = np.repeat(np.arange(h), scn)')]),
    ("C16", "cons scn", [(R, 'cons.loc[slices, "scn"] = np.repeat(np.arange(scn), h)', 'cons.loc[slices, "scn"] = np.tile(np.arange(scn), h)')]),
    ("C16", "cons block", [(R, "cons.index[n_cons * h * scn : (n_cons + 1) * h * scn]", "cons.index[n_cons * h : (n_cons + scn) * h]")]),
    ("C16", "prod flatten F", [(R, '"used"] = rp.quantity.flatten()', '"used"] = rp.quantity.flatten("F")')]),
    ("C16", "prod transposed", [(R, '"used"] = rp.quantity.flatten()', '"used"] = rp.quantity.T.flatten()')]),
    ("C16", "prod size", [(R, "sum([len(n.productions) for n in net.nodes.values()])", "sum([len(n.productions) + 1 for n in net.nodes.values()])")]),
    ("C16", "prod study network default", [(R, "sp = study.networks[n].nodes[node].productions[i]", 'sp = study.networks.get(n, n).nodes[node].productions[i - 1]')]),
    ("C16", "prod enumerate from 1", [(R, "enumerate(net.nodes[node].productions)", "enumerate(net.nodes[node].productions, -1)")]),
    ("C16", "storage flow in out", [(R, '"max_flow_in"] = study_stor.flow_in.flatten()', '"max_flow_in"] = study_stor.flow_out.flatten()')]),
    ("C16", "storage capacity", [(R, '"max_capacity"] = study_stor.capacity.flatten()', '"max_capacity"] = c.capacity.flatten()')]),
    ("C16", "storage eff cost", [(R, '"eff"] = study_stor.eff.flatten()', '"eff"] = study_stor.cost.flatten()')]),
    ("C16", "storage counter", [(R, "                    n_stor += 1\n", "                    n_stor += i + 1\n")]),
    ("C16", "storage not counting small", [(R, "                    n_stor += 1\n", "                    n_stor = i + 1\n")]),
    ("C16", "link dest node", [(R, '"dest"] = rl.dest', '"dest"] = node')]),
    ("C16", "link avail cost", [(R, '"avail"] = sl.quantity.flatten()', '"avail"] = sl.cost.flatten()')]),
    ("C16", "link counter per network", [(R, "        n_link = 0\n        for n, net in result.networks.items():\n", "        for n, net in result.networks.items():\n            n_link = 0\n")]),
    ("C16", "dest conv network", [(R, '"network"] = v.dest_network', '"network"] = v.dest_node')]),
    ("C16", "dest conv flow", [(R, "result.converters[name].flow_dest.flatten()", "list(result.converters.values())[0].flow_dest.flatten()")]),
    ("C16", "dest conv block", [(R, "dest_conv.index[i * h * scn : (i + 1) * h * scn]", "dest_conv.index[i * h : (i + 1) * h * scn]")]),
    ("C16", "src size by converter", [(R, "elements = sum([len(v.src_ratios) for v in study.converters.values()])", "elements = len(study.converters)")]),
    ("C16", "src block start", [(R, "                s = e\n", "            s = e\n")]),
    ("C16", "src max multiplied", [(R, 'src_conv.loc[:, "max"] /= src_conv[', 'src_conv.loc[:, "max"] *= src_conv[')]),
    ("C16", "src max undivided", [(R, '        src_conv.loc[:, "max"] /= src_conv[\n            "ratio"\n        ]  # max value is for output. Need to divide by ratio to find max for src\n', "")]),
    ("C16", "src flow first source", [(R, ".flow_src[(net, node)].flatten()", ".flow_src[list(v.src_ratios)[0]].flatten()")]),
    ("C16", "src ratio first", [(R, "v.src_ratios[(net, node)].flatten()", "list(v.src_ratios.values())[0].flatten()")]),
    ("C16", "src labels swapped", [(R, "            for net, node in v.src_ratios.keys():\n", "            for net, node in v.src_ratios.keys():\n                pass\n            for net, node in list(v.src_ratios.keys())[:1] * len(v.src_ratios):\n")]),
    ("C16", "zero flow skipped", [(R, '                    prod.loc[slices, "used"] = rp.quantity.flatten()\n', '                    if i < 1:\n                        prod.loc[slices, "used"] = rp.quantity.flatten()\n')]),
]
