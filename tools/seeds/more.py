O = "hadar/optimizer/lp/optimizer.py"
M = "hadar/optimizer/lp/mapper.py"
L = "hadar/optimizer/lp/domain.py"
I = "hadar/optimizer/domain/input.py"
N = "hadar/optimizer/domain/numeric.py"
U = "hadar/optimizer/domain/output.py"
R = "hadar/optimizer/remote/optimizer.py"
A = "hadar/analyzer/result.py"
V = "hadar/viewer/abc.py"
H = "hadar/viewer/html.py"
P = "hadar/workflow/pipeline.py"
S = "hadar/workflow/shuffler.py"
SEEDS = [
 dict(id="b05", property="C03",
  needs="a storage whose efficiency is given per scenario",
  breaks="every scenario is modelled with the storage efficiency of the first one",
  edits=[(M, "                eff=s.eff[scn, t],", "                eff=s.eff[0, t],")],
  demo='''
import hadar as hd
import numpy as np
study = (hd.Study(horizon=2, nb_scn=2)
   .network().node("a").consumption(name="c", cost=1000, quantity=[0, 8]).production(name="p", cost=1, quantity=[10, 0])
   .storage(name="s", capacity=100, flow_in=100, flow_out=100, init_capacity=0, eff=[[1], [0.5]]).build())
s = hd.LPOptimizer().solve(study).networks["default"].nodes["a"].storages[0]
for i, eff in enumerate((1, 0.5)):
    level = np.cumsum(eff * s.flow_in[i] - s.flow_out[i])
    assert np.allclose(level, s.capacity[i]), (i, level, s.capacity)
'''),
 dict(id="b06", property="C06",
  needs="a node carrying two storages",
  breaks="all storages of a node report their level in the same array: the levels of one storage are replaced by those of another",
  edits=[(U, "        self.capacity = np.array(capacity)\n        self.flow_in = np.array(flow_in)", "        self.capacity = np.asarray(capacity)\n        self.flow_in = np.array(flow_in)")],
  demo='''
import hadar as hd
import numpy as np
study = (hd.Study(horizon=2)
   .network().node("a").consumption(name="c", cost=1000, quantity=[1, 1])
   .storage(name="s", capacity=100, flow_in=0, flow_out=[1, 1], init_capacity=50, eff=1)
   .storage(name="u", capacity=100, flow_in=0, flow_out=0, init_capacity=7, eff=1).build())
r = hd.LPOptimizer().solve(study)
s, u = r.networks["default"].nodes["a"].storages
assert np.allclose(s.capacity, [[49, 48]]) and np.allclose(u.capacity, [[7, 7]]), (s.capacity, u.capacity)
'''),
 dict(id="b07", property="C06",
  needs="a converter with two sources",
  breaks="the flow of every source of a converter is reported under the first source, the others stay at zero",
  edits=[(M, "        for src, var in vars.var_flow_src.items():\n            self.converters[name].flow_src[src][scn, t] = var",
             "        flows = list(self.converters[name].flow_src.values())\n        for flow, var in zip(flows, sorted(vars.var_flow_src.values())):\n            flow[scn, t] = var")],
  demo='''
import hadar as hd
import numpy as np
study = (hd.Study(horizon=1)
   .network("gas").node("g").production(name="p", cost=1, quantity=100).to_converter(name="v", ratio=0.5)
   .network("coal").node("k").production(name="p", cost=1, quantity=100).to_converter(name="v", ratio=2)
   .network("elec").node("e").consumption(name="c", cost=10000, quantity=10)
   .converter(name="v", to_network="elec", to_node="e", max=100, cost=1).build())
f = hd.LPOptimizer().solve(study).converters["v"].flow_src
assert np.allclose(f[("gas", "g")], 20) and np.allclose(f[("coal", "k")], 5), f
'''),
 dict(id="b08", property="C07",
  needs="a converter whose ratios differ between scenarios, and more scenarios than workers so that one worker builds several of them",
  breaks="converter ratios are kept per worker under (converter, step): a later scenario of the same worker is built with the ratios of an earlier one",
  edits=[(M, "        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}\n", "        if (v.dest_network, v.dest_node, name, t) not in self.ratios:\n            self.ratios[(v.dest_network, v.dest_node, name, t)] = {k: v[scn, t] for k, v in v.src_ratios.items()}\n        src_ratios = self.ratios[(v.dest_network, v.dest_node, name, t)]\n"),
         (M, "    Input mapper from global domain to linear programming specific domain\n    \"\"\"\n", "    Input mapper from global domain to linear programming specific domain\n    \"\"\"\n\n    ratios = dict()\n")],
  demo='''
import hadar as hd
import numpy as np
nb = 300
ratios = 0.25 + np.arange(nb).reshape(nb, 1) / nb
study = (hd.Study(horizon=1, nb_scn=nb)
   .network("gas").node("g").production(name="p", cost=1, quantity=1000).to_converter(name="conv_demo", ratio=ratios)
   .network("elec").node("e").consumption(name="c", cost=10000, quantity=10)
   .converter(name="conv_demo", to_network="elec", to_node="e", max=100, cost=1).build())
f = hd.LPOptimizer().solve(study).converters["conv_demo"].flow_src[("gas", "g")]
assert np.allclose(f * ratios, 10), (f * ratios).flatten()
'''),
 dict(id="b09", property="C10",
  needs="a column series with more rows than the study has scenarios",
  breaks="a column with too many scenarios is accepted instead of being rejected with ValueError",
  edits=[(N, "            if value.shape == (self.nb_scn, 1):\n", "            if value.ndim == 2 and value.shape[0] >= self.nb_scn and value.shape[1] == 1:\n")],
  demo='''
import numpy as np
from hadar.optimizer.domain.numeric import NumericalValueFactory
f = NumericalValueFactory(horizon=3, nb_scn=2)
assert f.create([[1], [2]])[1, 2] == 2
try:
    f.create([[1], [2], [3]])
except ValueError:
    pass
else:
    raise SystemExit("column with too many scenarios accepted")
'''),
 dict(id="b10", property="C09",
  needs="two productions of the same name on one node, and no consumption of that name",
  breaks="the name of a production is compared with the consumptions of the node, so two productions of the same name are accepted when no consumption has that name",
  edits=[(I, "            p.name for p in self.networks[network].nodes[node].productions\n", "            p.name for p in self.networks[network].nodes[node].consumptions\n")],
  demo='''
import hadar as hd
s = hd.Study(horizon=1)
n = s.network().node("a").production(name="p", cost=1, quantity=1)
try:
    n.production(name="p", cost=1, quantity=1)
except ValueError:
    pass
else:
    raise SystemExit("duplicate production accepted")
n.consumption(name="p2", cost=1, quantity=1).production(name="p2", cost=1, quantity=1)
'''),
 dict(id="b11", property="C11",
  needs="a study with a storage of efficiency zero, exported and imported",
  breaks="the efficiency of an imported storage is replaced by the documented default when it is zero at some step",
  edits=[(I, '        dict["eff"] = factory.create(dict["eff"])\n', '        dict["eff"] = factory.create(dict["eff"] if dict["eff"].get("value") else 0.99)\n')],
  demo='''
import hadar as hd
s = hd.Study(horizon=1)
s.network().node("a").storage(name="s", capacity=10, flow_in=1, flow_out=1, cost=3, init_capacity=2, eff=0)
j = s.to_json()
t = hd.Study.from_json(j)
assert t == s, (t, s)
'''),
 dict(id="b12", property="C12",
  needs="a converter with two sources of which one never flows",
  breaks="a source whose flow is zero everywhere is left out of the exported result",
  edits=[(U, '        dict["flow_src"] = {"::".join(k): v.tolist() for k, v in self.flow_src.items()}', '        nodes = {"::".join((k[0], k[1])): v.tolist() for k, v in sorted(self.flow_src.items())}\n        dict["flow_src"] = dict_of_sources(nodes)'),
         (U, "class OutputConverter(JSON):\n", "def dict_of_sources(flows):\n    \"\"\"\n    Keep sources with a flow.\n    \"\"\"\n    return {k: v for k, v in flows.items() if np.size(v) and (len(flows) < 2 or np.any(v))}\n\n\nclass OutputConverter(JSON):\n")],
  demo='''
import numpy as np
from hadar.optimizer.domain.output import *
c = OutputConverter(name="v", flow_src={("gas", "a"): np.zeros((1, 2)), ("coal", "a"): np.ones((1, 2))}, flow_dest=np.ones((1, 2)))
j = c.to_json()
d = OutputConverter.from_json(j)
assert set(d.flow_src) == set(c.flow_src), d.flow_src
'''),
 dict(id="b13", property="C13",
  needs="the document is imported a second time",
  breaks="importing a study consumes the document: sources of a converter are removed from it",
  edits=[(I, "        dict = deepcopy(dict)\n        study = Study(", "        dict = {**dict, \"networks\": deepcopy(dict[\"networks\"])}\n        study = Study(")],
  demo='''
import hadar as hd, json
s = hd.Study(horizon=1)
(s.network("gas").node("g").to_converter(name="v", ratio=2).network("elec").node("e")
  .converter(name="v", to_network="elec", to_node="e", max=10))
j = json.loads(json.dumps(s.to_json()))
k = json.loads(json.dumps(j))
hd.Study.from_json(j)
assert j == k, j
'''),
 dict(id="b14", property="C14",
  needs="a result holding a negative quantity, given to an analyzer",
  breaks="building the consumption table clips the caller's result arrays in place",
  edits=[(A, '                    cons.loc[slices, "asked"] = sc.quantity.flatten()\n                    cons.loc[slices, "given"] = rc.quantity.flatten()',
             '                    cons.loc[slices, "asked"] = sc.quantity.flatten()\n                    np.clip(rc.quantity, 0, None, out=rc.quantity)\n                    cons.loc[slices, "given"] = rc.quantity.flatten()')],
  demo='''
import hadar as hd
import numpy as np, copy
study = hd.Study(horizon=2).network().node("a").consumption(name="c", cost=10, quantity=1).build()
r = hd.LPOptimizer().solve(study)
r.networks["default"].nodes["a"].consumptions[0].quantity[0, 0] = -1e-12
before = r.networks["default"].nodes["a"].consumptions[0].quantity.copy()
hd.ResultAnalyzer(study=study, result=r)
assert (r.networks["default"].nodes["a"].consumptions[0].quantity == before).all()
'''),
 dict(id="b15", property="C15",
  needs="a server that answers with an error status while the job is polled",
  breaks="the status of a polling answer is only looked at while the job is still queued",
  edits=[(R, '        check_code(resp.status_code)\n        resp = resp.json()\n\n        if resp["status"] == "QUEUED":', '        code = resp.status_code\n        resp = resp.json()\n\n        if resp["status"] in ["QUEUED", "COMPUTING"]:\n            check_code(code)\n\n        if resp["status"] == "QUEUED":')],
  demo='''
from unittest import mock
import hadar as hd
from hadar.optimizer.remote import optimizer as ro
study = hd.Study(horizon=1).network().node("a").consumption(name="c", cost=10, quantity=1).build()
res = hd.LPOptimizer().solve(study).to_json()
class Resp:
    def __init__(self, code, js): self.status_code, self.js = code, js
    def json(self): return self.js
with mock.patch.object(ro.requests, "post", return_value=Resp(200, {"job": 1, "status": "QUEUED", "progress": 1})), \\
     mock.patch.object(ro.requests, "get", return_value=Resp(500, {"status": "TERMINATED", "result": res})), \\
     mock.patch.object(ro, "sleep"):
    try:
        hd.RemoteOptimizer(url="http://host", token="t").solve(study)
    except IOError:
        pass
    else:
        raise SystemExit("result taken from an answer with status 500")
'''),
 dict(id="b16", property="C16",
  needs="a node whose links were not declared in alphabetical order of destination",
  breaks="rows of the link table take their parameters from the links sorted by destination while the quantities follow declaration order",
  edits=[(A, "                    sl = study.networks[n].nodes[node].links[i]\n", "                    links = sorted(study.networks[n].nodes[node].links, key=lambda l: l.dest)\n                    sl = links[i]\n")],
  demo='''
import hadar as hd
study = (hd.Study(horizon=1).network().node("a").production(name="p", cost=1, quantity=10).node("b").node("c")
  .consumption(name="c", cost=100, quantity=3)
  .link(src="a", dest="c", cost=7, quantity=5).link(src="a", dest="b", cost=2, quantity=9).build())
an = hd.ResultAnalyzer(study, hd.LPOptimizer().solve(study))
df = an.link.set_index("dest")
assert df.loc["c", "cost"] == 7 and df.loc["b", "cost"] == 2 and df.loc["c", "avail"] == 5, df
'''),
 dict(id="b17", property="C17",
  needs="a selection given as a list with a single name",
  breaks="a list with one name selects everything",
  edits=[(A, "        elif isinstance(index, list):\n            self.index = tuple(index)\n            self.all = len(index) == 0", "        elif isinstance(index, list):\n            self.index = tuple(index)\n            self.all = len(index) <= 1")],
  demo='''
import hadar as hd
study = (hd.Study(horizon=1).network().node("a").production(name="p", cost=1, quantity=10).production(name="q", cost=2, quantity=10).build())
an = hd.ResultAnalyzer(study, hd.LPOptimizer().solve(study))
df = an.network().node("a").scn(0).time(0).production(["p"])
assert list(df.index) == ["p"], df
'''),
 dict(id="b18", property="C18",
  needs="a network selector kept and continued after another one was derived from it",
  breaks="selecting another network redirects selectors kept earlier",
  edits=[(I, "        self.study.add_network(name)\n        return NetworkFluentAPISelector(selector={\"network\": name}, study=self.study)\n\n    def converter", "        self.study.add_network(name)\n        self.selector[\"network\"] = name\n        return NetworkFluentAPISelector(selector={\"network\": name}, study=self.study)\n\n    def converter")],
  demo='''
import hadar as hd
s = hd.Study(horizon=1)
elec = s.network("elec")
elec.network("gas").node("g")
elec.node("e")
assert list(s.networks["elec"].nodes) == ["e"] and list(s.networks["gas"].nodes) == ["g"], s
'''),
 dict(id="b19", property="C19",
  needs="a node with two storages",
  breaks="the storage cost of a node counts only the most expensive storage instead of their sum",
  edits=[(A, '                (stor["capacity"] * stor["cost"])\n                .groupby(axis=0, level=("scn", "t"))\n                .sum()', '                (stor["capacity"] * stor["cost"])\n                .groupby(axis=0, level=("scn", "t"))\n                .max()')],
  demo='''
import hadar as hd
study = (hd.Study(horizon=1).network().node("a")
  .storage(name="s", capacity=10, flow_in=0, flow_out=0, cost=1, init_capacity=5)
  .storage(name="u", capacity=10, flow_in=0, flow_out=0, cost=2, init_capacity=4).build())
an = hd.ResultAnalyzer(study, hd.LPOptimizer().solve(study))
assert abs(an.get_cost(node="a")[0, 0] - 13) < 1e-6, an.get_cost(node="a")
'''),
 dict(id="b20", property="C20",
  needs="two networks with nodes of the same name, linked in both",
  breaks="imports of a node are added up over all networks",
  edits=[(A, 'mask = (self.link["dest"] == node) & (self.link["network"] == network)', 'mask = (self.link["dest"] == node) & self.link["network"].isin(self.study.networks)')],
  demo='''
import hadar as hd
s = hd.Study(horizon=1)
for n, q in (("elec", 3), ("gas", 4)):
    (s.network(n).node("a").production(name="p", cost=1, quantity=10).node("b").consumption(name="c", cost=100, quantity=q)
      .link(src="a", dest="b", cost=1, quantity=10))
an = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert abs(an.get_balance(node="b", network="elec")[0, 0] + 3) < 1e-6, an.get_balance(node="b", network="elec")
'''),
 dict(id="b21", property="C21",
  needs="a pipeline made of stages without requirements only, registered in a shuffler",
  breaks="a pipeline that declares no output is registered although nothing says it yields the shuffler column",
  edits=[(P, "        if TO_SHUFFLER not in self.plug.outputs:\n", "        if self.plug.outputs and TO_SHUFFLER not in self.plug.outputs:\n")],
  demo='''
import pandas as pd
import hadar as hd
from hadar.workflow.pipeline import Pipeline
sh = hd.Shuffler()
ok = Pipeline([hd.ToShuffler(result_name="a")])
sh.add_pipeline("x", pd.DataFrame({"a": [1., 2.]}), ok)
try:
    sh.add_pipeline("y", pd.DataFrame({"a": [1., 2.]}), Pipeline([hd.Clip(lower=0)]))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="b22", property="C22",
  needs="the data frame given to a stage is looked at after the run",
  breaks="a stage that is run alone works on the caller's data frame",
  edits=[(P, "        return self._process_timeline(timeline.copy())\n\n    @staticmethod\n    def standardize_column", "        return self._process_timeline(timeline)\n\n    @staticmethod\n    def standardize_column")],
  demo='''
import hadar as hd, pandas as pd, numpy as np
df = pd.DataFrame({(0, "a"): [1., 2.], (1, "a"): [3., 4.]})
before = df.copy(deep=True)
hd.Rename(a="b")(df)
assert list(df.columns) == list(before.columns) and df.equals(before), df
'''),
 dict(id="b23", property="C23",
  needs="two outages of one scenario that overlap",
  breaks="overlapping outages do not add up",
  edits=[(P, "loss_qt[begin : (begin + duration)] += self.loss", "loss_qt[begin : (begin + duration)] = self.loss")],
  demo='''
import hadar as hd, pandas as pd, numpy as np
df = pd.DataFrame({"quantity": np.ones(50) * 1000.})
out = hd.Fault(loss=10, occur_freq=0.5, downtime_min=5, downtime_max=10, seed=1)(df)
loss = 1000. - out[0]["quantity"].values
assert loss.max() > 10.5, loss   # overlapping outages add up
'''),
 dict(id="b24", property="C24",
  needs="a pipeline that yields the same scenario several times",
  breaks="scenarios a pipeline yields several times are drawn as if they had been yielded once",
  edits=[(S, "        return res.values.T\n", "        return np.unique(res.values.T, axis=0)\n")],
  demo='''
import numpy as np, pandas as pd
import hadar as hd
from hadar.workflow.shuffler import TimelinePipeline
df = pd.DataFrame({(0, "to_shuffler"): [3., 1.], (1, "to_shuffler"): [3., 1.], (2, "to_shuffler"): [2., 2.]})
seen = []
def sampler(low, high, size):
    seen.append((low, high))
    return np.arange(size)
class Same(hd.FocusStage):
    def __init__(self):
        hd.FocusStage.__init__(self, plug=hd.RestrictedPlug(inputs=["to_shuffler"], outputs=["to_shuffler"]))
    def _process_scenarios(self, n, s):
        return s
from hadar.workflow.pipeline import Pipeline
tl = TimelinePipeline(df, Pipeline([Same()]), sampler=sampler)
out = tl.sample(2)
assert seen == [(0, 3)] and out.tolist() == [[3, 1], [3, 1]], (seen, out)
'''),
 dict(id="b25", property="C25",
  needs="a production gaussian at a time step in a network other than 'default'",
  breaks="points of a production gaussian at a time step are coloured with the remaining capacity of the default network",
  edits=[(V, '''                .production(self.name)
                .time(t)
                .scn()[self.kind]
                .values
            )
            rac = self.agg.get_rac(network=self.network)[:, t]''', '''                .production(self.name)
                .time(t)
                .scn()[self.kind]
                .values
            )
            rac = self.agg.get_rac()[:, t]''')],
  demo='''
import hadar as hd
from hadar.viewer.abc import ProductionFluentAPISelector
import numpy as np
s = hd.Study(horizon=1, nb_scn=2)
s.network().node("a").consumption(name="c", cost=10, quantity=5)
s.network("gas").node("a").consumption(name="c", cost=10, quantity=5).production(name="p", cost=1, quantity=20)
an = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
class Rec:
    def gaussian(self, rac, qt, title): return rac, qt
rac, qt = ProductionFluentAPISelector(Rec(), an, network="gas", name="p", node="a", kind="used").gaussian(t=0)
assert (rac == an.get_rac(network="gas")[:, 0]).all(), rac
'''),
 dict(id="b26", property="C27",
  needs="a node selected again after elements were added to it",
  breaks="re-selecting a node that has no element but is a link end or only holds storages empties it",
  edits=[(I, "        if node not in self.networks[network].nodes.keys():\n            self.networks[network].nodes[node] = InputNode(", "        known = self.networks[network].nodes.get(node)\n        if known is None or not (known.consumptions or known.productions or known.links):\n            self.networks[network].nodes[node] = InputNode(")],
  demo='''
import hadar as hd
s = hd.Study(horizon=1)
s.network().node("a").storage(name="s", capacity=1, flow_in=1, flow_out=1)
s.network().node("a").consumption(name="c", cost=1, quantity=1)
assert len(s.networks["default"].nodes["a"].storages) == 1
'''),
 dict(id="b27", property="C31",
  needs="a stack with more than ten lines",
  breaks="the eleventh line of a stack has no colour left: drawing a node with more than ten consumptions or exports fails",
  edits=[(H, "line_color=self.cmap_cons[i % 10],", "line_color=self.cmap_cons[i],")],
  demo='''
import numpy as np
from hadar.viewer.html import HTMLElementPlotting
h = HTMLElementPlotting(unit="", time_index=np.arange(2))
n = 11
f = h.stack(areas=[], lines=[("l%d" % i, np.ones(2)) for i in range(n)], title="")
assert sorted(l.y[0] for l in f.data) == list(range(1, n + 1)), f
'''),
 dict(id="b28", property="C24",
  needs="a shuffle of several timelines, or two shuffles, with the default sampler",
  breaks="the default sampler travels to the workers with a copy of its generator: all timelines and all shuffles draw the same rows",
  edits=[("hadar/workflow/shuffler.py", "    def __init__(self, sampler=randint):", "    def __init__(self, sampler=np.random.randint):")],
  demo='''
import numpy as np
from hadar.workflow.shuffler import Shuffler
if __name__ == "__main__":
    got = []
    for _ in range(2):
        sh = Shuffler()
        for n in "ab":
            sh.add_data(n, np.arange(1000).reshape(1000, 1))
        got += [v[:, 0].tolist() for v in sh.shuffle(20).values()]
    assert len({str(g) for g in got}) == 4, got
'''),
 dict(id="b29", property="C10",
  needs="the same list given twice to one study, changed in between",
  breaks="a list converted before is not converted again: the second element keeps the old content",
  edits=[("hadar/optimizer/domain/numeric.py", "        self.nb_scn = nb_scn\n\n    def __eq__(self, other):", "        self.nb_scn = nb_scn\n        self._last = None\n\n    def __eq__(self, other):"),
         ("hadar/optimizer/domain/numeric.py", "        if isinstance(value, NumericalValue):\n            return value\n", "        if isinstance(value, NumericalValue):\n            return value\n        if not isinstance(value, list):\n            return self._convert(value)\n        if self._last is None or self._last[0] is not value:\n            self._last = (value, self._convert(value))\n        return self._last[1]\n\n    def _convert(self, value) -> NumericalValue:\n")],
  demo='''
import hadar as hd
s = hd.Study(horizon=2)
v = [1, 2]
n = s.network().node("a").consumption(name="c", cost=10, quantity=v)
v[1] = 7
n.consumption(name="d", cost=10, quantity=v)
q = [c.quantity[0, 1] for c in s.networks["default"].nodes["a"].consumptions]
assert q == [2, 7], q
'''),
 dict(id="b30", property="C24",
  needs="a shuffle of more than 512 scenarios",
  breaks="above 512 scenarios a drawn block is repeated instead of drawing every scenario",
  edits=[("hadar/workflow/shuffler.py", "        return self.data[sampling]\n", "        if nb > 512:  # keep memory bounded\n            block = self.data[sampling[:512]]\n            return np.resize(block, (nb, block.shape[1]))\n        return self.data[sampling]\n")],
  demo='''
import numpy as np
from hadar.workflow.shuffler import Timeline
data = np.arange(4000).reshape(2000, 2)
tl = Timeline(data, sampler=lambda low, high, size: np.arange(size) % high)
assert (tl.sample(600) == data[:600]).all()
'''),
]
