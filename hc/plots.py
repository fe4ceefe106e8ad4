"""C25: what every plot draws."""
from fractions import Fraction

from .core import *
from .work import fn
from .frames import FEv, Frame, Idx, Series, Val, vsub, vadd, vmul, down
from .meval import Arr, Undecided, PyErr
from .stages import judge, isinst
from .tables import Model, AN_SCHEMA, NVS, E4, KINDS, ALL, value, chain, env_of, plus, total, matrix, accepts, single, counts

VIEW = "hadar.viewer.abc."
SITE = "hadar/viewer/abc.py"
HSITE = "hadar/viewer/html.py"

VSCHEMA = dict(AN_SCHEMA)
VSCHEMA["ABCPlotting"] = {"plotting": ("inst", "ABCElementPlotting"), "agg": ("inst", "ResultAnalyzer"), "unit": "str",
                          "time_index": "any", "coord": "any"}
BACKEND = {"timeline": ("df", "title"), "monotone": ("y", "title"), "gaussian": ("rac", "qt", "title"), "candles": ("open", "close", "title"),
           "stack": ("areas", "lines", "title"), "matrix": ("data", "title"), "map_exchange": ("nodes", "lines", "limit", "title", "zoom")}


def drawn(name):
    def f(e, a, k):
        from .externals import freeze
        d = dict(zip(BACKEND[name], [freeze(e, x) for x in a[1:]]))
        d.update((n, freeze(e, v)) for n, v in k.items())
        if set(d) != set(BACKEND[name]):
            return e.unk("arguments of %s" % name)
        return mk("drawn", name, *[d[n] for n in BACKEND[name]])
    return f


# the analyzer as C17 and C20 establish it, so that plots are decided against its specification
SPEC = '''
class Query:
    def __init__(self, agg, steps):
        self.agg = agg
        self.steps = steps

    def _next(self, step, x):
        steps = self.steps + ((step, x),)
        if len(steps) == 5:
            return answer(self.agg, steps)
        return Query(self.agg, steps)

    def node(self, x=None):
        return self._next("node", x)

    def scn(self, x=None):
        return self._next("scn", x)

    def time(self, x=None):
        return self._next("time", x)

    def consumption(self, x=None):
        return self._next("consumption", x)

    def production(self, x=None):
        return self._next("production", x)

    def storage(self, x=None):
        return self._next("storage", x)

    def link(self, x=None):
        return self._next("link", x)

    def to_converter(self, x=None):
        return self._next("to_converter", x)

    def from_converter(self, x=None):
        return self._next("from_converter", x)


def answer(agg, steps):
    pass
'''


def bind(names, a, k):
    """arguments by name, missing ones are None"""
    d = dict(zip(names, a))
    d.update(k)
    return None if set(d) - set(names) or len(a) > len(names) else d


def s_network(e, a, k):
    d = bind(("name",), a[1:], k)
    e.p.add("hcspec", SPEC)
    return e.run(fn(e, "hcspec.Query"), [a[0], mk("tuple", mk("tuple", const("network"), d.get("name", const("default"))))])


def s_answer(e, a, k):
    d = bind(("agg", "steps"), a, k)
    from .externals import freeze
    return mk("copy", mk("query", d["agg"], freeze(e, d["steps"])), e.fresh())


def s_indic(name, params, size=None):
    def f(e, a, k):
        d = bind([p for p, _ in params], a[1:], k)
        if d is None:
            return e.unk("arguments of %s" % name)
        args = [d.get(p, const(v) if v is not None else NONE) for p, v in params]
        if size:
            return mk("tuple", *[mk("indic", name, a[0], *(args + [const(i)])) for i in range(size)])
        return mk("copy", mk("indic", name, a[0], *args), e.fresh())
    return f


SUM = dict(NVS, **{"ABCElementPlotting." + n: drawn(n) for n in BACKEND})
SUM["ResultAnalyzer.network"] = s_network
SUM["hcspec.answer"] = s_answer
SUM["ResultAnalyzer.get_rac"] = s_indic("get_rac", [("network", "default")])
SUM["ResultAnalyzer.get_balance"] = s_indic("get_balance", [("node", None), ("network", "default")])
SUM["ResultAnalyzer.get_elements_inside"] = s_indic("get_elements_inside", [("node", None), ("network", None)], 6)


class NModel(Model):
    """a study and its result with one distinct number per element, field, scenario and step"""

    def __init__(self, seed, *a):
        self.x = seed
        self.seen = set()
        Model.__init__(self, *a)

    def one(self, name, *ij):
        f = name.rsplit(".", 1)[1]
        while True:
            self.x = (self.x * 1103515245 + 12345) % 2147483648
            v = (self.x >> 8) % 9973 + 2
            if v not in self.seen:
                break
        self.seen.add(v)
        return v


class SModel(NModel):
    """the same with fractions, and flows that balance out between the two directions of a link"""

    def one(self, name, *ij):
        return NModel.one(self, name, *ij) + Fraction(1 + 2 * (self.x % 4), 8)

    def level(self):
        rows = self.rows["link"]
        for k, v in rows.items():
            back = (k[0], k[2], k[1]) + k[3:]
            if back in rows and sum(k[3:]) % 2 == 0:
                rows[back]["used"] = v["used"]
        return self


class EModel(NModel):
    """elements that differ by name and cost only, half of what they could being used, flows zero at odd steps"""

    def one(self, name, *ij):
        f = name.rsplit(".", 1)[1]
        if f == "cost":
            return NModel.one(self, name, *ij)
        if f in ("ratio", "eff"):
            return 1
        return 6 if f.startswith("max") or f in ("avail", "asked", "init_capacity") else 3 if not ij or ij[-1] % 2 == 0 else 0


class PEv(FEv):
    def ev(self, t):
        if t.op == "drawn":
            return dict(zip(BACKEND[t.args[0]], [None if n in ("title", "zoom") else self(x) for n, x in zip(BACKEND[t.args[0]], t.args[1:])]), **{"": t.args[0]})
        if t.op == "query":
            return self.query([(s.args[0], s.args[1]) for s in t.args[1].args])
        if t.op == "indic":
            return self.indic(t.args[0], [self(x) for x in t.args[2:]])
        return FEv.ev(self, t)

    def query(self, steps):
        """the rows selected, in the order of the steps (C17)"""
        m = self.model
        steps = [(self(n), self(v)) for n, v in steps]
        kinds = [n for n, _ in steps if n in KINDS]
        if len(kinds) != 1 or len(set(n for n, _ in steps)) != 5:
            raise PyErr("AttributeError")
        tab = KINDS[kinds[0]]
        lab = m.labels(tab) + ("scn", "t")
        col = {"network": "network", "node": "node", "scn": "scn", "time": "t"}
        order = [col.get(n, lab[2]) for n, _ in steps]
        sel = {col.get(n, lab[2]): list(x) if isinstance(x, tuple) else x for n, x in steps}
        rows = {}
        for k, vals in m.rows[tab].items():
            d = dict(zip(lab, k))
            if all(accepts(sel[c], d[c]) for c in order):
                rows[tuple(d[c] for c in order)] = vals
        if not rows:
            self.empty = True
            return Frame(Idx([], order, True), Idx([]), [])
        keys = sorted(rows)
        while len(order) > 1 and single(sel[order[0]]):
            order, keys, rows = order[1:], [k[1:] for k in keys], {k[1:]: v for k, v in rows.items()}
        cols = sorted(m.COLS[tab])
        multi = len(order) > 1
        return Frame(Idx([k if multi else k[0] for k in keys], order, multi), Idx(cols), [[rows[k][c] for k in keys] for c in cols])

    def indic(self, name, args):
        m = self.model
        if name == "get_elements_inside":
            node, net, i = args
            if node is not None:
                nodes = [(net if net is not None else "default", node)]
            else:
                nodes = [(n, d) for n in m.nets for d in m.nets[n] if net is None or n == net]
            return counts(m, nodes)[i]
        q = rac(m, args[0]) if name == "get_rac" else balance(m, args[1], args[0])
        return Arr((m.s, m.h), [q[i, j] for i in range(m.s) for j in range(m.h)])


PMODELS = [
    NModel(7, "two networks", 3, 2, {
        "default": {"a": (("load", "car"), ("gas",), ("cell",), ("b", "c")), "b": (("load",), ("nuclear", "gas"), (), ("a",)), "c": ((), (), ("cell", "hydro"), ("b",))},
        "gas": {"b": (("load",), ("gas",), ("tank",), ()), "a": ((), ("import",), (), ("b",))},
    }, (("conv", [("gas", "b"), ("default", "a")], ("default", "b")), ("back", [("default", "c"), ("default", "a")], ("gas", "a")), ("own", [("gas", "b")], ("default", "a")))),
    NModel(11, "three scenarios", 2, 3, {
        "z": {"n": E4, "m": (("x",), ("y",), ("s",), ("n",)), "b": ((), ("gas",), (), ("m", "n"))}, "default": {"m": (("x", "load"), ("w",), (), ()), "a": (("load",), ("gas", "oil"), ("cell", "two"), ("m",)), "b": (("load",), ("nuclear",), (), ("a", "m"))},
    }, (("conv", [("z", "m"), ("default", "a")], ("default", "m")), ("back", [("default", "m")], ("default", "a")))),
]
PMODELS.append(NModel(13, "no exchange", 2, 2, {"default": {"a": (("load",), ("gas",), (), ()), "b": E4}, "z": {"n": ((), ("y",), (), ("m",)), "m": E4}}))
PMODELS.append(SModel(17, "balanced flows", 2, 3, {"default": {"a": (("load",), ("gas",), ("cell",), ("b", "c")), "b": (("load",), (), (), ("a",)), "c": ((), ("gas",), (), ())}}).level())
PMODELS.append(EModel(19, "alike elements", 2, 2, {"default": {"a": (("load", "car", "home"), ("gas", "oil"), ("cell", "two"), ("b",)), "b": (("load",), ("gas", "nuclear", "oil"), (), ())}},
                      (("conv", [("default", "a")], ("default", "b")), ("back", [("default", "a")], ("default", "b")))))


def call(e, o, name, args, kw):
    return e.run(e.getattr(o, name), [value(e, x) for x in args], {k: value(e, v) for k, v in kw.items()})


def sequence(v):
    if isinstance(v, Series):
        return list(v.data)
    if isinstance(v, Arr):
        if len(v.shape) != 1:
            raise Undecided("shape %s" % (v.shape,))
        return list(v.data)
    if isinstance(v, (list, tuple)):
        return list(v)
    raise Undecided("sequence %r" % (v,))


def same(a, b):
    return len(a) == len(b) and all(vsub(x, y) == 0 for x, y in zip(a, b))


def bag(xs):
    return sorted(xs, key=repr)


def element(m, tab, net, node, name):
    """{(scn, t): values} of one element"""
    return {k[3:]: v for k, v in m.rows[tab].items() if k[:3] == (net, node, name)}


def rac(m, net):
    w = plus((1, total(m, "production", lambda k: k[0] == net, lambda v: vsub(v["avail"], v["used"]))),
             (-1, total(m, "consumption", lambda k: k[0] == net, lambda v: vsub(v["asked"], v["given"]))))
    return {(i, j): w.get((i, j), 0) for i in range(m.s) for j in range(m.h)}


def balance(m, net, node):
    w = plus((1, total(m, "link", lambda k: k[:2] == (net, node), lambda v: v["used"])),
             (-1, total(m, "link", lambda k: k[0] == net and k[2] == node, lambda v: v["used"])))
    return {(i, j): w.get((i, j), 0) for i in range(m.s) for j in range(m.h)}


def d_timeline(m, d, q):
    v = d["df"]
    if isinstance(v, Frame) and len(v.columns) == 1:
        v = Series(v.index, v.data[0])
    if not isinstance(v, Series):
        raise Undecided("timeline of %r" % (v,))
    names = list(v.index.names)
    if "scn" not in names or "t" not in names:
        return "indexed by %s" % names
    si, ti = names.index("scn"), names.index("t")
    if (si, ti) != (len(names) - 2, len(names) - 1):
        raise Undecided("timeline index %s" % names)
    got, order = {}, {}
    for l, x in zip(v.index.labels, v.data):
        k = (l[si], l[ti])
        if k in got:
            return "two values for scenario %s, step %s" % k
        got[k] = x
        order.setdefault(k[0], []).append(k[1])
    if set(got) != set(q):
        return "shows scenarios and steps %s, expected %s" % (sorted(got), sorted(q))
    for k in q:
        if not (vsub(got[k], q[k]) == 0):
            return "value of scenario %s, step %s is %s, expected %s" % (k + (got[k], q[k]))
    for s, ts in order.items():
        if ts != sorted(ts):
            return "steps of scenario %s drawn in order %s" % (s, ts)
    return None


def cut(q, t, scn):
    return [q[k] for k in sorted(q) if (t is None or k[1] == t) and (scn is None or k[0] == scn)]


def d_monotone(m, d, q, t, scn):
    got, want = sequence(d["y"]), cut(q, t, scn)
    return None if bag(got) == bag(want) else "shows %s, expected %s" % (got, want)


def d_gaussian(m, d, q, net, t, scn):
    got, col = sequence(d["qt"]), sequence(d["rac"])
    want, wcol = cut(q, t, scn), cut(rac(m, net), t, scn)
    if len(got) != len(col):
        return "%d quantities with %d remaining capacities" % (len(got), len(col))
    if bag(got) != bag(want):
        return "shows %s, expected %s" % (got, want)
    return None if bag(zip(got, col)) == bag(zip(want, wcol)) else "remaining capacities are %s, expected %s" % (col, wcol)


def d_candles(m, d, q, scn):
    lev, op, cl = None, [], []
    for k in sorted(q):
        if k[0] == scn:
            v = q[k]
            lev = v["init_capacity"] if lev is None else lev
            op.append(lev)
            lev = vadd(lev, vsub(vmul(v["flow_in"], v["eff"]), v["flow_out"]))
            cl.append(lev)
    a, b = sequence(d["open"]), sequence(d["close"])
    if not same(a, op):
        return "candles open at %s, expected %s" % (a, op)
    return None if same(b, cl) else "candles close at %s, expected %s" % (b, cl)


def pairs(v):
    if isinstance(v, dict):
        v = list(v.items())
    return bag((n, tuple(sequence(x))) for n, x in v)


def d_stack(m, d, net, node, scn, pk, ck):
    h = range(m.h)

    def of(tab, col):
        names = []
        for k in m.rows[tab]:
            if k[:2] == (net, node) and k[2] not in names:
                names.append(k[2])
        return [(n, tuple(m.rows[tab][(net, node, n, scn, t)][col] for t in h)) for n in names]
    bal = balance(m, net, node)
    im = tuple(max(-bal[scn, t], 0) for t in h)
    ex = tuple(max(bal[scn, t], 0) for t in h)
    areas = of("production", pk) + of("storage", "flow_out") + of("dest_converter", "flow") + ([("import", im)] if any(im) else [])
    lines = of("consumption", ck) + of("storage", "flow_in") + of("src_converter", "flow") + ([("export", ex)] if any(ex) else [])
    for what, want in (("areas", areas), ("lines", lines)):
        got = pairs(d[what])
        # an extra null import or export shows nothing
        got = [x for x in got if x in want or any(x[1]) or x[0] not in ("import", "export")]
        if got != bag(want):
            return "%s are %s, expected %s" % (what, got, bag(want))
    return None


def d_matrix(m, d, net):
    v = d["data"]
    if isinstance(v, Frame):
        raise Undecided("matrix frame")
    return matrix(v, rac(m, net), m)


def d_map(m, d, net, t, scn, limit):
    nodes = {n: balance(m, net, n)[scn, t] for n in m.nets[net]}
    got = d["nodes"]
    if not isinstance(got, dict):
        raise Undecided("nodes %r" % (got,))
    if set(got) != set(nodes):
        return "nodes are %s, expected %s" % (sorted(got), sorted(nodes))
    for n in nodes:
        if not (vsub(got[n], nodes[n]) == 0):
            return "balance of %s is %s, expected %s" % (n, got[n], nodes[n])
    want = limit if limit is not None else max(abs(x) for x in nodes.values())
    if not (vsub(d["limit"], want) == 0):
        return "limit is %s, expected %s" % (d["limit"], want)
    used = {k[1:3]: v["used"] for k, v in m.rows["link"].items() if k[0] == net and k[3:] == (scn, t)}
    lines = {}
    for (a, b), x in used.items():
        n = x - used.get((b, a), 0)
        lines[(a, b) if n >= 0 else (b, a)] = abs(n)
    got = d["lines"]
    if not isinstance(got, dict):
        raise Undecided("lines %r" % (got,))
    for k in set(got) | set(lines):
        if k not in got:
            if lines[k] == 0 and k[::-1] in got and got[k[::-1]] == 0:
                continue
            return "exchange %s is not shown" % (k,)
        if k not in lines and not (got[k] == 0 and lines.get(k[::-1]) == 0):
            return "unexpected exchange %s: %s" % (k, got[k])
        if k in lines and not (vsub(got[k], lines[k]) == 0):
            return "exchange %s is %s, expected %s" % (k, got[k], lines[k])
    return None


class Plots:
    rule = "plot shows the data asked for"
    noise = {}

    def __init__(self, rep):
        self.rep, self.n = rep, 0

    def ask(self, models, steps, diff, kind):
        """steps: [(method, args, kw)] from ABCPlotting; diff(model, drawn) -> difference"""
        rep = self.rep
        text = ".".join("%s(%s)" % (n, ", ".join([repr(x) for x in a] + ["%s=%r" % x for x in kw.items()])) for n, a, kw in steps)
        e = rep.engine(VSCHEMA, SUM)
        o = pl = e.sym("pl", ("inst", "ABCPlotting"))
        rule = self.rule
        try:
            kept = []
            for i, (n, a, kw) in enumerate(steps):
                kept.append(o)
                for j, x in enumerate(kept):
                    for other in self.noise.get(j, ()):
                        y = x
                        for n2, a2, kw2 in other:
                            y = call(e, y, n2, a2, kw2)
                o = call(e, o, n, a, kw)
        except Dead:
            return rep.bad(rule, text, "always fails", SITE)
        from .externals import freeze
        r, an = freeze(e, o), e.getattr(pl, "agg")
        self.n += 1
        for m in models:
            def f():
                ev = PEv(env_of(e, an, m), e, isinst)
                ev.model = m
                try:
                    d = ev(r)
                except PyErr as ex:
                    if ex.name == "KeyError" and kind in ("map_exchange", "stack") and getattr(ev, "empty", False):
                        raise Undecided("column of a query answer without row")  # the answer has no column either: not specified
                    raise
                if not isinstance(d, dict) or "" not in d:
                    raise Undecided("plot is %r" % (d,))
                if d[""] != kind:
                    return "draws %s, expected %s" % (d[""], kind)
                return diff(m, d)
            judge(rep, rule, "%s, %s" % (text, m.name), f, SITE)


def c25(rep):
    P = Plots(rep)
    A, B, C, D, E = PMODELS
    els = {"consumption": [(A, "default", "a", "load"), (A, "gas", "b", "load"), (B, "default", "b", "load"), (D, "default", "b", "load")],
           "production": [(A, "default", "b", "gas"), (A, "gas", "a", "import"), (B, "z", "m", "y")],
           "link": [(A, "default", "a", "b"), (A, "gas", "a", "b"), (B, "z", "b", "n")],
           "to_converter": [(A, "default", "a", "conv"), (A, "gas", "b", "own"), (B, "default", "m", "back")],
           "from_converter": [(A, "default", "b", "conv"), (A, "gas", "a", "back"), (B, "default", "a", "back")],
           "storage": [(A, "default", "c", "cell"), (A, "gas", "b", "tank"), (B, "default", "a", "two"), (D, "default", "a", "cell")]}
    kinds = {"consumption": ("given", "asked"), "production": ("used", "avail"), "link": ("used", "avail")}
    for el, where in els.items():
        for i, (m, net, node, name) in enumerate(where):
            q0 = element(m, KINDS[el], net, node, name)
            for ki, kind in enumerate(kinds.get(el, ("flow",))):
                args = (name,) if ki == 0 else (name, kind)
                pre = [("network", () if net == "default" else (net,), {}), ("node", (node,), {}), (el, args, {})]
                if el == "storage":
                    P.ask([m], pre + [("candles", () if i == 0 else (i - 1,), {})], lambda m, d: d_candles(m, d, q0, max(i - 1, 0)), "candles")
                    q = {k: vsub(v["flow_in"], v["flow_out"]) for k, v in q0.items()}
                else:
                    q = {k: v[kind] for k, v in q0.items()}
                    P.ask([m], pre + [("timeline", (), {})], lambda m, d: d_timeline(m, d, q), "timeline")
                for t, scn in (((0, None), (None, 0)) if ki == 0 and i == 0 else ((1, None), (None, 1)) if i < 2 else ((0, None), (None, 2))):
                    kw = {"t": t} if scn is None else {"scn": scn}
                    P.ask([m], pre + [("monotone", (), kw)], lambda m, d: d_monotone(m, d, q, t, scn), "monotone")
                    if el != "storage":
                        P.ask([m], pre + [("gaussian", (), kw)], lambda m, d: d_gaussian(m, d, q, net, t, scn), "gaussian")
    for m, net in ((A, "default"), (A, "gas"), (B, "default"), (B, "z"), (C, "default"), (C, "z"), (D, "default"), (E, "default")):
        pre = [("network", (net,), {})]
        P.ask([m], pre + [("rac_matrix", (), {})], lambda m, d: d_matrix(m, d, net), "matrix")
        for t, scn, limit in ((0, 0, None), (1, 1, 5), (1, 0, None)):
            kw = dict(t=t, zoom=2, scn=scn)
            if limit is not None:
                kw["limit"] = limit
            if scn == 0 and t == 0:
                kw.pop("scn")
            P.ask([m], pre + [("map", (), kw)], lambda m, d: d_map(m, d, net, t, scn, limit), "map_exchange")
        for i, node in enumerate(m.nets[net]):
            for scn, pk, ck in ((0, "used", "asked"), (1, "avail", "given")) if i == 0 else ((1, "used", "asked"),):
                kw = {} if scn == 0 else dict(scn=scn) if pk == "used" else dict(scn=scn, prod_kind=pk, cons_kind=ck)
                P.ask([m], pre + [("node", (node,), {}), ("stack", (), kw)], lambda m, d: d_stack(m, d, net, node, scn, pk, ck), "stack")
    rep.notes.append("%d plots; data reaching the drawing backend extracted as expressions and evaluated on labelled studies" % P.n)


# ---------------------------------------------------------------- C31: the html backend
HSCHEMA = dict(VSCHEMA)
HSCHEMA["HTMLElementPlotting"] = {"unit": "str", "time_index": "arr", "coord": ("dict", "str", "arr"), "cmap": "any", "cmap_plotly": "any", "cmap_cons": ("list", "str")}
FIGURE = '''
class Figure:
    def __init__(self, data=(), layout=None, frames=None, skip_invalid=False):
        self.traces = []
        self.traces.extend(data)

    def add_trace(self, trace, row=None, col=None):
        self.traces.append(trace)
        return self

    def add_traces(self, data):
        self.traces.extend(data)
        return self

    def update_layout(self, dict1=None, overwrite=False, **kw):
        return self
'''
GO = "plotly.graph_objects."


def s_figure(e, a, k):
    e.p.add("hcfig", FIGURE)
    a, k = list(a), dict(k)
    d = k.pop("data", a.pop(0) if a else NONE)
    if d is NONE:
        d = tuple_()
    elif d.op == "trace":
        d = tuple_(d)
    return e.run(fn(e, "hcfig.Figure"), [d] + a, k)


def s_trace(name):
    def f(e, a, k):
        from .externals import freeze
        if a:
            return e.unk("arguments of %s" % name)
        return mk("trace", name, tuple((x, freeze(e, y)) for x, y in sorted(k.items())))
    return f


HSUM = {GO + "Figure": s_figure}
for _n in ("Scatter", "Ohlc", "Candlestick", "Heatmap", "Scattermapbox"):
    HSUM[GO + _n] = s_trace(_n)


class Trace:
    def __init__(self, ev, t):
        self.ev, self.kind, self.kw, self.bv = ev, t.args[0], dict(t.args[1]), dict(ev.bv)

    def get(self, name, d=None):
        if name not in self.kw:
            return d
        old, self.ev.bv = self.ev.bv, dict(self.bv)
        dep, self.ev.depth = self.ev.depth, self.ev.depth + len(self.bv)
        try:
            return self.ev(self.kw[name])
        finally:
            self.ev.bv, self.ev.depth = old, dep

    def opt(self, *path):
        """a style option, None when not understood"""
        try:
            v = self.get(path[0])
            for p in path[1:]:
                v = v.get(p) if isinstance(v, dict) else None
            if v is None and len(path) > 1:
                v = self.get("_".join(path))
            return v
        except Undecided:
            return None


class HEv(FEv):
    def ev(self, t):
        if t.op == "trace":
            return Trace(self, t)
        return FEv.ev(self, t)


def vec(*xs):
    return Arr((len(xs),), list(xs))


TIMES = vec(101, 102, 103)


def h_timeline(ts, d):
    s = d["df"]
    want = {}
    for (i, t), x in zip(s.index.labels, s.data):
        want.setdefault(i, []).append(x)
    got = []
    for tr in ts:
        y = tr.get("y")
        if isinstance(y, (int, Fraction)):
            return "draws the single value %s" % (y,)
        y = sequence(y)
        if sequence(tr.get("x")) != TIMES.data:
            return "drawn against %s instead of the time index" % (tr.get("x"),)
        got.append(y)
    return None if bag(got) == bag(want.values()) else "draws %s, expected one line per scenario %s" % (got, list(want.values()))


def h_monotone(ts, d):
    if len(ts) != 1:
        return "%d traces" % len(ts)
    y, x = sequence(ts[0].get("y")), sequence(ts[0].get("x"))
    want = sorted(d["y"].data, reverse=True)
    if bag(y) != bag(want) or len(x) != len(y):
        return "draws %s, expected %s" % (y, want)
    pts = sorted(zip(x, y))
    if [q for _, q in pts] != want:
        return "values are not drawn in decreasing order: %s" % (pts,)
    n = len(want)
    w = [Fraction(100 * i, n - 1) for i in range(n)] if n > 1 else [0]
    return None if same([p for p, _ in pts], w) else "drawn at %s %%" % ([str(p) for p, _ in pts],)


def h_gaussian(ts, d):
    q, r = d["qt"].data, d["rac"].data
    pts = [t for t in ts if t.opt("mode") == "markers"]
    if len(pts) > 2 or not pts:
        raise Undecided("%d groups of points" % len(pts))
    for t in pts:
        c = t.opt("marker", "color")
        if c not in ("green", "red"):
            raise Undecided("points of colour %r" % (c,))
        got, want = sequence(t.get("x")), [x for x, y in zip(q, r) if (y >= 0) == (c == "green")]
        if bag(got) != bag(want):
            return "%s points are %s, expected %s" % (c, got, want)
    return None


def h_candles(ts, d):
    if len(ts) != 1:
        return "%d traces" % len(ts)
    for k, w in (("open", d["open"].data), ("close", d["close"].data), ("x", TIMES.data)):
        v = sequence(ts[0].get(k))
        if not same(v, w):
            return "%s is %s, expected %s" % (k, v, w)
    return None


def h_stack(ts, d):
    def cum(xs):
        out, acc = [], [0] * len(TIMES.data)
        for n, v in xs:
            acc = [p + q for p, q in zip(acc, v.data)]
            out.append((n, acc))
        return out
    got = []
    for t in ts:
        if sequence(t.get("x")) != TIMES.data:
            return "drawn against %s instead of the time index" % (t.get("x"),)
        y = t.get("y")
        got.append((t.get("name"), sequence(y)))
    for what, w in (("areas", cum(d["areas"])), ("lines", cum(d["lines"]))):
        for x in w:
            if x not in got:
                return "%s: %s is not drawn at its cumulated level %s (%s)" % (what, x[0], x[1], [y for n, y in got if n == x[0]])
    return None if len(got) == len(d["areas"]) + len(d["lines"]) else "%d series drawn" % len(got)


def h_matrix(ts, d):
    if len(ts) != 1:
        return "%d traces" % len(ts)
    m, z = d["data"], ts[0].get("z")
    if sequence(ts[0].get("x")) != TIMES.data:
        return "drawn against %s instead of the time index" % (ts[0].get("x"),)
    y = ts[0].get("y")
    if y is not None and sequence(y) != list(range(m.shape[0])):
        return "scenarios are %s" % (y,)
    if not isinstance(z, Arr):
        raise Undecided("matrix %r" % (z,))
    if tuple(z.shape) != tuple(m.shape):
        return "shape %s" % (z.shape,)
    hi, lo = max([x for x in m.data if x > 0] or [1]), -min([x for x in m.data if x < 0] or [-1])
    want = [Fraction(x, hi) if x > 0 else Fraction(x, lo) if x < 0 else 0 for x in m.data]
    if not same(z.data, want):
        return "colours are %s, expected %s" % ([str(x) for x in z.data], [str(x) for x in want])
    t = ts[0].get("text")
    return None if t is None or isinstance(t, Arr) and same(t.data, m.data) else "texts are %s, expected %s" % (t, m.data)


COORD = {"d": vec(11, 47), "x": vec(20, 20), "c": vec(-3, 39), "b": vec(7, 43), "a": vec(1, 50)}


def h_map(ts, d):
    segs, marks, heads = [], None, []
    for t in ts:
        lon, lat = t.get("lon"), t.get("lat")
        lon, lat = [None if x is None else down(x) for x in sequence(lon)], [None if x is None else down(x) for x in sequence(lat)]
        if t.opt("mode") == "markers":
            if not len(lon) == len(lat) == len(sequence(t.get("text"))):
                return "%d positions for %d nodes" % (len(lon), len(sequence(t.get("text"))))
            marks = sorted((x, y, z) for x, y, z in zip(lon, lat, sequence(t.get("text"))))
            col = sequence(t.opt("marker", "color") or [])
            if col and not same(col, sequence(t.get("text"))):
                return "nodes are coloured by %s instead of their balance" % (col,)
        elif len(lon) == 2:
            segs.append(((lon[0], lat[0]), (lon[1], lat[1])))
        else:
            pts = [(x, y) for x, y in zip(lon, lat) if x is not None]
            if pts and t.get("text") is not None:
                heads.append((t.get("text"), Fraction(sum(p[0] for p in pts)) / len(pts), Fraction(sum(p[1] for p in pts)) / len(pts)))
    want = sorted(tuple(COORD[n].data) + (v,) for n, v in d["nodes"].items())
    if marks != want:
        return "nodes are %s, expected %s" % (marks, want)
    lines = sorted((tuple(COORD[a].data), tuple(COORD[b].data)) for a, b in d["lines"])
    got = sorted(x for x in segs if x)
    if got != lines:
        return "arrows are %s, expected %s" % (got, lines)
    for (a, b), q in d["lines"].items() if heads else ():
        (ax, ay), (bx, by) = COORD[a].data, COORD[b].data
        mine = [(x, y) for t, x, y in heads if t in (str(q), q, str(float(q)))]
        if len(mine) != 1:
            return "%d arrow heads are labelled %s" % (len(mine), q)
        x, y = mine[0]
        if (x - ax) ** 2 + (y - ay) ** 2 <= (x - bx) ** 2 + (y - by) ** 2:
            return "the arrow of exchange %s to %s points to %s" % (a, b, a)
    return None


HDIFF = {"timeline": h_timeline, "monotone": h_monotone, "gaussian": h_gaussian, "candles": h_candles, "stack": h_stack, "matrix": h_matrix, "map_exchange": h_map}


def series(*rows):
    return Series(Idx([(i, j) for i in range(len(rows)) for j in range(len(rows[i]))], ["scn", "t"], True), [x for r in rows for x in r])


HDATA = {
    "timeline": [dict(df=series((5, 3, 9), (1, 7, 2))), dict(df=series((4, 8, 6))), dict(df=series(*[(i, 3, 2 * i) for i in range(130)]))],
    "monotone": [dict(y=vec(5, 9, 1, 7)), dict(y=vec(3)), dict(y=vec(2, 2, 0)), dict(y=vec(-3, 2, -8, 5, 0))],
    "gaussian": [dict(rac=vec(1, -2, 0, 5, -1), qt=vec(11, 7, 13, 4, 9)), dict(rac=vec(1, 2), qt=vec(6, 8)), dict(rac=vec(-1, -2), qt=vec(6, 8))],
    "candles": [dict(open=vec(4, 7, 2), close=vec(7, 2, 5)), dict(open=vec(0, 3, 3), close=vec(3, 3, 0)), dict(open=vec(-2, 1, -4), close=vec(1, -4, -6))],
    "stack": [dict(areas=[("gas", vec(5, 0, 2)), ("nuc", vec(1, 4, 8)), ("import", vec(0, 3, 0))], lines=[("load", vec(6, 5, 9)), ("car", vec(0, 2, 1))]),
              dict(areas=[], lines=[("load", vec(6, 5, 9))]), dict(areas=[("gas", vec(6, 5, 9))], lines=[]),
              dict(areas=[("p%d" % i, vec(i, 2, 1)) for i in range(23)], lines=[("c%d" % i, vec(1, i, 3)) for i in range(23)]),
              dict(areas=[("zero", vec(0, 0, 0)), ("gas", vec(5, 0, 2)), ("void", vec(0, 0, 0)), ("gas", vec(1, 1, 0))],
                   lines=[("none", vec(0, 0, 0)), ("load", vec(6, 5, 9)), ("flat", vec(0, 0, 0))])],
    "matrix": [dict(data=Arr((2, 3), [4, -2, 0, -20, 16, 1])), dict(data=Arr((2, 3), [4, 2, 0, 8, 16, 1])), dict(data=Arr((1, 3), [-4, -2, -8])), dict(data=Arr((1, 3), [0, 0, 0]))],
    "map_exchange": [dict(nodes={"a": 5, "b": -7, "c": 2}, lines={("a", "b"): 6, ("c", "b"): 1}, limit=7, zoom=1), dict(nodes={"a": 5, "b": -5}, lines={("a", "b"): 5}, limit=10, zoom=2),
                     dict(nodes={"x": 0, "b": 3, "a": -3}, lines={("b", "a"): 3}, limit=3, zoom=1),
                     dict(nodes={"d": 4, "b": 3, "a": -3, "c": -4}, lines={(x, y): 1 + i for i, (x, y) in enumerate([("a", "b"), ("c", "a"), ("a", "d"), ("b", "c"), ("d", "b"), ("c", "d")])}, limit=9, zoom=1)],
}
QUARTERS = {"timeline": ["df"], "monotone": ["y"], "gaussian": ["rac", "qt"], "candles": ["open", "close"], "stack": ["areas", "lines"], "matrix": ["data"], "map_exchange": ["nodes", "lines"]}


def quarters(v):
    """the same data at a scale where values are not whole"""
    if isinstance(v, Arr):
        return Arr(v.shape, [Fraction(x, 4) for x in v.data])
    if isinstance(v, Series):
        return Series(v.index, [Fraction(x, 4) for x in v.data])
    if isinstance(v, dict):
        return {k: quarters(x) for k, x in v.items()}
    if isinstance(v, list):
        return [(n, quarters(x)) for n, x in v]
    return Fraction(v, 4)


for _k, _names in QUARTERS.items():
    HDATA[_k].append({n: quarters(x) if n in _names else x for n, x in HDATA[_k][0].items()})


def shared(rep):
    """an array accumulated in place is not stored: what is stored would follow the later updates"""
    import ast
    rule = "accumulated level is stored by copy"
    mod = program().modules["hadar.viewer.html"]
    for f in ast.walk(mod.tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        arrays = {t.id for a in ast.walk(f) if isinstance(a, ast.Assign) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute)
                  and a.value.func.attr in ("zeros", "zeros_like", "array", "copy", "ones", "full") for t in a.targets if isinstance(t, ast.Name)}
        for loop in [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While))]:
            ups = {a.target.id for a in ast.walk(loop) if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name)} & arrays
            ups -= {t.id for a in ast.walk(loop) if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Name)}
            kept = set()
            for c in ast.walk(loop):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "insert", "setdefault", "extend"):
                    for x in c.args:
                        kept |= {y.id for y in ([x] if isinstance(x, ast.Name) else x.elts if isinstance(x, (ast.Tuple, ast.List)) else ()) if isinstance(y, ast.Name)}
                if isinstance(c, ast.Assign) and isinstance(c.value, ast.Name) and any(isinstance(t, ast.Subscript) for t in c.targets):
                    kept.add(c.value.id)
            for v in sorted(ups):
                rep.check(rule, "%s, %s" % (f.name, v), v not in kept, "stored while updated in place" if v in kept else "only copies are stored", "%s:%d" % (HSITE, loop.lineno))


def axis(rep):
    """the time index of the figures"""
    from .externals import freeze
    rule = "time axis covers the horizon"
    for given in (True, False):
        e = rep.engine(HSCHEMA, HSUM)
        agg = e.sym("agg", ("inst", "ResultAnalyzer"))
        st, en = (e.sym("start", "str"), e.sym("end", "str")) if given else (NONE, NONE)
        try:
            pl = e.run(fn(e, "hadar.viewer.html.HTMLPlotting"), [agg], {"time_start": st, "time_end": en, "node_coord": e.sym("coord", ("dict", "str", "arr"))})
            t = freeze(e, e.getattr(e.getattr(pl, "plotting"), "time_index"))
        except Dead:
            rep.bad(rule, "dates given" if given else "no date", "always fails", HSITE)
            continue

        def f():
            env = {e.getattr(agg, "horizon"): 3, e.getattr(agg, "nb_scn"): 2}
            if given:
                env.update({st: 10, en: 30})
            v = HEv(env, e, isinst)(t)
            v = list(v.labels) if isinstance(v, Idx) else sequence(v)
            want = [10, 20, 30] if given else [0, 1, 2]
            return None if v == want else "time index is %s for an horizon of 3, expected %s" % (v, want)
        judge(rep, rule, "dates given" if given else "no date", f, HSITE)


def styles(rep, h):
    """attributes the constructor sets to a constant: {name: value}"""
    from .externals import freeze
    e = rep.engine(HSCHEMA, HSUM)
    out = {}
    try:
        o = e.run(fn(e, "hadar.viewer.html.HTMLElementPlotting"), [], {"unit": e.sym("unit", "str"), "time_index": e.sym("ti", "arr"), "node_coord": e.sym("co", "any")})
    except Dead:
        return out
    for n in sorted({w.key.args[1] for w in e.obj(o).writes if w.key is not None and w.key.op == "const"} if o.op == "ref" else ()):
        try:
            v = HEv({}, e, isinst)(freeze(e, e.getattr(o, n)))
        except (Undecided, PyErr, Dead):
            continue
        if isinstance(v, (str, int, Fraction, list, tuple, dict)):
            out[n] = v
    return out


def c31(rep):
    from .externals import freeze
    types = {"df": "frame", "y": "arr", "rac": "arr", "qt": "arr", "open": "arr", "close": "arr", "data": "arr", "title": "str", "zoom": "num",
             "areas": ("list", ("tuple", ("str", "arr"))), "lines": ("list", ("tuple", ("str", "arr"))), "nodes": ("dict", "str", "num"), "limit": "num"}
    for kind, params in BACKEND.items():
        ty = dict(types)
        if kind == "map_exchange":
            ty["lines"] = ("dict", ("tuple", ("str", "str")), "num")
        e = rep.engine(HSCHEMA, HSUM)
        h = e.sym("h", ("inst", "HTMLElementPlotting"))
        args = [e.sym(p, ty[p]) for p in params]
        style = styles(rep, h)
        rule = "figure draws the data given"
        try:
            r = e.run(fn(e, "hadar.viewer.html.HTMLElementPlotting." + kind), [h] + args)
            t = freeze(e, e.getattr(r, "traces"))
        except Dead:
            rep.bad(rule, kind, "always fails", HSITE)
            continue
        for i, d in enumerate(HDATA[kind]):
            def f():
                env = {s: d[p] for s, p in zip(args, params) if p in d}
                env[e.getattr(h, "time_index")] = TIMES
                env[e.getattr(h, "coord")] = COORD
                env[e.getattr(h, "unit")] = ""
                env[e.getattr(h, "cmap_plotly")] = []
                for n, x in style.items():
                    env.setdefault(e.getattr(h, n), x)
                v = HEv(env, e, isinst)(t)
                if not isinstance(v, list) or any(not isinstance(x, Trace) for x in v):
                    raise Undecided("figure is %r" % (v,))
                r = HDIFF[kind](v, d)
                for tr in v if r is None else ():
                    for n in tr.kw:
                        tr.opt(n)
                return r
            judge(rep, rule, "%s, data %d" % (kind, i), f, HSITE)
    axis(rep)
    shared(rep)
    rep.notes.append("traces added to each figure extracted as expressions of the data given and evaluated on labelled data")


CHECKS = {"C25": c25, "C31": c31}
