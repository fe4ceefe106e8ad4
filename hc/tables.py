"""C16-C20: analyzer tables, queries and indicators."""
from .core import *
from .work import fn
from .frames import FEv, Frame, Idx, Series, Val, atom, vsub, vadd, vmul, vdiv, down, UNINIT
from .meval import Arr, Undecided, PyErr
from .stages import judge, isinst

RES = "hadar.analyzer.result."
SITE = "hadar/analyzer/result.py"
UNK = mk("unk", 0, "x")


def mcall(t, name, *args):
    return mk("mcall", t, name, tuple(args), ())


def nv_summary(name):
    def f(e, a, k):
        if k:
            return e.unk("arguments of %s" % name)
        return mcall(a[0], name, *a[1:])
    return f


NVS = {"NumericalValue.flatten": nv_summary("flatten")}


# ---------------------------------------------------------------- models
def obj(**kw):
    return {"." + k: v for k, v in kw.items()}


class Model:
    """a study and its result with one unknown per element, field, scenario and step"""

    def __init__(self, name, h, s, nets, converters=()):
        """nets: {network: {node: (consumptions, productions, storages, links)}} as names; converters: (name, [(net, node)...], (net, node))"""
        self.name, self.h, self.s = name, h, s
        self.nets, self.conv = nets, converters
        self.rows = {k: {} for k in ("consumption", "production", "storage", "link", "src_converter", "dest_converter")}
        snet, rnet = {}, {}
        for n, nodes in nets.items():
            sn, rn = {}, {}
            for d, (cs, ps, ss, ls) in nodes.items():
                a = lambda kind, x, f: self.mat("%s.%s.%s.%s.%s" % (kind, n, d, x, f))
                S = dict(consumptions=[], productions=[], storages=[], links=[])
                R = dict(consumptions=[], productions=[], storages=[], links=[])
                for x in cs:
                    v = dict(cost=a("c", x, "cost"), asked=a("c", x, "asked"), given=a("c", x, "given"))
                    S["consumptions"].append(obj(name=x, cost=v["cost"], quantity=v["asked"]))
                    R["consumptions"].append(obj(name=x, quantity=v["given"]))
                    self.add("consumption", v, network=n, node=d, name=x)
                for x in ps:
                    v = dict(cost=a("p", x, "cost"), avail=a("p", x, "avail"), used=a("p", x, "used"))
                    S["productions"].append(obj(name=x, cost=v["cost"], quantity=v["avail"]))
                    R["productions"].append(obj(name=x, quantity=v["used"]))
                    self.add("production", v, network=n, node=d, name=x)
                for x in ls:
                    v = dict(cost=a("l", x, "cost"), avail=a("l", x, "avail"), used=a("l", x, "used"))
                    S["links"].append(obj(dest=x, cost=v["cost"], quantity=v["avail"]))
                    R["links"].append(obj(dest=x, quantity=v["used"]))
                    self.add("link", v, network=n, node=d, dest=x)
                for x in ss:
                    v = {f: a("s", x, f) for f in ("max_capacity", "capacity", "max_flow_in", "flow_in", "max_flow_out", "flow_out", "cost", "eff")}
                    ini = self.one("s.%s.%s.%s.init" % (n, d, x))
                    S["storages"].append(obj(name=x, capacity=v["max_capacity"], flow_in=v["max_flow_in"], flow_out=v["max_flow_out"], cost=v["cost"], eff=v["eff"], init_capacity=ini))
                    R["storages"].append(obj(name=x, capacity=v["capacity"], flow_in=v["flow_in"], flow_out=v["flow_out"]))
                    self.add("storage", dict(v, init_capacity=Arr((s, h), [ini] * (s * h))), network=n, node=d, name=x)
                sn[d], rn[d] = obj(**S), obj(**R)
            snet[n], rnet[n] = obj(nodes=sn), obj(nodes=rn)
        sc, rc = {}, {}
        for x, srcs, dest in converters:
            mx, cost, flow = (self.mat("v.%s.%s" % (x, f)) for f in ("max", "cost", "flow"))
            ratios = {k: self.mat("v.%s.%s.%s.ratio" % ((x,) + k)) for k in srcs}
            flows = {k: self.mat("v.%s.%s.%s.flow" % ((x,) + k)) for k in srcs}
            sc[x] = obj(name=x, src_ratios=ratios, dest_network=dest[0], dest_node=dest[1], cost=cost, max=mx)
            rc[x] = obj(name=x, flow_src=flows, flow_dest=flow)
            self.add("dest_converter", dict(flow=flow, cost=cost, max=mx), network=dest[0], node=dest[1], name=x)
            for k in srcs:
                m = Arr((s, h), [vdiv(p, q) for p, q in zip(mx.data, ratios[k].data)])
                self.add("src_converter", dict(flow=flows[k], ratio=ratios[k], max=m), network=k[0], node=k[1], name=x)
        self.study = obj(networks=snet, converters=sc, horizon=h, nb_scn=s, version="1", factory=obj(horizon=h, nb_scn=s))
        self.result = obj(networks=rnet, converters=rc)

    def one(self, *name):
        return atom(*name)

    def mat(self, name):
        return Arr((self.s, self.h), [self.one(name, i, j) for i in range(self.s) for j in range(self.h)])

    LABELS = {"link": ("network", "node", "dest")}

    def labels(self, kind):
        return self.LABELS.get(kind, ("network", "node", "name"))

    def add(self, kind, vals, **lab):
        for i in range(self.s):
            for j in range(self.h):
                k = tuple(lab[l] for l in self.labels(kind)) + (i, j)
                self.rows[kind][k] = {c: v.data[i * self.h + j] for c, v in vals.items()}

    COLS = {"consumption": ("cost", "asked", "given"), "production": ("cost", "avail", "used"), "link": ("cost", "avail", "used"),
            "storage": ("max_capacity", "capacity", "max_flow_in", "flow_in", "max_flow_out", "flow_out", "cost", "init_capacity", "eff"),
            "src_converter": ("ratio", "flow", "max"), "dest_converter": ("flow", "cost", "max")}

    def frame(self, kind):
        """the table as it has to be"""
        lab = self.labels(kind) + ("scn", "t")
        cols = self.COLS[kind] + lab
        data = [[] for _ in cols]
        for k, v in self.rows[kind].items():
            r = dict(v, **dict(zip(lab, k)))
            for d, c in zip(data, cols):
                d.append(r[c])
        return Frame(Idx(list(range(len(self.rows[kind])))), Idx(list(cols)), data)


E4 = ((), (), (), ())
LONG = ["a name of more than sixty letters, as other tools like to make them: %s" % x for x in ("net", "from", "load", "car", "to")]
MODELS = [
    Model("two networks, three nodes, two converters", 3, 2, {
        "default": {"a": (("load", "car"), ("gas",), ("cell",), ("c", "b")), "b": (("load",), ("nuclear", "gas"), (), ("a",)), "c": ((), (), ("hydro", "cell"), ("b",))},
        "gas": {"b": (("load",), ("gas",), ("tank",), ()), "a": ((), ("import",), (), ("b",))},
    }, (("conv", [("gas", "b"), ("default", "a")], ("default", "b")), ("back", [("default", "c")], ("gas", "a")))),
    Model("empty nodes and networks", 2, 3, {
        "empty": {}, "z": {"n": E4, "m": (("x",), ("y",), ("s",), ("n",))}, "default": {"m": (("x",), (), (), ())},
    }, (("v", [("z", "m")], ("default", "m")),)),
    Model("single step", 1, 1, {"default": {"a": (("load",), ("gas", "coal"), ("s1", "s2"), ("b",)), "b": ((), (), (), ("a",))}}),
    Model("one scenario", 4, 1, {"default": {"a": (("load",), ("gas",), (), ()), "b": (("load", "load2"), ("gas",), (), ("a",))}}, (("v", [("default", "a"), ("default", "b")], ("default", "a")),)),
    Model("several scenarios, one step", 1, 3, {"n": {"a": (("load", "car"), ("gas",), ("s",), ("b",)), "b": (("load",), (), (), ())}}),
    Model("nothing", 2, 2, {"default": {}}),
    Model("long names", 2, 2, {LONG[0]: {LONG[1]: ((LONG[2], LONG[3]), (LONG[2],), (LONG[3],), (LONG[4],)), LONG[4]: ((), (LONG[2], LONG[3]), (), (LONG[1],))}},
          ((LONG[3], [(LONG[0], LONG[1])], (LONG[0], LONG[4])),)),
    Model("names inside other names", 1, 2, {
        "default": {"a": (("load", "loa"), ("gas", "gas 2"), ("cell",), ("aa", "b")), "aa": (("load", "load.*"), ("ga",), ("cell2", "cell"), ("a",)), "b": E4},
        "gas": {"a": (("load",), ("import",), (), ("b",)), "b": ((), ("gas",), ("tank", "tan"), ("bb",)), "bb": ((), (), (), ("b",))},
        "gas2": {"b": (("loads",), ("gas",), ("tank",), ()), "a": E4},
    }, (("conv", [("gas", "b"), ("default", "a"), ("gas2", "b")], ("default", "aa")), ("con", [("default", "aa"), ("gas", "bb")], ("gas2", "a")), ("v", [("gas", "a")], ("gas", "b")))),
    Model("many elements", 1, 2, {"n": {
        "a": (("l4", "l2", "l1", "l3"), ("p2", "p1", "p4", "p3"), ("s1", "s4", "s3", "s2"), ("e", "b", "d", "c")), "b": (("l",), (), (), ()), "c": E4,
        "d": ((), (), ("s1",), ("a",)), "e": E4}},
        (("v3", [("n", "d"), ("n", "a"), ("n", "c"), ("n", "b")], ("n", "e")), ("v1", [("n", "a")], ("n", "c")), ("v4", [("n", "b")], ("n", "a")), ("v2", [("n", "e")], ("n", "a")))),
    Model("names differing in case and spaces", 2, 1, {
        "default": {"a": (("load", "Load"), ("gas", "gas "), ("cell", " cell"), ("A", "a ")), "A": (("load",), ("Gas",), (), ("a",)), "a ": (("load ",), ("gas",), ("cell",), ("A",))},
        "Default": {"a": (("load",), ("gas",), (), ("b",)), "b": E4}, "default ": {"A": ((), ("gas",), ("cell",), ())}},
        (("conv", [("default", "a"), ("Default", "a")], ("default", "A")), ("Conv", [("default", "a ")], ("default ", "A")), ("conv ", [("default ", "A")], ("default", "a ")))),
]


class Numbers(Model):
    """the same study with numbers: some zero, some equal, negative costs, results within what was asked or available"""

    OF = {"given": "asked", "used": "avail", "capacity": "max_capacity", "flow_in": "max_flow_in", "flow_out": "max_flow_out"}

    def __init__(self, m, seed):
        self.seed = seed
        Model.__init__(self, m.name, m.h, m.s, m.nets, m.conv)

    def draw(self, name, n):
        import zlib
        return zlib.crc32(repr((self.seed, name)).encode()) % n

    def one(self, *name):
        base, _, field = name[0].rpartition(".")
        unit = {4: Fraction(1, 10 ** 6), 5: Fraction(10 ** 8)}.get(self.seed, 1)
        if field in self.OF:
            return self.one(base + "." + self.OF[field], *name[1:]) * Fraction((0, 1, 1, 2)[self.draw(name, 4)], 2)
        k = self.draw(name, 12)
        if field == "cost":
            return Fraction(k - 4) * (unit if unit > 1 else 1)
        if field in ("ratio", "eff"):
            return Fraction(k % 4 + 1, 4)
        return Fraction(max(0, k - 2) * 10) * unit


NUMBERS = {}


def numbers(m):
    if id(m) not in NUMBERS:
        NUMBERS[id(m)] = [Numbers(m, seed) for seed in (1, 2, 3, 4, 5)]
    return NUMBERS[id(m)]


def judge_on(rep, rule, text, f, m, site=None):
    """f(model) -> None or a difference: decided on unknowns for all values, otherwise refuted by numbers where they differ"""
    def g():
        try:
            return f(m)
        except Undecided:
            for x in numbers(m):
                try:
                    d = f(x)
                except Undecided:
                    break
                except PyErr as ex:
                    d = "raises %s" % ex.name
                if d is not None:
                    return "%s (quantities in steps of %s, costs from -4 to 7, draw %d)" % (d, {4: "1e-5", 5: "1e9"}.get(x.seed, 10), x.seed)
            raise
    judge(rep, rule, text, g, site or SITE)


def rows_of(f, m, kind):
    """{labels: values} of a built table, or a description of what is wrong"""
    lab = m.labels(kind) + ("scn", "t")
    have = list(f.columns.labels)
    for c in lab + m.COLS[kind]:
        if c not in have and m.rows[kind]:
            return "column %s is missing" % c
    if not m.rows[kind]:
        return {} if len(f.index) == 0 else "%d rows for no element" % len(f.index)
    col = {c: f.data[have.index(c)] for c in lab + m.COLS[kind]}
    out = {}
    for i in range(len(f.index)):
        k = tuple(col[c][i] for c in lab)
        if any(x is None or isinstance(x, Val) for x in k):
            return "row %d has no label" % i
        k = tuple(int(x) if isinstance(x, (float, Fraction)) and x == int(x) else x for x in k)
        if k in out:
            return "two rows for %s" % (k,)
        out[k] = {c: col[c][i] for c in m.COLS[kind]}
    return out


def table_diff(f, m, kind):
    if not isinstance(f, Frame):
        raise Undecided("table is %r" % (f,))
    if len(f.index) != len(m.rows[kind]):
        return "%d rows, expected %d" % (len(f.index), len(m.rows[kind]))
    got = rows_of(f, m, kind)
    if isinstance(got, str):
        return got
    for k, v in m.rows[kind].items():
        if k not in got:
            return "no row for %s" % (k,)
        for c, x in v.items():
            y = got[k][c]
            if not (x == y):
                return "%s of %s is %s, expected %s" % (c, k, y, x)
    for k in got:
        if k not in m.rows[kind]:
            return "unexpected row %s" % (k,)
    return None


def c16(rep):
    e = rep.engine(SCHEMA, NVS)
    st, re = e.sym("study", ("inst", "Study")), e.sym("result", ("inst", "Result"))
    try:
        an = e.run(fn(e, RES + "ResultAnalyzer"), [st, re])
    except Dead:
        return rep.bad("table built", "ResultAnalyzer", "construction always fails", SITE)
    from .externals import freeze
    for kind in ("consumption", "production", "storage", "link", "src_converter", "dest_converter"):
        t = e.getattr(an, kind)
        r = freeze(e, t)
        for m in MODELS:
            def f(m):
                ev = FEv({st: m.study, re: m.result}, e, isinst)
                return table_diff(ev(r), m, kind)
            judge_on(rep, "one row per element, scenario and step, values and labels of the same element", "%s table, %s" % (kind, m.name), f, m)
    rep.notes.append("tables built from generic loops; row blocks (closed forms of the running counters) and values evaluated on labelled studies")


# ---------------------------------------------------------------- C17
AN_SCHEMA = dict(SCHEMA)
AN_SCHEMA["ResultAnalyzer"] = dict({"study": ("inst", "Study"), "result": ("inst", "Result")}, **{k: "frame" for k in Model.COLS})
KINDS = {"consumption": "consumption", "production": "production", "storage": "storage", "link": "link",
         "to_converter": "src_converter", "from_converter": "dest_converter"}


def value(e, v):
    """engine term of a python argument"""
    if isinstance(v, list):
        l = e.alloc("list")
        for x in v:
            e.call_method(l, "append", [value(e, x)], {})
        return l
    if isinstance(v, slice):
        return mk("slice", *[value(e, x) for x in (v.start, v.stop, v.step)])
    return NONE if v is None else const(v)


def accepts(v, x):
    """does selection v keep label x"""
    if v is None or v is ALL or v == []:
        return True
    if isinstance(v, list):
        return x in v
    if isinstance(v, slice):
        a, st = v.start or 0, v.step or 1
        return x >= a and (v.stop is None or x < v.stop) and (x - a) % st == 0
    return x == v


ALL = ("all",)  # no argument given


def single(v):
    """is v one single value"""
    if v is None or v is ALL:
        return False
    if isinstance(v, list):
        return len(v) == 1
    if isinstance(v, slice):
        return v.stop is not None and len(range(v.start or 0, v.stop, v.step or 1)) == 1
    return True


def chain(e, o, steps):
    for name, v in steps:
        o = e.run(e.getattr(o, name), [] if v is ALL else [value(e, v)])
    return o


def env_of(e, an, m):
    env = {e.getattr(an, k): m.frame(k) for k in Model.COLS}
    env[e.getattr(an, "study")] = m.study
    env[e.getattr(an, "result")] = m.result
    return env


def selected(v, m, kind, steps):
    """difference between an answer and the rows asked for"""
    if not isinstance(v, Frame):
        raise Undecided("answer is %r" % (v,))
    tab = KINDS[kind]
    lab = m.labels(tab) + ("scn", "t")
    col = {"network": "network", "node": "node", "scn": "scn", "time": "t"}
    order = [col.get(n, lab[2]) for n, _ in steps]
    sel = {col.get(n, lab[2]): x for n, x in steps}
    want = {}
    for k, vals in m.rows[tab].items():
        d = dict(zip(lab, k))
        if all(accepts(sel[c], d[c]) for c in order):
            want[tuple(d[c] for c in order)] = vals
    if not want:
        return None if len(v.index) == 0 else "%d rows, none expected" % len(v.index)
    names = [x for x in (v.index.names or [None])]
    gone = []
    for c in order[:-1]:
        if not single(sel[c]):
            break
        gone.append(c)
    if names != order[len(gone):]:
        return "indexed by %s, expected %s" % (names, order[len(gone):])
    if len(v.index) != len(want):
        return "%d rows, expected %d" % (len(v.index), len(want))
    got = {}
    for i, l in enumerate(v.index.labels):
        l = tuple(l) if v.index.multi else (l,)
        if l in got:
            return "two rows for %s" % (l,)
        got[l] = i
    for k, vals in want.items():
        l = k[len(gone):]
        if l not in got:
            return "no row for %s" % (k,)
        for c, x in vals.items():
            if c not in v.columns.labels:
                return "column %s is missing" % c
            y = v.data[v.columns.labels.index(c)][got[l]]
            if not (x == y):
                return "%s of %s is %s, expected %s" % (c, k, y, x)
    return None


def c17(rep):
    names = {"consumption": ["load", "x"], "production": ["gas", "nuclear"], "storage": ["cell", "s"], "link": ["b", "c"],
             "to_converter": ["conv", "v"], "from_converter": ["back", "v"]}
    orders = (("node", "scn", "time", "KIND"), ("KIND", "time", "node", "scn"), ("scn", "KIND", "node", "time"), ("time", "node", "KIND", "scn"), ("node", "KIND", "time", "scn"))
    selections = (
        dict(network="default", node="a", scn=0, time=ALL, KIND=ALL),
        dict(network="default", node=ALL, scn=ALL, time=ALL, KIND=ALL),
        dict(network=None, node=None, scn=None, time=None, KIND=None),
        dict(network="default", node=["a", "b"], scn=[1], time=[0, 2], KIND=0),
        dict(network=["gas", "default"], node="b", scn=slice(1, 2), time=slice(None, 2), KIND=[0, 1]),
        dict(network="gas", node=[], scn=slice(1, None), time=slice(None, None, 2), KIND=[]),
        dict(network=["z", "default", "gas"], node=["m", "b", "a"], scn=slice(0, 3, 2), time=slice(1, None), KIND=ALL),
        dict(network="default", node="b", scn=1, time=1, KIND=0),
        dict(network="default", node="nowhere", scn=0, time=0, KIND=0),
    )
    for kind, ns in names.items():
        for i, sel in enumerate(selections):
            todo = orders if i in (0, 4) else orders[:2] if i == 7 else orders[i % len(orders):][:1]
            for order in todo:
                e = rep.engine(AN_SCHEMA, NVS)
                an = e.sym("an", ("inst", "ResultAnalyzer"))
                steps = [("network", sel["network"])]
                for s in order:
                    v = sel[s]
                    if s == "KIND":
                        v = ns[v] if isinstance(v, int) else [ns[x] for x in v] if isinstance(v, list) else v
                    steps.append((kind if s == "KIND" else s, v))
                text = ".".join("%s(%s)" % (n, "" if v is ALL else v) for n, v in steps)
                m = Mark(e)
                try:
                    r = chain(e, an, steps)
                except Dead:
                    rep.bad("query returns the rows selected", text, "the query always fails", SITE)
                    continue
                from .externals import freeze
                r = freeze(e, r)
                for mo in MODELS[:2] + MODELS[7:8] + (MODELS[3:4] if i < 3 else []) + (MODELS[9:10] if i < 8 else []):
                    judge_on(rep, "query returns the rows selected", "%s, %s" % (text, mo.name),
                             lambda x: selected(FEv(env_of(e, an, x), e, isinst)(r), x, kind, steps), mo)
    refused(rep)
    rep.notes.append("%d selections over 6 element kinds and several orders, answers evaluated on labelled tables" % len(selections))


def refused(rep):
    """a query without network, node, time or scenario fails"""
    cls = {"network": "NetworkIndex", "node": "NodeIndex", "time": "TimeIndex", "scn": "ScnIndex"}
    kinds = ("ConsIndex", "ProdIndex", "StorIndex", "LinkIndex", "SrcConverter", "DestConverter")
    for kc in kinds:
        for missing in list(cls) + [None]:
            e = rep.engine(AN_SCHEMA, NVS)
            if any(e.p.find_class(c) is None for c in list(cls.values()) + [kc]):
                return rep.maybe("incomplete query is refused", kc, "index classes not found", SITE)
            an = e.sym("an", ("inst", "ResultAnalyzer"))
            l = e.alloc("list")
            for n, c in list(cls.items()) + [(None, kc)]:
                if n != missing or n is None:
                    e.call_method(l, "append", [e.run(fn(e, RES + c), [NONE])], {})
            try:
                r = e.run(fn(e, RES + "ResultAnalyzer.filter"), [an, l])
                dead = False
            except Dead:
                dead = True
            if missing is None:
                rep.check("complete query is answered", kc, not dead, "a query with every index always fails", SITE)
            else:
                d = e.decide(TRUE)
                rep.check("incomplete query is refused", "%s without %s" % (kc, missing), dead, "answered with %r" % (None if dead else r), SITE)


# ---------------------------------------------------------------- C19, C20
def scopes(m):
    """(node, network) arguments to try on a study, with the nodes they cover"""
    out = [(None, None, [(n, d) for n in m.nets for d in m.nets[n]])]
    for n in m.nets:
        out.append((None, n, [(n, d) for d in m.nets[n]]))
        for d in m.nets[n]:
            out.append((d, n, [(n, d)]))
            if n == "default":
                out.append((d, None, [(n, d)]))
    return out


def matrix(v, want, m):
    """difference between an array and {(scn, t): value}"""
    if not isinstance(v, Arr):
        raise Undecided("answer is %r" % (v,))
    if tuple(v.shape) != (m.s, m.h):
        return "shape is %s, expected %s" % (tuple(v.shape), (m.s, m.h))
    for i in range(m.s):
        for j in range(m.h):
            x, y = want.get((i, j), 0), v.data[i * m.h + j]
            if not (vsub(x, y) == 0):
                return "value at scenario %d, step %d is %s, expected %s" % (i, j, y, x)
    return None


def total(m, kind, keep, term):
    """{(scn, t): sum of term over the kept rows}"""
    out = {}
    for k, v in m.rows[kind].items():
        if keep(k):
            out[k[-2:]] = vadd(out.get(k[-2:], 0), term(v))
    return out


def plus(*ds):
    out = {}
    for sign, d in ds:
        for k, v in d.items():
            out[k] = vadd(out.get(k, 0), v if sign > 0 else vsub(0, v))
    return out


def vector(v, want):
    if isinstance(v, (list, tuple)):
        v = Arr((len(v),), list(v))
    if not isinstance(v, Arr):
        raise Undecided("answer is %r" % (v,))
    if tuple(v.shape) != (len(want),):
        return "shape is %s, expected %s" % (tuple(v.shape), (len(want),))
    for n, x, y in zip(("consumptions", "productions", "storages", "links", "converters fed", "converters received"), want, v.data):
        if not (vsub(x, y) == 0):
            return "number of %s is %s, expected %s" % (n, y, x)
    return None


def counts(m, nodes):
    out = [0] * 6
    for n, d in nodes:
        for i, x in enumerate(m.nets[n][d]):
            out[i] += len(x)
        for _, srcs, dest in m.conv:
            out[4] += (n, d) in srcs
            out[5] += (n, d) == dest
    return out


class Indicator:
    """symbolic answers of an indicator, one per pattern of arguments, evaluated on the labelled studies"""

    def __init__(self, rep, name, what):
        self.rep, self.name, self.what, self.memo = rep, name, what, {}

    def term(self, args, before=()):
        from .externals import freeze
        e = self.rep.engine(AN_SCHEMA, NVS)
        an = e.sym("an", ("inst", "ResultAnalyzer"))
        r = None
        for x in tuple(before) + (args,):
            try:
                r = freeze(e, e.run(fn(e, RES + "ResultAnalyzer." + self.name), [an] + [value(e, y) for y in x]))
            except Dead:
                r = None
        return e, an, r

    def ask(self, m, args, diff):
        text = "%s(%s), %s" % (self.name, ", ".join(repr(a) for a in args), m.name)
        self.one(m, args, (), diff, text)
        if leaves_state(self.memo[(args, ())][0]):  # an answer may depend on the questions asked before
            for (other, b) in list(self.memo):
                if not b and other != args:
                    self.one(m, args, (other,), diff, "%s, asked after (%s)" % (text, ", ".join(repr(a) for a in other)))

    def one(self, m, args, before, diff, text):
        if (args, before) not in self.memo:
            self.memo[(args, before)] = self.term(args, before)
        e, an, r = self.memo[(args, before)]
        if r is None:
            return self.rep.bad(self.what, text, "always fails", SITE)
        judge_on(self.rep, self.what, text, lambda x: diff(FEv(env_of(e, an, x), e, isinst)(r), x), m)


def leaves_state(e):
    """the calls analysed write something that outlives them"""
    return any("static" in o.meta and len(o.writes) > o.meta["n0"] for o in e.objs.values()) or any(
        x.kind in ("globalwrite",) or (x.kind == "mutate" and x.target.op in ("class", "sym", "mod")) for x in e.effects)


def c20(rep):
    el = Indicator(rep, "get_elements_inside", "element counts per node, network and study")
    ba = Indicator(rep, "get_balance", "balance is exports minus imports inside the network")
    ra = Indicator(rep, "get_rac", "remaining capacity is spare production minus lost load of the network")
    for m in MODELS:
        for node, net, nodes in scopes(m):
            args = (node, net) if net is not None else (node,) if node is not None else ()
            el.ask(m, args, lambda v, m: vector(v, counts(m, nodes)))
        for n in m.nets:
            for d in list(m.nets[n]) + ["nowhere"]:
                def balance(v, m):
                    return matrix(v, plus((1, total(m, "link", lambda k: k[:2] == (n, d), lambda v: v["used"])),
                                          (-1, total(m, "link", lambda k: k[0] == n and k[2] == d, lambda v: v["used"]))), m)
                ba.ask(m, (d, n), balance)
                if n == "default":
                    ba.ask(m, (d,), balance)

            def spare(v, m):
                return matrix(v, plus((1, total(m, "production", lambda k: k[0] == n, lambda v: vsub(v["avail"], v["used"]))),
                                      (-1, total(m, "consumption", lambda k: k[0] == n, lambda v: vsub(v["asked"], v["given"])))), m)
            ra.ask(m, (n,), spare)
            if n == "default":
                ra.ask(m, (), spare)
    rep.notes.append("indicators extracted as expressions over the tables and evaluated on %d labelled studies, every scope" % len(MODELS))


def c19(rep):
    co = Indicator(rep, "get_cost", "cost is the sum of the terms the optimizer charges in that scope")
    for m in MODELS:
        for node, net, nodes in scopes(m):
            keep = lambda k: k[:2] in nodes


            def cost(v, m):
                return matrix(v, plus((1, total(m, "consumption", keep, lambda v: vmul(vsub(v["asked"], v["given"]), v["cost"]))),
                                      (1, total(m, "production", keep, lambda v: vmul(v["used"], v["cost"]))),
                                      (1, total(m, "storage", keep, lambda v: vmul(v["capacity"], v["cost"]))),
                                      (1, total(m, "link", keep, lambda v: vmul(v["used"], v["cost"]))),
                                      (1, total(m, "dest_converter", keep, lambda v: vmul(v["flow"], v["cost"])))), m)
            args = (node, net) if net is not None else (node,) if node is not None else ()
            co.ask(m, args, cost)
    rep.notes.append("cost extracted as an expression over the tables and evaluated on %d labelled studies, every scope" % len(MODELS))


CHECKS = {"C16": c16, "C17": c17, "C19": c19, "C20": c20}
