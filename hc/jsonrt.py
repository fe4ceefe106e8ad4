"""C11, C12, C13: JSON export and import of studies and results."""
from fractions import Fraction
from .core import *

IN = "hadar.optimizer.domain.input."
OUTP = "hadar.optimizer.domain.output."

BUILD = '''
from hadar.optimizer.domain.input import *
from hadar.optimizer.domain.output import *
from hadar.optimizer.domain.output import Benchmark
from hadar.optimizer.domain.numeric import *

def value(H, N, k, x):
    if k == 0:
        return ScalarNumericalValue(value=x, horizon=H, nb_scn=N)
    if k == 1:
        return RowNumericValue(value=x, horizon=H, nb_scn=N)
    if k == 2:
        return ColumnNumericValue(value=x, horizon=H, nb_scn=N)
    return MatrixNumericalValue(value=x, horizon=H, nb_scn=N)


def _consumption(quantity, cost, name):
    o = Consumption(quantity=quantity, cost=cost, name=name)
    o.quantity, o.cost, o.name = quantity, cost, name
    return o


def _production(quantity, cost, name):
    o = Production(quantity=quantity, cost=cost, name=name)
    o.quantity, o.cost, o.name = quantity, cost, name
    return o


def _storage(name, capacity, flow_in, flow_out, cost, init_capacity, eff):
    o = Storage(name=name, capacity=capacity, flow_in=flow_in, flow_out=flow_out, cost=cost, init_capacity=init_capacity, eff=eff)
    o.name, o.capacity, o.flow_in, o.flow_out = name, capacity, flow_in, flow_out
    o.cost, o.init_capacity, o.eff = cost, init_capacity, eff
    return o


def _link(dest, quantity, cost):
    o = Link(dest=dest, quantity=quantity, cost=cost)
    o.dest, o.quantity, o.cost = dest, quantity, cost
    return o


def _converter(name, src_ratios, dest_network, dest_node, cost, max):
    o = Converter(name=name, src_ratios=src_ratios, dest_network=dest_network, dest_node=dest_node, cost=cost, max=max)
    o.name, o.src_ratios, o.dest_network, o.dest_node, o.cost, o.max = name, src_ratios, dest_network, dest_node, cost, max
    return o


def _inputnode(consumptions, productions, storages, links):
    o = InputNode(consumptions=consumptions, productions=productions, storages=storages, links=links)
    o.consumptions, o.productions, o.storages, o.links = consumptions, productions, storages, links
    return o


def _inputnetwork(nodes):
    o = InputNetwork(nodes=nodes)
    o.nodes = nodes
    return o


def _outputconsumption(quantity, name):
    o = OutputConsumption(quantity=quantity, name=name)
    o.quantity, o.name = quantity, name
    return o


def _outputproduction(quantity, name):
    o = OutputProduction(quantity=quantity, name=name)
    o.quantity, o.name = quantity, name
    return o


def _outputstorage(name, capacity, flow_in, flow_out):
    o = OutputStorage(name=name, capacity=capacity, flow_in=flow_in, flow_out=flow_out)
    o.name, o.capacity, o.flow_in, o.flow_out = name, capacity, flow_in, flow_out
    return o


def _outputlink(dest, quantity):
    o = OutputLink(dest=dest, quantity=quantity)
    o.dest, o.quantity = dest, quantity
    return o


def _outputconverter(name, flow_src, flow_dest):
    o = OutputConverter(name=name, flow_src=flow_src, flow_dest=flow_dest)
    o.name, o.flow_src, o.flow_dest = name, flow_src, flow_dest
    return o


def _outputnode(consumptions, productions, storages, links):
    o = OutputNode(consumptions=consumptions, productions=productions, storages=storages, links=links)
    o.consumptions, o.productions, o.storages, o.links = consumptions, productions, storages, links
    return o


def _outputnetwork(nodes):
    o = OutputNetwork(nodes=nodes)
    o.nodes = nodes
    return o


def _benchmark(modeler, solver, mapper, total):
    o = Benchmark(modeler=modeler, solver=solver, mapper=mapper, total=total)
    o.modeler, o.solver, o.mapper, o.total = modeler, solver, mapper, total
    return o


def _result(networks, converters, benchmark):
    o = Result(networks=networks, converters=converters, benchmark=benchmark)
    o.networks, o.converters, o.benchmark = networks, converters, benchmark
    return o


def study(H, N, V, nv, x):
    s = Study(horizon=H, nb_scn=N, version=V)
    s.horizon, s.nb_scn, s.version = H, N, V
    s.networks = {
        "Net:0 a_b-c.d/e|f": _inputnetwork(nodes={
            "a": _inputnode(
                consumptions=[_consumption(quantity=nv[0], cost=nv[1], name="load"), _consumption(quantity=nv[2], cost=nv[3], name="car b ")],
                productions=[_production(quantity=nv[4], cost=nv[5], name="Solar"), _production(quantity=nv[6], cost=nv[7], name="in"),
                             _production(quantity=nv[30], cost=nv[31], name="load")],
                storages=[_storage(name="cell", capacity=nv[8], flow_in=nv[9], flow_out=nv[10], cost=nv[11], init_capacity=x[0], eff=nv[12]),
                          _storage(name="load", capacity=nv[13], flow_in=nv[14], flow_out=nv[15], cost=nv[16], init_capacity=x[1], eff=nv[17])],
                links=[_link(dest="b", quantity=nv[18], cost=nv[19]), _link(dest="A", quantity=nv[20], cost=nv[21])]),
            "b": _inputnode(
                consumptions=[_consumption(quantity=nv[22], cost=nv[23], name="load")],
                productions=[], storages=[], links=[_link(dest="a", quantity=nv[24], cost=nv[25])]),
            "A": _inputnode(consumptions=[], productions=[_production(quantity=nv[26], cost=nv[27], name="")], storages=[], links=[]),
            " void ": _inputnode(consumptions=[], productions=[], storages=[], links=[]),
        }),
        "gas": _inputnetwork(nodes={
            "a": _inputnode(consumptions=[], productions=[_production(quantity=nv[28], cost=nv[29], name="Solar")], storages=[], links=[]),
        }),
        "empty": _inputnetwork(nodes={}),
    }
    s.converters = {
        "conv": _converter(name="conv", src_ratios={("gas", "a"): nv[32], ("Net:0 a_b-c.d/e|f", "b"): nv[33], ("Net:0 a_b-c.d/e|f", "A"): nv[34]},
                          dest_network="Net:0 a_b-c.d/e|f", dest_node="a", cost=nv[35], max=nv[36]),
        "P2g": _converter(name="P2g", src_ratios={("Net:0 a_b-c.d/e|f", "b"): nv[37]}, dest_network="gas", dest_node="a", cost=nv[38], max=nv[39]),
    }
    return s


def plain_study(H, N, V, nv, x):
    s = Study(horizon=H, nb_scn=N, version=V)
    s.horizon, s.nb_scn, s.version = H, N, V
    s.networks = {
        "default": _inputnetwork(nodes={
            "a": _inputnode(
                consumptions=[_consumption(quantity=nv[0], cost=nv[1], name="load")],
                productions=[], storages=[], links=[]),
            "b": _inputnode(
                consumptions=[], productions=[],
                storages=[_storage(name="cell", capacity=nv[8], flow_in=nv[9], flow_out=nv[10], cost=nv[11], init_capacity=x[0], eff=nv[12])],
                links=[]),
        }),
    }
    s.converters = {}
    return s


def bare_study(H, N, V, nv, x):
    s = Study(horizon=H, nb_scn=N, version=V)
    s.horizon, s.nb_scn, s.version = H, N, V
    s.networks = {}
    s.converters = {}
    return s


def plain_result(x, n):
    return _result(
        networks={
            "default": _outputnetwork(nodes={
                "a": _outputnode(consumptions=[_outputconsumption(quantity=x[0], name="load")], productions=[], storages=[], links=[]),
                "b": _outputnode(consumptions=[], productions=[], storages=[_outputstorage(name="cell", capacity=x[5], flow_in=x[6], flow_out=x[7])],
                                 links=[]),
            }),
        },
        converters={},
        benchmark=_benchmark(modeler=[n[0]], solver=[n[2]], mapper=n[5], total=n[6]))


def bare_result(x, n):
    return _result(networks={}, converters={}, benchmark=_benchmark(modeler=[], solver=[], mapper=n[5], total=n[6]))


def result(x, n):
    return _result(
        networks={
            "Net:0 a_b-c.d/e|f": _outputnetwork(nodes={
                "a": _outputnode(
                    consumptions=[_outputconsumption(quantity=x[0], name="load"), _outputconsumption(quantity=x[1], name="car b ")],
                    productions=[_outputproduction(quantity=x[2], name="Solar"), _outputproduction(quantity=x[3], name="in"),
                                 _outputproduction(quantity=x[4], name="load")],
                    storages=[_outputstorage(name="cell", capacity=x[5], flow_in=x[6], flow_out=x[7]),
                              _outputstorage(name="load", capacity=x[8], flow_in=x[9], flow_out=x[10])],
                    links=[_outputlink(dest="b", quantity=x[11]), _outputlink(dest="A", quantity=x[12])]),
                "b": _outputnode(consumptions=[_outputconsumption(quantity=x[13], name="load")], productions=[], storages=[],
                                links=[_outputlink(dest="a", quantity=x[14])]),
                "A": _outputnode(consumptions=[], productions=[_outputproduction(quantity=x[15], name="")], storages=[], links=[]),
                " void ": _outputnode(consumptions=[], productions=[], storages=[], links=[]),
            }),
            "gas": _outputnetwork(nodes={
                "a": _outputnode(consumptions=[], productions=[_outputproduction(quantity=x[16], name="Solar")], storages=[], links=[]),
            }),
            "empty": _outputnetwork(nodes={}),
        },
        converters={
            "conv": _outputconverter(name="conv", flow_src={("gas", "a"): x[17], ("Net:0 a_b-c.d/e|f", "b"): x[18], ("Net:0 a_b-c.d/e|f", "A"): x[19]}, flow_dest=x[20]),
            "P2g": _outputconverter(name="P2g", flow_src={("Net:0 a_b-c.d/e|f", "b"): x[21]}, flow_dest=x[22]),
        },
        benchmark=_benchmark(modeler=[n[0], n[1]], solver=[n[2], n[3], n[4]], mapper=n[5], total=n[6]))


def export(o):
    return o.to_json()


def import_study(d):
    return Study.from_json(d)


def import_result(d):
    return Result.from_json(d)
'''


# ---------------------------------------------------------------- values
def strip(e, t):
    """the data behind conversions that keep the values"""
    if t.op in ("tolist", "packed"):
        return strip(e, t.args[0])
    if t.op == "copy":
        return strip(e, t.args[0])
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "numpy.copy") and len(t.args[1]) == 1:
        return strip(e, t.args[1][0])
    if t.op == "call" and t.args[0] == "builtins.float" and len(t.args[1]) == 1:
        return strip(e, t.args[1][0])
    if t.op == "call" and t.args[0] == "builtins.int" and len(t.args[1]) == 1 and e.typeof(t.args[1][0]) in ("npint64", "int"):
        return strip(e, t.args[1][0])
    if t.op == "mcall" and t.args[1] in ("view", "copy") and not t.args[2]:
        return strip(e, t.args[0])
    if t.op == "mcall" and t.args[1] == "astype" and len(t.args[2]) == 1:
        ty = t.args[2][0]
        if ty.op == "ext" and ty.args[0] in ("builtins.float", "numpy.float64") or ty is const("float64") or ty is const("float"):
            return strip(e, t.args[0])
    if t.op == "ref":
        o = e.obj(t)
        if o.kind == "arr":
            v = e.arr_value(t)
            return t if v is t else strip(e, v)
        if o.kind == "list":
            segs = e.segments(t)
            if len(segs) == 1 and len(segs[0].binders) == 1 and not segs[0].guards:
                (q, d), = segs[0].binders
                x = strip(e, segs[0].elem)
                if x.op == "item" and x.args[1] is mk("bv", q) and q not in free_bvs(x.args[0]):
                    return strip(e, x.args[0])
                return t
    if t.op == "item":
        b = strip(e, t.args[0])
        if b is not t.args[0]:
            return mk("item", b, t.args[1])
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "splat" and t.args[0].args[0].op == "compbody":
        d, lv, b = t.args[0].args[0].args
        if b.op == "tuple" and b.args[0] is TRUE:
            q = e.fresh()
            x = strip(e, unbind(b.args[1], lv, mk("bv", q)))
            if x.op == "item" and x.args[1] is mk("bv", q) and q not in free_bvs(x.args[0]):
                return strip(e, x.args[0])
    if t.op == "ite":
        a, b = strip(e, t.args[1]), strip(e, t.args[2])
        if a is b:
            return a
    return t


def fields(e, t):
    out = []
    for w in e.obj(t).writes:
        if w.key is not None and w.key.op == "const" and cval(w.key) not in out:
            out.append(cval(w.key))
    return out


def samples(e):
    """data to tell conditions and values apart: all zero, all different"""
    from .meval import Arr
    for z in (0, 1):
        env, n = {}, 0
        for t in list(e.symtype):
            if t.op != "sym":
                continue
            nm = t.args[0]
            if nm in ("horizon", "nb_scn"):
                env[t] = {"horizon": 3, "nb_scn": 2}[nm]
                continue
            shape = (2, 3)
            if nm.startswith("nv"):
                shape = ((), (3,), (2, 1), (2, 3))[int(nm[2:]) % 4]
            k = 1
            for x in shape:
                k *= x
            data = [0 if not z else Fraction(2 * (n + i) + 1, 4) for i in range(k)]
            n += k
            env[t] = Arr(shape, data) if shape and nm[0] in "nq" else data[0]
        yield ("all values are zero" if not z else "values are like 1/4, 3/4, ..."), env


def told(e, f):
    """description of data for which f(evaluator) is true; None when none is found"""
    from .frames import FEv
    from .meval import Undecided, PyErr
    for text, env in samples(e):
        try:
            if f(FEv(env, e)):
                return text
        except (Undecided, PyErr):
            pass
    return None


def kept_entries(e, t, a, path, out):
    """entries of the rebuilt container t which some data makes vanish"""
    sure = False
    for s in (e.entries(t) if e.obj(t).kind == "dict" else e.segments(t)):
        if s.guards and not s.binders:
            d = told(e, lambda ev: not ev.cond(and_(*s.guards)))
            if d is not None:
                out.append((path, "an entry is lost when %s: kept only if %s" % (d, show(and_(*s.guards))[:150]), True))
                sure = True
    return sure


def compare(e, a, b, path, out, seen=None):
    """differences between the original a and the rebuilt b: list of (path, text, definite)"""
    seen = set() if seen is None else seen
    if (a, b) in seen:
        return
    seen.add((a, b))
    a, b = strip(e, a), strip(e, b)
    if a is b:
        return
    if b.op == "nvof" and a.op == "ref" and e.obj(a).kind == "inst" and "value" in fields(e, a):
        for i, f in enumerate(("horizon", "nb_scn", "value")):
            compare(e, e.getattr(a, f), b.args[i], path + "." + f if f != "value" else path, out, seen)
        return
    if a.op == "ref" and b.op == "ref":
        oa, ob = e.obj(a), e.obj(b)
        if oa.kind != ob.kind:
            out.append((path, "%s becomes %s" % (oa.kind, ob.kind), True))
            return
        if oa.kind == "inst":
            if oa.cls is not ob.cls:
                out.append((path, "%s becomes %s" % (oa.cls.name, ob.cls.name), True))
                return
            fa, fb = fields(e, a), fields(e, b)
            for f in fa:
                if f not in fb:
                    out.append((path + "." + f, "field is lost", True))
                else:
                    compare(e, e.getattr(a, f), e.getattr(b, f), path + "." + f, out, seen)
            for f in fb:
                if f not in fa:
                    out.append((path + "." + f, "field is added", True))
            return
        if oa.kind == "list":
            sa, sb = e.segments(a), e.segments(b)
            if any(s.binders or s.guards for s in sa + sb):
                if not any(s.binders or s.guards for s in sa) and kept_entries(e, b, a, path, out):
                    return
                out.append((path, "list content not determined", False))
                return
            if len(sa) != len(sb):
                out.append((path, "%d entries become %d" % (len(sa), len(sb)), True))
                return
            for i, (x, y) in enumerate(zip(sa, sb)):
                compare(e, x.elem, y.elem, "%s[%d]" % (path, i), out, seen)
            return
        if oa.kind == "dict":
            ka, kb = mapping(e, a), mapping(e, b)
            if ka is None or kb is None:
                if ka is not None and kept_entries(e, b, a, path, out):
                    return
                out.append((path, "dictionary content not determined", False))
                return
            for k in ka:
                if k not in kb:
                    out.append((path, "entry %s is lost (present: %s)" % (show(k), ", ".join(show(x) for x in kb)), True))
                else:
                    compare(e, ka[k], kb[k], "%s[%s]" % (path, show(k)), out, seen)
            for k in kb:
                if k not in ka:
                    out.append((path, "entry %s is added" % show(k), True))
            return
    d = told(e, lambda ev: differ(ev(a), ev(b)))
    if d is not None:
        out.append((path, "%s becomes %s (seen when %s)" % (show(a)[:150], show(b)[:150], d), True))
        return
    out.append((path, "%s becomes %s" % (show(a)[:150], show(b)[:150]), not unmodelled([a, b]) and b.op not in ("mcall", "call", "xattr")
                or b.op in ("sym", "const", "tuple") or altered(b)))


def differ(x, y):
    from .meval import Arr
    if isinstance(y, (list, tuple)) and isinstance(x, Arr):
        def flat(v):
            return [z for w in v for z in flat(w)] if isinstance(v, (list, tuple)) else [v]
        return flat(y) != list(x.data)
    if isinstance(x, Arr) and isinstance(y, Arr):
        return tuple(x.shape) != tuple(y.shape) or list(x.data) != list(y.data)
    num = (int, float, Fraction)
    if isinstance(x, num) and isinstance(y, num):
        return x != y
    return False


ALTER = {"flatten", "ravel", "round", "around", "round_", "T", "transpose", "sort", "cumsum", "squeeze", "clip", "maximum", "minimum", "abs",
         "absolute", "floor", "ceil", "rint", "trunc", "fix", "nan_to_num", "lower", "upper", "strip", "title", "capitalize", "mean", "sum"}


def altered(t):
    """contains an operation that changes values, order or shape"""
    def f(x):
        if x.op == "mcall" and (x.args[1] in ALTER or x.args[1] == "astype"):
            return True
        return x.op == "call" and isinstance(x.args[0], str) and (x.args[0].split(".")[-1] in ALTER or x.args[0] == "builtins.int") \
            or x.op == "xattr" and x.args[1] == "T"

    return contains(t, f)


def mapping(e, t):
    out = {}
    for s in e.entries(t):
        if s.binders or s.guards:
            return None
        k, v = s.elem.args
        out[strip(e, k)] = v
    return out


def reach(e, t, out=None):
    """mutable objects reachable from t"""
    out = {} if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        for y in walk(x):
            if y.op == "ref" and y.args[0] not in out:
                out[y.args[0]] = y
                o = e.obj(y)
                for w in o.writes:
                    if w.val is not None:
                        stack.append(w.val)
                    if w.key is not None:
                        stack.append(w.key)
                for v in o.meta.values():
                    if isinstance(v, T):
                        stack.append(v)
    return out


def document(e, t, path, out):
    """constructs of an exported document JSON text cannot carry: (path, text, definite)"""
    if t.op == "ref":
        o = e.obj(t)
        if o.kind == "list":
            for i, s in enumerate(e.segments(t)):
                document(e, s.elem, "%s[%s]" % (path, i), out)
            return
        if o.kind == "dict":
            for s in e.entries(t):
                k, v = s.elem.args
                if is_str(k) or e.typeof(k) == "str" or k.op == "join":
                    pass
                else:
                    out.append((path, "key %s is not a text" % show(k), k.op in ("tuple",)))
                document(e, v, "%s[%s]" % (path, show(k)), out)
            return
        out.append((path, "%s is no JSON value" % (o.cls.name if o.cls else o.kind), True))
        return
    if t.op in ("const", "tolist", "join", "strcat"):
        return
    ty = e.typeof(t)
    if ty in ("num", "int", "str", "bool"):
        return
    if ty == "npint64" or ty == "arr":
        out.append((path, "%s (a numpy %s) is no JSON value" % (show(t)[:80], "integer" if ty != "arr" else "array"), True))
        return
    if t.op == "call" and t.args[0] in ("builtins.int", "builtins.float", "builtins.str"):
        return
    if t.op == "tuple":
        for i, a in enumerate(t.args):
            document(e, a, "%s[%d]" % (path, i), out)
        return
    if t.op == "ite":
        document(e, t.args[1], path, out)
        document(e, t.args[2], path, out)
        return
    out.append((path, "%s not understood" % show(t)[:120], False))


def s_create(e, args, kwargs):
    """the factory gives the value behind the data (C10)"""
    args = list(args) + [kwargs[k] for k in ("value",) if k in kwargs]
    if len(args) != 2:
        return None
    fac, v = args
    if v.op == "ref" and e.obj(v).kind == "inst":
        return v
    if v.op == "ref" and e.obj(v).kind == "dict":
        v = e.read(v, const("value"))
        if v is None:
            return None
    return mk("nvof", e.getattr(fac, "horizon"), e.getattr(fac, "nb_scn"), strip(e, v))


KINDS_ = ("ScalarNumericalValue", "RowNumericValue", "ColumnNumericValue", "MatrixNumericalValue")


KINDS = ("", "plain_", "bare_")
KTEXT = {"": "", "plain_": ", one network without converters", "bare_": ", no network"}


def build(rep, what, kind=""):
    e = rep.engine(summaries={"NumericalValueFactory.create": s_create})
    if what == "study":
        for c in ("Study", "Consumption", "Production", "Storage", "Link", "Converter", "InputNode", "InputNetwork"):
            if IN + c not in e.p.classes:
                raise Missing(IN + c)
        H, N = e.sym("horizon", "int"), e.sym("nb_scn", "int")
        nv = []
        for i in range(40):
            s = e.sym("nv%d" % i, "arr" if i % 4 else "num")
            e.ranks[s] = (0, 1, 2, 2)[i % 4]
            nv.append(srun(e, "value", BUILD, [H, N, const(i % 4), s]))
        xs = [e.sym("x0", "num"), e.sym("x1", "npint64")]
        o = srun(e, kind + "study", BUILD, [H, N, const("0.1.x"), e.new_list(nv), e.new_list(xs)])
    else:
        for c in ("Result", "OutputNode", "OutputNetwork", "OutputConverter", "Benchmark"):
            if OUTP + c not in e.p.classes:
                raise Missing(OUTP + c)
        xs = []
        for i in range(23):
            s = e.sym("q%d" % i, "arr")
            e.ranks[s] = 2
            xs.append(s)
        ns = [e.sym("t%d" % i, "num") for i in range(7)]
        o = srun(e, kind + "result", BUILD, [e.new_list(xs), e.new_list(ns)])
    return e, o


def roundtrip(rep, what):
    n = sum(roundtrip1(rep, what, kind) for kind in KINDS)
    rep.notes.append("structures analysed: 3 networks (one empty), 5 nodes (one empty), up to 3 elements of each kind, 2 converters with 3 and 1 "
                     "sources; one network of two nodes without converters; nothing at all; "
                     "all quantities are unknowns of every numerical kind; %d pairs of values compared" % n)


def roundtrip1(rep, what, kind):
    cls = IN + "Study" if what == "study" else OUTP + "Result"
    imp = "import_" + what
    e, o = build(rep, what, kind)
    name = what + KTEXT[kind]
    site = "%s.to_json / from_json" % cls
    try:
        d = srun(e, "export", BUILD, [o])
    except Dead:
        rep.bad("exported", name, "the export of a %s always fails" % what, site)
        return 0
    out = []
    document(e, d, "document", out)
    for p, text, sure in out:
        (rep.bad if sure else rep.maybe)("document is JSON", p, text, site)
    if not out:
        rep.ok("document is JSON", name, "%d containers" % len(reach(e, d)), site)
    try:
        r = srun(e, imp, BUILD, [d])
    except Dead:
        rep.bad("imported", name, "the import of an exported %s always fails" % what, site)
        return 0
    out, seen = [], set()
    compare(e, o, r, what, out, seen)
    for p, text, sure in out:
        (rep.bad if sure else rep.maybe)("same after export and import", p, text, site)
    if not out:
        rep.ok("same after export and import", name, "%d pairs of values agree" % len(seen), site)
    return len(seen)


def c11(rep):
    roundtrip(rep, "study")


def c12(rep):
    roundtrip(rep, "result")


def c13(rep):
    for what, kind in [(w, k) for w in ("study", "result") for k in KINDS]:
        e, o = build(rep, what, kind)
        site = "%s.to_json / from_json" % (IN + "Study" if what == "study" else OUTP + "Result")
        try:
            m = Mark(e)
            d = srun(e, "export", BUILD, [o])
            ch = m.changed()
            for text, s in ch:
                rep.bad("export leaves the %s untouched" % what, what, text, s)
            if not ch:
                rep.ok("export leaves the %s untouched" % what, what, "no write to an object older than the export", site)
            mine = reach(e, o)
            shared = [y for i, y in reach(e, d).items() if i in mine]
            if d.op != "ref" and not shared:
                rep.maybe("document shares nothing", what, "document is %s" % show(d)[:120], site)
            for y in shared:
                ob = e.obj(y)
                rep.bad("document shares nothing", what, "the document holds the %s of the %s itself" % (ob.cls.name if ob.cls else ob.kind, what), ob.site)
            if not shared and d.op == "ref":
                rep.ok("document shares nothing", what, "%d containers of the document, none belongs to the %s" % (len(reach(e, d)), what), site)
            m = Mark(e)
            r1 = srun(e, "import_" + what, BUILD, [d])
            ch = m.changed()
            for text, s in ch:
                rep.bad("import leaves the document untouched", what, text, s)
            if not ch:
                rep.ok("import leaves the document untouched", what, "no write to an object older than the import", site)
            out = []
            if not ch:
                r2 = srun(e, "import_" + what, BUILD, [d])
                compare(e, r1, r2, what, out)
                for p, text, sure in out:
                    (rep.bad if sure else rep.maybe)("second import gives the same", p, text, site)
                if not out:
                    rep.ok("second import gives the same", what, "", site)
            ch = [c for c in m.changed() if c not in ch]
            for text, s in ch:
                rep.bad("second import gives the same", what, text, s)
        except Dead:
            rep.bad("converted", what, "export or import always fails", site)


CHECKS = {"C11": c11, "C12": c12, "C13": c13}
