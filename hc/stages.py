"""C22, C23: pipelines and built-in stages on data frames."""
import os

from .core import *
from .work import PIPE, fn

PSITE = "hadar/workflow/pipeline.py"
UNK = mk("unk", 0, "x")


def alts(t):
    if t.op == "ite":
        return alts(t.args[1]) + alts(t.args[2])
    return [t]


def peel(t):
    while t.op == "copy":
        t = t.args[0]
    return t


def real_changes(e, m, changed):
    """writes of fields that existed before the mark; a field first written now is nobody's state"""
    return changed


def side_effects(rep, e, m, subject, allowed=(), rule="nothing given is modified"):
    ch = m.changed(allowed)
    hard = []
    for i, n in m.writes.items():
        pass
    for d, s in ch:
        rep.bad(rule, subject, d, s)
    if not ch:
        rep.ok(rule, subject, "no write reaches the arguments or older objects")
    return not ch


def stages_of(e, p):
    """the stages of a pipeline, as terms; None when not a plain sequence"""
    segs = e.iterate(e.getattr(p, "stages"))
    if any(s.binders or s.guards for s in segs):
        return None
    return [s.elem for s in segs]


def owned(e, t):
    """True: a private copy; False: the caller's object (or part of it); None: unknown"""
    out = True
    for a in alts(t):
        if a.op == "copy":
            continue
        r = e.root(a)
        if r.op == "sym":
            return False
        if r.op in ("ref", "copy"):
            continue
        out = None
    return out


def c22(rep):
    schema = dict(SCHEMA)
    schema["Clip"] = dict(schema["Clip"], plug=("inst", "FreePlug"))
    schema["Drop"] = dict(schema["Drop"], plug=("inst", "RestrictedPlug"))
    K = {"F": "Clip", "R": "Drop"}
    stage = lambda e, a, k: mk("call", e.sym("@stage", "any"), tuple(a) + tuple(v for _, v in sorted(k.items())), ())
    for kinds in ("RRRR", "FFFF", "FRFR", "RFRF", "RFFR", "FRRF"):
        e = rep.engine(schema, {"Stage.__call__": stage})
        s = [e.sym("stage%d" % i, ("inst", K[c])) for i, c in enumerate(kinds)]
        pl = [e.getattr(x, "plug") for x in s]
        try:
            m = Mark(e)
            p = e.run(fn(e, PIPE + "Stage.__add__"), [s[0], s[1]])
            side_effects(rep, e, m, "stage + stage (%s)" % kinds)
            m = Mark(e)
            q = e.run(fn(e, PIPE + "Pipeline.__add__"), [p, s[2]])
            side_effects(rep, e, m, "pipeline + stage (%s)" % kinds)
            m = Mark(e)
            r = e.run(fn(e, PIPE + "Pipeline.__add__"), [p, s[3]])
            side_effects(rep, e, m, "pipeline + other stage (%s)" % kinds)
            m = Mark(e)
            z = e.run(fn(e, PIPE + "Pipeline.__add__"), [q, s[3]])
            side_effects(rep, e, m, "longer pipeline + stage (%s)" % kinds)
            m = Mark(e)
            y = e.run(fn(e, PIPE + "Pipeline.__add__"), [p, s[0]])
            side_effects(rep, e, m, "pipeline + its first stage (%s)" % kinds)
            lst = e.alloc("list")
            for x in s:
                e.call_method(lst, "append", [x], {})
            m = Mark(e)
            w = e.run(fn(e, PIPE + "Pipeline"), [lst])
            side_effects(rep, e, m, "pipeline of a list (%s)" % kinds)
        except Dead:
            rep.bad("linking works", kinds, "linking stages always fails", PSITE)
            continue
        df = e.sym("df", "frame")
        for name, o, want in (("s0+s1", p, s[:2]), ("s0+s1+s2", q, s[:3]), ("s0+s1+s3", r, s[:2] + s[3:]), ("s0+s1+s2+s3", z, s), ("s0+s1+s0", y, s[:2] + s[:1]), ("list", w, s)):
            if o.op != "ref":
                rep.maybe("stages kept in order", name, "result %r" % o, PSITE)
                continue
            got = stages_of(e, o)
            if got is not None:
                got = [peel(g) for g in got]
            rep.check("stages kept in order", "%s (%s)" % (name, kinds), got == want, "stages of the pipeline are %s, expected %s" % (got, want), PSITE,
                      [UNK] if got is None else got)
            # run
            m = Mark(e)
            try:
                v = e.run(fn(e, PIPE + "Pipeline.__call__"), [o, df])
            except Dead:
                rep.bad("runs its stages in order", name, "running always fails", PSITE)
                continue
            side_effects(rep, e, m, "run of %s (%s)" % (name, kinds))
            runs_in_order(rep, e, v, want, df, "%s (%s)" % (name, kinds))
    # a stage run: what is handed to user code is a private copy
    for cname in ("Stage", "FocusStage"):
        seen = []

        def proc(e, a, k):
            e.effect("ran", args=tuple(a) + tuple(v for _, v in sorted(k.items())))
            return mk("call", e.sym("@work", "any"), tuple(a), ())

        S = {"Stage._process_timeline": proc, "FocusStage._process_scenarios": proc}
        e = rep.engine(schema, S)
        st, df = e.sym("stage", ("inst", cname)), e.sym("df", "frame")
        m = Mark(e)
        e.run(e.getattr(st, "__call__"), [df])
        side_effects(rep, e, m, "run of a %s" % cname)
        n = 0
        for x in e.effects:
            if x.kind == "ran":
                n += 1
                arg = x.args[-1]
                o = owned(e, arg)
                rep.check("stage code works on a private copy", cname, o is True, "stage code receives %r" % arg, x.site, [UNK] if o is None else [])
        rep.check("stage code found", cname, n > 0, "%d calls of the processing method" % n, PSITE, [UNK])
    # the built-in stages
    todo = [("Clip", [], {"lower": 0, "upper": 1}), ("RepeatScenario", ["n"], {}), ("Drop", [["a", "b"]], {}), ("Drop", ["=a"], {}),
            ("Rename", [], {"old": 0}), ("ToShuffler", ["=res"], {}), ("Fault", ["loss", "freq", "dmin", "dmax"], {}), ("Fault", ["loss", "freq", "dmin", "dmax", "seed"], {})]
    for cname, args, kw in todo:
        e = rep.engine(schema)
        A = []
        for a in args:
            if isinstance(a, list):
                l = e.alloc("list")
                for x in a:
                    e.call_method(l, "append", [const(x)], {})
                A.append(l)
            elif a.startswith("="):
                A.append(const(a[1:]))
            else:
                A.append(e.sym(a, "int"))
        kws = {k: (const("new") if cname == "Rename" else e.sym(k, "num")) for k in kw}
        m = Mark(e)
        o = e.run(fn(e, PIPE + cname), A, kws)
        side_effects(rep, e, m, "%s(...)" % cname)
        df = e.sym("df", "frame")
        for k in (1, 2):
            m = Mark(e)
            try:
                e.run(e.getattr(o, "__call__"), [df])
            except Dead:
                rep.maybe("nothing given is modified", "run %d of %s" % (k, cname), "running always fails", PSITE)
                break
            side_effects(rep, e, m, "run %d of %s" % (k, cname))
    # shuffler
    q = "hadar.workflow.shuffler.Shuffler"
    e = rep.engine(schema, {"Stage.__call__": stage})
    sh = e.run(fn(e, q), [])
    df, pipe = e.sym("df", "frame"), e.sym("pipe", ("inst", "Pipeline"))
    tl = e.getattr(sh, "timelines")
    m = Mark(e)
    e.run(fn(e, q + ".add_pipeline"), [sh, const("x"), df, pipe])
    side_effects(rep, e, m, "Shuffler.add_pipeline", allowed=(sh.args[0],) + ((tl.args[0],) if tl.op == "ref" else ()))
    m = Mark(e)
    t = e.read(tl, const("x"))
    if t.op == "ref" and e.function("hadar.workflow.shuffler.TimelinePipeline.compute") is not None:
        e.run(e.getattr(t, "compute"), [])
        side_effects(rep, e, m, "run of a registered pipeline")
    rep.notes.append("linking and running pipelines of 2 to 4 stages with free and restricted plugs, every built-in stage run twice, shuffler registration")


def runs_in_order(rep, e, v, want, df, subject):
    at = e.sym("@stage", "any")
    for t in alts(v):
        got, t = [], peel(t)
        while t.op == "call" and t.args[0] is at and len(t.args[1]) == 2:
            got.insert(0, peel(t.args[1][0]))
            nxt = alts(t.args[1][1])
            heads = {id(peel(x)) for x in nxt}
            t = peel(nxt[0])
        base = [x for x in walk(v) if x is df]
        terms = [v] if got or unmodelled(v) else [UNK] if contains(v, lambda x: x is at) else []
        rep.check("runs its stages in order", subject, got == want, "the result is computed by %s, expected %s" % (got, want), PSITE, terms)
        if got == want:
            r = e.root(t)
            ok = r is df or t is df
            rep.check("first stage gets the data", subject, ok, "first stage runs on %r" % t, PSITE, [t] if r.op == "sym" else [UNK])


# ---------------------------------------------------------------- C23
from .frames import FEv, Frame, Idx, Series, Val, atom, vsub, vadd, vmul, clipped, down
from .meval import Arr, Undecided, PyErr


def isinst(v, name):
    n = name.split(".")[-1].strip("'\")")
    if isinstance(v, Idx):
        return n in ("MultiIndex",) and v.multi or n == "Index"
    if isinstance(v, Frame):
        return n == "DataFrame"
    if isinstance(v, list):
        return n == "list"
    if isinstance(v, tuple):
        return n == "tuple"
    if isinstance(v, str):
        return n == "str"
    if isinstance(v, dict):
        return n == "dict"
    if v is None:
        return n == "NoneType"
    return None


def model(scns, names, order="scenario", rows=("t0", "t1", "t2", "t3", "t4")):
    """timeline with one unknown per cell"""
    if scns is None:
        lab = list(names)
        cell = lambda l, r: atom("x", 0, l, r)
    else:
        lab = [(s, n) for s in scns for n in names] if order == "scenario" else [(s, n) for n in names for s in scns]
        cell = lambda l, r: atom("x", l[0], l[1], r)
    return Frame(Idx(rows), Idx(lab, None, scns is not None), [[cell(l, r) for r in rows] for l in lab])


MODELS = (("three scenarios", model((0, 1, 2), ("a", "quantity", "b"))),
          ("unsorted scenarios", model((7, 3), ("quantity", "b", "a"))),
          ("columns not grouped by scenario", model((0, 1), ("b", "quantity", "a"), "names")),
          ("two steps", model((1, 0, 2), ("quantity", "a", "b"), rows=("t0", "t1"))),
          ("no scenario level", model(None, ("a", "quantity", "b"))))


def columns(f):
    """{(scenario, name): cells} of a standardized frame; None when labels repeat"""
    out = {}
    for l, d in zip(f.columns.labels, f.data):
        l = tuple(l) if f.columns.multi else (0, l)
        if l in out:
            return None
        out[l] = d
    return out


def source(f):
    return {(tuple(l) if f.columns.multi else (0, l)): d for l, d in zip(f.columns.labels, f.data)}


def diff(got, want):
    """first difference between two column maps"""
    if got is None:
        return "columns with the same label"
    for k in want:
        if k not in got:
            return "column %s is missing" % (k,)
        for i, (x, y) in enumerate(zip(got[k], want[k])):
            if not (x == y):
                return "cell %d of column %s is %s, expected %s" % (i, k, x, y)
        if len(got[k]) != len(want[k]):
            return "column %s has %d rows" % (k, len(got[k]))
    for k in got:
        if k not in want:
            return "unexpected column %s" % (k,)
    return None


def judge(rep, rule, subject, f, site=PSITE):
    """f() -> None (as expected) or a description of the difference"""
    try:
        d = f()
    except Undecided as ex:
        return rep.maybe(rule, subject, "not modelled: %s" % ex, site)
    except PyErr as ex:
        return rep.bad(rule, subject, "raises %s" % ex.name, site)
    except (TypeError, AttributeError, ValueError, KeyError, IndexError, AssertionError, RecursionError) as ex:
        if os.environ.get("HC_DEBUG"):
            raise
        return rep.maybe(rule, subject, "not modelled: %s %s" % (type(ex).__name__, ex), site)
    rep.check(rule, subject, d is None, d or "as defined", site)


RUNS = {}


def shape_conditions(r, df):
    """conditions of the result which depend on the given table only"""
    out = []
    for x in walk(r):
        if x.op in ("ite", "guarded"):
            todo = [x.args[0]]
            while todo:
                c = todo.pop()
                if c.op in ("and", "or", "not"):
                    todo.extend(c.args)
                elif c not in out and not is_const(c) and contains(c, lambda y: y is df) and not contains(c, lambda y: y.op in ("copy", "bv", "lv", "unk", "ref", "rand", "lastwriter") or y.op == "sym" and y is not df):
                    out.append(c)
    return out


def run_stage(rep, cname, args, kw, S=None, schema=None, under=None, key=None):
    """(engine, stage, df, result of a run on df); tests on the shape of df are settled by the table `under`"""
    facts = []
    if under is not None:
        k = (id(rep), cname, key if key is not None else repr(sorted(kw.items(), key=repr)) + repr(args))
        if k not in RUNS:
            RUNS[k] = (run_stage(rep, cname, args, kw, S, schema), {})
        (e, o, df, r), memo = RUNS[k]
        for c in shape_conditions(r, df):
            try:
                facts.append(c if FEv({df: under}, e, isinst).truth(FEv({df: under}, e, isinst)(c)) else not_(c))
            except (Undecided, PyErr):
                pass
        if not facts:
            return e, o, df, r
        mk_ = tuple(id(c) for c in facts)
        if mk_ not in memo:
            memo[mk_] = run_stage2(rep, cname, args, kw, S, schema, facts)
        return memo[mk_]
    return run_stage2(rep, cname, args, kw, S, schema, facts)


def run_stage2(rep, cname, args, kw, S, schema, facts):
    e = rep.engine(schema, S)
    A = [a(e) if callable(a) else a for a in args]
    K = {k: v(e) if callable(v) else v for k, v in kw.items()}
    if cname == "FocusStage":
        o = e.sym("stage", ("inst", "FocusStage"))
    else:
        o = e.run(fn(e, PIPE + cname), A, K)
    df = e.sym("df", "frame")
    for c in facts:
        e.push(c)
    r = e.run(e.getattr(o, "__call__"), [df])
    return e, o, df, e.now(r)


def lst(*xs):
    def f(e):
        l = e.alloc("list")
        for x in xs:
            e.call_method(l, "append", [const(x)], {})
        return l
    return f


def result(ev, r):
    v = ev(r)
    if not isinstance(v, Frame):
        raise Undecided("result is %r" % (v,))
    return v


def time_axis(v, m):
    if v.index.labels != m.index.labels:
        return "time axis %s, expected %s" % (v.index.labels, m.index.labels)
    return None


def c23(rep):
    num = lambda n: (lambda e: e.sym(n, "num"))
    # clip
    for name, m in MODELS:
        e, o, df, r = run_stage(rep, "Clip", [], {"lower": num("lower"), "upper": num("upper")}, under=m, key="clip")
        lo, hi = e.sym("lower", "num"), e.sym("upper", "num")
        for a, b in ((atom("lo"), atom("hi")), (None, atom("hi")), (atom("lo"), None), (0, atom("hi")), (None, None),
                     (0, None), (None, 0), (0, 0), (Fraction(-7, 2), 0), (0, 5), (Fraction(1, 2), Fraction(9, 2))):
            def f():
                v = result(FEv({df: m, lo: a, hi: b}, e, isinst), r)
                return time_axis(v, m) or diff(columns(v), {k: [clipped(x, a, b) for x in d] for k, d in source(m).items()})
            judge(rep, "clip bounds every value", "lower=%s upper=%s, %s" % (a, b, name), f)
    # rename
    for ren in ({"a": "z"}, {"a": "b", "b": "a"}, {"quantity": "to_shuffler", "a": "0"}, {"b": "bb"}, {"a": "b", "b": "c"}, {"b": "", "a": "c"}):
        for name, m in MODELS:
            e, o, df, r = run_stage(rep, "Rename", [], {k: const(v) for k, v in ren.items()}, under=m)

            def f():
                v = result(FEv({df: m}, e, isinst), r)
                return time_axis(v, m) or diff(columns(v), {(k[0], ren.get(k[1], k[1])): d for k, d in source(m).items()})
            judge(rep, "rename changes the named columns only", "%s, %s" % (ren, name), f)
    for name, m in MODELS:
        e, o, df, r = run_stage(rep, "ToShuffler", [const("b")], {}, under=m)

        def f():
            v = result(FEv({df: m}, e, isinst), r)
            return time_axis(v, m) or diff(columns(v), {(k[0], "to_shuffler" if k[1] == "b" else k[1]): d for k, d in source(m).items()})
        judge(rep, "rename changes the named columns only", "to shuffler, %s" % name, f)
    # drop
    for names in (["a"], ["b", "a"], "quantity", ["quantity", "b"]):
        gone = names if isinstance(names, list) else [names]
        for name, m in MODELS:
            e, o, df, r = run_stage(rep, "Drop", [lst(*names) if isinstance(names, list) else const(names)], {}, under=m, key=repr(names))

            def f():
                v = result(FEv({df: m}, e, isinst), r)
                return time_axis(v, m) or diff(columns(v), {k: d for k, d in source(m).items() if k[1] not in gone})
            judge(rep, "drop removes the named columns only", "%s, %s" % (names, name), f)
    # repeat
    for name, m in MODELS:
        e, o, df, r = run_stage(rep, "RepeatScenario", [lambda e: e.sym("n", "int")], {}, under=m, key="n")
        n = e.sym("n", "int")
        for k in (1, 2, 3):
            def f():
                v = result(FEv({df: m, n: k}, e, isinst), r)
                return time_axis(v, m) or repeated(columns(v), source(m), k)
            judge(rep, "repeat keeps whole scenarios", "n=%d, %s" % (k, name), f)
    # focus
    def call(e, a, k):
        e.effect("ran", args=tuple(a))
        t = mk("call", e.sym("@focus", "any"), tuple(a[1:]) + tuple(x for _, x in sorted(k.items())), ())
        return t
    schema = dict(SCHEMA)
    schema["FocusStage"] = {"plug": ("inst", "RestrictedPlug")}
    for name, m in MODELS:
        e, o, df, r = run_stage(rep, "FocusStage", [], {}, {"FocusStage._process_scenarios": call}, schema, under=m, key="focus")
        plug = e.getattr(o, "plug")
        outs, ins = e.getattr(plug, "outputs"), e.getattr(plug, "inputs")
        for outputs, extra in ((["out"], ["out"]), (["quantity"], []), ([], []), (["new", "a"], ["new", "other"])):
            seen = []

            def user(ev, scn, frame):
                if not isinstance(frame, Frame) or frame.columns.multi:
                    raise Undecided("argument of the scenario function")
                seen.append(scn)
                src = {k[1]: d for k, d in source(m).items() if k[0] == scn}
                d = diff({(0, k): x for k, x in zip(frame.columns.labels, frame.data)}, {(0, k): x for k, x in src.items()})
                if d:
                    raise Wrong("scenario %s is handed other data: %s" % (scn, d))
                rows = frame.index.labels
                return Frame(frame.index, Idx(list(frame.columns.labels) + extra), [[atom("f", scn, x) for x in d] for d in frame.data] + [[atom("g", scn, c, t) for t in rows] for c in extra])

            def f():
                ev = FEv({df: m, outs: list(outputs), ins: []}, e, isinst, funcs={e.sym("@focus", "any"): user})
                try:
                    v = result(ev, r)
                except Wrong as w:
                    return w.args[0]
                want = {k: [atom("f", k[0], x) for x in d] for k, d in source(m).items()}
                for s in {k[0] for k in want}:
                    for c in extra:
                        want[(s, c)] = [atom("g", s, c, t) for t in m.index.labels]
                return time_axis(v, m) or diff(columns(v), want)
            judge(rep, "per-scenario stage returns every column", "outputs %s, %s" % (outputs, name), f)
    fault(rep)
    rep.notes.append("stage results evaluated on labelled timelines (several scenario layouts, one unknown per cell), outages over several draws")


class Wrong(Exception):
    pass


def repeated(got, src, n):
    if got is None:
        return "columns with the same label"
    scns = []
    for k in src:
        if k[0] not in scns:
            scns.append(k[0])
    by = {}
    for (s, c), d in got.items():
        by.setdefault(s, {})[c] = d
    if len(by) != n * len(scns):
        return "%d scenarios after repeating %d scenarios %d times" % (len(by), len(scns), n)
    if sorted(by, key=repr) != sorted(range(n * len(scns)), key=repr):
        return "scenario labels %s" % sorted(by, key=repr)
    used = {s: 0 for s in scns}
    for lab, cols in by.items():
        hit = [s for s in scns if {c: d for (x, c), d in src.items() if x == s} == cols]
        if not hit:
            return "columns of label %s (%s) are not those of one scenario" % (lab, {c: str(d[0]) for c, d in cols.items()})
        used[hit[0]] += 1
    if any(v != n for v in used.values()):
        return "copies per scenario: %s, expected %d each" % (used, n)
    return None


def fault(rep):
    num = lambda n: (lambda e: e.sym(n, "num"))
    nat = lambda n: (lambda e: e.sym(n, "int"))
    A = [num("loss"), num("freq"), nat("dmin"), nat("dmax"), lambda e: e.sym("seed", ("opt", "int"))]
    e, o, df, r = run_stage(rep, "Fault", A, {}, key="fault")
    S = {n: e.sym(n, "num") for n in ("loss", "freq")}
    D = {n: e.sym(n, "int") for n in ("dmin", "dmax")}
    seed = e.sym("seed", ("opt", "int"))
    for name, m in MODELS:
        e, o, df, r = run_stage(rep, "Fault", A, {}, under=m, key="fault")
        h = len(m.index)
        for nb in (0, 1, min(3, h)):
            for sd in (None, 0, 5):
                log = {}

                def rnd(ev, t, log=log, nb=nb, h=h):
                    uid, f, a, k = t.args[0], t.args[1], t.args[2], dict(t.args[3])
                    key = (id(t), tuple(sorted((q, ev.bv.get(q)) for q in free_bvs(t))))
                    if key in log:
                        return log[key][1]
                    g = lambda i, n, d=None: ev(a[i]) if i is not None and i < len(a) else ev(k[n]) if n in k else d
                    if f == "numpy.random.choice":
                        vals, size, p = ev.seq(g(0, "a")), g(1, "size"), g(3, "p")
                        if vals == [0, 1] and isinstance(size, int):
                            n1 = min(nb, size)
                            v = Arr((size,), [1] * n1 + [0] * (size - n1))
                        else:
                            raise Undecided("draw of outages")
                        if p is not None:
                            p = ev.seq(p)
                        log[key] = ("choice", v, p, key[1], size)
                        return v
                    if f in ("numpy.random.rand", "numpy.random.random", "numpy.random.binomial"):
                        raise Undecided("draw of outages")
                    if f == "numpy.random.randint":
                        lo, hi, size = g(0, "low"), g(1, "high"), g(2, "size")
                        if hi is None:
                            lo, hi = 0, lo
                        if not all(isinstance(x, int) for x in (lo, hi, size)):
                            raise Undecided("draw bounds")
                        if hi <= lo:
                            raise PyErr("ValueError")
                        z = len(log)
                        v = Arr((size,), [lo + (i * 2 + z * 3 + 1) % (hi - lo) for i in range(size)])
                        log[key] = ("randint", v, (lo, hi), key[1])
                        return v
                    raise Undecided("draw by %s" % f)

                dmin, dmax = 11, 14

                def f():
                    env = {df: m, S["loss"]: atom("loss"), S["freq"]: atom("freq"), D["dmin"]: dmin, D["dmax"]: dmax, seed: sd}
                    ev = FEv(env, e, isinst, rand=rnd)
                    v = result(ev, r)
                    return time_axis(v, m) or outages(columns(v), source(m), log, h, dmin, dmax, nb)
                judge(rep, "outages lower quantity only", "%s, %d outages, seed %s" % (name, nb, sd), f)
                # short outages
                if nb:
                    dmin, dmax = 1, 3
                    log.clear()
                    judge(rep, "outages lower quantity only", "%s, %d short outages, seed %s" % (name, nb, sd), f)
                if nb > 1:
                    dmin, dmax = 1, 6
                    log.clear()
                    judge(rep, "outages lower quantity only", "%s, %d outages of different lengths, seed %s" % (name, nb, sd), f)
    # seed
    e, o, df, r = run_stage(rep, "Fault", A, {}, key="fault")
    draws = [x for x in e.effects if x.kind == "random"]
    seeds = [x for x in e.effects if x.kind == "seed"]
    if not draws:
        return rep.maybe("seed makes outages reproducible", "Fault", "no draw from the global generator found", PSITE)
    given = not_(eq(seed, NONE))
    for d in draws:
        need = and_(given, *[g for g, _ in d.guards])
        before = [s for s in seeds if s.seq < d.seq]
        ok, why = False, "no seeding before this draw"
        for s in before:
            if s.arg is seed and set(s.binders) <= set(d.binders):
                g = and_(*[x for x, _ in s.guards])
                later = [z for z in before if z.seq > s.seq and z.arg is not seed]
                if implied(need, g) is True and not later:
                    ok, why = True, "seeded with the given seed"
                    break
                why = "seeding happens only when %r" % g if not later else "reseeded with %r" % later[0].arg
            elif contains(s.arg, lambda x: x is seed):
                why = "seeded with %r" % s.arg
                g = and_(*[x for x, _ in s.guards])
                if implied(need, g) is True and not contains(s.arg, lambda x: x.op in ("entropy", "unk", "rand", "time")):
                    ok = True
        rep.check("seed makes outages reproducible", "draw by %s" % d.fn, ok, why, d.site, [s.arg for s in before if s.arg.op == "ite"] + [UNK for s in before if s.arg.op == "ite"])


def outages(got, src, log, h, dmin, dmax, nb):
    want = {}
    for k, d in src.items():
        want[k] = list(d)
    ints = [x for x in log.values() if x[0] == "randint"]
    for x in log.values():
        if x[0] == "choice" and x[2] is not None:
            p = x[2]
            f = atom("freq")
            if x[4] != h:
                return "outages are drawn for %d of %d steps" % (x[4], h)
            if p != [vsub(1, f), f]:
                return "outage probability %s, expected [1 - freq, freq]" % (p,)
    scns = []
    for k in src:
        if k[0] not in scns:
            scns.append(k[0])
    if not nb:
        return diff(got, want)
    # draws per scenario, in the order they were made
    per = {}
    for x in ints:
        per.setdefault(x[3], []).append(x)
    for s, key in zip(scns, list(per)):
        xs = per[key]
        dur = [x for x in xs if x[2][0] == dmin or x[2][1] == dmax]
        beg = [x for x in xs if x not in dur]
        if len(dur) != 1 or len(beg) != 1:
            raise Undecided("draws %s" % [x[2] for x in xs])
        if dur[0][2] not in ((dmin, dmax), (dmin, dmax + 1)):
            return "outage durations drawn in %s..%s, expected %s..%s" % (dur[0][2] + (dmin, dmax))
        if beg[0][2] != (0, h):
            return "outages begin at steps %d..%d, expected 0..%d" % (beg[0][2][0], beg[0][2][1] - 1, h - 1)
        if len(beg[0][1].data) != nb or len(dur[0][1].data) != nb:
            return "%d begins and %d durations drawn for %d outages" % (len(beg[0][1].data), len(dur[0][1].data), nb)
        q = want[(s, "quantity")]
        for b, d in zip(beg[0][1].data, dur[0][1].data):
            for t in range(h):
                if b <= t < b + d:
                    q[t] = vsub(q[t], atom("loss"))
    if ints and len(per) not in (len(scns),):
        raise Undecided("draws shared by scenarios")
    return diff(got, want)


CHECKS = {"C22": c22, "C23": c23}
