"""C21-C24, C26: pipelines, stages, shuffler and worker pools."""
import os
from .core import *
from . import lp as _lp

RISKY = ("poolmap", "xcall", "raise", "http", "solve", "pool", "new", "solver")


def pool_release(rep, e, name):
    pools = [x for x in e.effects if x.kind == "pool"]
    for x in pools:
        p = x.data.get("pool") or x.data.get("obj")
        after = [y for y in e.effects if y.seq > x.seq]
        how = None
        for i, y in enumerate(after):
            if y.kind == "enter" and y.ctx is p:
                how = "context manager"
                break
            if y.kind == "tryfinally" and y.phase == "begin":
                fin = False
                for z in after[i:]:
                    if z.kind == "tryfinally" and z.id == y.id and z.phase == "finally":
                        fin = True
                    elif z.kind == "tryfinally" and z.id == y.id and z.phase == "end":
                        break
                    elif fin and z.kind == "poolclose" and z.pool is p:
                        extra = [g for g in z.guards if g not in x.guards and g[1] != "raise"]
                        if not extra and z.how in ("terminate", "close", "shutdown", "__exit__"):
                            how = "finally block"
                if how:
                    break
            if y.kind in RISKY:
                break
        rep.check("worker pool released", name, how is not None,
                  "pool created here is %s" % ("released by " + how if how else
                                               "not released when a task fails (no with / finally around its use)"), x.site)
    for x in e.effects:
        if x.kind == "xcall" and x.fn.op == "ext" and "multiprocessing.Process" in x.fn.args[0]:
            rep.maybe("worker pool released", name, "process started directly", x.site)
    return pools


def shuffler(rep, kind="Timeline"):
    schema = dict(SCHEMA)
    schema["Shuffler"] = {"timelines": ("dict", "str", ("inst", kind)), "sampler": "any"}
    e = rep.engine(schema)
    f = e.function("hadar.workflow.shuffler.Shuffler.shuffle")
    if f is None:
        raise Missing("hadar.workflow.shuffler.Shuffler.shuffle")
    sh = e.sym("shuffler", ("inst", "Shuffler"))
    nb = e.sym("nb_scn", "int")
    return e, sh, nb, e.run(f, [sh, nb])


def c26(rep):
    L = _lp.lp()
    rep.use(L.e)
    n = len(pool_release(rep, L.e, "solve"))
    e, sh, nb, r = shuffler(rep)
    n += len(pool_release(rep, e, "shuffle"))
    e, sh, nb, r = shuffler(rep, "TimelinePipeline")
    n += len(pool_release(rep, e, "shuffle of pipelines"))
    rep.ok("pools found", "%d pool creation sites" % n)
    rep.notes.append("every creation of a worker pool reachable from LPOptimizer.solve and Shuffler.shuffle")



# ---------------------------------------------------------------- C24
class Unknown(Exception):
    pass


TO = "to_shuffler"


def kwarg(k, name):
    for a, b in k:
        if a == name:
            return b
    return None


class RunFrames(object):
    """Which columns, and which orientation, an expression over the pipeline output denotes.

    Frames are (which, orient): which is "all" (every column) or "to" (the shuffler column of every
    scenario), orient is "TS" (one row per time step) or "ST" (one row per scenario)."""

    def __init__(self, run):
        self.run = run
        self.only = False  # set while no other column exists

    def names(self, t):
        """level-1 names: all, to or others"""
        if t.op == "copy":
            return self.names(t.args[0])
        if t.op == "mcall":
            r, name, a, k = t.args
            if name == "get_level_values" and len(a) == 1 and self.columns(r):
                if is_const(a[0]) and cval(a[0]) in (1, -1):
                    return "all"
                if is_const(a[0]) and cval(a[0]) == 0:
                    return "scenarios"
            if name in ("unique", "tolist", "to_list", "to_numpy", "copy"):
                return self.names(r)
            if name in ("drop", "difference", "delete") and self.names(r) == "all" and a:
                v = a[0]
                if v.op in ("list", "tuple") and len(v.args) == 1:
                    v = v.args[0]
                if name == "drop" and is_str(v):
                    return "others" if cval(v) == TO else "wrong:" + cval(v)
                if name == "difference" and is_str(v):
                    return "others" if cval(v) == TO else "wrong:" + cval(v)
        if t.op == "xattr" and t.args[1] == "values":
            return self.names(t.args[0])
        if t.op == "item" and t.args[1].op in ("ne", "not"):
            if self.names(t.args[0]) == "all" and self.mask(t.args[1]) == "others":
                return "others"
        raise Unknown(repr(t))

    def columns(self, t):
        return t.op == "xattr" and t.args[1] == "columns" and (self.frame(t.args[0])[0] == "all" or self.only)

    def mask(self, t):
        if t.op == "not" or (t.op == "mcall" and t.args[1] == "__invert__"):
            return {"to": "others", "others": "to"}.get(self.mask(t.args[0]), "wrong")
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                if is_str(y):
                    try:
                        if self.names(x) == "all":
                            return "to" if cval(y) == TO else "wrong:" + cval(y)
                    except Unknown:
                        pass
        raise Unknown(repr(t))

    def cond(self, c):
        """True: tests that other columns exist; False: that none does"""
        if c.op == "not":
            return not self.cond(c.args[0])
        for others in self.cands(c):
            n = len_(others)
            if c is le(ONE, n) or c is lt(ZERO, n) or c is truthy(n):
                return True
            if c is le(n, ZERO) or c is lt(n, ONE):
                return False
        if c.op == "eq":
            for x, y in (c.args, c.args[::-1]):
                if x.op == "len" and is_const(y) and cval(y) == 0 and self.names(x.args[0]) == "others":
                    return False
                if x.op == "xattr" and x.args[1] == "size" and is_const(y) and cval(y) == 0 and self.names(x.args[0]) == "others":
                    return False
        if c.op == "truthy":
            x = c.args[0]
            if x.op == "xattr" and x.args[1] == "empty" and self.names(x.args[0]) == "others":
                return False
            if x.op in ("len",) and self.names(x.args[0]) == "others":
                return True
            if x.op == "xattr" and x.args[1] == "size" and self.names(x.args[0]) == "others":
                return True
        raise Unknown(repr(c))

    def cands(self, c):
        out = []

        def f(x):
            if x.op == "len":
                try:
                    if self.names(x.args[0]) == "others":
                        out.append(x.args[0])
                except Unknown:
                    pass
            return None
        for x in walk(c):
            f(x)
        return out

    def branch(self, t, f):
        """value of ite t through f, both ways; they must agree"""
        c = self.cond(t.args[0])
        a, b = (t.args[1], t.args[2]) if c else (t.args[2], t.args[1])
        r1 = f(a)
        old, self.only = self.only, True
        try:
            r2 = f(b)
        finally:
            self.only = old
        if r1 == r2:
            return r1
        return ("differs", r1, r2)

    def frame(self, t):
        if t is self.run:
            return ("to" if self.only else "all", "TS")
        if t.op == "ite":
            return self.branch(t, self.frame)
        if t.op == "copy":
            return self.frame(t.args[0])
        if t.op == "xattr":
            b, n = t.args[0], t.args[1]
            if n == "values":
                return self.frame(b)
            if n == "T":
                f = self.frame(b)
                if len(f) != 2:
                    return f
                return (f[0], {"TS": "ST", "ST": "TS"}[f[1]])
        if t.op == "mcall":
            r, name, a, k = t.args
            if name in ("to_numpy", "copy") and not a:
                return self.frame(r)
            if name in ("transpose", "swapaxes"):
                f = self.frame(r)
                return (f[0], {"TS": "ST", "ST": "TS"}[f[1]])
            if name == "drop":
                f = self.frame(r)
                what = a[0] if a else kwarg(k, "columns")
                if what is None:
                    what = kwarg(k, "labels")
                ax = a[1] if len(a) > 1 else (kwarg(k, "axis") if kwarg(k, "columns") is None else ONE)
                lv = kwarg(k, "level")
                if what is None or lv is None or ax is None or f[1] != "TS" or not is_const(lv) or not is_const(ax):
                    raise Unknown(repr(t))
                n = self.names(what)
                if cval(ax) in (1, "columns") and cval(lv) in (1, -1) and n == "others":
                    return ("to", "TS")
                return ("drops %s on axis %s level %s" % (n, cval(ax), cval(lv)), "TS")
            if name == "xs":
                f = self.frame(r)
                key = a[0] if a else kwarg(k, "key")
                ax, lv = kwarg(k, "axis"), kwarg(k, "level")
                if f == ("all", "TS") and is_str(key) and ax is ONE and lv is ONE:
                    return ("to" if cval(key) == TO else "column " + cval(key), "TS")
        if t.op == "item":
            f = None
            try:
                f = self.frame(t.args[0])
            except Unknown:
                pass
            ix = t.args[1]
            if f == ("to", "TS") and self.only:
                return f
            if f is not None and f[1] == "TS" and ix.op not in ("tuple",):
                m = self.mask(ix)
                return (m, "TS")
            b = t.args[0]
            if b.op == "xattr" and b.args[1] == "loc" and ix.op == "tuple" and len(ix.args) == 2:
                f = self.frame(b.args[0])
                c = ix.args[1]
                if c.op == "tuple" and len(c.args) == 2 and is_str(c.args[1]):
                    return ("to" if cval(c.args[1]) == TO else "column " + cval(c.args[1]), "TS")
                return (self.mask(c), "TS")
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.transpose",):
            f = self.frame(t.args[1][0])
            return (f[0], {"TS": "ST", "ST": "TS"}[f[1]])
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.array", "numpy.asarray"):
            return self.frame(t.args[1][0])
        raise Unknown(repr(t))

    def count(self, t):
        """frame whose number of rows t is"""
        if t.op == "ite":
            return self.branch(t, self.count)
        if t.op == "len":
            return self.frame(t.args[0])
        if t.op == "item" and t.args[0].op == "xattr" and t.args[0].args[1] == "shape" and is_const(t.args[1]):
            f = self.frame(t.args[0].args[0])
            if cval(t.args[1]) == 0:
                return f
            if cval(t.args[1]) in (1, -1):
                return (f[0], {"TS": "ST", "ST": "TS"}[f[1]])
        if t.op == "poly" or t.op == "const":
            return ("count %r" % t, "")
        raise Unknown(repr(t))

    def sample(self, t, sampler, nb):
        """(frame, frame giving the range, size ok)"""
        if t.op == "ite":
            return self.branch(t, lambda x: self.sample(x, sampler, nb))
        if t.op == "item":
            m, ix = t.args
        elif t.op == "mcall" and t.args[1] == "take" and t.args[2]:
            m, ix = t.args[0], t.args[2][0]
        elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "numpy.take":
            m, ix = t.args[1][0], t.args[1][1]
        else:
            raise Unknown(repr(t))
        if ix.op == "tuple" and len(ix.args) == 2 and is_full(ix.args[1]):
            ix = ix.args[0]
        d = draw(ix, sampler)
        if d is None:
            raise Unknown(repr(ix))
        lo, hi, n = d
        return (self.frame(m), lo, self.count(hi), n)


def is_full(t):
    return t.op == "slice" and all(x is NONE for x in t.args[:2]) or (t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.slice")


def draw(t, sampler):
    if t.op == "call" and t.args[0] is sampler:
        a, k = list(t.args[1]), dict(t.args[2])
        for i, n in enumerate(("low", "high", "size")):
            if n in k and len(a) == i:
                a.append(k[n])
        if len(a) == 3:
            return a
        if len(a) == 2 and "size" in k:
            return [a[0], a[1], k["size"]]
    return None


SHUFFLED = [(["%s"], [0]), (["%s", "a"], [0]), (["a", "%s"], [0, 1]), (["z", "%s", "a"], [0, 1]), (["%s", 0], [0, 1]), (["%s", ""], [0, 1]), (["%s"], [0, 1, 2, 3]), (["%s", "z"], list(range(12)))]


def rows_drawn(e, v, samp, nb, env, funcs, rows):
    """None when v denotes the drawn rows, for several numbers of scenarios; a description otherwise"""
    for n in (5, len(rows), 1, 2 * len(rows)):
        why = rows_drawn_n(e, v, samp, nb, env, funcs, rows, n)
        if why:
            return why
    return None


def rows_drawn_n(e, v, samp, nb, env, funcs, rows, count):
    """None when v denotes the drawn rows, a description otherwise (FEv semantics)"""
    from .frames import FEv
    from .meval import Arr, Undecided
    from .stages import isinst
    calls = []

    def sampler(ev, low=None, high=None, size=None, **k):
        if k or any(not isinstance(x, int) or isinstance(x, bool) for x in (low, high, size)):
            raise Undecided("sampler called with %s" % ((low, high, size, k),))
        calls.append((low, high, size))
        if high <= low:
            raise Undecided("empty range")
        return Arr((size,), [low + (i * i * 3 + high - low - 1) % (high - low) for i in range(size)])
    want = [rows[(i * i * 3 + len(rows) - 1) % len(rows)] for i in range(count)]
    env = dict(env)
    env[nb] = count
    got = FEv(env, e, isinst, funcs={**funcs, samp: sampler})(v)
    if not isinstance(got, Arr):
        raise Undecided("sampled data %r" % (got,))
    if calls and calls != [(0, len(rows), count)]:
        if len(calls) == 1:
            return "draws %d numbers in [%d, %d[ for %d scenarios out of %d rows" % (calls[0][2], calls[0][0], calls[0][1], count, len(rows))
        raise Undecided("%d draws" % len(calls))
    if tuple(got.shape) != (count, len(rows[0])):
        return "shape %s for %d scenarios of %d steps" % (got.shape, count, len(rows[0]))
    w = len(rows[0])
    got = [list(got.data[i * w:(i + 1) * w]) for i in range(count)]
    if not calls and got != want:
        return "%d scenarios of %d rows are taken without drawing them: %s" % (count, len(rows), got)
    return None if got == want else "rows are %s, expected the drawn rows %s" % (got, want)


def drawn_anew(rep, judge):
    """sampling a timeline several times draws each time"""
    from .frames import FEv
    from .meval import Arr, Undecided
    from .stages import isinst
    e = rep.engine()
    q = "hadar.workflow.shuffler.Timeline"
    cls = e.function(q)
    if cls is None or e.function(q + ".sample") is None:
        raise Missing(q)
    A, samp, nb = e.sym("A", "arr"), e.sym("sampler", "any"), e.sym("nb", "int")
    given = (not_(eq(samp, NONE)), mk("truthy", samp))
    for c in given:
        e.push(c)
    tl = e.run(cls, [A], {"sampler": samp})
    rows = [[4, 7], [5, 2], [9, 1]]
    env = {A: Arr((3, 2), sum(rows, [])), nb: 5}
    for k in (1, 2, 3):
        n0, s0 = len(e.effects), e.seq
        v = e.run(e.function(q + ".sample"), [tl, nb])
        xs = [x for x in e.effects[n0:] if x.kind == "xcall" and x.fn is samp and x.seq > s0]
        site = xs[-1].site if xs else "hadar/workflow/shuffler.py (Timeline.sample)"

        def f():
            def sampler(ev, low=None, high=None, size=None, **kw):
                if kw or any(not isinstance(x, int) or isinstance(x, bool) for x in (low, high, size)) or high <= low:
                    raise Undecided("sampler called with %s" % ((low, high, size, kw),))
                return Arr((size,), [low + (i * i * 3 + high - low - 1) % (high - low) for i in range(size)])
            n = 0
            for x in xs:
                ev = FEv(dict(env), e, isinst, funcs={samp: sampler})
                if all(ev(g) is True for g in guards(x) if g not in given):
                    n += 1
            return None if n == 1 else "call %d of sample(5) on the same timeline of 3 rows makes %d draws" % (k, n)
        judge(rep, "drawn anew", "sample call %d" % k, f, site)
        judge(rep, "sampled rows", "sample call %d" % k, lambda: rows_drawn(e, v, samp, nb, {A: env[A]}, {}, rows), site)


def seeds_spread(e, t, ents):
    """number of seeds met when that is a few only, for 2000 different pieces of entropy"""
    from .meval import Ev, PyErr, Undecided
    bits = {"band": lambda x, y: x & y, "bor": lambda x, y: x | y, "bxor": lambda x, y: x ^ y, "rshift": lambda x, y: x >> y, "lshift": lambda x, y: x << y,
            "opMod": lambda x, y: x % y if y else 0, "opFloorDiv": lambda x, y: x // y if y else 0, "opRShift": lambda x, y: x >> y}
    out = set()
    whole = [x for x in walk(t) if x.op == "call" and x.args[0] == "builtins.int.from_bytes" and x.args[1] and x.args[1][0] in ents]

    def ev(x, env):
        if x in env:
            return env[x]
        if x.op in bits and len(x.args) == 2:
            return bits[x.op](ev(x.args[0], env), ev(x.args[1], env))
        return Ev(env, None, None, e)(x)

    for i in range(2000):
        env = {}
        for z in ents:
            n = 4
            if len(z.args) > 1:
                if not is_const(z.args[1]) or not isinstance(cval(z.args[1]), int):
                    return 0
                n = cval(z.args[1])
            env[z] = env[mk("frombytes", z)] = (i * 2654435761 + 12345) % (1 << (8 * min(n, 8)))
        env.update({x: env[x.args[1][0]] for x in whole})
        try:
            out.add(ev(t, env))
        except (Undecided, PyErr, RecursionError, TypeError):
            return 0
    return len(out) if len(out) < 1900 else 0


GENERATOR = ("numpy.random.", "random.")


def default_sampler(rep, e, cls, q, draws, site):
    """without a sampler of its own the shuffler draws uniformly from the generator the task has reseeded"""
    d = e.read(e.run(cls, []), const("sampler"))
    if d is None:
        return rep.maybe("default sampler", "Shuffler()", "no sampler is kept", site)
    if d.op == "ext" and d.args[0].startswith(GENERATOR):
        # a method of the global generator: pickled together with a copy of the generator
        sent = [x for x in draws if x.task]
        if sent:
            return rep.bad("default sampler", "Shuffler()", "%s is a method of the global generator: a worker receives it with a copy of that generator, "
                           "which reseeding does not reach, so all draws repeat each other" % d.args[0], sent[0].site)
        rep.check("default sampler", "Shuffler()", d.args[0] == "numpy.random.randint", "default sampler is %r" % d, site, [d])
        return
    lo, hi, n = e.sym("low", "int"), e.sym("high", "int"), e.sym("size", "int")
    s0 = e.seq
    try:
        r = e.call(d, [lo, hi, n], {})
    except Dead:
        return rep.bad("default sampler", "Shuffler()", "the default sampler always fails", site)
    xs = [x for x in e.effects if x.kind == "random" and x.seq > s0]
    sd = [x for x in e.effects if x.kind == "seed" and x.seq > s0]
    got = None
    if r.op == "rand" and len(xs) == 1 and r is xs[0].val:
        k = dict(xs[0].kwargs)
        a = list(xs[0].args)
        g = [a[i] if i < len(a) else k.get(name) for i, name in enumerate(("low", "high", "size"))]
        got = xs[0].fn, g, set(k) - {"low", "high", "size", "dtype"}
    ok = got is not None and got[0] == "numpy.random.randint" and got[1] == [lo, hi, n] and not got[2] and not [s for s in sd if s.arg is not NONE and not contains(s.arg, lambda z: z.op == "entropy")]
    if ok or (got is not None and got[0] == "numpy.random.randint") or sd:
        rep.check("default sampler", "Shuffler()", ok, "the default sampler gives %s" % show(r), site, [r])
    elif r.op == "call" and r.args[0] in ("numpy.sort", "numpy.unique", "builtins.sorted") or contains(
            r, lambda x: x.op == "rand" and x.args[1] in ("numpy.random.RandomState", "numpy.random.default_rng") and x.args[2] and is_const(x.args[2][0]) and x.args[2][0] is not NONE):
        rep.bad("default sampler", "Shuffler()", "the default sampler gives %s" % show(r), site)
    else:
        rep.check("default sampler", "Shuffler()", False, "the default sampler gives %s" % show(r), site, [r, mk("unk", 0, "draw")])


def reseeding_stages(rep):
    """a stage run inside a task leaves the generator as unpredictable as it found it"""
    from .stages import run_stage
    for name, args, kw in (("ToShuffler", [const("q")], {}), ("Rename", [], {"q": const("p")}), ("Drop", [const("q")], {}), ("Clip", [], {}),
                           ("RepeatScenario", [const(2)], {})):
        try:
            e, o, df, r = run_stage(rep, name, [lambda e, x=x: x for x in args], {k: (lambda e, x=x: x) for k, x in kw.items()}, key="reseed")
        except Missing:
            continue
        for y in [x for x in e.effects if x.kind == "seed"]:
            ents = [z for z in walk(y.arg) if z.op == "entropy"]
            few = ents and seeds_spread(e, y.arg, ents)
            ok = y.arg is NONE or bool(ents) and not few
            rep.check("stages keep draws unpredictable", name, ok, "the stage seeds the generator with %s: draws made afterwards in the task repeat each other" % show(y.arg), y.site, [y.arg])


def c24(rep):
    q = "hadar.workflow.shuffler.Shuffler"
    S = {"Pipeline.__call__": lambda e, a, k: mk("call", e.sym("@run", "any"), tuple(a), ()),
         "Stage.standardize_column": lambda e, a, k: mk("call", e.sym("@std", "any"), tuple(a), ())}
    e = rep.engine(summaries=S)
    cls = e.function(q)
    if cls is None:
        raise Missing(q)
    A, B = e.sym("A", "arr"), e.sym("B", "arr")
    df2 = e.sym("df2", "frame")
    df, pipe = e.sym("df", "frame"), e.sym("pipe", ("inst", "Pipeline"))
    samp, nb = e.sym("sampler", "any"), e.sym("nb", "int")
    names = [e.sym(n, "str") for n in ("nameA", "nameB", "nameC")]
    for c in (not_(eq(samp, NONE)), mk("truthy", samp)):
        e.push(c)
    sh = e.run(cls, [], {"sampler": samp})
    names = [const("c"), const("a"), const("d"), const("b")]  # not in their own order
    e.run(e.function(q + ".add_data"), [sh, names[0], A])
    e.run(e.function(q + ".add_pipeline"), [sh, names[1], df, pipe])
    e.run(e.function(q + ".add_data"), [sh, names[2], B])
    e.run(e.function(q + ".add_pipeline"), [sh, names[3], df2, pipe])
    mark = e.seq
    r = e.run(e.function(q + ".shuffle"), [sh, nb])
    site = "hadar/workflow/shuffler.py (Shuffler.shuffle)"
    if r.op != "ref":
        return rep.maybe("sampled rows", "shuffle", "result is not a dictionary: %r" % r, site)
    # raw data
    from .frames import Frame, Idx
    from .meval import Arr, Undecided
    from .stages import judge
    for n, d in ((names[0], A), (names[2], B)):
        v = e.read(r, n)
        if v is None:
            rep.bad("sampled rows", "timeline %s" % cval(n), "the result has no entry for this timeline", site)
            continue
        for k, rows in enumerate(([[4, 7], [5, 2], [9, 1]], [[3, 1, 2]], [[2, 6], [1, 6], [2, 6], [1, 6]], [[0], [0], [1]], [[i, 50 - i] for i in range(12)])):
            env = {x: Arr((1, 2), [70, 71]) for x in (A, B)}
            env[d] = Arr((len(rows), len(rows[0])), sum(rows, []))
            judge(rep, "sampled rows", "timeline %s, data %d" % (cval(n), k), lambda: rows_drawn(e, v, samp, nb, env, {}, rows), site)
    run, std = e.sym("@run", "any"), e.sym("@std", "any")
    for name, frame in ((names[1], df), (names[3], df2)):
        v, whole = e.read(r, name), None
        if v is None:
            rep.bad("sampled rows", "registered pipeline %s" % cval(name), "the result has no entry for this timeline", site)
            continue
        for x in walk(v):
            if x.op == "call" and x.args[0] is run:
                inner = x.args[1][-1]
                while inner.op == "copy" or (inner.op == "call" and inner.args[0] is std):
                    inner = inner.args[0] if inner.op == "copy" else inner.args[1][0]
                rep.check("pipeline input", "registered pipeline %s" % cval(name), x.args[1][0] is pipe and inner is frame, "pipeline run on %r" % (x.args[1],), site, [x])
                whole = x
        for k, (cols, scns) in enumerate(SHUFFLED):
            cols = [c % TO if c == "%s" else c for c in cols]
            for rep_ in (False, True):
                rows, data = [], []
                for s in scns:
                    for c in cols:
                        data.append([100 * (0 if rep_ else s) + (7 if c == TO else 50) + t * t for t in range(3)])
                        if c == TO:
                            rows.append(data[-1])
                out = Frame(Idx(range(3)), Idx([(s, c) for s in scns for c in cols], None, True), data)
                other = Frame(Idx(range(3)), Idx([(0, TO)], None, True), [[900, 901, 902]])
                env = {df: other, df2: other, pipe: ("pipe",)}
                env[frame] = out
                funcs = {run: lambda ev, *a: a[-1], std: lambda ev, a: a}

                def f():
                    try:
                        return rows_drawn(e, v, samp, nb, env, funcs, rows)
                    except Undecided as ex:
                        if not whole:
                            raise
                        try:
                            res = RunFrames(whole).sample(v, samp, nb)
                        except Unknown:
                            raise ex
                        if res[0] == ("to", "ST") and res[1] is ZERO and res[2] == ("to", "ST") and res[3] is nb:
                            return None
                        raise ex
                judge(rep, "sampled rows", "registered pipeline %s, columns %s of %d scenario(s)%s" % (cval(name), cols, len(scns), ", all equal" if rep_ else ""), f, site)
    drawn_anew(rep, judge)
    default_sampler(rep, e, cls, q, [x for x in e.effects if x.kind == "xcall" and x.fn is samp and x.seq > mark], site)
    reseeding_stages(rep)
    # extra or missing entries
    keys = [s.elem for s in e.iterate(r)]
    ks = [cval(k) if is_const(k) else None for k in keys]
    rep.check("one entry per timeline", "shuffle", sorted(map(str, ks)) == ["a", "b", "c", "d"], "result keys %s" % keys, site, keys)
    # reseed before every draw
    last = mark
    init = False
    for x in e.effects:
        if x.kind == "pool":
            kw = dict(x.kwargs)
            # every worker starting from the same constant is no reseeding
            same_ = kw.get("initializer") is mk("ext", "numpy.random.seed") and kw.get("initargs") is not None and e.getitem(kw["initargs"], ZERO).op == "const"
            init = init or "initializer" in kw and not same_
    seen = set()
    n = 0
    for x in e.effects:
        if x.seq <= mark:
            continue
        if x.kind == "xcall" and x.fn is samp:
            n += 1
            seeds = [y for y in e.effects if y.kind == "seed" and last < y.seq < x.seq]
            ok, why = False, "no reseed between this draw and the previous task's"
            for y in seeds:
                if [g for g in guards(y) if g not in guards(x)]:
                    why = "reseed is conditional"
                    continue
                if y.arg is NONE:
                    ok = True
                    continue
                ents = [z for z in walk(y.arg) if z.op == "entropy"]
                fresh = [z for z in ents if z not in seen]
                few = fresh and seeds_spread(e, y.arg, fresh)
                if few:
                    ok, why = False, "seeded with one of %d values only: %s" % (few, show(y.arg))
                elif fresh:
                    ok = True
                elif ents:
                    ok, why = False, "entropy drawn once and shared between tasks"
                else:
                    ok, why = False, "generator seeded with %r, not operating-system entropy" % y.arg
                seen |= set(ents)
            if not ok and init:
                rep.maybe("reseed before draw", "draw %d" % n, "pool initializer", x.site)
            else:
                rep.check("reseed before draw", "draw %d" % n, ok, "fresh entropy" if ok else why, x.site, [y.arg for y in seeds])
            last = x.seq
    rep.check("draws found", "shuffle", n >= 4, "%d draws for 4 timelines" % n, site, [v])



# ---------------------------------------------------------------- C21
PIPE = "hadar.workflow.pipeline."
SPEC = """
def subset(a, b):
    return all(x in b for x in a)
def merged(inputs, outputs, p_outputs):
    return outputs + [x for x in p_outputs if x not in inputs]
"""


def fn(e, q):
    f = e.function(q)
    if f is None:
        raise Missing(q)
    return f


def meth(e, obj, cls, name):
    return e.getattr(obj, name)


def elems(e, t):
    """list term -> comparable multiset of (guard, element) with canonical binders, or None"""
    out = []
    for s in e.iterate(t):
        body = tuple_(and_(*s.guards), s.elem)
        for q, dom in reversed(s.binders):
            body = mk("each", dom, *bind(body, q))
        out.append(body)
    return sorted(out, key=repr)


def same_list(e, a, b):
    if a is b:
        return True
    try:
        x, y = elems(e, a), elems(e, b)
    except Exception:
        return None
    return len(x) == len(y) and all(p is q for p, q in zip(x, y))


def deref(t):
    while t.op == "copy":
        t = t.args[0]
    return t


def field(e, o, name):
    if o.op == "copy":
        return deref(e.getattr(o.args[0], name))
    return deref(e.getattr(o, name))


DEBUG = os.environ.get("HC_DEBUG")
MANY = ["n%d" % i for i in range(40)]
# inputs and outputs of the first plug, of the second one, names provided
PLUGS = [([], [], [], [], []), (["a"], ["b"], ["b"], ["c"], ["a"]), (["a"], ["b"], ["c"], ["d"], ["b"]), (["a", "b"], ["c", "d"], ["d"], ["e"], ["b", "a", "z"]),
         (["a"], ["c", "d"], ["c", "d"], ["c"], ["aa"]), (["aa"], ["a", "aa", "b"], ["aa"], ["a", "aa"], ["a"]), (["x"], ["a", "b", "c", "d"], ["a", "e"], ["f"], ["x", "y"]),
         (["x"], ["a", "b", "c", "d"], ["a", "c"], ["f", "a"], []), (["a"], MANY, MANY[3:30], ["o"], MANY), (MANY, ["a"], ["a"], MANY, MANY[:39]), (["A"], ["B"], ["b"], ["c"], ["a"]),
         (["a", "b"], ["b"], ["b", "b"], ["b", "b"], ["a", "a"]), ([""], ["a b"], ["a", "b"], ["ab"], [" "]), (["a"], ["x_%s" % TO], [TO], [TO], ["a"]), (["a"], [TO], [], [TO + "2"], ["a", TO]),
         (["a"], ["b"], ["b"], [], ["a"]), (["a"], [], ["a"], ["a"], ["a"])]
_SMALL = [[], ["a"], ["b"], ["ab"], ["A"], [" a"], ["a", "b"], ["b", "a"], ["ab", "a"], ["ba", "b"], ["a", "b", "c"], ["c", "b", "a", "d"]]
PLUGS += [(i, o, x, y, n) for k, (o, x) in enumerate((o, x) for o in _SMALL for x in _SMALL) for i, y, n in [(_SMALL[k % 12], _SMALL[k // 7 % 12], _SMALL[k // 12])]]
PLUGS += [(i, o, x, y, n) for i in _SMALL[:3] + [["a", "b"]] for o in ([], ["a"], ["b", "a"]) for x in ([], ["a"], ["b"]) for y in ([], ["a"], ["c"]) for n in (["a"],)]


def by_samples(e, got, want, env, kind):
    """True: same on every sample, a description of a difference, None: not modelled"""
    from .frames import FEv
    from .meval import Undecided, PyErr
    from .stages import isinst
    for vals in PLUGS:
        d = env(vals)
        if d is None:
            continue
        funcs = d.pop("funcs", {})
        r = []
        for t in (got, want):
            try:
                ev = FEv(dict(d), e, isinst, funcs=funcs)
                if kind == "names":
                    r.append(sorted(set(ev.seq(ev(t)))))
                else:
                    r.append(bool(ev.cond(t)))
            except PyErr as ex:
                r.append("raises %s" % ex.name)
            except (Undecided, TypeError, AttributeError, ValueError, KeyError, IndexError, AssertionError, RecursionError) as ex:
                if DEBUG:
                    print("not modelled on samples:", repr(ex), t)
                return None
        if r[0] != r[1]:
            return "%s instead of %s with %s" % (r[0], r[1], "; ".join("%r = %s" % (k, v if len(v) < 9 else "%d names" % len(v)) for k, v in d.items() if isinstance(v, list)))
    return True


def decide(rep, e, rule, subject, ok, got, want, env, kind, detail, site, terms):
    """decided for all plugs when ok; otherwise refuted by sample plugs"""
    if ok is True:
        return rep.ok(rule, subject, detail, site)
    d = by_samples(e, got, want, env, kind)
    if isinstance(d, str):
        return rep.bad(rule, subject, d, site)
    if d is True:
        return rep.maybe(rule, subject, "%s (as expected on %d sample plugs)" % (detail, len(PLUGS)), site)
    rep.check(rule, subject, False, detail, site, terms)


def plug_env(e, p=None, q=None, names=None):
    def f(vals):
        d = {}
        for o, i in ((p, 0), (q, 2)):
            if o is not None:
                d[e.getattr(o, "inputs")], d[e.getattr(o, "outputs")] = list(vals[i]), list(vals[i + 1])
        if names is not None:
            d[names] = list(vals[4])
        return d
    return f


def c21(rep):
    from .externals import freeze
    psite = "hadar/workflow/pipeline.py"
    # plugs
    for a in ("RestrictedPlug", "FreePlug"):
        for b in ("RestrictedPlug", "FreePlug"):
            e = rep.engine()
            p, q = e.sym("p", ("inst", a)), e.sym("q", ("inst", b))
            r = e.run(meth(e, p, a, "linkable_to"), [q])
            r = truthy(r)
            if a == b == "RestrictedPlug":
                want = srun(e, "subset", SPEC, [e.getattr(q, "inputs"), e.getattr(p, "outputs")])
            else:
                want = TRUE
            decide(rep, e, "linkable condition", "%s -> %s" % (a, b), r is want or equiv(r, want) is True, r, want, plug_env(e, p, q), "truth", "accepted when %r, expected %r" % (r, want), psite, [r])
            e = rep.engine()
            p, q = e.sym("p", ("inst", a)), e.sym("q", ("inst", b))
            r = e.run(fn(e, PIPE + a + ".__add__"), [p, q])
            if r.op == "ite":
                rep.maybe("combined plug", "%s + %s" % (a, b), "case split %r" % r, psite)
                continue
            x = p if b == "FreePlug" else q
            if a == b == "RestrictedPlug":
                wi = e.getattr(p, "inputs")
                wo = srun(e, "merged", SPEC, [e.getattr(q, "inputs"), e.getattr(q, "outputs"), e.getattr(p, "outputs")])
            else:
                wi, wo = e.getattr(x, "inputs"), e.getattr(x, "outputs")
            for n, w in (("inputs", wi), ("outputs", wo)):
                v = field(e, r, n)
                sl = same_list(e, v, w)
                show_ = elems(e, v) if sl is not None else v
                decide(rep, e, "combined plug", "%s + %s: %s" % (a, b, n), bool(sl), freeze(e, v), freeze(e, w), plug_env(e, p, q), "names", "%s of the combination: %s" % (n, str(show_)[:300]), psite,
                       [v] if sl is not None else [mk("unk", 0, "x")])
            cn = e.cls_of(r) if hasattr(e, "cls_of") else None
        e = rep.engine()
        p = e.sym("p", ("inst", a))
        names = e.sym("names", ("list", "str"))
        r = truthy(e.run(meth(e, p, a, "computable"), [names]))
        want = srun(e, "subset", SPEC, [e.getattr(p, "inputs"), names])
        decide(rep, e, "computable condition", a, r is want or (a == "FreePlug" and r is TRUE), r, want, plug_env(e, p, None, names), "truth", "computable when %r, expected every input among the names" % r, psite, [r])
    # the plugs of the built-in stages
    e = rep.engine()
    ren = e.sym("new_names", ("dict", "str", "str"))
    for c, args, kw, ins, outs in (
            ("Clip", [], {}, None, None), ("RepeatScenario", [e.sym("n", "int")], {}, None, None),
            ("Drop", [e.sym("names", ("list", "str"))], {}, e.sym("names", ("list", "str")), ()),
            ("Drop", [const("res")], {}, ("res",), ()),
            ("Fault", [e.sym(x, "num") for x in ("loss", "freq", "dmin", "dmax")], {}, ("quantity",), ("quantity",)),
            ("Rename", [], {"old": const("new"), "x": const("y")}, ("old", "x"), ("new", "y")),
            ("ToShuffler", [const("res")], {}, ("res",), ("to_shuffler",))):
        o = e.run(fn(e, PIPE + c), args, kw)
        plug = e.getattr(o, "plug")
        pc = e.obj(plug).cls.name if plug.op == "ref" else "?"
        if ins is None:
            rep.check("stage requirement", c, pc == "FreePlug", "plug of %s is a %s, expected one without requirement" % (c, pc), psite, [plug])
            continue
        rep.check("stage requirement", c, pc == "RestrictedPlug", "plug of %s is a %s" % (c, pc), psite, [plug])
        for n, w in (("inputs", ins), ("outputs", outs)):
            v = field(e, plug, n)
            if isinstance(w, tuple):
                segs = e.iterate(v)
                got = [s.elem for s in segs]
                ok = len(got) == len(w) and all(is_str(g) and not s.binders and not s.guards for g, s in zip(got, segs)) and sorted(cval(g) for g in got) == sorted(w)
            else:
                got = v
                ok = v is w or bool(same_list(e, v, w))
            rep.check("stage requirement", "%s.%s" % (c, n), ok, "%s of %s: %s, expected %s" % (n, c, got, w), psite, [v])
    # linking
    n_links = 0
    for how in ("constructor", "stage sum"):
        tab = {}

        def plus(e, a, k):
            t = mk("call", e.sym("@plus", "any"), tuple(a), ())
            s = e.sym("plus<%r,%r>" % (a[0], a[1]), ("inst", "Plug"))
            tab[s] = t
            return s

        S = {}
        for c in ("Plug", "RestrictedPlug", "FreePlug"):
            S[c + ".linkable_to"] = lambda e, a, k: mk("call", e.sym("@link", "any"), tuple(a) + tuple(v for _, v in sorted(k.items())), ())
            S[c + ".__add__"] = plus
        e = rep.engine(summaries=S)
        s = [e.sym("stage%d" % i, ("inst", "Stage")) for i in range(4)]
        pl = [e.getattr(x, "plug") for x in s]
        link = lambda a, b: truthy(mk("call", e.sym("@link", "any"), (a, b), ()))
        P2 = plus(e, [pl[0], pl[1]], {})
        P3 = plus(e, [P2, pl[2]], {})
        P4 = plus(e, [P3, pl[3]], {})
        need = and_(link(pl[0], pl[1]), link(P2, pl[2]), link(P3, pl[3]))
        try:
            if how == "constructor":
                lst = e.alloc("list")
                for x in s:
                    e.call_method(lst, "append", [x], {})
                r = e.run(fn(e, PIPE + "Pipeline"), [lst])
            else:
                r = e.run(fn(e, PIPE + "Stage.__add__"), [s[0], s[1]])
                for x in s[2:]:
                    r = e.run(fn(e, PIPE + "Pipeline.__add__"), [r, x])
        except Dead:
            rep.bad("linking refused", how, "linking four stages always fails", psite)
            continue
        ref = refused(e)
        rs = raises(e)
        eqv = equiv(ref, not_(need))
        if eqv is False and ref is not FALSE and not any(contains(z, lambda y: y is e.sym("@link", "any")) for z in atoms(ref, [])):
            eqv = None  # linking condition written without linkable_to
        rep.check("linking refused", how, eqv is True, "linking is refused with ValueError when %r; expected exactly when a stage's inputs are not provided by the pipeline so far" % ref,
                  rs[0].site if rs else psite, [ref] + ([mk("unk", 0, "x")] if eqv is None else []))
        other = [x for x in rs if exc_name(x) != "ValueError"]
        for x in other:
            rep.check("linking refused", how + " error kind", rcond(x) is FALSE, "linking raises %s" % exc_name(x), x.site)
        got = e.getattr(r, "plug")
        rep.check("pipeline requirement", how, got is P4, "plug of the pipeline is %r, expected the combination of all stage plugs in order" % got, psite, [got])
        n_links += 3
    # sum with something that is no stage
    for q, cls in (("Stage.__add__", "Stage"), ("Pipeline.__add__", "Pipeline")):
        e = rep.engine()
        x = e.sym("x", ("inst", cls))
        try:
            e.run(fn(e, PIPE + q), [x, const("no stage")])
            dead = False
        except Dead:
            dead = True
        ok = dead and refused(e) is TRUE
        rep.check("sum with no stage refused", q, ok, "adding something that is no stage is refused when %r" % refused(e), psite)
    # running
    for cls, inner in (("Stage", "Stage._process_timeline"), ("Pipeline", "Stage.__call__")):
        def work(e, a, k):
            e.effect("ran", args=tuple(a))
            return mk("call", e.sym("@work", "any"), tuple(a), ())

        S = {inner: work, "Stage.standardize_column": lambda e, a, k: mk("call", e.sym("@std", "any"), tuple(a), ())}
        e = rep.engine(summaries=S)
        x = e.sym("x", ("inst", cls))
        df = e.sym("df", "frame")
        try:
            e.run(fn(e, PIPE + cls + ".__call__"), [x, df])
        except Dead:
            rep.bad("missing column refused", cls, "running always fails", psite)
            continue
        ins = e.getattr(e.getattr(x, "plug"), "inputs")
        rs = raises(e, names=("ValueError",))
        need = missing_columns(rep, e, refused(e), ins, df, TRUE, "missing column refused", cls, rs[0].site if rs else psite)
        n = 0
        for y in e.effects:
            if y.kind == "ran":
                n += 1
                g = and_(*guards(y, ()))
                ok = need is not None and rs and y.seq > rs[0].seq and equiv(and_(g, need), g) is True
                rep.check("refused before computing", cls, ok or need is None, "computation starts under %r" % g, y.site, [g])
        rep.check("computation found", cls, n > 0, "%d calls of %s" % (n, inner), psite, [mk("unk", 0, "x")])
    # shuffler
    q = "hadar.workflow.shuffler.Shuffler"
    S = {"Stage.standardize_column": lambda e, a, k: mk("call", e.sym("@std", "any"), tuple(a), ())}
    e = rep.engine(summaries=S)
    sh = e.run(fn(e, q), [])
    df, pipe, name = e.sym("df", "frame"), e.sym("pipe", ("inst", "Pipeline")), e.sym("name", "str")
    m = Mark(e)
    e.run(fn(e, q + ".add_pipeline"), [sh, name, df, pipe])
    ref = refused(e, m.seq)
    plug = e.getattr(pipe, "plug")
    outs = e.getattr(plug, "outputs")
    has = truthy(srun(e, "has", "def has(o):\n    return 'to_shuffler' in o\n", [outs]))
    ssite = "hadar/workflow/shuffler.py (Shuffler.add_pipeline)"
    missing_columns(rep, e, ref, e.getattr(plug, "inputs"), df, has, "registration refused", "add_pipeline", ssite)
    tl = e.getattr(sh, "timelines")
    o = e.obj(tl)
    for w in o.writes:
        if w.seq > m.seq:
            g = and_(*[x for x, _ in w.guards])
            ok = equiv(and_(g, not_(ref)), g)
            rep.check("refused before storing", "add_pipeline", ok is True or ref is FALSE, "stored under %r" % g, w.site, [g])
    rep.notes.append("plug combinations, pipelines of four stages with arbitrary plugs, stage and pipeline runs, shuffler registration")


def missing_columns(rep, e, ref, ins, df, extra, rule, subject, site):
    """ref must be: an input of ins is not a column name of df, or extra fails"""
    std = mk("call", e.sym("@std", "any"), (df,), ())
    cands = [z for z in walk(ref) if names_of(z, std, df)]
    for c in cands:
        try:
            need = and_(truthy(srun(e, "subset", SPEC, [ins, c])), extra)
        except Dead:
            continue
        if equiv(ref, not_(need)) is True:
            rep.ok(rule, subject, "refused when %r" % ref, site)
            return need
    bad = [mk("unk", 0, "x")] if cands and not (contains(ref, lambda z: z is ins)) else []
    from .frames import Frame, Idx
    names = e.sym("$names", ("list", "str"))

    def env(vals):
        # a frame with these columns in two scenarios
        have = list(dict.fromkeys(vals[4]))
        if not have:
            return None
        f = Frame(Idx([0, 1]), Idx([(k, n) for k in (0, 1) for n in have], None, True), [[1, 2]] * (2 * len(have)))
        d = {df: f, names: have, ins: list(vals[0]), "funcs": {e.sym("@std", "any"): lambda ev, a: a}}
        for z in walk(ref):
            if z.op == "attr" and z.args[1] == "outputs":
                d[z] = list(vals[1])
        for z in walk(extra):
            if z.op == "attr" and z.args[1] == "outputs":
                d[z] = list(vals[1])
        return d
    d = by_samples(e, ref, not_(and_(truthy(srun(e, "subset", SPEC, [ins, names])), extra)), env, "truth")
    if isinstance(d, str):
        rep.bad(rule, subject, "refused: " + d, site)
        return None
    rep.check(rule, subject, False, "refused with ValueError when %r; expected when a required column is missing%s" % (
        ref, "" if extra is TRUE else " or the shuffler column is not output"), site, [ref] + bad)
    return None


def names_of(t, std, df):
    """t denotes the level-1 column names of the (standardized) frame"""
    while True:
        if t.op == "mcall" and t.args[1] in ("unique", "tolist", "to_list", "to_numpy"):
            t = t.args[0]
        elif t.op == "xattr" and t.args[1] == "values":
            t = t.args[0]
        elif t.op in ("listof", "setof", "copy"):
            t = t.args[0]
        elif t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.list", "builtins.set"):
            t = t.args[1][0]
        else:
            break
    if t.op == "mcall" and t.args[1] == "get_level_values" and len(t.args[2]) == 1 and t.args[2][0] in (ONE, const(-1)):
        c = t.args[0]
        while c.op == "copy":
            c = c.args[0]
        if c.op == "xattr" and c.args[1] == "columns":
            b = c.args[0]
            while b.op == "copy":
                b = b.args[0]
            return b is std or b is df
    return False


CHECKS = {"C21": c21, "C24": c24, "C26": c26}
