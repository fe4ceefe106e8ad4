"""Interprocedural, context-sensitive abstract interpreter over the AST.

One abstract execution per entry point: branches are merged with gated values (no path
enumeration), every loop over a symbolic collection is analysed once for a generic
element (loop-carried values are summarised), the heap is a log of guarded writes on
object families indexed by the loop binders alive at allocation.  The outcome is a log of
effects (stores, solver calls, raises, external calls) and value terms.
"""
import ast
import time
import warnings

from .terms import *
from .program import Program, Class
from . import kept
from .kept import STALE

warnings.filterwarnings("ignore", category=SyntaxWarning)

MAX_DEPTH = 70


MASKS = ("lt0", "le0", "eq", "not", "and", "or")  # a comparison as index selects several cells

class Obj(object):
    __slots__ = ("oid", "kind", "cls", "formals", "writes", "site", "meta", "seq", "guards")

    def __init__(self, oid, kind, cls, formals, site, seq, guards):
        self.oid, self.kind, self.cls, self.formals = oid, kind, cls, formals
        self.site, self.seq = site, seq
        self.guards = guards
        self.writes = []
        self.meta = {}


class Write(object):
    __slots__ = ("args", "key", "val", "binders", "guards", "seq", "site", "op", "prev", "base", "task", "lit")

    def __init__(self, args, key, val, binders, guards, seq, site, op="set"):
        self.args, self.key, self.val = args, key, val
        self.binders, self.guards = binders, guards
        self.seq, self.site, self.op = seq, site, op
        self.prev = None
        self.task, self.lit = False, False
        self.base = 0  # number of leading guards the object itself was created under


class Effect(object):
    __slots__ = ("kind", "data", "guards", "binders", "seq", "site", "task")

    def __init__(self, kind, data, guards, binders, seq, site):
        self.task = False
        self.kind, self.data = kind, data
        self.guards, self.binders = guards, binders
        self.seq, self.site = seq, site

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def loc(self):
        return "%s:%s (%s)" % self.site

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.data, self.loc())


WHOLE, LAST = const("<whole list>"), const("<last item>")


class Seg(object):
    __slots__ = ("binders", "guards", "elem", "pos")

    def __init__(self, binders, guards, elem, pos=None):
        self.binders, self.guards, self.elem, self.pos = binders, guards, elem, pos


class Frame(object):
    def __init__(self, module, env, cls=None, func=None, selfarg=None):
        self.module, self.env, self.cls, self.func = module, env, cls, func
        self.returns = []
        self.loops = []
        self.path_mark = 0
        self.selfarg = selfarg
        self.globals_decl = set()
        self.nonlocals = {}
        self.closure = None
        self.yields = None
        self.hook = None
        self.tries = 0
        self.fnode = None


class LoopCtx(object):
    def __init__(self, mark):
        self.mark = mark
        self.conts = []
        self.breaks = []


class Dead(Exception):
    """the analysed entry point raises on every path"""


class AnalysisError(Exception):
    pass


LIVE = "live"
UNDEF = mk("undef")
DEADLINE = 100  # seconds of analysis per engine

VIEW_METHODS = {"reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "loc", "iloc",
                "get_level_values"}
VIEW_ATTRS = {"T", "values", "loc", "iloc", "at", "iat", "flat", "index", "columns"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault",
            "sort", "reverse", "add", "discard", "popitem", "fill", "itemset", "resize", "put",
            "partition", "setflags", "__setitem__", "__delitem__", "appendleft", "popleft",
            "set_axis_inplace"}


class Engine(object):
    def __init__(self, program, schema, summaries=None, max_unroll=24):
        self.born = time.thread_time()
        self.ranks = {}
        self.server = None  # scripted responses of a remote server
        self.unroll_while = 0
        self.p = program
        self.schema = schema
        self.symtype = {}
        self.objs = {}
        self.effects = []
        self.path = []
        self.stack = []  # active binder ids
        self.doms = {}  # binder id -> domain term
        self.inactive_parent = {}
        self.closures = {}
        self.frames = []
        self.muts = {}
        self.uid = 0
        self.order = {}  # binder of an iteration in sorted or reversed order: that iteration
        self.seq = 0
        self.node = None
        self.unknowns = []
        self.car_read = set()
        self.reads = []
        self.growing = set()
        self.lastcar = {}
        self.kept_first = set()
        self.exact_types = False
        self.summaries = summaries or {}
        self.functions_analysed = set()
        self.call_sites = 0
        self.max_unroll = max_unroll
        self.default_cache = {}
        self.modvals = {}
        self.in_task = 0
        self.testing = 0
        self.selfkept = {}
        self.log_reads = False  # record reads of mapping entries (possible KeyError)
        self.overlay = {}  # id(symbolic container term) -> Obj
        self.try_depth = 0
        self.class_vals = {}
        self.ext_handlers = {}
        self.meth_handlers = {}
        self.glob_over = {}
        self.callstack = []
        self.cmgrs = {}
        self.cm_pending = []
        self.alias = {}
        from . import externals

        externals.install(self)

    # ------------------------------------------------------------------ utils
    def fresh(self):
        self.uid += 1
        return self.uid

    def tick(self):
        self.seq += 1
        return self.seq

    def site(self):
        fr = self.frames[-1] if self.frames else None
        mod = fr.module.path if fr and fr.module else "?"
        rel = mod.replace(self.p.root.rstrip("/") + "/", "")
        fn = "<module>"
        if fr:
            fn = (fr.cls.name + "." if fr.cls else "") + (fr.func or "<module>")
        return (rel, getattr(self.node, "lineno", 0), fn)

    def unk(self, reason):
        t = mk("unk", self.fresh(), reason)
        self.unknowns.append((reason, self.site()))
        return t

    def sym(self, name, ty=None):
        t = mk("sym", name)
        if ty is not None:
            self.symtype[t] = ty
            if ty == "int":
                INT_ATOMS.add(t)
        return t

    def effect(self, kind, **data):
        e = Effect(kind, data, tuple(self.path), tuple(self.stack), self.tick(), self.site())
        e.task = self.in_task > 0
        self.effects.append(e)
        if kind == "mutate" and data["target"].op != "ref":
            t = data["target"]
            ty = self.typeof(t)
            if not isinstance(ty, tuple) and t.op not in ("class", "ext", "mod"):
                self.mutated(t, e, data.get("how"), data.get("key", NONE), data.get("val", NONE))
        elif kind == "framestore" and data["frame"].op == "ref":
            col = data["col"]
            if data["how"] == "col":
                self.mutated(data["frame"], e, "[...]=", col, data["val"])
            else:
                key = data["rows"] if col is NONE else tuple_(data["rows"], col)
                self.mutated(data["frame"], e, "[...]= via " + data["how"], key, data["val"])
        elif kind == "attrstore" and data["target"].op == "ref" and self.obj(data["target"]).kind == "frame":
            self.mutated(data["target"], e, "." + data["attr"], NONE, data["val"])
        return e

    def mutated(self, t, e, how, key, val):
        from . import externals
        self.muts.setdefault(id(t), (t, []))[1].append((how, externals.freeze(self, key), externals.freeze(self, val), e))

    def now(self, t, base=None):
        """value of a mutable term at this point: the updates made to it so far are part of it"""
        if t.op == "ite" and base is None and self.muts:
            a, b = self.now(t.args[1]), self.now(t.args[2])
            return t if a is t.args[1] and b is t.args[2] else ite(t.args[0], a, b)
        if t.op == "ref" and base is None:
            return t
        found = []
        if t.op == "ref":
            for r, ms in self.muts.values():
                if r.op == "ref" and r.args[0] == t.args[0]:
                    if r is t:
                        found += ms
                    elif all(x.op == "bv" for x in r.args[1]) and len(set(r.args[1])) == len(r.args[1]):
                        found += [x[:3] + (x[3], {y.args[0]: z for y, z in zip(r.args[1], t.args[1])}) for x in ms]
                    else:
                        return self.unk("updated object of a collection")
            found.sort(key=lambda x: x[3].seq)
        elif id(t) in self.muts:
            found = self.muts[id(t)][1]
        if not found:
            return t if base is None else base
        have = {id(g) for g, _ in self.path}
        own = free_bvs(t)
        leaves = []
        for x in found:
            how, key, val, e = x[:4]
            m = x[4] if len(x) > 4 else {}
            extra = [q for q in e.binders if q not in own and q not in m]
            if any(q in self.stack for q in extra):
                return self.unk("updated in a running loop")
            c = and_(*[g for g, tag in e.guards if id(g) not in have])
            leaf = tuple_(const(how), key, val, c)
            leaves.append((extra, subst(leaf, m) if m else leaf, m))
        return mk("upd", t if base is None else base, *self.loops(leaves, 0))

    def loops(self, leaves, k):
        """updates in program order, those of one loop grouped into it"""
        out, i = [], 0
        while i < len(leaves):
            extra, leaf, m = leaves[i]
            if len(extra) <= k:
                out.append(leaf)
                i += 1
                continue
            q, j = extra[k], i
            while j < len(leaves) and len(leaves[j][0]) > k and leaves[j][0][k] == q:
                j += 1
            lv, b = bind(mk("useq", *self.loops(leaves[i:j], k + 1)), q)
            out.append(mk("compbody", subst(self.doms[q], m) if m else self.doms[q], lv, b))
            i = j
        return out

    def facts(self):
        out = []
        for g, _ in self.path:
            if g.op == "and":
                out.extend(g.args)
            else:
                out.append(g)
        return out

    def bounds(self):
        """linear facts p<=0 from path and binders"""
        out = []
        for f in self.facts():
            if f.op == "le0":
                out.append(f.args[0])
            elif f.op == "eq":
                d = sub(f.args[0], f.args[1])
                if is_int(d):
                    out += [d, neg(d)]
            elif f.op == "not" and f.args[0].op == "eq":
                x, y = f.args[0].args
                if is_const(x):
                    x, y = y, x
                # binder != 0  -> binder >= 1
                if y is ZERO and (x.op in ("bv", "len", "pos")):
                    out.append(sub(ONE, x))
        for q in self.stack:
            d = self.doms[q]
            if d.op == "drange":
                b = mk("bv", q)
                out += [neg(b), add(sub(b, d.args[0]), ONE), sub(ONE, d.args[0])]
            elif d.op == "dkeys":
                out.append(sub(ONE, dom_len(d)))
        return out

    def decide(self, c):
        """simplify a condition under the current path facts"""
        c = truthy(c)
        if is_const(c):
            return c
        facts = set(self.facts())
        c = assume(c, facts)
        if is_const(c):
            return c
        bs = None

        def atom(x):
            nonlocal bs
            if x.op in ("le0", "eq", "truthy", "in"):
                if bs is None:
                    bs = self.bounds()
                r = self.implied(x, bs)
                if r is not None:
                    return const(r)
            return None

        return replace_top(c, atom)

    def implied(self, x, bs):
        if x.op == "le0":
            p = x.args[0]
            for b in bs:
                d = sub(p, b)
                if is_num(d) and d.args[1] <= 0:
                    return True
                # contradiction: p >= 1 known  (b = 1 - p ... )
                d2 = add(p, b)
                if is_num(d2) and is_int(p) and d2.args[1] >= 1:
                    return False
            # trivially non negative atoms
            if all(c > 0 or not m for m, c in poly(p).items()) and all(
                self.nonneg(a) for m in poly(p) for a in m
            ):
                c0 = poly(p).get((), 0)
                if c0 > 0:
                    return False
            if all(c < 0 or not m for m, c in poly(p).items()) and all(
                self.nonneg(a) for m in poly(p) for a in m
            ):
                c0 = poly(p).get((), 0)
                if c0 <= 0:
                    return True
            return None
        if x.op == "eq":
            d = sub(x.args[0], x.args[1])
            if not is_int(d):
                return None
            for b in bs:
                for s in (d, neg(d)):
                    # b = k - s <= 0 with k>=1 -> s>=1 -> not equal
                    e = add(b, s)
                    if is_num(e) and e.args[1] >= 1:
                        return False
            return None
        if x.op == "in":
            k, d = x.args
            if k.op == "bv" and k.args[0] in self.doms:
                dm = self.doms[k.args[0]]
                if dm.op == "dkeys" and dm.args[0] is d:
                    return True
            return None
        if x.op == "truthy":
            t = x.args[0]
            for q in self.stack:
                dm = self.doms[q]
                if dm.op == "dkeys" and dm.args[0] is t:
                    return True
                if dm.op == "drange" and dm.args[0].op == "len" and dm.args[0].args[0] is t:
                    return True
            ty = self.typeof(t)
            if isinstance(ty, tuple) and ty[0] == "inst":
                c = self.cls_by_name(ty[1])
                if c is not None and not self.find_method(c, "__len__") and not self.find_method(c, "__bool__"):
                    return True
        return None

    def nonneg(self, a):
        return a.op in ("bv", "len", "pos", "cbv") or a in INT_ATOMS

    def push(self, g, tag="if"):
        self.path.append((g, tag))

    # ------------------------------------------------------------------ types
    def cls_by_name(self, n):
        if isinstance(n, Class):
            return n
        return self.p.find_class(n)

    def typeof(self, t):
        op = t.op
        if op in ("sym", "attr", "item") and t in self.symtype:
            return self.symtype[t]
        if op == "const":
            k = t.args[0]
            return {"num": "num", "float": "num", "str": "str", "bool": "bool", "NoneType": "none"}.get(k)
        if op == "attr":
            bt = self.typeof(t.args[0])
            if isinstance(bt, tuple) and bt[0] == "inst":
                return self.field_type(bt[1], t.args[1])
            return None
        if op == "item":
            bt = self.typeof(t.args[0])
            if bt == ("inst", "NumericalValue"):
                return "num"
            if isinstance(bt, tuple):
                if bt[0] == "list":
                    return bt if t.args[1].op == "slice" else bt[1]
                if bt[0] == "dict":
                    return bt[2]
                if bt[0] == "tuple":
                    if is_num(t.args[1]):
                        i = cval(t.args[1])
                        if i < len(bt[1]):
                            return bt[1][i]
                    return None
            if bt == "arr":
                return "num"
            return None
        if op == "bv":
            d = self.doms.get(t.args[0])
            if d is None:
                return None
            if d.op == "drange":
                return "int"
            if d.op == "dkeys":
                bt = self.typeof(d.args[0])
                if isinstance(bt, tuple) and bt[0] == "dict":
                    return bt[1]
            return None
        if op in ("poly", "sum", "psum", "inv", "len", "pos", "solval"):
            return "num"
        if op in BOOL_OPS:
            return "bool"
        if op == "copy":
            return self.typeof(t.args[0])
        if op == "tuple":
            return ("tuple", tuple(self.typeof(a) for a in t.args))
        if op == "strcat":
            return "str"
        if op == "ref":
            o = self.objs[t.args[0]]
            if o.kind == "inst":
                return ("inst", o.cls.name)
            if o.kind in ("list", "dict"):
                return (o.kind, None, None)
            return o.kind
        if op == "ite":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            return a if a == b else None
        if op == "call":
            nm = t.args[0]
            if nm in ("builtins.int", "builtins.len"):
                return "int"
            if nm in ("builtins.float", "builtins.abs", "builtins.round"):
                return "num"
            if isinstance(nm, str) and nm.startswith("numpy."):
                return "arr"
        if op == "dictof":
            return ("dict", "str", None)
        if op == "tolist":
            r = self.rank(t.args[0])
            if r is not None:
                ty = "num"
                for _ in range(r):
                    ty = ("list", ty)
                return ty
        return None

    SAME_RANK = {"round", "around", "round_", "rint", "floor", "ceil", "trunc", "abs", "absolute", "nan_to_num", "clip", "sort", "cumsum",
                 "maximum", "minimum", "array", "asarray", "copy", "fix", "negative", "float64", "float32", "transpose", "astype", "view",
                 "sqrt", "exp", "log", "square"}

    def rank(self, t):
        """number of dimensions of an array term, None when unknown"""
        if t in self.ranks:
            return self.ranks[t]
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("numpy.") and t.args[0][6:] in self.SAME_RANK and t.args[1]:
            if t.args[0] == "numpy.cumsum" and len(t.args[1]) == 1 and not t.args[2]:
                return 1
            return self.rank(t.args[1][0])
        if t.op == "mcall" and t.args[1] in self.SAME_RANK:
            if t.args[1] == "cumsum" and not t.args[2]:
                return 1
            return self.rank(t.args[0])
        if t.op == "mcall" and t.args[1] in ("flatten", "ravel"):
            return 1
        if t.op == "xattr" and t.args[1] == "T":
            return self.rank(t.args[0])
        if t.op == "ref" and self.objs[t.args[0]].kind == "arr":
            v = self.arr_value(t)
            return None if v is t else self.rank(v)
        return None

    def field_type(self, cname, field):
        c = self.cls_by_name(cname)
        names = [x.name for x in self.p.mro(c)] if c else [cname]
        for n in names:
            sc = self.schema.get(n)
            if sc and field in sc:
                return sc[field]
        return None

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, cls=None, **meta):
        oid = self.fresh()
        o = Obj(oid, kind, cls, tuple(self.stack), self.site(), self.tick(), tuple(self.path))
        o.meta.update(meta)
        self.objs[oid] = o
        return mk("ref", oid, tuple(mk("bv", q) for q in o.formals))

    def obj(self, t):
        return self.objs[t.args[0]]

    def is_ref(self, t, kind=None):
        return t.op == "ref" and (kind is None or self.objs[t.args[0]].kind == kind)

    def write(self, ref, key, val, op="set"):
        o = self.obj(ref)
        if o.kind == "arr" and o.meta.get("whole") and op == "set" and val is not None and val.op not in ("unk", "ref") and not is_num(val):
            val = mk("call", o.meta["whole"], (val,), ())
        w = Write(ref.args[1], key, val, tuple(self.stack), tuple(self.path), self.tick(), self.site(), op)
        if "static" in o.meta:
            w.task = self.in_task > 0
            w.lit = self.literal_write()
            if o.meta.get("stale") == "cache":
                return w  # the earlier content stays
        n = len(o.guards)
        if n and w.guards[:n] == o.guards and o.kind == "inst":
            w.base = n
        o.writes.append(w)
        return w

    def stack_extra(self, t):
        """are we inside a loop the object was not created in?"""
        return len(self.stack) > len(self.obj(t).formals)

    def cond_extra(self, t):
        """are we under a condition the object was not created under?"""
        have = set(g for g, _ in self.obj(t).guards)
        return any(tag != "raise" and g not in have for g, tag in self.path)

    def _match(self, p, a, pv, sub_, conds):
        """match pattern p (free binders pv) with actual term a"""
        if p.op == "bv" and p.args[0] in pv:
            q = p.args[0]
            if q in sub_:
                c = eq(sub_[q], a)
                if c is FALSE:
                    return False
                if c is not TRUE:
                    conds.append(c)
                return True
            sub_[q] = a
            return True
        fv = free_bvs(p) & pv
        unb = fv - set(sub_)
        if not unb:
            pp = subst(p, {q: sub_[q] for q in fv}) if fv else p
            c = self.decide(eq(pp, a))
            if c is FALSE:
                return False
            if c is not TRUE:
                conds.append(c)
            return True
        if p.op == "tuple":
            if a.op == "tuple":
                if len(a.args) != len(p.args):
                    return False
                return all(self._match(x, y, pv, sub_, conds) for x, y in zip(p.args, a.args))
            ty = self.typeof(a)
            if isinstance(ty, tuple) and ty[0] == "tuple" and len(ty[1]) != len(p.args):
                return False
            if is_const(a):
                return False
            return all(
                self._match(x, item(a, const(i)), pv, sub_, conds) for i, x in enumerate(p.args)
            )
        if p.op == "poly" and len(unb) == 1:
            q = list(unb)[0]
            b = mk("bv", q)
            d = poly(p)
            lin = {m: c for m, c in d.items() if any(q in free_bvs(x) for x in m)}
            if list(lin) == [(b,)]:
                c = lin[(b,)]
                rest = from_poly({m: k for m, k in d.items() if m != (b,)})
                rest = subst(rest, {k: v for k, v in sub_.items()})
                sub_[q] = div(self_sub(a, rest), const(c))
                return True
        if p.op == a.op and p.op in ("attr",) and p.args[1] == a.args[1]:
            return self._match(p.args[0], a.args[0], pv, sub_, conds)
        if p.op == a.op and p.op == "item":
            return self._match(p.args[0], a.args[0], pv, sub_, conds) and self._match(
                p.args[1], a.args[1], pv, sub_, conds
            )
        if p.op == a.op and p.op == "ref" and p.args[0] == a.args[0]:
            return all(self._match(x, y, pv, sub_, conds) for x, y in zip(p.args[1], a.args[1]))
        if p.op == a.op and p.op == "strcat" and len(p.args) == len(a.args):
            return all(self._match(x, y, pv, sub_, conds) for x, y in zip(p.args, a.args))
        if p.op == a.op and p.op == "join" and p.args[0] is a.args[0]:
            return self._match(p.args[1], a.args[1], pv, sub_, conds)
        if is_const(a) and p.op in ("tuple", "ref"):
            return False
        conds.append(mk("eqpat", p, a))
        return True

    def resolve_write(self, w, args, key):
        """(cond, sub) if write w may define cell (args,key); None otherwise"""
        pv = set(w.binders)
        sub_, conds = {}, []
        pats = list(w.args)
        acts = list(args)
        if w.key is not None and key is not None:
            pats.append(w.key)
            acts.append(key)
        order = sorted(range(len(pats)), key=lambda i: 0 if pats[i].op in ("bv",) else 1)
        for i in order:
            if not self._match(pats[i], acts[i], pv, sub_, conds):
                return None
        return self._finish_match(w, pv, sub_, conds)

    def _finish_match(self, w, pv, sub_, conds):
        # unbound binders
        shifted = False
        for q in w.binders:
            if q in sub_:
                if sub_[q] is not mk("bv", q):
                    shifted = True
                if w.prev == q:
                    d = sub(mk("bv", q), sub_[q])
                    if d is ZERO:
                        return None
                continue
            if q in self.stack and not shifted:
                if w.prev == q:
                    shifted = True
                    dm = self.doms[q]
                    if dm.op == "drange":
                        sub_[q] = sub(mk("bv", q), ONE)
                        conds.append(le(ONE, mk("bv", q)))
                    else:
                        sub_[q] = mk("prevkey", mk("bv", q), dm)
                        conds.append(le(ONE, mk("pos", mk("bv", q), dm)))
                else:
                    sub_[q] = mk("bv", q)
            else:
                dm = subst(self.doms[q], sub_)
                if dm.op == "drange":
                    sub_[q] = sub(dm.args[0], ONE)
                else:
                    sub_[q] = mk("lastkey", dm)
        gs = []
        for g, tag in w.guards[w.base:]:
            if tag == "raise":
                continue
            gs.append(subst(g, sub_))
        cond = self.decide(and_(*(conds + gs)))
        if cond is FALSE:
            return None
        return cond, sub_

    def ambiguous(self, w, sub_):
        """binders of a dict write that the key does not determine although the read picked one"""
        und = self.undetermined([(q, None) for q in w.binders], tuple_(w.key, *w.args))
        if not und:
            return []
        shifted = False
        out = []
        for q in w.binders:
            own = sub_.get(q) is mk("bv", q) and q in self.stack
            if q in und and not (own and not shifted) and sub_.get(q) is not None:
                if sub_[q].op != "lastkey" and not (q in self.doms and self.doms[q].op == "drange" and sub_[q] is sub(subst(self.doms[q].args[0], sub_), ONE)):
                    out.append(q)
            if not own:
                shifted = True
        return out

    def in_domain(self, q, x, sub_):
        """is value x certainly inside the domain of binder q?"""
        dom = subst(self.doms[q], {k: v for k, v in sub_.items() if k != q})
        if x.op == "bv":
            d2 = self.doms.get(x.args[0])
            if d2 is dom:
                return TRUE
        if x.op == "bv" and x.args[0] == q:
            return TRUE
        if dom.op == "drange":
            return self.decide(and_(le(ZERO, x), lt(x, dom.args[0])))
        if dom.op == "dkeys":
            return self.decide(mk("in", x, dom.args[0]))
        return mk("indom", x, dom)

    def read(self, ref, key, default=None, strict=False):
        """value of cell key of object ref (attribute, dict entry, list index, array cell)"""
        o = self.obj(ref)
        args = ref.args[1]
        self.reads.append((o.oid, args, key, self.seq))
        if "static" in o.meta:
            mode = o.meta.get("stale")
            if mode == "cache":
                return kept.kept(o.meta["static"], key)
            if mode == "extra" and default is None and o.kind == "dict":
                default = kept.kept(o.meta["static"], key)
            if o.kind == "dict" and not self.testing:
                v = self._read(ref, key, default, strict)
                if v is None or v.op == "ite":
                    o.meta["tested"] = True
                return v
        return self._read(ref, key, default, strict)

    def literal_write(self):
        n = self.node
        if isinstance(n, ast.Assign):
            return kept.literal(n.value) and all(kept.literal(t.slice) if isinstance(t, ast.Subscript) else True for t in n.targets)
        return False

    def _read(self, ref, key, default=None, strict=False):
        o = self.obj(ref)
        args = ref.args[1]
        out = []
        pending = []
        for w in reversed(o.writes):
            if w.op == "del":
                r = self.resolve_write(w, args, key)
                if r is not None and r[0] is TRUE:
                    break
                continue
            if w.op not in ("set",):
                continue
            r = self.resolve_write(w, args, key)
            if r is None:
                continue
            cond, sub_ = r
            v = subst(w.val, sub_)
            if o.kind == "dict" and w.key is not None and w.key.op != "const":
                amb = self.ambiguous(w, sub_)
                if amb:
                    cond = and_(cond, mk("lastwriter", subst(w.key, sub_), tuple(subst(mk("bv", q), sub_) for q in amb)))
            # order hazard: entry written by another iteration of a loop still running
            for q in w.binders:
                if q in self.stack and w.prev != q:
                    d = sub(mk("bv", q), sub_[q])
                    if d is ZERO:
                        continue
                    if is_num(d) and d.args[1] > 0:
                        continue
                    pending.append((q, sub_[q]))
            # membership in the domain of finished loops only matters if older entries exist
            dconds = []
            for q in w.binders:
                if q in self.stack and sub_[q] is mk("bv", q):
                    continue
                c = self.in_domain(q, sub_[q], sub_)
                if c is not TRUE:
                    dconds.append(c)
            out.append((cond, and_(*dconds) if dconds else TRUE, v))
            if cond is TRUE and not dconds:
                break
        if not out:
            return default
        # fold: last candidate is taken without its domain condition
        c, dc, v = out[-1]
        if strict or default is not None:
            c = and_(c, dc)
        if contains(c, lambda x: x.op == "eqpat"):
            res = mk("unk", self.fresh(), "ambiguous entry")
        elif c is TRUE:
            res = v
        else:
            res = ite(c, v, default if default is not None else UNDEF)
        for c, dc, v in reversed(out[:-1]):
            cc = and_(c, dc)
            if contains(cc, lambda x: x.op == "eqpat"):
                res = mk("unk", self.fresh(), "ambiguous entry")
            else:
                res = ite(cc, v, res)
        if pending and o.kind == "dict":
            self.effect("hazard", obj=ref, key=key, pending=tuple(pending))
        return self.under_path(res)

    def under_path(self, t):
        if t.op == "ite":
            c = self.decide(t.args[0])
            if c is TRUE:
                return self.under_path(t.args[1])
            if c is FALSE:
                return self.under_path(t.args[2])
            if c is not t.args[0]:
                return ite(c, self.under_path(t.args[1]), self.under_path(t.args[2]))
        return t

    def freshen(self, w, sub_):
        """fresh binders for the binders of w not bound by sub_; returns list[(q,dom)]"""
        bs = []
        for q in w.binders:
            if q in sub_:
                continue
            nq = self.fresh()
            dom = subst(self.doms[q], sub_)
            self.doms[nq] = dom
            if q in self.order:
                self.order[nq] = self.order[q]
            sub_[q] = mk("bv", nq)
            bs.append((nq, dom))
        return bs

    def _guards_of(self, w, sub_):
        gs = []
        for g, tag in w.guards:
            if tag == "raise":
                continue
            g = self.decide(subst(g, sub_))
            if g is not TRUE:
                gs.append(g)
        return gs

    def segments(self, ref):
        """content of a list object as iteration segments"""
        o = self.obj(ref)
        if "static" in o.meta:
            o.meta["tested" if self.testing else "whole"] = True
        if o.kind == "list":
            self.reads.append((o.oid, ref.args[1], WHOLE, self.seq))
            if o.oid in self.growing:
                return [Seg([], [], self.unk("list read while it grows"))]
        segs = []
        for w in o.writes:
            if w.op == "clear":
                r = self.resolve_write(w, ref.args[1], None)
                if r is not None:
                    segs = [] if r[0] is TRUE else [Seg([], [], self.unk("conditional clear"))]
                continue
            if w.op == "opaque":
                segs.append(Seg([], [], self.unk("list mutation")))
                continue
            if w.op not in ("append", "splice"):
                continue
            sub_, conds = {}, []
            ok = all(
                self._match(p, a, set(w.binders), sub_, conds) for p, a in zip(w.args, ref.args[1])
            )
            if not ok:
                continue
            bs = self.freshen(w, sub_)
            gs = self._guards_of(w, sub_) + [c for c in map(self.decide, conds) if c is not TRUE]
            if any(g is FALSE for g in gs):
                continue
            v = subst(w.val, sub_)
            if w.op == "append":
                segs.append(Seg(bs, gs, v))
            else:  # splice of another iterable
                for s in self.iterate(v):
                    segs.append(Seg(bs + s.binders, gs + s.guards, s.elem))
        # item assignments on lists
        sets = [w for w in o.writes if w.op == "set"]
        if sets:
            cnt = 0
            allc = all(not s.binders and not s.guards for s in segs)
            new = []
            for s in segs:
                idx = const(cnt) if allc else (
                    mk("bv", s.binders[0][0]) if len(segs) == 1 and len(s.binders) == 1 else None
                )
                if idx is None:
                    new.append(Seg(s.binders, s.guards, self.unk("list item assignment")))
                else:
                    v = self.read(ref, idx, default=s.elem)
                    new.append(Seg(s.binders, s.guards, v))
                cnt += 1
            segs = new
        return segs

    def new_list(self, elems=(), kind="list"):
        r = self.alloc(kind)
        for e in elems:
            self.write(r, None, e, "append")
        return r

    def entries(self, ref):
        """dict object content: list of Seg with elem = tuple(key, value)"""
        o = self.obj(ref)
        if "static" in o.meta:
            o.meta["tested" if self.testing else "whole"] = True
            if o.meta.get("stale") == "cache":
                q = self.fresh()
                self.doms[q] = dom = dkeys(kept.kept(o.meta["static"]))
                return [Seg([(q, dom)], [], tuple_(mk("bv", q), kept.kept(o.meta["static"], mk("bv", q))))]
        out = []
        seen = []
        for w in o.writes:
            if w.op == "splice":
                sub_, conds = {}, []
                if not all(self._match(p, a, set(w.binders), sub_, conds) for p, a in zip(w.args, ref.args[1])):
                    continue
                bs = self.freshen(w, sub_)
                gs = self._guards_of(w, sub_)
                for s in self.iterate(mk("items", subst(w.val, sub_))):
                    out.append(Seg(bs + s.binders, gs + s.guards, s.elem))
                continue
            if w.op in ("gappend", "gextend"):
                sub_, conds = {}, []
                if not all(self._match(p, a, set(w.binders), sub_, conds) for p, a in zip(w.args, ref.args[1])):
                    continue
                bs = self.freshen(w, sub_)
                gs = self._guards_of(w, sub_)
                v = subst(w.val, sub_)
                out.append(Seg(bs, gs, tuple_(subst(w.key, sub_), mk("grpval", v if w.op == "gextend" else tuple_(v)))))
                continue
            if w.op == "opaque":
                out.append(Seg([], [], mk("tuple", self.unk("dict mutation"), self.unk("dict mutation"))))
                continue
            if w.op != "set":
                continue
            sub_, conds = {}, []
            if not all(
                self._match(p, a, set(w.binders), sub_, conds) for p, a in zip(w.args, ref.args[1])
            ):
                continue
            for q in w.binders:  # every iteration of a running loop writes these keys: the present one did last
                if q in self.stack and q not in sub_ and q not in free_bvs(w.key) and not any(
                        q in free_bvs(self.doms[x]) for x in w.binders if x in self.doms) and not any(q in free_bvs(g) for g, _ in w.guards):
                    sub_[q] = mk("bv", q)
            bs = self.freshen(w, sub_)
            gs = self._guards_of(w, sub_) + [c for c in map(self.decide, conds) if c is not TRUE]
            if any(g is FALSE for g in gs):
                continue
            k = subst(w.key, sub_)
            sig = self._alpha_sig(bs, k)
            if sig in seen:
                continue
            seen.append(sig)
            free = self.undetermined(bs, k)
            if free:  # several iterations write the same key: only the last one survives
                gs = gs + [mk("lastwriter", k, tuple(mk("bv", q) for q in free))]
            # current value of that key
            saved = list(self.stack)
            self.stack.extend(q for q, _ in bs)
            mark = len(self.path)
            for g in gs:
                self.push(g, "if")
            v = self.read(ref, k)
            del self.path[mark:]
            self.stack[:] = saved
            if v is None:
                continue
            if v is UNDEF:
                v = subst(w.val, sub_)
            out.append(Seg(bs, gs, tuple_(k, v)))
        return out

    UNIQUE = {"name", "dest"}

    def undetermined(self, bs, k):
        """binders of bs whose value is not determined by the key term k"""
        known = set()
        todo = [k]
        pairs = {}
        ids = {q for q, _ in bs}
        while todo:
            t = todo.pop()
            if t.op == "strcat":
                # parts put next to each other cannot be told apart again
                glued = [bool(free_bvs(x) & ids) for x in t.args]
                if not any(a and b for a, b in zip(glued, glued[1:])):
                    todo.extend(t.args)
            elif t.op == "tuple":
                todo.extend(t.args)
            elif t.op == "bv":
                known.add(t.args[0])
            elif t.op == "join":
                if not (is_str(t.args[0]) and cval(t.args[0]) == ""):
                    todo.append(t.args[1])
            elif t.op == "poly":
                d = poly(t)
                if len([m for m in d if m]) == 1:
                    todo.extend(x for m in d for x in m)
            elif t.op == "item" and is_const(t.args[1]):
                pairs.setdefault(t.args[0], set()).add(t.args[1])
                ty = self.typeof(t.args[0])
                if isinstance(ty, tuple) and ty[0] == "tuple" and len(ty[1]) == len(pairs[t.args[0]]):
                    todo.append(t.args[0])
            elif t.op == "attr" and t.args[1] in self.UNIQUE:
                b = t.args[0]
                if b.op == "item" and b.args[1].op == "bv":
                    pairs.setdefault("attr", set()).add((b.args[1].args[0], frozenset(free_bvs(b.args[0]))))
            elif t.op in ("call", "cast") and len(t.args) > 1 and isinstance(t.args[-1], T):
                todo.append(t.args[-1])
        change = True
        while change:
            change = False
            for q, deps in pairs.get("attr", ()):
                if q not in known and not ((deps & ids) - known):
                    known.add(q)
                    change = True
        return [q for q, d in bs if q not in known]

    def _alpha_sig(self, bs, k):
        m = {}
        for i, (q, d) in enumerate(bs):
            m[q] = mk("bvsig", i, subst(d, m).key)
        return subst(k, m).key

    # ------------------------------------------------------------------ iteration
    def iterate(self, t):
        op = t.op
        if op == "call" and t.args[0] == "builtins.dict.fromkeys" and len(t.args[1]) == 1:
            return self.iterate(mk("call", t.args[0], (t.args[1][0], const("<once>")), ()))
        if op == "tuple":
            return [Seg([], [], x, const(i)) for i, x in enumerate(t.args)]
        if op == "const" and t.args[0] == "str":
            return [Seg([], [], const(c), const(i)) for i, c in enumerate(cval(t))]
        if op == "ite":
            c = self.decide(t.args[0])
            if c is TRUE:
                return self.iterate(t.args[1])
            if c is FALSE:
                return self.iterate(t.args[2])
            out = []
            for cc, x in ((c, t.args[1]), (not_(c), t.args[2])):
                for s in self.iterate(x):
                    out.append(Seg(s.binders, [cc] + s.guards, s.elem))
            return out
        if op == "range":
            lo, hi, st = t.args
            n = sub(hi, lo)
            if is_num(st) and st is not ONE:
                if all(is_num(x) for x in (lo, hi, st)):
                    return [Seg([], [], const(i), None) for i in range(cval(lo), cval(hi), cval(st))]
                n = mk("rangelen", lo, hi, st)
            elif st is not ONE:
                n = mk("rangelen", lo, hi, st)
            if is_num(n):
                k = cval(n)
                if k <= self.max_unroll:
                    return [Seg([], [], add(lo, const(i)), const(i)) for i in range(max(0, int(k)))]
            q = self.fresh()
            self.doms[q] = drange(n)
            b = mk("bv", q)
            return [Seg([(q, drange(n))], [], add(lo, mul(b, st)), b)]
        if op in ("items", "keys", "values"):
            d = t.args[0]
            return self.iter_dict(d, op)
        if op == "dictof":
            return self.iter_dict(t, "keys")
        if op == "enumerate" and t.args[0].op == "ite":
            x = t.args[0]
            return self.iterate(ite(x.args[0], mk("enumerate", x.args[1], *t.args[1:]), mk("enumerate", x.args[2], *t.args[1:])))
        if op == "enumerate":
            segs = self.iterate(t.args[0])
            off = t.args[1]
            out = []
            for s in segs:
                if s.guards or off is None or any(q in self.order for q, _ in s.binders):
                    if any(q in self.order for q, _ in s.binders) and not s.guards and off is not None:
                        out.append(Seg(s.binders, s.guards, tuple_(self.unk("rank in a sorted collection"), s.elem)))
                        off = None
                        continue
                    if s.guards:
                        off2 = None
                        pos = self.unk("position in a filtered collection")
                    else:
                        pos = self.unk("position")
                    out.append(Seg(s.binders, s.guards, tuple_(pos, s.elem)))
                    off = None if s.guards else off
                    continue
                pos = off
                cnt = ONE
                for i, (q, d) in enumerate(s.binders):
                    # lexicographic rank
                    inner = ONE
                    for q2, d2 in reversed(s.binders[i + 1:]):
                        inner = sum_over(q2, d2, inner)
                    pos = add(pos, psum_before(q, d, inner))
                for q2, d2 in reversed(s.binders):
                    cnt = sum_over(q2, d2, cnt)
                out.append(Seg(s.binders, s.guards, tuple_(pos, s.elem), pos))
                off = add(off, cnt)
            return out
        if op == "zip":
            return self.iter_zip(t.args)
        if op == "grpval":
            return self.iterate(t.args[0])
        if op == "grp":
            out = []
            ref = t.args[0]
            for w in self.obj(ref).writes:
                if w.op not in ("gappend", "gextend"):
                    continue
                sub_, conds = {}, []
                if not all(self._match(p, a, set(w.binders), sub_, conds) for p, a in zip(w.args, ref.args[1])):
                    continue
                conds = []
                det = {}
                if not self._match(w.key, t.args[1], set(w.binders), sub_, conds):
                    continue
                und = self.undetermined([(q, None) for q in w.binders], tuple_(w.key, *w.args))
                for q in und:
                    if q in sub_:
                        del sub_[q]
                bs = self.freshen(w, sub_)
                gs = self._guards_of(w, sub_) + [c for c in [self.decide(eq(subst(w.key, sub_), t.args[1]))] if c is not TRUE]
                if FALSE in gs:
                    continue
                for s in self.iterate(subst(w.val, sub_)) if w.op == "gextend" else [Seg([], [], subst(w.val, sub_))]:
                    out.append(Seg(bs + s.binders, gs + s.guards, s.elem))
            return out
        if op in ("listof", "tupleof", "sorted", "setof", "copy", "iterof"):
            inner = t.args[0]
            ty = self.typeof(inner)
            if op == "copy" and not (inner.op == "ref"):
                if isinstance(ty, tuple) and ty[0] == "dict":
                    return self.iter_dict(t, "keys")
                q = self.fresh()
                dom = drange(len_(inner))
                self.doms[q] = dom
                return [Seg([(q, dom)], [], self.getitem(t, mk("bv", q)), mk("bv", q))]
            if op == "setof" and inner.op in ("call", "mcall", "xattr", "item", "listof", "tolist"):
                core = inner
                while core.op in ("listof", "tolist"):
                    core = core.args[0]
                if core.op in ("call", "mcall", "xattr", "item") and self.typeof(core) in (None, "arr", "val"):
                    q = self.fresh()
                    self.doms[q] = dom = drange(len_(t))
                    return [Seg([(q, dom)], [], item(t, mk("bv", q)), mk("bv", q))]
            segs = self.iterate(inner)
            if op == "setof" and len(segs) > 1 and all(not s.binders and not s.guards for s in segs):
                seen = []
                for s in segs:
                    if not any(x.elem is s.elem for x in seen):
                        seen.append(s)
                # the order of a set is arbitrary: take another one than the order of insertion
                segs = seen if all(is_const(s.elem) and not is_str(s.elem) for s in seen) else seen[::-1]
            if op == "sorted" and inner.op != "range":
                if len(segs) > 1 and all(not s.binders and not s.guards for s in segs):
                    return self.sort_segs(t, segs)
                for s in segs:
                    for q, _ in s.binders:
                        if q in self.order and self.order[q].op == "unordered":
                            s.elem = self.unk("results of a pool put in order")
                        self.order[q] = t
            return segs
        if op == "reversed":
            segs = self.iterate(t.args[0])
            out = []
            for s in reversed(segs):
                if len(s.binders) == 1 and s.binders[0][1].op == "drange":
                    q, d = s.binders[0]
                    m = {q: sub(sub(d.args[0], ONE), mk("bv", q))}
                    out.append(Seg(s.binders, [subst(g, m) for g in s.guards], subst(s.elem, m)))
                else:
                    for q, _ in s.binders:
                        self.order[q] = t
                    out.append(Seg(s.binders, s.guards, s.elem))
            return out
        if op == "chain":
            out = []
            for x in t.args:
                out += self.iterate(x)
            return out
        if op == "product":
            acc = [Seg([], [], tuple_())]
            for x in t.args:
                new = []
                for a in acc:
                    for s in self.iterate(x):
                        new.append(Seg(a.binders + s.binders, a.guards + s.guards, tuple_(*(a.elem.args + (s.elem,)))))
                acc = new
            return acc
        if op == "ref":
            o = self.obj(t)
            if o.kind == "list":
                segs = self.segments(t)
                if all(not s.binders and not s.guards for s in segs):
                    for i, s in enumerate(segs):
                        s.pos = const(i)
                return segs
            if o.kind == "dict":
                return self.iter_dict(t, "keys")
            if o.kind == "inst":
                m = self.find_method(o.cls, "__iter__")
                if m:
                    return self.iterate(self.call_method(t, "__iter__", [], {}))
        if op == "unk":
            q = self.fresh()
            dom = mk("dset", t)
            self.doms[q] = dom
            return [Seg([(q, dom)], [], self.unk("element of unknown collection"))]
        ty = self.typeof(t)
        if isinstance(ty, tuple) and ty[0] == "dict":
            return self.iter_dict(t, "keys")
        if isinstance(ty, tuple) and ty[0] == "tuple":
            return [Seg([], [], item(t, const(i)), const(i)) for i in range(len(ty[1]))]
        if id(t) in self.overlay:
            ov = self.overlay[id(t)]
            if any(w.op in ("append", "splice", "opaque", "clear") for w in ov[0].writes):
                q = self.fresh()
                dom = drange(len_(t))
                self.doms[q] = dom
                segs = [Seg([(q, dom)], [], self.getitem(t, mk("bv", q)), mk("bv", q))]
                return segs + self.segments(mk("ref", ov[0].oid, ()))
        q = self.fresh()
        dom = drange(len_(t))
        self.doms[q] = dom
        return [Seg([(q, dom)], [], self.getitem(t, mk("bv", q)), mk("bv", q))]

    def sort_segs(self, t, segs):
        """elements of sorted(x, key, reverse) where x has known elements: in order when the
        keys are known, otherwise as positions of the sorted list"""
        key = t.args[1] if len(t.args) > 1 else NONE
        rev = t.args[2] if len(t.args) > 2 else FALSE
        if rev.op == "const":
            ks = []
            for s in segs:
                k = s.elem if key is NONE else self.call(key, [s.elem], {})
                v = self.known(k)
                if v is None:
                    ks = None
                    break
                ks.append(v)
            if ks is None:
                ks = self.leading([s.elem if key is NONE else self.call(key, [s.elem], {}) for s in segs])
            if ks is not None:
                try:
                    o = sorted(range(len(segs)), key=lambda i: ks[i][0], reverse=bool(cval(rev)))
                    return [Seg([], [], segs[i].elem, const(j)) for j, i in enumerate(o)]
                except TypeError:
                    pass
        if any(s.elem.op not in ("sym", "const", "tuple", "attr", "item", "bv", "strcat") for s in segs):
            return segs
        x = tuple_(*[s.elem for s in segs])
        full = mk("sorted", x) if len(t.args) == 1 else mk("sorted", x, *t.args[1:])
        return [Seg([], [], item(full, const(i)), const(i)) for i in range(len(segs))]

    def leading(self, ks):
        """known leading components of tuples that already tell them apart"""
        if any(k.op != "tuple" for k in ks):
            return None
        for n in range(1, min(len(k.args) for k in ks)):
            vs = [self.known(tuple_(*k.args[:n])) for k in ks]
            if any(v is None for v in vs):
                return None
            if len(set(map(repr, vs))) == len(vs):
                return vs
        return None

    def known(self, k):
        """(value,) of a constant or tuple of constants"""
        k = self.decide(k) if k.op in ("isinst", "not", "and", "or", "eq", "lt", "le", "in") else k
        if k is TRUE or k is FALSE:
            return (k is TRUE,)
        if is_const(k):
            return (cval(k),)
        if k.op == "tuple":
            xs = [self.known(a) for a in k.args]
            return None if any(x is None for x in xs) else (tuple(x[0] for x in xs),)
        return None

    def iter_dict(self, d, what):
        if d.op == "ite":
            c = self.decide(d.args[0])
            if c is TRUE:
                return self.iter_dict(d.args[1], what)
            if c is FALSE:
                return self.iter_dict(d.args[2], what)
            out = []
            for cc, x in ((c, d.args[1]), (not_(c), d.args[2])):
                for s in self.iter_dict(x, what):
                    out.append(Seg(s.binders, [cc] + s.guards, s.elem))
            return out
        if d.op == "ref" and self.obj(d).kind == "dict":
            segs = self.entries(d)
        elif d.op == "dictof":
            segs = self.dictof_entries(d.args[0])
        elif d.op == "unk":
            q = self.fresh()
            dom = mk("dset", d)
            self.doms[q] = dom
            segs = [Seg([(q, dom)], [], tuple_(self.unk("key"), self.unk("value")))]
        else:
            ov = self.overlay.get(id(d))
            q = self.fresh()
            dom = dkeys(d)
            self.doms[q] = dom
            b = mk("bv", q)
            segs = [Seg([(q, dom)], [], tuple_(b, self.getitem(d, b)), None)]
            if ov is not None:
                prev = []
                for s in self.overlay_entries(d):
                    k = s.elem.args[0]
                    new = [not_(self.decide(mk("in", k, d)))]
                    if not s.binders:
                        if k in prev:
                            continue
                        new += [not_(eq(k, p)) for p in prev]
                        prev.append(k)
                    new = [g for g in new if g is not TRUE]
                    segs.append(Seg(s.binders, list(s.guards) + new, s.elem))
        if what == "items":
            return segs
        i = 0 if what == "keys" else 1
        return [Seg(s.binders, s.guards, s.elem.args[i], s.pos) for s in segs]

    def dictof_entries(self, o):
        if o.op == "ref":
            ob = self.obj(o)
            seen, out = set(), []
            for w in ob.writes:
                if w.op == "set" and w.key is not None and w.key not in seen:
                    v = self.read(o, w.key)
                    if v is None:
                        continue
                    seen.add(w.key)
                    out.append(Seg([], [], tuple_(w.key, v)))
            return out
        ty = self.typeof(o)
        if isinstance(ty, tuple) and ty[0] == "inst":
            fields = self.fields_of(ty[1])
            return [Seg([], [], tuple_(const(f), self.getattr(o, f))) for f in fields]
        return [Seg([], [], tuple_(self.unk("__dict__ key"), self.unk("__dict__ value")))]

    def fields_of(self, cname):
        c = self.cls_by_name(cname)
        out = []
        for x in reversed(self.p.mro(c) if c else []):
            for f in self.schema.get(x.name, {}):
                if f not in out and not f.startswith("@"):
                    out.append(f)
        return out

    def iter_zip(self, args):
        segss = [self.iterate(a) for a in args]
        n = min(len(s) for s in segss) if segss else 0
        # all concrete
        if all(all(not s.binders and not s.guards for s in ss) for ss in segss):
            return [
                Seg([], [], tuple_(*[ss[i].elem for ss in segss]), const(i)) for i in range(n)
            ]
        if all(len(ss) == len(segss[0]) for ss in segss):
            out = []
            for group in zip(*segss):
                base = group[0]
                ok = True
                elems = [base.elem]
                for s in group[1:]:
                    if len(s.binders) != len(base.binders):
                        ok = False
                        break
                    m = {}
                    o1 = [q for q, _ in base.binders if q in self.order]
                    o2 = [q for q, _ in s.binders if q in self.order]
                    if o1 and not o2:
                        ok = False
                        break
                    for (q1, d1), (q2, d2) in zip(base.binders, s.binders):
                        dd = subst(d2, m)
                        if dd is not d1 and not self.same_extent(dd, d1):
                            ok = False
                            break
                        m[q2] = self.ranked(q2, mk("bv", q1)) if o2 and not o1 else mk("bv", q1)
                    if not ok:
                        break
                    if [subst(g, m) for g in s.guards] != base.guards:
                        ok = False
                        break
                    elems.append(subst(s.elem, m))
                if not ok:
                    break
                out.append(Seg(base.binders, base.guards, tuple_(*elems), base.pos))
            else:
                return out
        # one position binder, indexing each sequence
        q = self.fresh()
        dom = None
        for ss in segss:
            if len(ss) == 1 and len(ss[0].binders) == 1 and not ss[0].guards and ss[0].binders[0][1].op == "drange":
                dom = ss[0].binders[0][1]
                break
        if dom is None:
            dom = drange(len_(args[0]))
        self.doms[q] = dom
        b = mk("bv", q)
        elems = []
        for a, ss in zip(args, segss):
            if len(ss) == 1 and len(ss[0].binders) == 1 and not ss[0].guards and ss[0].binders[0][1].op == "drange":
                elems.append(subst(ss[0].elem, {ss[0].binders[0][0]: self.ranked(ss[0].binders[0][0], b)}))
            elif len(ss) == 1 and len(ss[0].binders) == 1 and not ss[0].guards and ss[0].binders[0][0] in self.order:
                elems.append(subst(ss[0].elem, {ss[0].binders[0][0]: mk("keyat", mk("perm", self.order[ss[0].binders[0][0]], ss[0].binders[0][1]), b)}))
            else:
                elems.append(self.getitem(a, b))
        return [Seg([(q, dom)], [], tuple_(*elems), b)]

    def ranked(self, q, idx):
        """element number idx of an iteration: itself unless the iteration was sorted"""
        return mk("perm", self.order[q], idx) if q in self.order else idx

    def same_extent(self, a, b):
        if a is b:
            return True
        return a.op == "drange" and b.op == "drange"

    # ------------------------------------------------------------------ attribute / item access
    def find_method(self, cls, name):
        for c in self.p.mro(cls):
            if name in c.methods:
                return c, c.methods[name]
        return None

    def decorators(self, fn):
        out = set()
        for d in fn.decorator_list:
            if isinstance(d, ast.Name):
                out.add(d.id)
            elif isinstance(d, ast.Attribute):
                out.add(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                out.add(f.id if isinstance(f, ast.Name) else getattr(f, "attr", "?"))
        return out

    def func_term(self, module, node, cls=None, env=None, frame=None):
        k = ("f", id(node), id(env) if env is not None else None)
        fid = self.alias.get(k)
        if fid is None:
            fid = self.fresh()
            self.closures[fid] = (module, node, cls, env)
            self.alias[k] = fid
            self.alias[("keep", fid)] = env
        return mk("func", fid)

    def class_attr(self, cls, name, selfv=None):
        for c in self.p.mro(cls):
            if name in c.methods:
                fn = c.methods[name]
                decs = self.decorators(fn)
                ft = self.func_term(c.module, fn, c)
                if "staticmethod" in decs:
                    return ft
                if "classmethod" in decs:
                    return mk("bmeth", ft, mk("class", cls.qual))
                if "property" in decs or "cached_property" in decs:
                    if selfv is not None:
                        return self.call(ft, [selfv], {})
                    return ft
                if selfv is not None:
                    return mk("bmeth", ft, selfv)
                return ft
            if name in c.assigns or (c.qual, name) in self.class_vals:
                k = (c.qual, name)
                if k not in self.class_vals:
                    fr = Frame(c.module, {}, c, "<class>")
                    self.frames.append(fr)
                    saved, self.stack = self.stack, []
                    sp, self.path = self.path, []
                    self.class_vals[k] = kept.static(self, self.eval(c.assigns[name]), k)
                    if STALE.get(k) == "var":
                        self.class_vals[k] = kept.kept(k)
                    self.stack, self.path = saved, sp
                    self.frames.pop()
                v = self.class_vals[k]
                kept.READ.add(k)
                if v.op == "func" and selfv is not None:
                    return mk("bmeth", v, selfv)
                return v
        return None

    def getattr(self, t, name):
        op = t.op
        if op == "ite":
            c = self.decide(t.args[0])
            if c is TRUE:
                return self.getattr(t.args[1], name)
            if c is FALSE:
                return self.getattr(t.args[2], name)
            if t.args[1] is UNDEF:
                return self.getattr(t.args[2], name)
            if t.args[2] is UNDEF:
                return self.getattr(t.args[1], name)
            a, b = self.getattr(t.args[1], name), self.getattr(t.args[2], name)
            if a.op in ("xmeth", "bmeth") or b.op in ("xmeth", "bmeth"):
                return mk("itemeth", c, a, b)
            return ite(c, a, b)
        if op == "mod":
            r = self.p.resolve(t.args[0], name)
            return self.global_value(r, t.args[0], name)
        if op == "ext":
            h = self.ext_attr(t.args[0] + "." + name)
            return h
        if op == "class":
            cls = self.p.classes[t.args[0]]
            if name == "__name__":
                return const(cls.name)
            v = self.class_attr(cls, name)
            if v is not None:
                return v
            return self.unk("class attribute %s.%s" % (cls.name, name))
        if name == "__class__":
            return self.type_of(t)
        if op == "slice" and name in ("start", "stop", "step"):
            return t.args[("start", "stop", "step").index(name)]
        if op == "super":
            cls, selfv = self.p.classes[t.args[0]], t.args[1]
            for c in self.p.mro(cls)[1:]:
                if name in c.methods:
                    fn = c.methods[name]
                    ft = self.func_term(c.module, fn, c)
                    if "staticmethod" in self.decorators(fn):
                        return ft
                    return mk("bmeth", ft, selfv)
            if name == "__init__" and selfv.op == "ref" and any(b.endswith(("Exception", "Error")) for c in self.p.mro(cls) for b in c.ext_bases):
                return mk("excinit", selfv)
            return mk("xmeth", mk("ext", "object"), name)
        if op == "ref":
            o = self.obj(t)
            if o.kind == "inst":
                if name == "__dict__":
                    return mk("dictof", t)
                v = self.read(t, const(name))
                if v is not None:
                    return v
                v = self.class_attr(o.cls, name, t)
                if v is not None:
                    return v
                if o.meta.get("opaque_init"):
                    return mk("attr", t, name)
                return self.unk("attribute %s of %s" % (name, o.cls.name))
            if o.kind in ("list", "dict", "set"):
                return mk("xmeth", t, name)
            # external objects: explicitly written attributes first
            v = self.read(t, const(name))
            if v is not None:
                return v
            if o.kind == "frame" and o.meta.get("value") is not None and name in ("index", "values", "columns", "shape", "size", "empty", "T", "ndim"):
                from . import externals
                if name == "index" and not any(x[0] in ("=", ".index") for r, ms in self.muts.values() if r.op == "ref" and r.args[0] == t.args[0] for x in ms):
                    return mk("xattr", self.inst_meta(t, o.meta["value"]), name)
                return mk("xattr", externals.freeze(self, t), name)
            return mk("xattr", t, name)
        # symbolic
        if t.op == "resp" and self.server is not None:
            return self.server.attribute(self, t, name)
        if name == "__dict__":
            return mk("dictof", t)
        ty = self.typeof(t)
        if isinstance(ty, tuple) and ty[0] == "inst":
            ft = self.field_type(ty[1], name)
            base = self.sym_read(t, "attr", const(name))
            if base is not None:
                return base
            if ft is not None:
                if t.op == "copy":
                    return self.mkcopy(mk("attr", t.args[0], name), t.args[1])
                r = mk("attr", t, name)
                if ft == "int":
                    INT_ATOMS.add(r)
                return r
            cls = self.cls_by_name(ty[1])
            if cls is not None:
                v = self.class_attr(cls, name, t)
                if v is not None:
                    return v
                v = self.own_container(cls, t, name)
                if v is not None:
                    return v
        elif isinstance(ty, tuple) and ty[0] in ("list", "dict", "tuple"):
            return mk("xmeth", t, name)
        base = self.sym_read(t, "attr", const(name))
        if base is not None:
            return base
        return mk("xattr", self.now(t) if name not in ("loc", "iloc", "at", "iat") else t, name)

    def own_container(self, cls, t, name):
        """a container the object keeps for itself, empty when the object is made"""
        if free_bvs(t):
            return None
        k = (t, name)
        if k not in self.selfkept:
            v = None
            m = self.find_method(cls, "__init__")
            if m is not None:
                me = m[1].args.args[0].arg if m[1].args.args else None
                sets = [(x, n.value) for n in ast.walk(m[1]) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                        for x in (n.targets if isinstance(n, ast.Assign) else [n.target])
                        if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == me]
                if len(sets) == 1:
                    x = sets[0][1]
                    empty = isinstance(x, ast.Dict) and not x.keys or isinstance(x, ast.List) and not x.elts or (
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("dict", "list") and not x.args and not x.keywords)
                    used = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) for n in ast.walk(m[1]))
                    if empty and not used:
                        saved, self.stack = self.stack, []
                        sp, self.path = self.path, []
                        v = self.eval(x)
                        self.stack, self.path = saved, sp
                        kept.static(self, v, (cls.qual, "self", name), owner=t)
            self.selfkept[k] = v
        return self.selfkept[k]

    def mkcopy(self, t, uid):
        """content copy of an immutable value is the value itself"""
        ty = self.typeof(t)
        if ty in ("str", "num", "int", "bool", "none"):
            return t
        if is_const(t):
            return t
        return mk("copy", t, uid)

    # writes on symbolic containers are kept in an overlay object and logged as mutations
    def sym_overlay(self, t):
        k = id(t)
        if k not in self.overlay:
            oid = self.fresh()
            o = Obj(oid, "overlay", None, (), self.site(), self.tick(), ())
            self.objs[oid] = o
            self.overlay[k] = (o, t)
        return self.overlay[k][0]

    def overlay_for(self, t):
        """overlays whose container term may be t: list of (obj, sub)"""
        out = []
        o = self.overlay.get(id(t))
        if o is not None:
            out.append(o)
        return out

    def may_alias(self, a, b):
        """containers of different declared types are different objects"""
        x, y = self.typeof(a), self.typeof(b)
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return True
        if x[0] == "opt" or y[0] == "opt" or x == y:
            return True
        if x[0] != y[0]:
            return False
        if x[0] == "inst":
            cx, cy = self.cls_by_name(x[1]), self.cls_by_name(y[1])
            if cx is None or cy is None:
                return True
            return self.p.is_sub(cx, cy) or self.p.is_sub(cy, cx)
        return False

    def sym_read(self, t, kind, key):
        if not self.overlay:
            return None
        cands = []
        for o, base in self.overlay.values():
            if base is not t and (base.op == "copy" or t.op == "copy") and (base.op != t.op or base.args[-1] is not t.args[-1]):
                continue  # a fresh copy is no other value
            if base is not t and not self.may_alias(base, t):
                continue
            for w in o.writes:
                if w.op == "set" and w.args and w.args[0] is not None:
                    cands.append((o, w))
        if not cands:
            return None
        cands.sort(key=lambda x: -x[1].seq)
        res = []
        for o, w in cands:
            k = tuple_(const(kind), key)
            r = self.resolve_write(w, (t,), k)
            if r is None:
                continue
            cond, sub_ = r
            if contains(cond, lambda x: x.op == "eqpat"):
                continue
            v = subst(w.val, sub_)
            res.append((cond, v))
            if cond is TRUE:
                break
        if not res:
            return None
        default = mk("attr", t, cval(key)) if kind == "attr" else mk("item", t, key)
        if res[-1][0] is TRUE:
            acc = res[-1][1]
            rest = res[:-1]
        else:
            acc = default
            rest = res
        for c, v in reversed(rest):
            acc = ite(c, v, acc)
        return acc

    def sym_write(self, t, kind, key, val):
        o = self.sym_overlay(t)
        w = Write((t,), tuple_(const(kind), key), val, tuple(self.stack), tuple(self.path), self.tick(), self.site())
        o.writes.append(w)

    def getitem(self, t, idx):
        op = t.op
        if op == "ite":
            c = self.decide(t.args[0])
            if c is TRUE:
                return self.getitem(t.args[1], idx)
            if c is FALSE:
                return self.getitem(t.args[2], idx)
            if t.args[1] is UNDEF:
                return self.getitem(t.args[2], idx)
            if t.args[2] is UNDEF:
                v = self.getitem(t.args[1], idx)
                return ite(c, v, UNDEF) if contains(c, lambda x: x.op == "lastwriter") else v
            return self._branch(c, lambda: self.getitem(t.args[1], idx), lambda: self.getitem(t.args[2], idx))
        if op == "tuple":
            return item(t, idx)
        if idx.op == "ite":
            c = self.decide(idx.args[0])
            return ite(c, self.getitem(t, idx.args[1]), self.getitem(t, idx.args[2]))
        if op == "range":
            lo, hi, st = t.args
            return add(lo, mul(idx, st))
        if op == "dictof":
            if is_str(idx):
                return self.getattr(t.args[0], cval(idx))
            return self.unk("__dict__ item")
        if op == "ref":
            o = self.obj(t)
            if o.kind == "dict":
                if any(w.op in ("gappend", "gextend") for w in o.writes):
                    return mk("grp", t, idx)
                if o.meta.get("default") == "list" and self.stack_extra(t) and not o.writes:
                    return mk("grp", t, idx)
                v = self.read(t, idx)
                if o.meta.get("default") is not None:
                    from . import externals

                    return externals.default_item(self, t, idx)
                if v is not None:
                    return v
                # entries spliced from another mapping
                for w in reversed(o.writes):
                    if w.op == "splice":
                        sub_, conds = {}, []
                        if all(self._match(p, a, set(w.binders), sub_, conds) for p, a in zip(w.args, t.args[1])):
                            return self.getitem(subst(w.val, sub_), idx)
                if any(w.op == "opaque" for w in o.writes):
                    return self.unk("dict content")
                self.effect("missing", obj=t, key=idx)
                return mk("missing", t, idx)
            if o.kind == "list":
                return self.list_item(t, idx)
            if o.kind == "inst":
                m = self.find_method(o.cls, "__getitem__")
                if m:
                    return self.call_method(t, "__getitem__", [idx], {})
            if o.kind in ("arr",):
                return self.arr_item(t, idx)
            if o.kind == "frame":
                from . import externals
                known = o.meta.get("value") is not None
                if known and any(r.op == "ref" and r.args[0] == t.args[0] and any(x[0] != "[...]=" for x in ms) for r, ms in self.muts.values()):
                    return mk("item", externals.freeze(self, t), externals.freeze(self, idx))
                v = self.read(t, tuple_(const("col"), idx))
                if v is not None:
                    return v
                return mk("item", externals.freeze(self, t), externals.freeze(self, idx)) if known else mk("item", t, idx)
            return mk("item", t, idx)
        if op == "xattr" and t.args[1] in ("loc", "iloc", "at", "iat"):
            from . import externals
            return mk("item", mk("xattr", externals.freeze(self, t.args[0]), t.args[1]), externals.freeze(self, idx))
        if op == "copy":
            inner = t.args[0]
            if idx.op in MASKS and id(t) in self.muts:
                return mk("item", self.now(t), idx)
            v = self.sym_read(t, "item", idx)
            if v is not None:
                return v
            if id(t) in self.muts:
                return mk("item", self.now(t), idx)
            return self.mkcopy(self.getitem(inner, idx), t.args[1])
        if op in ("listof", "tupleof"):
            segs = self.iterate(t)
            return self._seg_item(segs, t, idx)
        if op == "values" or op == "keys" or op == "items":
            segs = self.iterate(t)
            return self._seg_item(segs, t, idx)
        ty = self.typeof(t)
        if self.log_reads and isinstance(ty, tuple) and ty[0] == "dict":
            self.effect("keyread", target=t, key=idx)
        if idx.op in MASKS and id(t) in self.muts:
            return mk("item", self.now(t), idx)
        v = self.sym_read(t, "item", idx)
        if v is not None:
            return v
        if isinstance(ty, tuple) and ty[0] == "inst" and ty[1] != "NumericalValue":
            cls = self.cls_by_name(ty[1])
            if cls is not None and self.find_method(cls, "__getitem__"):
                return self.call_method(t, "__getitem__", [idx], {})
        if not isinstance(ty, tuple):
            from . import externals
            return item(self.now(t), externals.freeze(self, idx))
        return item(t, idx)

    def _seg_item(self, segs, t, idx):
        if all(not s.binders and not s.guards for s in segs):
            if is_num(idx):
                i = cval(idx)
                if -len(segs) <= i < len(segs):
                    return segs[i].elem
                self.effect("missing", obj=t, key=idx)
                return mk("missing", t, idx)
            if idx.op == "slice" and all(a is NONE or is_num(a) for a in idx.args):
                s = slice(*[None if a is NONE else cval(a) for a in idx.args])
                return self.new_list([x.elem for x in segs][s])
            res = self.unk("symbolic index in a concrete list")
            return res
        if len(segs) == 1 and len(segs[0].binders) == 1 and not segs[0].guards:
            q, d = segs[0].binders[0]
            if idx.op == "slice":
                if all(a is NONE for a in idx.args):
                    return t
                return mk("item", t, idx)
            if d.op == "drange":
                if is_num(idx) and idx.args[1] < 0:
                    idx = add(d.args[0], idx)
                return subst(segs[0].elem, {q: self.ranked(q, idx)})
            if q in self.order:
                return subst(segs[0].elem, {q: mk("keyat", mk("perm", self.order[q], d), idx)})
            # element of a comprehension over a mapping, by position
            if idx.op in ("pos",) and idx.args[1] is d:
                return subst(segs[0].elem, {q: idx.args[0]})
            return subst(segs[0].elem, {q: mk("keyat", d, idx)})
        # filtered list indexed by constant: first matching element
        if len(segs) == 1 and len(segs[0].binders) == 1 and idx is ZERO:
            q, d = segs[0].binders[0]
            lv, b = bind(tuple_(and_(*segs[0].guards), segs[0].elem), q)
            return mk("firstof", d, lv, b.args[0], b.args[1])
        if idx.op == "slice":
            from .externals import freeze
            v = freeze(self, t)
            if not contains(v, lambda x: x.op in ("ref", "unk")):
                return mk("item", v, idx)
            lo, hi, st = idx.args
            if lo in (NONE, ZERO) and st is NONE and is_num(hi) and cval(hi) > 0 and not self.p.resumed(cval(hi), self.frames[-1].module if self.frames else None):
                # the first elements of a collection of any size: the others are left out
                r = self.alloc("list")
                for s in segs:
                    m = len(self.path)
                    self.stack.extend(q for q, _ in s.binders)
                    for g in s.guards:
                        self.push(g)
                    if s.binders:
                        self.push(truthy(mk("call", self.sym("@among the first %s" % cval(hi), "any"), tuple(mk("bv", q) for q, _ in s.binders), ())))
                    self.write(r, None, s.elem, "append")
                    del self.path[m:]
                    for _ in s.binders:
                        self.stack.pop()
                return r
        return self.unk("item of a composite list")

    def list_item(self, t, idx):
        o = self.obj(t)
        if idx.op != "slice" and any(w.op == "set" for w in o.writes):
            v = self.read(t, idx)
            if v is not None and not contains(v, lambda x: x is UNDEF):
                return v
        if is_num(idx) and cval(idx) == -1:
            nr = len(self.reads)
            if o.oid in self.lastcar:
                v, n0 = self.lastcar[o.oid]
                return v if len(o.writes) == n0 else o.writes[-1].val
            v = self._seg_item(self.segments(t), t, idx)
            del self.reads[nr:]
            self.reads.append((o.oid, t.args[1], LAST, self.seq))
            return v
        segs = self.segments(t)
        return self._seg_item(segs, t, idx)

    def arr_item(self, t, idx):
        """cell of an array object"""
        o = self.obj(t)
        v = self.read(t, idx, strict=True)
        if v is not None and not contains(v, lambda x: x is UNDEF):
            return v
        init = o.meta.get("init")
        if any(w.op == "set" for w in o.writes):
            if v is not None:
                base = mk("cell", self.arr_init_cell(t, idx), idx)
                return replace_top(v, lambda x: base if x is UNDEF else None)
            return mk("cell", self.arr_init_cell(t, idx), idx)
        if init is not None:
            i2 = self.inst_meta(t, init)
            return self.getitem(i2, idx) if i2.op in ("ref", "tuple") else mk("item", i2, idx)
        return mk("item", t, idx)

    def arr_init_cell(self, t, idx):
        init = self.obj(t).meta.get("init")
        return self.inst_meta(t, init) if init is not None else t

    def inst_meta(self, ref, term):
        o = self.obj(ref)
        return subst(term, dict(zip(o.formals, ref.args[1])))

    def setitem(self, t, idx, val):
        op = t.op
        if op == "ite":
            c = self.decide(t.args[0])
            if c is TRUE:
                return self.setitem(t.args[1], idx, val)
            if c is FALSE:
                return self.setitem(t.args[2], idx, val)
            self.push(c)
            self.setitem(t.args[1], idx, val)
            self.path.pop()
            self.push(not_(c))
            self.setitem(t.args[2], idx, val)
            self.path.pop()
            return
        if op == "ref":
            o = self.obj(t)
            if o.kind == "inst":
                if self.find_method(o.cls, "__setitem__"):
                    self.call_method(t, "__setitem__", [idx, val], {})
                    return
            if o.kind == "frame":
                self.write(t, tuple_(const("col"), idx), val)
                self.effect("framestore", frame=t, rows=NONE, col=idx, val=val, how="col")
                return
            if o.kind == "list" and is_num(idx) and idx.args[1] < 0:
                idx = add(self.length(t), idx)
            self.write(t, idx, val)
            if o.kind == "arr":
                self.effect("store", target=t, idx=idx, val=val)
            return
        if op == "dictof":
            if is_str(idx):
                self.setattr(t.args[0], cval(idx), val)
            else:
                self.effect("mutate", target=t, how="__dict__")
            return
        if op == "xattr" and t.args[1] in ("loc", "iloc", "at", "iat"):
            base = t.args[0]
            rows, col = (idx.args if idx.op == "tuple" and len(idx.args) == 2 else (idx, NONE))
            self.effect("framestore", frame=base, rows=rows, col=col, val=val, how=t.args[1])
            if base.op != "ref":
                self.effect("mutate", target=base, how="[...]= via %s" % t.args[1], key=idx, val=val)
            return
        self.effect("mutate", target=t, how="[...]=", key=idx, val=val)
        self.sym_write(t, "item", idx, val)

    def setattr(self, t, name, val):
        if t.op == "ite":
            c = self.decide(t.args[0])
            if c is TRUE:
                return self.setattr(t.args[1], name, val)
            if c is FALSE:
                return self.setattr(t.args[2], name, val)
            for cc, x in ((c, t.args[1]), (not_(c), t.args[2])):
                self.push(cc)
                self.setattr(x, name, val)
                self.path.pop()
            return
        if t.op == "ref":
            o = self.obj(t)
            if o.kind == "inst":
                for c in self.p.mro(o.cls):
                    fn = c.methods.get(name)
                    if fn is not None and "setter" in self.decorators(fn):
                        self.call(self.func_term(c.module, fn, c), [t, val], {})
                        return
            self.write(t, const(name), val)
            self.effect("attrstore", target=t, attr=name, val=val)
            return
        self.effect("mutate", target=t, how="." + name, key=const(name), val=val)
        if t.op == "class":
            cls = self.p.classes[t.args[0]]
            old = self.class_attr(cls, name)
            own = next((c for c in self.p.mro(cls) if (c.qual, name) in self.class_vals), None)
            k = (cls.qual, name)
            g = and_(*[x for x, tag in self.path if tag != "raise"])
            self.variable(k, val)
            if STALE.get(k) != "var" or own is not None:
                self.class_vals[k] = val if old is None else ite(g, val, old)
        if t.op not in ("class", "ext", "mod"):
            self.sym_write(t, "attr", const(name), val)

    def variable(self, label, val):
        node = self.node
        lit = isinstance(node, (ast.Assign, ast.AnnAssign)) and node.value is not None and kept.literal(node.value)
        kept.VARS.append((self, label, val, self.in_task > 0, self.site(), lit, None))

    # ------------------------------------------------------------------ roots (ownership)
    def root(self, t):
        """object or symbolic input owning the storage denoted by t (None: fresh value)"""
        while True:
            if t.op == "upd":
                t = t.args[0]
                continue
            if t.op in ("attr", "item", "xattr", "cell"):
                if t.op == "attr" or t.op == "xattr":
                    t = t.args[0]
                    continue
                t = t.args[0]
                continue
            if t.op == "mcall" and t.args[1] in VIEW_METHODS:
                t = t.args[0]
                continue
            if t.op == "dictof":
                t = t.args[0]
                continue
            if t.op == "firstof":
                t = t.args[0]
                continue
            return t

    # ------------------------------------------------------------------ globals
    def global_value(self, r, modname, name):
        if r is None:
            if modname not in self.p.modules:
                return mk("ext", modname + "." + name)
            return self.unk("name %s in %s" % (name, modname))
        k = r[0]
        if k == "ext":
            return self.ext_attr(r[1])
        if k == "mod":
            if r[1] in self.p.modules or r[1].split(".")[0] == "hadar":
                return mk("mod", r[1])
            return self.ext_attr(r[1])
        if k == "class":
            return mk("class", r[1].qual)
        if k == "func":
            return self.func_term(r[1], r[2])
        if k == "assign":
            m, st, tg = r[1], r[2], r[3]
            vals = self.modvals.setdefault(m.name, {})
            kept.READ.add((m.name, name))
            if name not in vals:
                m_key = name
                fr = Frame(m, {}, None, "<module>")
                self.frames.append(fr)
                saved, self.stack = self.stack, []
                sp, self.path = self.path, []
                node = self.node
                v = kept.static(self, self.eval(st.value), (m.name, name))
                if STALE.get((m.name, name)) == "var":
                    v = kept.kept((m.name, name))
                env = fr.env
                self.assign(tg, v)
                self.node = node
                self.stack, self.path = saved, sp
                self.frames.pop()
                for kk, vv in env.items():
                    vals[kk] = vv
                vals.setdefault(name, v)
            return vals[name]
        return self.unk("global %s" % name)

    def lookup(self, name):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            return self.mod_global(fr.module, name)
        f = fr
        env = fr.env
        if name in env:
            v = env[name]
            if v.op == "car":
                self.car_read.add(v)
            return v
        c = fr.closure
        while c is not None:
            if name in c.env:
                v = c.env[name]
                if v.op == "car":
                    self.car_read.add(v)
                return v
            c = c.closure
        if fr.fnode is not None and not fr.loops and name in _locals(fr.fnode):
            self.effect("raise", exc=mk("ext", "builtins.UnboundLocalError"), caught=self.try_depth > 0)
            raise _Raised()
        return self.mod_global(fr.module, name)

    def mod_global(self, module, name):
        if (module.name, name) in self.glob_over:
            return self.glob_over[(module.name, name)]
        r = self.p.resolve(module.name, name)
        if r is not None:
            return self.global_value(r, module.name, name)
        from . import externals

        if name in externals.BUILTINS:
            return mk("ext", "builtins." + name)
        if name == "__name__":
            return const(module.name)
        return self.unk("unbound name %s" % name)

    def ext_attr(self, dotted):
        from . import externals

        dotted = externals.canon(dotted)
        if dotted in externals.CONSTS:
            return externals.CONSTS[dotted]
        return mk("ext", dotted)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.call_sites += 1
        op = f.op
        if op == "ite":
            c = self.decide(f.args[0])
            if c is TRUE:
                return self.call(f.args[1], args, kwargs)
            if c is FALSE:
                return self.call(f.args[2], args, kwargs)
            return self._branch(c, lambda: self.call(f.args[1], args, kwargs), lambda: self.call(f.args[2], args, kwargs))
        if op == "itemeth":
            return self._branch(f.args[0], lambda: self.call(f.args[1], args, kwargs), lambda: self.call(f.args[2], args, kwargs))
        if op == "func":
            return self.call_func(f, args, kwargs)
        if op == "bmeth":
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs)
        if op == "class":
            return self.instantiate(self.p.classes[f.args[0]], args, kwargs)
        if op == "ext":
            return self.ext_call(f.args[0], args, kwargs)
        if op in ("xmeth", "xattr"):
            return self.method_ext(f.args[0], f.args[1], args, kwargs)
        if op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw)
        if op == "excinit":
            self.write(f.args[0], const("args"), tuple_(*args))
            return NONE
        if op == "itemgetter":
            vs = [self.getitem(args[0], i) for i in f.args]
            return vs[0] if len(vs) == 1 else tuple_(*vs)
        if op == "attrgetter" and all(is_str(x) for x in f.args):
            vs = []
            for x in f.args:
                v = args[0]
                for part in cval(x).split("."):
                    v = self.getattr(v, part)
                vs.append(v)
            return vs[0] if len(vs) == 1 else tuple_(*vs)
        if op == "ref":
            o = self.obj(f)
            if o.kind == "inst" and self.find_method(o.cls, "__call__"):
                return self.call_method(f, "__call__", args, kwargs)
        ty = self.typeof(f)
        if isinstance(ty, tuple) and ty[0] == "inst":
            c = self.cls_by_name(ty[1])
            if c is not None and self.find_method(c, "__call__"):
                return self.call_method(f, "__call__", args, kwargs)
        self.effect("xcall", fn=f, args=tuple(args), kwargs=tuple(sorted(kwargs.items())))
        return mk("call", f, tuple(args), tuple(sorted(kwargs.items())))

    def _branch(self, c, fa, fb):
        m = len(self.path)
        vals, keep = [], []
        for g, f in ((c, fa), (not_(c), fb)):
            self.push(g)
            try:
                vals.append(f())
                keep += [(implies(g, x), tag) for x, tag in self.path[m + 1:] if tag == "raise"]
            except _Raised:
                vals.append(None)
            del self.path[m:]
        a, b = vals
        if a is None and b is None:
            raise _Raised()
        self.path.extend(k for k in keep if k[0] is not TRUE)
        if a is None:
            self.path.append((not_(c), "raise"))
            return b
        if b is None:
            self.path.append((c, "raise"))
            return a
        return ite(c, a, b)

    def call_method(self, selfv, name, args, kwargs):
        return self.call(self.getattr(selfv, name), args, kwargs)

    def instantiate(self, cls, args, kwargs):
        s = self.summaries.get(cls.qual) or self.summaries.get(cls.name)
        if s is not None:
            r = s(self, args, kwargs)
            if r is not None:
                return r
        self.p.mro(cls)
        o = self.alloc("inst", cls)
        m = self.find_method(cls, "__init__")
        if m is not None:
            c, fn = m
            self.call_func(self.func_term(c.module, fn, c), [o] + list(args), kwargs)
        elif any(b.endswith("Exception") or b.endswith("Error") for b in cls.ext_bases):
            self.write(o, const("args"), tuple_(*args))
        elif self.is_dataclass(cls):
            self.init_dataclass(cls, o, args, kwargs)
        self.effect("new", cls=cls.name, obj=o, args=tuple(args), kwargs=tuple(sorted(kwargs.items())))
        return o

    def is_dataclass(self, cls):
        return any("dataclass" in self.decorators(c.node) for c in self.p.mro(cls))

    def init_dataclass(self, cls, o, args, kwargs):
        fields = []
        for c in reversed(self.p.mro(cls)):
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    fields.append((st.target.id, st.value, c))
        vals = dict(zip([f[0] for f in fields], args))
        vals.update(kwargs)
        for n, d, c in fields:
            if n in vals:
                self.write(o, const(n), vals[n])
            elif d is not None:
                fr = Frame(c.module, {}, c, "<dataclass>")
                self.frames.append(fr)
                self.write(o, const(n), self.eval(d))
                self.frames.pop()

    def bind_args(self, node, module, cls, env0, args, kwargs, fid):
        a = node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        ok = True
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
        extra = args[len(params):]
        if a.vararg:
            env[a.vararg.arg] = tuple_(*extra)
        elif extra:
            ok = False
        names = params + [x.arg for x in a.kwonlyargs]
        rest = []
        for k in list(kwargs):
            if k in names:
                if k in env:
                    ok = False
                env[k] = kwargs.pop(k)
        if a.kwarg:
            d = self.alloc("dict")
            for k, v in kwargs.items():
                self.write(d, const(k), v)
            env[a.kwarg.arg] = d
        elif kwargs:
            ok = False
        # defaults
        nd = len(a.defaults)
        for p, d in list(zip(params[len(params) - nd:], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]:
            if p not in env:
                key = (fid, p)
                if isinstance(d, ast.Constant) or isinstance(node, ast.Lambda):
                    env[p] = self.eval_in(d, module, cls, env0)
                else:
                    if key not in self.default_cache:
                        saved, self.stack = self.stack, []
                        sp, self.path = self.path, []
                        v = kept.static(self, self.eval_in(d, module, cls, env0), (module.name, (cls.name + "." if cls else "") + getattr(node, "name", ""), p))
                        self.stack, self.path = saved, sp
                        self.default_cache[key] = v
                    env[p] = self.default_cache[key]
        for p in names:
            if p not in env:
                ok = False
                env[p] = self.unk("missing argument %s" % p)
        return env, ok

    def eval_in(self, expr, module, cls, frame0):
        fr = Frame(module, {}, cls, "<default>")
        fr.closure = frame0
        self.frames.append(fr)
        v = self.eval(expr)
        self.frames.pop()
        return v

    def call_func(self, f, args, kwargs):
        module, node, cls, frame0 = self.closures[f.args[0]]
        name = getattr(node, "name", "<lambda>")
        qual = module.name + "." + ((cls.name + ".") if cls else "") + name
        s = self.summaries.get(qual) or (self.summaries.get((cls.name + "." if cls else "") + name))
        if s is not None:
            r = s(self, args, kwargs)
            if r is not None:
                return r
        hook = None
        if isinstance(node, ast.FunctionDef) and "contextmanager" in self.decorators(node):
            if not self.cm_pending:
                i = self.fresh()
                self.cmgrs[i] = (f, args, kwargs)
                return mk("cmgr", i)
            hook = self.cm_pending.pop()
        self.functions_analysed.add(qual)
        if time.thread_time() - self.born > DEADLINE:
            raise AnalysisError("analysis of %s stopped after %d s" % (qual, DEADLINE))
        if len(self.frames) > MAX_DEPTH or self.callstack.count(node) > 12:
            return self.unk("recursion too deep in %s" % qual)
        site_node = self.node
        env, ok = self.bind_args(node, module, cls, frame0, args, kwargs, f.args[0])
        if not ok:
            self.effect("badcall", fn=qual)
        fr = Frame(module, env, cls, name)
        fr.closure = frame0
        fr.hook = hook
        fr.fnode = node
        if isinstance(node, ast.Lambda):
            fr.func = name
        if frame0 is not None and cls is None:
            fr.func = (frame0.func or "") + "." + name
        fr.selfarg = node.args.args[0].arg if node.args.args else None
        fr.defcls = cls
        mark = len(self.path)
        fr.path_mark = mark
        self.frames.append(fr)
        self.callstack.append(node)
        savedtry = self.try_depth
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                st = "return"
                fr.returns.append((TRUE, v))
            else:
                if _is_generator(node):
                    fr.yields = self.alloc("list")
                st = self.exec_block(node.body)
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.try_depth = savedtry
        self.node = site_node
        # facts guaranteed by the absence of exceptions survive the call
        exits, keep = [], []
        for g, tag in self.path[mark:]:
            if tag == "raise":
                keep.append(or_(*([not_(e) for e in exits] + [g])))
            else:
                exits.append(g)
        if st == "raise" and not fr.returns:
            del self.path[mark:]
            raise _Raised()
        del self.path[mark:]
        rets = fr.returns
        if st == LIVE and fr.yields is None:
            rets = rets + [(TRUE, NONE)]
        if st == "raise" and rets:
            # falls into an exception unless one of the returns was taken
            keep.append(or_(*[c for c, _ in rets]))
        for k in keep:
            if k is not TRUE:
                self.path.append((k, "raise"))
        if fr.yields is not None:
            return fr.yields
        if not rets:
            return NONE
        acc = rets[-1][1]
        for c, v in reversed(rets[:-1]):
            acc = ite(c, v, acc)
        return self.under_path(acc)

    def type_of(self, t):
        if t.op == "ref":
            o = self.obj(t)
            if o.kind == "inst":
                return mk("class", o.cls.qual)
            return mk("ext", "builtins." + o.kind) if o.kind in ("list", "dict", "set") else mk("ext", "type." + o.kind)
        if t.op == "tuple":
            return mk("ext", "builtins.tuple")
        if t.op == "const":
            k = t.args[0]
            if k == "num":
                return mk("ext", "builtins.int" if t.args[1].denominator == 1 else "builtins.float")
            return mk("ext", "builtins." + k)
        if t.op == "call" and t.args[0] in ("builtins.float", "builtins.int", "builtins.str", "builtins.complex", "builtins.bool"):
            return mk("ext", t.args[0])
        return mk("call", "builtins.type", (t,), ())

    # ------------------------------------------------------------------ isinstance
    def isinstance_(self, v, c):
        if c.op == "tuple":
            return or_(*[self.isinstance_(v, x) for x in c.args])
        if c.op == "ref" and self.obj(c).kind == "list":
            return self.unk("isinstance list")
        if v.op == "ite":
            cc = self.decide(v.args[0])
            return ite(cc, self.isinstance_(v.args[1], c), self.isinstance_(v.args[2], c))
        from . import externals

        r = externals.isinstance_known(self, v, c)
        if r is not None:
            return const(r)
        return mk("isinst", v, c)

    # ------------------------------------------------------------------ misc values
    def length(self, t):
        if t.op == "ite":
            c = self.decide(t.args[0])
            return ite(c, self.length(t.args[1]), self.length(t.args[2]))
        if t.op == "ref":
            o = self.obj(t)
            if o.kind == "list":
                return self.seg_count(self.segments(t))
            if o.kind == "dict":
                return self.seg_count(self.entries(t))
            if o.kind == "inst" and self.find_method(o.cls, "__len__"):
                return self.call_method(t, "__len__", [], {})
        if t.op in ("items", "keys", "values", "listof", "tupleof", "enumerate", "zip", "chain", "product", "dictof", "sorted", "reversed", "iterof"):
            if t.op in ("sorted", "listof", "tupleof", "keys", "values", "items", "enumerate", "reversed", "iterof"):
                inner = t.args[0]
                if inner.op not in ("ref", "range", "dictof", "tuple", "ite", "items", "keys", "values", "listof", "zip", "chain", "enumerate"):
                    return len_(inner)
            return self.seg_count(self.iterate(t))
        if t.op == "range":
            lo, hi, st = t.args
            return sub(hi, lo) if st is ONE else mk("rangelen", lo, hi, st)
        if id(t) in self.overlay:
            ov = self.overlay[id(t)][0]
            if any(w.op in ("append", "splice", "opaque", "clear") for w in ov.writes):
                return mk("len", mk("mutated", t, self.fresh()))
        return len_(t)

    def seg_count(self, segs):
        n = ZERO
        for s in segs:
            c = ite(and_(*s.guards), ONE, ZERO) if s.guards else ONE
            for q, d in reversed(s.binders):
                c = sum_over(q, d, c)
            n = add(n, c)
        return n

    def contains_(self, x, c):
        """x in c"""
        if c.op == "keys" and c.args[0].op == "ref":
            o = self.obj(c.args[0])
        else:
            o = self.obj(c) if c.op == "ref" else None
        if o is not None and o.meta.get("stale") == "cache":
            return TRUE
        self.testing += 1
        try:
            return self._contains(x, c)
        finally:
            self.testing -= 1

    def _contains(self, x, c):
        if c.op == "ite":
            cc = self.decide(c.args[0])
            return ite(cc, self.contains_(x, c.args[1]), self.contains_(x, c.args[2]))
        while (c.op == "mcall" and c.args[1] in ("unique", "tolist", "to_list", "to_numpy") and not c.args[2]) or (
                c.op == "xattr" and c.args[1] == "values" and c.args[0].op in ("mcall", "xattr", "copy")):
            c = c.args[0]
        if c.op in ("keys", "iterof", "listof", "setof", "tupleof", "sorted") and c.args[0].op != "ref":
            inner = c.args[0]
            if c.op == "keys":
                ty = self.typeof(inner)
                if inner.op not in ("dictof",) and id(inner) not in self.overlay:
                    return self.decide(mk("in", x, inner))
                if inner.op == "dictof":
                    return or_(*[eq(x, s.elem) for s in self.iterate(c)])
            else:
                return self.contains_(x, inner)
        if c.op == "dictof":
            return or_(*[eq(x, s.elem.args[0]) for s in self.dictof_entries(c.args[0])])
        if c.op == "ref" and self.obj(c).kind == "inst":
            if self.find_method(self.obj(c).cls, "__contains__"):
                return truthy(self.call_method(c, "__contains__", [x], {}))
        if c.op in ("tuple", "range", "values", "items", "chain", "zip", "enumerate", "keys", "listof", "tupleof", "sorted", "setof") or (
            c.op == "ref" and self.obj(c).kind in ("list", "dict")
        ):
            if c.op == "range":
                lo, hi, st = c.args
                if st is ONE:
                    return and_(le(lo, x), lt(x, hi))
            if c.op == "ref" and self.obj(c).kind == "dict":
                segs = [Seg(s.binders, s.guards, s.elem.args[0]) for s in self.entries(c)]
            else:
                segs = self.iterate(c)
            out = FALSE
            for s in segs:
                b = and_(*(s.guards + [self.equal(x, s.elem)]))
                for q, d in reversed(s.binders):
                    b = any_over(q, d, b)
                out = or_(out, b)
            return self.decide(out)
        if is_str(c) and is_str(x):
            return const(cval(x) in cval(c))
        ty = self.typeof(c)
        if isinstance(ty, tuple) and ty[0] == "list":
            q = self.fresh()
            dom = drange(len_(c))
            self.doms[q] = dom
            return any_over(q, dom, eq(x, item(c, mk("bv", q))))
        if isinstance(ty, tuple) and ty[0] == "dict":
            base = self.decide(mk("in", x, c))
            if id(c) in self.overlay:
                segs = [Seg(s.binders, s.guards, s.elem.args[0]) for s in self.overlay_entries(c)]
                for s in segs:
                    b = and_(*(s.guards + [eq(x, s.elem)]))
                    for q, d in reversed(s.binders):
                        b = any_over(q, d, b)
                    base = or_(base, b)
            return base
        return mk("in", x, c)

    def overlay_entries(self, c):
        o = self.overlay[id(c)][0]
        out = []
        for w in o.writes:
            if w.op != "set":
                continue
            k = w.key
            if k.op == "tuple" and len(k.args) == 2 and k.args[0] is const("item"):
                sub_ = {}
                bs = self.freshen(w, {q: mk("bv", q) for q in w.binders if q in self.stack})
                out.append(Seg(bs, self._guards_of(w, sub_), tuple_(k.args[1], w.val)))
        return out

    def equal(self, a, b):
        if a.op == "ite":
            c = self.decide(a.args[0])
            return ite(c, self.equal(a.args[1], b), self.equal(a.args[2], b))
        if b.op == "ite":
            c = self.decide(b.args[0])
            return ite(c, self.equal(a, b.args[1]), self.equal(a, b.args[2]))
        for x, y in ((a, b), (b, a)):
            if x.op == "ref" and self.obj(x).kind == "list" and y.op in ("ref", "tuple"):
                if y.op == "ref" and self.obj(y).kind != "list":
                    return FALSE
                sx = self.iterate(x)
                sy = self.iterate(y)
                if all(not s.binders and not s.guards for s in sx + sy):
                    if y.op == "tuple" or len(sx) != len(sy):
                        return FALSE
                    return and_(*[self.equal(p.elem, r.elem) for p, r in zip(sx, sy)])
                return mk("eq", *sorted((a, b), key=lambda z: z.key))
            if is_const(x) and y.op in ("ref", "tuple") and not (
                y.op == "ref" and self.obj(y).kind not in ("inst", "list", "dict")
            ):
                if y.op == "ref" and self.obj(y).kind == "inst" and x is not NONE:
                    break
                return FALSE
            if x is NONE:
                ty = self.typeof(y)
                if ty is not None and ty not in ("none", "opt") and not (isinstance(ty, tuple) and ty[0] == "opt"):
                    if y.op != "sym" or ty != "any":
                        return FALSE
        return eq(a, b)

    # ------------------------------------------------------------------ deep copies
    def clone(self, t, memo=None):
        """deep copy; the copies are a new family indexed by the loops running now as well"""
        memo = {} if memo is None else memo
        if t.op == "ref":
            o = self.obj(t)
            if o.kind not in ("inst", "list", "dict", "arr", "frame", "set"):
                return t
            if o.kind == "frame":
                from . import externals
                v = externals.freeze(self, t)
                if v is not t:
                    return self.alloc("frame", init=NONE, value=v)
            pre = tuple(self.stack)
            pargs = tuple(mk("bv", q) for q in pre)
            if o.oid not in memo:
                oid = self.fresh()
                n = Obj(oid, o.kind, o.cls, pre + tuple(o.formals), self.site(), self.tick(), tuple(self.path))
                n.meta = dict(o.meta)
                memo[o.oid] = oid
                self.objs[oid] = n
                for k, v in list(n.meta.items()):
                    if isinstance(v, T):
                        n.meta[k] = self.clone(v, memo)
                for w in o.writes:
                    bs = pre + tuple(q for q in w.binders if q not in pre)
                    nw = Write(pargs + tuple(w.args), w.key, self.clone(w.val, memo), bs, w.guards, self.tick(), w.site, w.op)
                    n.writes.append(nw)
            return mk("ref", memo[o.oid], pargs + tuple(t.args[1]))
        if t.op in ("const", "class", "func", "ext", "mod", "bv", "cbv", "bmeth"):
            return t
        if t.op == "tuple":
            return mk("tuple", *[self.clone(a, memo) for a in t.args])
        if t.op == "dictof":
            d = self.alloc("dict")
            for s in self.dictof_entries(t.args[0]):
                self.write(d, s.elem.args[0], self.clone(s.elem.args[1], memo))
            return d
        if t.op == "ite":
            m = len(self.path)
            self.push(t.args[0])
            a = self.clone(t.args[1], memo)
            del self.path[m:]
            self.push(not_(t.args[0]))
            b = self.clone(t.args[2], memo)
            del self.path[m:]
            return ite(t.args[0], a, b)
        if t.op in ("sym", "attr", "item", "xattr", "copy") and id(t) in self.muts:
            n = self.now(t)
            if n is not t:
                return self.mkcopy(n, self.fresh())
        if t.op in ("sym", "attr", "item", "xattr"):
            return self.mkcopy(t, self.fresh())
        if t.op == "copy":
            return self.mkcopy(t.args[0], self.fresh())
        return t

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for st in stmts:
            self.node = st
            try:
                r = self.exec_stmt(st)
            except _Raised:
                r = "raise"
            if r != LIVE:
                return r
            if any(g is FALSE for g, _ in self.path[-3:]):
                return "raise" if self.path[-1][1] == "raise" else "exit"
        return LIVE

    def rel_cond(self, mark):
        return and_(*[g for g, tag in self.path[mark:] if tag != "raise"])

    def exec_stmt(self, st):
        fr = self.frames[-1]
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return LIVE
            self.eval(st.value)
            return LIVE
        if isinstance(st, ast.Assign):
            v = self.eval(st.value)
            for tg in st.targets:
                self.assign(tg, v)
            return LIVE
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.eval(st.value))
            return LIVE
        if isinstance(st, ast.AugAssign):
            self.aug_assign(st)
            return LIVE
        if isinstance(st, ast.Return):
            v = self.eval(st.value) if st.value is not None else NONE
            fr.returns.append((self.rel_cond(fr.path_mark), v))
            return "return"
        if isinstance(st, ast.Raise):
            exc = self.eval(st.exc) if st.exc is not None else NONE
            self.effect("raise", exc=exc, caught=self.try_depth > 0)
            return "raise"
        if isinstance(st, ast.If):
            return self.exec_if(st)
        if isinstance(st, ast.For):
            return self.exec_for(st)
        if isinstance(st, ast.While):
            return self.exec_while(st)
        if isinstance(st, ast.Pass):
            return LIVE
        if isinstance(st, Emit):
            st.fn()
            return LIVE
        if isinstance(st, ast.Break):
            lp = fr.loops[-1]
            lp.breaks.append((self.rel_cond(lp.mark), dict(fr.env)))
            return "break"
        if isinstance(st, ast.Continue):
            lp = fr.loops[-1]
            lp.conts.append((self.rel_cond(lp.mark), dict(fr.env)))
            return "continue"
        if isinstance(st, (ast.FunctionDef,)):
            fid = self.fresh()
            self.closures[fid] = (fr.module, st, None, fr)
            f = mk("func", fid)
            decs = self.decorators(st)
            if decs - {"wraps", "lru_cache", "cache"}:
                pass
            fr.env[st.name] = f
            return LIVE
        if isinstance(st, ast.ClassDef):
            fr.env[st.name] = self.unk("local class")
            return LIVE
        if isinstance(st, ast.With):
            return self.exec_with(st)
        if isinstance(st, ast.Try):
            return self.exec_try(st)
        if isinstance(st, ast.Assert):
            c = self.decide(self.truth(self.eval(st.test)))
            if c is FALSE:
                return "raise"
            if c is not TRUE:
                m = len(self.path)
                self.push(not_(c))
                self.effect("raise", exc=mk("ext", "builtins.AssertionError"), caught=self.try_depth > 0)
                del self.path[m:]
                self.push(c, "raise")
            return LIVE
        if isinstance(st, ast.Delete):
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    fr.env.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    base = self.eval(tg.value)
                    idx = self.eval_slice(tg.slice)
                    if base.op == "ref":
                        if self.obj(base).kind == "dict":
                            self.write(base, idx, NONE, "del")
                        else:
                            self.write(base, None, NONE, "opaque")
                    else:
                        self.effect("mutate", target=base, how="del", key=idx, val=NONE)
                elif isinstance(tg, ast.Attribute):
                    base = self.eval(tg.value)
                    if base.op == "ref":
                        self.write(base, const(tg.attr), NONE, "del")
                    else:
                        self.effect("mutate", target=base, how="del ." + tg.attr, key=const(tg.attr), val=NONE)
            return LIVE
        if isinstance(st, ast.Global):
            fr.globals_decl |= set(st.names)
            return LIVE
        if isinstance(st, ast.Nonlocal):
            for n in st.names:
                fr.nonlocals[n] = True
            return LIVE
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.local_import(st)
            return LIVE
        self.unk("statement %s" % type(st).__name__)
        return LIVE

    def local_import(self, st):
        fr = self.frames[-1]
        if isinstance(st, ast.Import):
            for al in st.names:
                nm = al.name if al.asname else al.name.split(".")[0]
                fr.env[al.asname or nm] = mk("mod", nm) if nm in self.p.modules else mk("ext", nm)
        else:
            for al in st.names:
                base = st.module or ""
                if base in self.p.modules:
                    r = self.p.resolve(base, al.name)
                    fr.env[al.asname or al.name] = self.global_value(r, base, al.name)
                else:
                    fr.env[al.asname or al.name] = self.ext_attr(base + "." + al.name)

    def merge_env(self, c, e1, e2):
        out = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
            out[k] = a if a is b else ite(c, a, b)
        return out

    def exec_if(self, st):
        fr = self.frames[-1]
        test = self.truth(self.eval(st.test))
        c = self.decide(test)
        if c is TRUE:
            return self.exec_block(st.body)
        if c is FALSE:
            return self.exec_block(st.orelse)
        if st.orelse and self.always_raises(st.orelse) and not self.always_raises(st.body):
            return self.branch_exec(not_(c), lambda: self.exec_block(st.orelse), lambda: self.exec_block(st.body))
        return self.branch_exec(c, lambda: self.exec_block(st.body), lambda: self.exec_block(st.orelse))

    def always_raises(self, stmts):
        last = stmts[-1] if stmts else None
        if isinstance(last, ast.If):
            return self.always_raises(last.body) and self.always_raises(last.orelse)
        return isinstance(last, ast.Raise)

    def branch_exec(self, c, f1, f2):
        fr = self.frames[-1]
        mark = len(self.path)
        env0 = dict(fr.env)
        nret = len(fr.returns)
        self.push(c)
        s1 = f1()
        r1, nret = fr.returns[nret:], len(fr.returns)
        env1 = fr.env
        extra1 = self.path[mark + 1:]
        del self.path[mark:]
        fr.env = dict(env0)
        if s1 == "raise" and not r1:
            # nothing comes out of the first branch: what follows is the other one
            self.path.append((not_(c), "raise"))
            return f2()
        self.push(not_(c))
        s2 = f2()
        r2 = fr.returns[nret:]
        env2 = fr.env
        extra2 = self.path[mark + 1:]
        del self.path[mark:]
        # a branch that ends by raising but may also return is an exit
        for g, s, r in ((c, s1, r1), (not_(c), s2, r2)):
            if s == "raise" and r:
                self.path.append((or_(not_(g), *[rc for rc, _ in r]), "raise"))
        if s1 == "raise" and r1 and s2 != "raise":
            s1 = "return"
        if s2 == "raise" and r2 and s1 != "raise":
            s2 = "return"
        if s1 != LIVE and s2 != LIVE:
            if s1 == s2:
                # raising on both: nothing follows
                for g, tag in extra1:
                    if tag == "raise":
                        self.path.append((implies(c, g), tag))
                for g, tag in extra2:
                    if tag == "raise":
                        self.path.append((implies(not_(c), g), tag))
                return s1
            if s1 == "raise":
                self.path.append((not_(c), "raise"))
                return s2
            if s2 == "raise":
                self.path.append((c, "raise"))
                return s1
            return "exit"
        if s1 != LIVE:
            fr.env = env2
            self.path.append((not_(c), "raise" if s1 == "raise" else "exit"))
            self.path.extend(extra2)
            if s1 != "raise":
                for g, tag in extra1:
                    pass
            return LIVE
        if s2 != LIVE:
            fr.env = env1
            self.path.append((c, "raise" if s2 == "raise" else "exit"))
            self.path.extend(extra1)
            return LIVE
        fr.env = self.merge_env(c, env1, env2)
        for g, tag in extra1:
            self.path.append((implies(c, g), tag))
        for g, tag in extra2:
            self.path.append((implies(not_(c), g), tag))
        return LIVE

    # ---- loops
    def assigned_names(self, body):
        out = set()

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                return
            for ch in ast.iter_child_nodes(n):
                visit(ch)

        for s in body:
            visit(s)
        return out

    def collected(self, st):
        """for x in xs: if x not in l: l.append(x)  ->  l.extend([x for x in dict.fromkeys(xs) if x not in l])"""
        b = st.body
        if st.orelse or len(b) != 1 or not isinstance(b[0], ast.If) or b[0].orelse or len(b[0].body) != 1 or not isinstance(st.target, ast.Name):
            return None
        t, c = b[0].test, b[0].body[0]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and len(t.operand.ops) == 1 and isinstance(t.operand.ops[0], ast.In):
            t = ast.copy_location(ast.Compare(t.operand.left, [ast.NotIn()], t.operand.comparators), t)
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and isinstance(t.left, ast.Name) and t.left.id == st.target.id):
            return None
        if not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Attribute) and c.value.func.attr == "append"
                and len(c.value.args) == 1 and not c.value.keywords and isinstance(c.value.args[0], ast.Name) and c.value.args[0].id == st.target.id):
            return None
        l = c.value.func.value
        if not isinstance(l, (ast.Name, ast.Attribute)) or ast.dump(l) != ast.dump(t.comparators[0]) or any(ast.dump(l) == ast.dump(x) for x in ast.walk(st.iter)):
            return None
        f = st.iter.func if isinstance(st.iter, ast.Call) else None
        once = isinstance(f, ast.Attribute) and f.attr in ("keys", "items", "unique") or isinstance(f, ast.Name) and f.id in ("range", "enumerate")
        it = st.iter if once else ast.Call(ast.Attribute(ast.Name("dict", ast.Load()), "fromkeys", ast.Load()), [st.iter, ast.Constant("<once>")], [])
        comp = ast.ListComp(ast.Name(st.target.id, ast.Load()), [ast.comprehension(st.target, it, [t], 0)])
        new = ast.Expr(ast.Call(ast.Attribute(l, "extend", ast.Load()), [comp], []))
        for x in ast.walk(new):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, st)
        return new

    def exec_for(self, st):
        new = self.collected(st)
        if new is not None:
            return self.exec_stmt(new)
        fr = self.frames[-1]
        it = self.eval(st.iter)
        segs = self.iterate(it)
        loopmark = len(self.path)
        brk_env = []
        broke = FALSE
        result = LIVE
        i = 0
        while i < len(segs):
            seg = segs[i]
            i += 1
            if broke is not FALSE:
                self.push(not_(broke), "exit")
            before = dict(fr.env)
            r, b = self.run_segment(seg, st)
            if broke is not FALSE and r == LIVE:
                # a loop left earlier keeps the values it was left with
                fr.env = self.merge_env(broke, before, fr.env)
                b = and_(not_(broke), b)
            if r == "return" or r == "raise":
                result = r
                break
            if b is TRUE:
                broke = TRUE
                break
            broke = or_(broke, b)
        if result != LIVE and not segs_conditional(segs):
            return result
        # orelse
        if st.orelse:
            if broke is FALSE:
                return self.exec_block(st.orelse)
            if broke is not TRUE:
                cut = [x for x in self.path[loopmark:] if x[1] == "raise"]
                del self.path[loopmark:]
                self.path.extend(cut)
                return self.branch_exec(broke, lambda: LIVE, lambda: self.exec_block(st.orelse))
        # drop break markers
        keep = [(g, tag) for g, tag in self.path[loopmark:] if tag in ("raise", "ret")]
        del self.path[loopmark:]
        self.path.extend(keep)
        return LIVE

    def run_segment(self, seg, st):
        """analyse the loop body for one segment; returns (status, break condition)"""
        fr = self.frames[-1]
        if not seg.binders:
            return self.run_once(seg, st)
        return self.run_generic(seg, st)

    def _bind_target(self, st, elem):
        self.assign(st.target, elem)

    def run_once(self, seg, st):
        fr = self.frames[-1]
        mark = len(self.path)
        env0 = dict(fr.env)
        for g in seg.guards:
            self.push(g)
        lp = LoopCtx(len(self.path))
        fr.loops.append(lp)
        self._bind_target(st, seg.elem)
        s = self.exec_block(st.body)
        fr.loops.pop()
        for c, env in reversed(lp.conts):
            fr.env = env if s != LIVE and c is TRUE else self.merge_env(c, env, fr.env) if s in (LIVE,) or lp.conts else fr.env
            if s != LIVE:
                s = LIVE
        bc = or_(*[c for c, _ in lp.breaks]) if lp.breaks else FALSE
        for c, env in lp.breaks:
            if s == "break" and c is TRUE:
                fr.env = env
            else:
                fr.env = self.merge_env(c, env, fr.env)
        if s == "break":
            s = LIVE
            if len(lp.breaks) == 1 and is_const(lp.breaks[0][0]):
                bc = TRUE
        g = and_(*seg.guards) if seg.guards else TRUE
        extra = self.path[mark:]
        del self.path[mark:]
        for gg, tag in extra[len(seg.guards):]:
            if tag == "raise":
                self.path.append((implies(g, gg), tag))
            elif tag == "exit" and lp.breaks == [] and lp.conts == []:
                # a return happened under some condition
                self.path.append((implies(g, gg), "ret"))
            elif tag == "ret":
                self.path.append((implies(g, gg), "ret"))
        if seg.guards:
            fr.env = self.merge_env(g, fr.env, env0)
            bc = and_(g, bc)
            if s in ("return", "raise"):
                self.path.append((not_(g), "raise" if s == "raise" else "ret"))
                s = LIVE
        return s, bc

    def snapshot(self):
        return (
            len(self.effects),
            {oid: len(o.writes) for oid, o in self.objs.items()},
            len(self.reads),
            len(self.unknowns),
        )

    def rollback(self, snap):
        ne, ws, nr, nu = snap
        removed = {}
        gone = {id(x) for x in self.effects[ne:]}
        if self.muts and gone:
            for k, (r, ms) in list(self.muts.items()):
                keep = [x for x in ms if id(x[3]) not in gone]
                if not keep:
                    del self.muts[k]
                elif len(keep) < len(ms):
                    self.muts[k] = (r, keep)
        del self.effects[ne:]
        for oid, o in list(self.objs.items()):
            if oid in ws:
                if len(o.writes) > ws[oid]:
                    removed[oid] = o.writes[ws[oid]:]
                    del o.writes[ws[oid]:]
        # objects allocated meanwhile stay in the table but become unreachable
        del self.reads[nr:]
        del self.unknowns[nu:]
        return removed

    def run_generic(self, seg, st, body_fn=None):
        fr = self.frames[-1]
        names = self.assigned_names(st.body)
        tnames = set()
        for n in ast.walk(st.target):
            if isinstance(n, ast.Name):
                tnames.add(n.id)
        carried = [n for n in sorted(names) if n in fr.env and n not in tnames]
        qs = [q for q, _ in seg.binders]
        env0 = dict(fr.env)
        snap = self.snapshot()
        nret = len(fr.returns)
        mark = len(self.path)
        start = {}
        for n in carried:
            start[n] = mk("car", self.fresh(), n)
        res = self._body(seg, st, start)
        s, envs, lp, extra = res
        # which carried values are really read?
        used = [n for n in carried if start[n] in self.car_read]
        allterms = [envs.get(n, UNDEF) for n in carried]
        selfdep = [n for n in carried if contains(envs.get(n, UNDEF), lambda x: x is start[n])]
        cells, prevobjs = self.heap_carried(snap, qs)
        need = bool(used) or bool(cells) or bool(prevobjs) or any(
            envs.get(n, UNDEF) is not start[n] and n in selfdep for n in carried
        )
        after = {}
        if carried or cells or prevobjs:
            for attempt in range(2):
                if cells and attempt == 0:
                    gone = self.rollback(snap)
                    firsts = {}
                    del fr.returns[nret:]
                    del self.path[mark:]
                    fr.env = dict(env0)
                    cellcar = {}
                    for (oid, args, key) in cells:
                        ref = mk("ref", oid, args)
                        car = mk("car", self.fresh(), "cell")
                        if key is LAST:
                            cellcar[(oid, args, key)] = (car, self.list_item(ref, const(-1)))
                            self.lastcar[oid] = (car, len(self.objs[oid].writes))
                            continue
                        v0 = self.read(ref, key)
                        w = next((x for x in gone.get(oid, []) if x.op == "set" and x.args == args and x.key is key), None)
                        if v0 is None and w is not None and (oid, args, key) in self.kept_first and len(seg.binders) == 1 and not any(seg.binders[0][0] in free_bvs(g) for g in seg.guards) and not contains(w.val, lambda x: x.op == "car"):
                            # d.setdefault(k, v): the value of the first iteration stays
                            q, d = seg.binders[0]
                            v0 = firsts[(oid, args, key)] = subst(w.val, {q: ZERO if d.op == "drange" else mk("keyat", d, ZERO)})
                            self.write(ref, key, v0)
                            continue
                        cellcar[(oid, args, key)] = (car, UNDEF if v0 is None else v0)
                        self.write(ref, key, car)
                    start = {n: mk("car", self.fresh(), n) for n in carried}
                    s, envs, lp, extra = self._body(seg, st, start)
                    # values after the body
                    ups = {}
                    for (oid, args, key), (car, v0) in cellcar.items():
                        ups[(oid, args, key)] = (car, v0, self.list_item(mk("ref", oid, args), const(-1)) if key is LAST else self.read(mk("ref", oid, args), key))
                        if key is LAST:
                            del self.lastcar[oid]
                    break
                if not cells:
                    ups = {}
                    break
            solved, after = self.solve_carried(
                qs, seg.binders, {n: (start[n], env0[n], envs.get(n, UNDEF)) for n in carried}
            )
            csolved, cafter = self.solve_carried(qs, seg.binders, ups) if cells else ({}, {})
            if cells and firsts:
                csolved.update(firsts)
                cafter.update(firsts)
            if need:
                removed = self.rollback(snap)
                del fr.returns[nret:]
                del self.path[mark:]
                fr.env = dict(env0)
                lists = [oid for oid in prevobjs if self.objs[oid].kind == "list" and oid not in self.growing]
                self.growing.update(lists)
                prevobjs = [oid for oid in prevobjs if self.objs[oid].kind != "list"]
                lasts = []
                for (oid, args, key), v in csolved.items():
                    if key is LAST:
                        self.lastcar[oid] = (v, len(self.objs[oid].writes))
                        lasts.append(oid)
                        continue
                    self.write(mk("ref", oid, args), key, v)
                for oid in prevobjs:
                    for w in removed.get(oid, []):
                        nw = Write(w.args, w.key, w.val, w.binders, w.guards, w.seq, w.site, w.op)
                        nw.prev = qs[-1]
                        self.objs[oid].writes.append(nw)
                npre = {oid: len(self.objs[oid].writes) for oid in prevobjs}
                s, envs, lp, extra = self._body(seg, st, solved)
                self.growing.difference_update(lists)
                for oid in lasts:
                    del self.lastcar[oid]
                for oid in prevobjs:
                    o = self.objs[oid]
                    o.writes = [w for w in o.writes if w.prev != qs[-1]]
            for (oid, args, key), v in cafter.items():
                if cells and (oid, args, key) in firsts:
                    m = len(self.path)
                    for g in seg.guards:
                        self.push(g)
                    self.push(lt(ZERO, dom_len(seg.binders[0][1])))
                    self.write(mk("ref", oid, args), key, v)
                    del self.path[m:]
                elif key is not LAST:
                    self.write(mk("ref", oid, args), key, v)
        # early exits of the loop restrict which iterations happen
        ret_new = fr.returns[nret:]
        bconds = [c for c, _ in lp.breaks]
        status = LIVE
        newrets = []
        rconds = []
        base = mark
        for c, v in ret_new:
            # conditions recorded from function entry: make them relative to the body
            rc = self._strip(c, mark)
            rconds.append(rc)
        B = or_(*(bconds + rconds)) if (bconds or rconds) else FALSE
        if s in ("return", "break"):
            B = TRUE
        if B is not FALSE:
            self.restrict(snap, seg, B)
        del fr.returns[nret:]
        anyret = FALSE
        for (c, v), rc in zip(ret_new, rconds):
            if s == "return" and len(ret_new) == 1:
                rc = TRUE
            cond, val = self.first_of(seg, rc, v, B)
            fr.returns.append((and_(self.rel_cond(fr.path_mark), cond), val))
            anyret = or_(anyret, cond)
        # environment after the loop
        fr.env = dict(env0)
        for n in names | tnames:
            v = envs.get(n)
            if n in after:
                fr.env[n] = after[n]
            elif v is not None:
                fr.env[n] = self.last_of(seg, v, env0.get(n, UNDEF))
        if bconds:
            for n in names:
                if n in fr.env and n in env0:
                    bv_ = [e.get(n) for _, e in lp.breaks]
                    if any(x is not None and x is not envs.get(n) for x in bv_) or n in after:
                        fr.env[n] = self.break_value(seg, lp, n, fr.env[n], env0)
        # facts after the loop
        del self.path[mark:]
        for g, tag in extra:
            if tag == "raise":
                f = not_(g)
                for q, d in reversed(seg.binders):
                    f = any_over(q, d, and_(*([f] + (seg.guards if q == seg.binders[-1][0] else []))))
                self.path.append((not_(f), "raise"))
        if s == "raise":
            f = and_(*seg.guards) if seg.guards else TRUE
            for q, d in reversed(seg.binders):
                f = any_over(q, d, f)
            self.path.append((not_(f), "raise"))
        if anyret is TRUE:
            return "return", FALSE
        if anyret is not FALSE:
            self.path.append((not_(anyret), "ret"))
        bc = FALSE
        if bconds:
            b = or_(*bconds)
            bc = and_(b, *seg.guards)
            for q, d in reversed(seg.binders):
                bc = any_over(q, d, bc)
        return LIVE, bc

    def break_value(self, seg, lp, n, normal, env0):
        if len(lp.breaks) == 1 and len(seg.binders) == 1:
            c, e = lp.breaks[0]
            q, d = seg.binders[0]
            c = and_(c, *seg.guards)
            v = e.get(n, UNDEF)
            cond = any_over(q, d, c)
            if q not in free_bvs(v):
                val = v
            else:
                lv, b = bind(tuple_(c, v), q)
                val = mk("firstof", d, lv, b.args[0], b.args[1])
            if contains(val, lambda x: x.op == "car"):
                return self.unk("value of %s after break" % n)
            return ite(cond, val, normal)
        return self.unk("value of %s after break" % n)

    def _strip(self, c, mark):
        """condition c recorded from function entry: drop what already held at path[:mark]"""
        fr = self.frames[-1]
        pre = [g for g, tag in self.path[fr.path_mark:mark] if tag != "raise"]
        return assume(c, set(pre)) if pre else c

    def first_of(self, seg, c, v, B):
        c = and_(c, *seg.guards)
        if len(seg.binders) == 1:
            q, d = seg.binders[0]
            if c is TRUE:
                cond = lt(ZERO, dom_len(d))
                first = ZERO if d.op == "drange" else mk("keyat", d, ZERO)
                return cond, subst(v, {q: first})
            cond = any_over(q, d, c)
            lv, b = bind(tuple_(c, v), q)
            if q not in free_bvs(v):
                return cond, v
            return cond, mk("firstof", d, lv, b.args[0], b.args[1])
        cond = c
        for q, d in reversed(seg.binders):
            cond = any_over(q, d, cond)
        if free_bvs(v) & {q for q, _ in seg.binders}:
            return cond, self.unk("value returned from nested iteration")
        return cond, v

    def last_of(self, seg, v, v0):
        m = {}
        nonempty = TRUE
        for q, d in seg.binders:
            d = subst(d, m)
            m[q] = sub(d.args[0], ONE) if d.op == "drange" else mk("lastkey", d)
            nonempty = and_(nonempty, lt(ZERO, dom_len(d)))
        if seg.guards:
            if not (free_bvs(v) & {q for q, _ in seg.binders}) and v is v0:
                return v
            return self.unk("value after a filtered loop")
        if v.op == "car" or contains(v, lambda x: x.op == "car"):
            return self.unk("loop-carried value")
        r = subst(v, m)
        if v0 is UNDEF:
            return r
        return ite(nonempty, r, v0)

    def restrict(self, snap, seg, B):
        """iterations after an early exit do not happen: add that to what the body logged"""
        B = and_(B, *seg.guards)
        if len(seg.binders) != 1:
            g = mk("unk", self.fresh(), "early exit from nested iteration")
        else:
            q, d = seg.binders[0]
            if B is TRUE:
                g = eq(pos_of(mk("bv", q), d), ZERO)
            else:
                lv, b = bind(B, q)
                g = mk("nobreak", mk("bv", q), d, lv, b)
        ne, ws = snap[0], snap[1]
        for e in self.effects[ne:]:
            e.guards = e.guards + ((g, "exit"),)
        for oid, o in self.objs.items():
            for w in o.writes[ws.get(oid, 0):]:
                if oid in ws:
                    w.guards = w.guards + ((g, "exit"),)

    def plain_append(self, w, qs):
        """appended in every iteration"""
        have = {g for g, _ in self.path}
        return not [g for g, tag in w.guards if tag != "raise" and g not in have]

    def heap_carried(self, snap, qs):
        """cells of older objects read and then overwritten by the body at a loop-invariant address"""
        ne, ws, nr, _ = snap
        cells, prev = [], []
        reads = self.reads[nr:]
        rd = {}
        for oid, args, key, seq in reads:
            rd.setdefault(oid, []).append((args, key, seq))
        for oid, n0 in ws.items():
            o = self.objs[oid]
            news = o.writes[n0:]
            if not news or oid not in rd:
                continue
            if o.kind == "list" and any(w.op != "set" for w in news):
                how = {r[1] for r in rd[oid] if r[1] in (WHOLE, LAST)}
                if how == {LAST} and len(news) == 1 and news[0].op == "append" and not any(free_bvs(x) & set(qs) for x in news[0].args) and self.plain_append(news[0], qs):
                    cells.append((oid, news[0].args, LAST))
                elif how:
                    prev.append(oid)
                continue
            for w in news:
                if w.op != "set":
                    continue
                early = [r for r in rd[oid] if r[2] < w.seq]
                if not early:
                    continue
                addr = list(w.args) + ([w.key] if w.key is not None else [])
                inv = not any(free_bvs(x) & set(qs) for x in addr)
                if o.kind == "inst" or (inv and w.key is not None and is_const(w.key)):
                    same = [r for r in early if r[0] == w.args and r[1] is w.key]
                    if inv and same and (oid, w.args, w.key) not in cells:
                        cells.append((oid, w.args, w.key))
                elif o.kind == "dict" and w.key is not None:
                    keyfv = any(free_bvs(x) & {qs[-1]} for x in addr)
                    if oid not in prev and not keyfv:
                        prev.append(oid)
        return cells, prev

    def _body(self, seg, st, start):
        fr = self.frames[-1]
        mark = len(self.path)
        for n, v in start.items():
            fr.env[n] = v
        self.stack.extend(q for q, _ in seg.binders)
        for g in seg.guards:
            self.push(g)
        lp = LoopCtx(len(self.path))
        fr.loops.append(lp)
        self._bind_target(st, seg.elem)
        s = self.exec_block(st.body)
        fr.loops.pop()
        for c, env in reversed(lp.conts):
            if s != LIVE:
                fr.env = env
                s = LIVE
            else:
                fr.env = self.merge_env(c, env, fr.env)
        envs = fr.env
        extra = self.path[mark + len(seg.guards):]
        del self.path[mark:]
        for _ in seg.binders:
            self.stack.pop()
        return s, envs, lp, extra

    def solve_carried(self, qs, binders, items):
        """items: {name: (car, init, new)} -> (value at start of a generic iteration, value after loop)"""
        start, after = {}, {}
        # iterate: values may depend on one another
        pending = dict(items)
        progress = True
        m = {}
        while pending and progress:
            progress = False
            for n, (car, v0, e) in list(pending.items()):
                e2 = replace_top(e, lambda x: m.get(x))
                others = [c for k, (c, _, _) in pending.items() if k != n]
                if any(contains(e2, lambda x: x is c) for c in others):
                    continue
                r = self.solve_one(binders, car, v0, e2)
                if r is None:
                    continue
                start[n], after[n] = r
                m[car] = r[0]
                del pending[n]
                progress = True
        for n, (car, v0, e) in pending.items():
            if n not in start:
                start[n] = self.unk("loop-carried value %s" % (n if isinstance(n, str) else "cell"))
                after[n] = self.unk("loop-carried value %s" % (n if isinstance(n, str) else "cell"))
        return start, after

    def solve_one(self, binders, car, v0, e):
        if e is car or e is UNDEF:
            return v0, v0
        has = contains(e, lambda x: x is car)
        if not has:
            if len(binders) == 1:
                q, d = binders[0]
                if d.op == "drange":
                    b = mk("bv", q)
                    prev = subst(e, {q: sub(b, ONE)})
                    st = ite(eq(b, ZERO), v0, prev) if prev is not v0 else v0
                    last = subst(e, {q: sub(d.args[0], ONE)})
                    aft = ite(lt(ZERO, d.args[0]), last, v0)
                else:
                    b = mk("bv", q)
                    prev = subst(e, {q: mk("prevkey", b, d)})
                    st = ite(eq(pos_of(b, d), ZERO), v0, prev)
                    last = subst(e, {q: mk("lastkey", d)})
                    aft = ite(lt(ZERO, dom_len(d)), last, v0)
                return st, aft
            if not (free_bvs(e) & {q for q, _ in binders}):
                u = self.unk("carried value in nested iteration")
                return u, u
            return None
        # flags: ite(c, k, car)
        def split(x):
            """x = car + d  -> d"""
            if x is car:
                return ZERO
            if x.op == "ite":
                if contains(x.args[0], lambda y: y is car):
                    return None
                a, b = split(x.args[1]), split(x.args[2])
                if a is None or b is None:
                    return None
                return ite(x.args[0], a, b)
            d = sub(x, car)
            if contains(d, lambda y: y is car):
                return None
            return d

        d = split(e)
        if d is not None and not contains(d, lambda y: y is car):
            st, aft = v0, v0
            tot = d
            for i in range(len(binders) - 1, -1, -1):
                q, dm = binders[i]
                st = add(st, psum_before(q, dm, tot))
                tot = sum_over(q, dm, tot)
            aft = add(v0, tot)
            return st, aft
        if e.op == "ite" and not contains(e.args[0], lambda y: y is car):
            c, a, b = e.args
            if b is car and not contains(a, lambda y: y is car) and not (
                free_bvs(a) & {q for q, _ in binders}
            ):
                anyc = c
                for q, dm in reversed(binders):
                    anyc = any_over(q, dm, anyc)
                u = self.unk("flag inside loop")
                return u, ite(anyc, a, v0)
            if a is car and not contains(b, lambda y: y is car) and not (
                free_bvs(b) & {q for q, _ in binders}
            ):
                anyc = not_(c)
                for q, dm in reversed(binders):
                    anyc = any_over(q, dm, anyc)
                u = self.unk("flag inside loop")
                return u, ite(anyc, b, v0)
        if is_boolish(e) and e.op == "or" and (car in e.args or truthy(car) in e.args):
            rest = or_(*[x for x in e.args if x is not car and x is not truthy(car)])
            if not contains(rest, lambda y: y is car):
                anyc = rest
                for q, dm in reversed(binders):
                    anyc = any_over(q, dm, anyc)
                return self.unk("flag inside loop"), or_(truthy(v0), anyc)
        if is_boolish(e) and e.op == "and" and (car in e.args or truthy(car) in e.args):
            rest = and_(*[x for x in e.args if x is not car and x is not truthy(car)])
            if not contains(rest, lambda y: y is car):
                anyc = not_(rest)
                for q, dm in reversed(binders):
                    anyc = any_over(q, dm, anyc)
                return self.unk("flag inside loop"), and_(truthy(v0), not_(anyc))
        if len(binders) == 1:
            q, dm = binders[0]
            cm = mk("acc", fold_height(e))
            body = replace_top(e, lambda x: cm if x is car else None)
            lv, b = bind(body, q)
            aft = mk("fold", dm, lv, v0, b)
            return mk("pfold", mk("bv", q), dm, lv, v0, b), aft
        return None

    def exec_while(self, st):
        fr = self.frames[-1]
        names = [n for n in sorted(self.assigned_names(st.body)) if n in fr.env]
        env0 = dict(fr.env)
        t0 = self.decide(self.truth(self.eval(st.test)))
        if t0 is FALSE:
            return self.exec_block(st.orelse)
        counted = self.counted_while(st)
        if counted is not None:
            var, start, step, limit = counted
            end = self.eval(limit)
            first = fr.env[var]
            done = self.exec_for(ast.copy_location(ast.fix_missing_locations(ast.For(
                target=ast.Name(var, ast.Store()),
                iter=ast.Call(ast.Name("range", ast.Load()), [ast.Constant(start), limit, ast.Constant(step)], []),
                body=st.body[:-1] or [ast.Pass()], orelse=st.orelse, lineno=st.lineno, col_offset=st.col_offset)), st))
            if done == LIVE:
                fr.env[var] = ite(t0, end, first) if step == 1 else self.unk("counter after the loop")
            return done
        if self.unroll_while:
            return self.while_unrolled(st)
        # one generic iteration with unknown carried values
        snap = self.snapshot()
        nret = len(fr.returns)
        mark = len(self.path)
        q = self.fresh()
        dom = mk("dwhile", q)
        self.doms[q] = dom
        # pass 1: find what changes
        wid = q
        for n in names:
            fr.env[n] = mk("wcar", wid, n)
        self.stack.append(q)
        c = self.decide(self.truth(self.eval(st.test)))
        self.push(c, "if")
        lp = LoopCtx(len(self.path))
        fr.loops.append(lp)
        s = self.exec_block(st.body)
        fr.loops.pop()
        for cc, env in reversed(lp.conts):
            if s != LIVE:
                fr.env = env
                s = LIVE
            else:
                fr.env = self.merge_env(cc, env, fr.env)
        envb = fr.env
        extra = self.path[mark + 1:]
        del self.path[mark:]
        self.stack.pop()
        # wcar(n) stands for: initial value or value after the previous iteration
        info = self.__dict__.setdefault("while_info", {})
        info[wid] = {
            "init": {n: env0[n] for n in names},
            "step": {n: envb.get(n, UNDEF) for n in names},
            "test": c,
            "breaks": [(cc, {n: e.get(n, UNDEF) for n in names}) for cc, e in lp.breaks],
            "returns": fr.returns[nret:],
        }
        for n in names:
            fr.env[n] = mk("wcar", wid, n) if not lp.breaks else mk("wout", wid, n)
        for n in self.assigned_names(st.body):
            if n not in names and n in envb:
                fr.env[n] = envb[n]
        if not lp.breaks:
            self.path.append((not_(c), "wexit"))
        return LIVE

    def counted_while(self, st):
        """i = k; while i < n: ...; i += 1  with nothing else touching i or n"""
        fr = self.frames[-1]
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and st.body and fr.env.get("range") is None):
            return None
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt):
            a, b = b, a
        elif not isinstance(op, ast.Lt):
            return None
        if not isinstance(a, ast.Name) or a.id not in fr.env or not is_num(fr.env[a.id]) or type(cval(fr.env[a.id])) is not int:
            return None
        inc = st.body[-1]
        step = None
        if isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == a.id:
            step = inc.value
        elif isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name) and inc.targets[0].id == a.id and isinstance(inc.value, ast.BinOp) and isinstance(inc.value.op, ast.Add):
            l, r = inc.value.left, inc.value.right
            if isinstance(l, ast.Name) and l.id == a.id:
                step = r
            elif isinstance(r, ast.Name) and r.id == a.id:
                step = l
        if not (isinstance(step, ast.Constant) and type(step.value) is int and step.value > 0):
            return None
        body = st.body[:-1]
        changed = self.assigned_names(body)
        if a.id in changed:
            return None
        for x in body:
            for y in ast.walk(x):
                if isinstance(y, (ast.Continue, ast.Break, ast.NamedExpr, ast.Lambda, ast.FunctionDef)):
                    return None
        texts = set()
        for x in ast.walk(b):
            if isinstance(x, ast.Name):
                if x.id in changed or x.id == a.id:
                    return None
            elif isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                    return None
                texts.add(ast.unparse(x.args[0]))
            elif isinstance(x, ast.Attribute):
                texts.add(ast.unparse(x))
            elif not isinstance(x, (ast.Constant, ast.BinOp, ast.operator, ast.expr_context)):
                return None
        for x in body:
            for y in ast.walk(x):
                # the limit may move: a list named in it is handled in the body by more than reading
                if isinstance(y, ast.Attribute) and ast.unparse(y.value) in texts and y.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "popitem", "setdefault"):
                    return None
                if isinstance(y, (ast.Attribute, ast.Subscript)) and isinstance(y.ctx, (ast.Store, ast.Del)) and any(ast.unparse(y) == v or ast.unparse(y.value) == v for v in texts):
                    return None
        return a.id, cval(fr.env[a.id]), step.value, b

    def while_unrolled(self, st):
        """loop whose test is determined in every iteration"""
        fr = self.frames[-1]
        for _ in range(self.unroll_while):
            c = self.decide(self.truth(self.eval(st.test)))
            if c is FALSE:
                return self.exec_block(st.orelse)
            if c is not TRUE:
                raise AnalysisError("loop test not determined: %s" % show(c)[:120])
            mark = len(self.path)
            lp = LoopCtx(mark)
            fr.loops.append(lp)
            s = self.exec_block(st.body)
            fr.loops.pop()
            if any(g is not TRUE for g, _ in lp.breaks + lp.conts):
                raise AnalysisError("loop exit not determined")
            if s == "break":
                return LIVE
            if s not in (LIVE, "continue"):
                return s
        raise AnalysisError("loop does not end")

    def exec_with(self, st, k=0):
        if k == len(st.items):
            return self.exec_block(st.body)
        it = st.items[k]
        v = self.eval(it.context_expr)
        if v.op == "cmgr":
            out = []

            def hook(y):
                # the body of the with statement runs where the generator yields
                inner = self.frames.pop()
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, y)
                    out.append(self.exec_with(st, k + 1))
                finally:
                    self.frames.append(inner)

            self.cm_pending.append(hook)
            f, args, kwargs = self.cmgrs[v.args[0]]
            self.call(f, args, kwargs)
            return out[0] if out else LIVE
        self.effect("enter", ctx=v)
        ent = v
        own = v.op == "ref" and self.obj(v).kind == "inst"
        if own and self.find_method(self.obj(v).cls, "__enter__"):
            ent = self.call_method(v, "__enter__", [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent)
        if own:
            self.effect("tryfinally", phase="begin", id=(id(st), k))
        s = self.exec_with(st, k + 1)
        if own:
            self.effect("tryfinally", phase="finally", id=(id(st), k))
            if self.find_method(self.obj(v).cls, "__exit__"):
                self.call_method(v, "__exit__", [NONE, NONE, NONE], {})
            self.effect("tryfinally", phase="end", id=(id(st), k))
        self.effect("exit", ctx=v)
        return s

    def exec_try(self, st):
        fr = self.frames[-1]
        mark = len(self.path)
        env0 = dict(fr.env)
        has_handlers = bool(st.handlers)
        ne = len(self.effects)
        if has_handlers:
            self.try_depth += 1
        if st.finalbody:
            self.effect("tryfinally", phase="begin", id=id(st))
        lookup = [h for h in st.handlers if h.type is not None and ast.unparse(h.type) in ("KeyError", "LookupError")]
        lr = self.log_reads
        if lookup:
            self.log_reads = True
        s = self.exec_block(st.body)
        self.log_reads = lr
        kcond = None
        if lookup:
            reads = [e for e in self.effects[ne:] if e.kind == "keyread"]
            if reads:
                kcond = or_(*[and_(not_(self.decide(mk("in", e.key, e.target))), *[g for g, _ in e.guards[mark:]])
                              for e in reads if len(e.binders) == len(self.stack)])
                if any(len(e.binders) != len(self.stack) for e in reads):
                    kcond = None
            self.effects[ne:] = [e for e in self.effects[ne:] if e.kind != "keyread"]
        if has_handlers:
            self.try_depth -= 1
        raised = [e for e in self.effects[ne:] if e.kind == "raise"]
        envb = fr.env
        if has_handlers:
            # facts from absence of exceptions no longer hold after a handler
            extra = self.path[mark:]
            if s == LIVE:
                s2 = self.exec_block(st.orelse)
                s = s2
                envb = fr.env
            hs = []
            exc = mk("exc", self.fresh())
            del self.path[mark:]
            conts = []
            for h in st.handlers:
                fr.env = self.merge_env(mk("partial", exc.args[0]), envb, env0)
                m2 = len(self.path)
                if h in lookup and kcond is not None:
                    hc = kcond
                    if len(st.body) == 1 and isinstance(st.body[0], (ast.Assign, ast.Expr, ast.Return)):
                        fr.env = dict(env0)
                else:
                    hc = mk("caught", exc.args[0], ast.dump(h.type) if h.type is not None else "")
                self.push(hc, "if")
                if h.name:
                    fr.env[h.name] = mk("excval", exc.args[0])
                self.effect("handler", type=ast.unparse(h.type) if h.type is not None else "", exc=exc)
                sh = self.exec_block(h.body)
                hs.append((hc, sh, fr.env))
                hextra = [x for x in self.path[m2 + 1:]]
                del self.path[m2:]
            live = [(c, e) for c, x, e in hs if x == LIVE]
            if s == LIVE:
                fr.env = envb
                for c, e in live:
                    fr.env = self.merge_env(c, e, fr.env)
                deadh = [c for c, x, e in hs if x != LIVE]
                nc = not_(or_(*[c for c, _ in live])) if live else TRUE
                for g, tag in extra:
                    self.path.append((or_(*([c for c, _ in live] + [g])), tag))
                for c, x, e in hs:
                    if x != LIVE:
                        self.path.append((not_(c), "raise" if x == "raise" else "exit"))
                r = LIVE
            else:
                if live:
                    fr.env = live[0][1]
                    for c, e in live[1:]:
                        fr.env = self.merge_env(c, e, fr.env)
                    if s != "raise" or True:
                        self.path.append((or_(*[c for c, _ in live]), "exit"))
                    r = LIVE
                else:
                    kinds = {s} | {x for _, x, _ in hs}
                    kinds.discard("raise")
                    r = kinds.pop() if len(kinds) == 1 else ("raise" if not kinds else "exit")
            s = r
        else:
            if s == LIVE and st.orelse:
                s = self.exec_block(st.orelse)
        if st.finalbody:
            self.effect("tryfinally", phase="finally", id=id(st))
            sf = self.exec_block(st.finalbody)
            self.effect("tryfinally", phase="end", id=id(st))
            if sf != LIVE:
                return sf
        return s

    # ---- assignment
    def assign(self, tg, v):
        fr = self.frames[-1]
        if isinstance(tg, ast.Name):
            if tg.id in fr.globals_decl:
                self.effect("globalwrite", module=fr.module.name, name=tg.id, val=v)
                k = (fr.module.name, tg.id)
                self.mod_global(fr.module, tg.id)
                old = self.modvals.get(k[0], {}).get(tg.id)
                g = and_(*[x for x, tag in self.path if tag != "raise"])
                self.variable(k, v)
                self.modvals.setdefault(k[0], {})[tg.id] = v if old is None else ite(g, v, old)
                return
            if tg.id in fr.nonlocals:
                c = fr.closure
                while c is not None:
                    if tg.id in c.env:
                        g = and_(*[x for x, tag in self.path[fr.path_mark:] if tag != "raise"])
                        c.env[tg.id] = ite(g, v, c.env[tg.id])
                        return
                    c = c.closure
            fr.env[tg.id] = v
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                segs = self.iterate(v)
                if all(not s.binders and not s.guards for s in segs):
                    k = star[0]
                    elems = [s.elem for s in segs]
                    tail = n - k - 1
                    for e, x in zip(tg.elts[:k], elems[:k]):
                        self.assign(e, x)
                    mid = elems[k: len(elems) - tail]
                    self.assign(tg.elts[k].value, self.new_list(mid))
                    for e, x in zip(tg.elts[k + 1:], elems[len(elems) - tail:]):
                        self.assign(e, x)
                else:
                    for e in tg.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk("starred unpacking"))
                return
            for i, e in enumerate(tg.elts):
                self.assign(e, self.unpack(v, i, n))
            return
        if isinstance(tg, ast.Attribute):
            base = self.eval(tg.value)
            self.setattr(base, tg.attr, v)
            return
        if isinstance(tg, ast.Subscript):
            base = self.eval(tg.value)
            idx = self.eval_slice(tg.slice)
            self.setitem(base, idx, v)
            return
        if isinstance(tg, ast.Starred):
            self.assign(tg.value, v)

    def unpack(self, v, i, n):
        if v.op == "tuple":
            return v.args[i] if i < len(v.args) else self.unk("unpacking")
        if v.op == "ref" and self.obj(v).kind == "list":
            return self.list_item(v, const(i))
        if v.op in ("keys", "values", "items", "zip", "chain", "enumerate", "reversed"):
            return self._seg_item(self.iterate(v), v, const(i))
        if v.op == "ite":
            c = self.decide(v.args[0])
            return ite(c, self.unpack(v.args[1], i, n), self.unpack(v.args[2], i, n))
        return self.getitem(v, const(i))

    def aug_assign(self, st):
        opn = type(st.op).__name__
        tg = st.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id)
            rhs = self.eval(st.value)
            self.assign(ast.Name(id=tg.id, ctx=ast.Store()), self.aug(cur, opn, rhs, st))
            return
        if isinstance(tg, ast.Attribute):
            base = self.eval(tg.value)
            cur = self.getattr(base, tg.attr)
            rhs = self.eval(st.value)
            v = self.aug(cur, opn, rhs, st)
            if v is cur and v.op in ("attr", "item"):
                return  # changed in place, the attribute keeps its object
            self.setattr(base, tg.attr, v)
            return
        if isinstance(tg, ast.Subscript):
            base = self.eval(tg.value)
            idx = self.eval_slice(tg.slice)
            if base.op == "ref" and self.obj(base).kind == "arr" and opn in ("Add", "Sub") and (
                    idx.op == "slice" or idx.op not in ("bv", "const", "tuple", "sym", "ref") and free_bvs(idx)):
                rhs = self.eval(st.value)
                self.write(base, idx, tuple_(const(opn), rhs), "acc")
                self.effect("store", target=base, idx=idx, val=mk("unk", self.fresh(), "accumulated"))
                return
            cur = self.getitem(base, idx)
            rhs = self.eval(st.value)
            v = self.aug(cur, opn, rhs, st)
            if v is cur and v.op in ("attr", "item"):
                return
            self.setitem(base, idx, v)

    def aug(self, cur, opn, rhs, st):
        if cur.op == "ref" and self.obj(cur).kind == "list" and opn == "Add":
            self.list_extend(cur, rhs)
            return cur
        dn = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__"}.get(opn)
        if dn and self.has_user_method(cur, dn):
            return self.call_method(cur, dn, [rhs], {})
        if cur.op == "ref" and self.obj(cur).kind == "arr":
            new = self.binop(opn, self.arr_value(cur), rhs)
            self.write(cur, const("*"), new)
            self.effect("arrwrite", target=cur, val=new)
            return cur
        ty = self.typeof(cur)
        if opn == "Add" and isinstance(ty, tuple) and ty[0] == "list" and cur.op != "ref":
            segs = self.iterate(rhs)
            if all(not x.binders and not x.guards for x in segs):
                for x in segs:
                    self.call_method(cur, "append", [x.elem], {})
            else:
                self.effect("mutate", target=cur, how="+=", key=NONE, val=rhs)
            return cur
        if cur.op in ("attr", "item", "xattr", "sym", "mcall") and (ty == "arr" or ty == "frame" or (ty is None and cur.op in ("sym",))):
            # in-place arithmetic on something that may be a caller's array
            self.effect("inplace", target=cur, opname=opn, val=rhs)
        return self.binop(opn, cur, rhs)

    def arr_value(self, ref):
        """whole content of an array object as a value"""
        o = self.obj(ref)
        init = o.meta.get("init")
        if init is not None and any(w.op == "set" and w.key is not None and w.key.op == "slice" for w in o.writes):
            from . import externals
            v = externals.accumulated(self, ref)
            if v is not ref:
                return v
        v = self.read(ref, const("*"))
        if v is not None and v is not UNDEF and init is not None and v.op != "unk":
            i2 = self.inst_meta(ref, init)
            v = replace_top(v, lambda x: i2 if x is UNDEF else None)
        if v is not None and v is not UNDEF:
            if any(w.op == "acc" for w in o.writes):
                return ref
            return v
        if any(w.op == "acc" for w in o.writes):
            return ref
        cells = [w for w in o.writes if w.op == "set" and w.key is not const("*")]
        if cells:
            return ref
        init = o.meta.get("init")
        return self.inst_meta(ref, init) if init is not None else ref

    def filtered(self, t, keep):
        """fresh list of the elements x of t with keep(x)"""
        r = self.alloc("list")
        for s in self.iterate(t):
            m = len(self.path)
            self.stack.extend(q for q, _ in s.binders)
            for g in s.guards:
                self.push(g)
            c = keep(s.elem)
            if c is not FALSE:
                self.push(c)
                self.write(r, None, s.elem, "append")
            del self.path[m:]
            for _ in s.binders:
                self.stack.pop()
        return r

    def setish(self, t):
        return t.op in ("setof", "keys")

    def subset(self, a, b):
        out = FALSE
        for s in self.iterate(a):
            c = and_(*(s.guards + [not_(self.contains_(s.elem, b))]))
            for q, d in reversed(s.binders):
                c = any_over(q, d, c)
            out = or_(out, c)
        return self.decide(not_(out))

    def list_extend(self, ref, other):
        segs = None
        if other.op == "ref" and self.obj(other).kind == "list" or other.op in ("tuple",):
            segs = self.iterate(other)
            if all(not s.binders for s in segs):
                for s in segs:
                    m = len(self.path)
                    for g in s.guards:
                        self.push(g)
                    self.write(ref, None, s.elem, "append")
                    del self.path[m:]
                return
        for s in segs if segs is not None else self.iterate(other):
            m = len(self.path)
            self.stack.extend(q for q, _ in s.binders)
            for g in s.guards:
                self.push(g)
            self.write(ref, None, s.elem, "append")
            del self.path[m:]
            for _ in s.binders:
                self.stack.pop()

    # ------------------------------------------------------------------ expressions
    def eval(self, n):
        prev = self.node
        if hasattr(n, "lineno"):
            self.node = n
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            v = self.unk("expression %s" % type(n).__name__)
        else:
            v = m(n)
        self.node = prev
        if v is None:
            raise AnalysisError("no value for %s" % ast.dump(n)[:200])
        return v

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs = self.iterate(self.eval(e.value))
                if any(s.binders or s.guards for s in segs):
                    return self.unk("starred symbolic collection")
                out += [s.elem for s in segs]
            else:
                out.append(self.eval(e))
        return tuple_(*out)

    def e_List(self, n):
        r = self.alloc("list")
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.list_extend(r, self.eval(e.value))
            else:
                self.write(r, None, self.eval(e), "append")
        return r

    def e_Set(self, n):
        return mk("setof", tuple_(*[self.eval(e) for e in n.elts]))

    def e_Dict(self, n):
        r = self.alloc("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(r, self.eval(v))
            else:
                kk = self.eval(k)
                self.write(r, kk, self.eval(v))
        return r

    def dict_update(self, ref, src):
        for s in self.iter_dict(src, "items"):
            m = len(self.path)
            self.stack.extend(q for q, _ in s.binders)
            for g in s.guards:
                self.push(g)
            self.write(ref, s.elem.args[0], s.elem.args[1])
            del self.path[m:]
            for _ in s.binders:
                self.stack.pop()

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.eval(v.value))
        return strcat(*parts)

    def e_FormattedValue(self, n):
        return self.eval(n.value)

    def e_Attribute(self, n):
        base = self.eval(n.value)
        if base.op == "mod" and base.args[0] not in self.p.modules:
            return self.ext_attr(base.args[0] + "." + n.attr)
        return self.getattr(base, n.attr)

    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            return mk(
                "slice",
                self.eval(s.lower) if s.lower else NONE,
                self.eval(s.upper) if s.upper else NONE,
                self.eval(s.step) if s.step else NONE,
            )
        if isinstance(s, ast.Tuple):
            return tuple_(*[self.eval_slice(e) for e in s.elts])
        return self.eval(s)

    def e_Slice(self, n):
        return self.eval_slice(n)

    def e_Subscript(self, n):
        base = self.eval(n.value)
        idx = self.eval_slice(n.slice)
        if base.op == "ref" and self.obj(base).kind == "list" and idx.op == "slice":
            if all(a is NONE for a in idx.args):
                return self.shallow_copy(base)
            if idx.args[0] is NONE and idx.args[1] is NONE and idx.args[2] is const(-1):
                return mk("reversed", base)
        if base.op in ("class", "ext") and base.op == "class":
            return base
        if base.op == "ext" and base.args[0].startswith("typing."):
            return base
        return self.getitem(base, idx)

    def shallow_copy(self, t):
        if t.op == "ref":
            o = self.obj(t)
            if o.kind == "list":
                r = self.alloc("list")
                self.list_extend(r, t)
                return r
            if o.kind == "dict":
                r = self.alloc("dict")
                self.dict_update(r, t)
                return r
            if o.kind == "inst":
                r = self.alloc("inst", o.cls)
                for s in self.dictof_entries(t):
                    self.write(r, s.elem.args[0], s.elem.args[1])
                return r
            return self.clone(t)
        if t.op == "dictof":
            r = self.alloc("dict")
            for s in self.dictof_entries(t.args[0]):
                self.write(r, s.elem.args[0], s.elem.args[1])
            return r
        ty = self.typeof(t)
        if isinstance(ty, tuple) and ty[0] == "dict":
            r = self.alloc("dict")
            self.dict_update(r, t)
            return r
        if isinstance(ty, tuple) and ty[0] == "list":
            r = self.alloc("list")
            self.list_extend(r, t)
            return r
        return mk("copy", t, self.fresh())

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            if v.op == "ref" and self.obj(v).kind == "arr":
                v = self.arr_value(v)
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk("invert", v)

    def truth(self, v):
        """truth value of v, using container contents when known"""
        if v.op == "ref":
            o = self.obj(v)
            if o.kind == "list":
                return lt(ZERO, self.length(v))
            if o.kind == "dict":
                return lt(ZERO, self.length(v))
            if o.kind == "inst":
                if self.find_method(o.cls, "__bool__"):
                    return truthy(self.call_method(v, "__bool__", [], {}))
                if self.find_method(o.cls, "__len__"):
                    return lt(ZERO, self.call_method(v, "__len__", [], {}))
                return TRUE
            if o.kind in ("arr", "frame"):
                return mk("truthy", v)
            return TRUE
        if v.op == "ite":
            c = self.decide(v.args[0])
            return ite(c, self.truth(v.args[1]), self.truth(v.args[2]))
        if v.op == "setof":
            out = FALSE
            for s in self.iterate(v):
                c = and_(*s.guards)
                for q, d in reversed(s.binders):
                    c = any_over(q, d, c)
                out = or_(out, c)
            return self.decide(out)
        ty = self.typeof(v)
        if isinstance(ty, tuple) and ty[0] == "dict" and v.op not in ("sym",):
            return truthy(v)
        return self.decide(truthy(v))

    def e_BoolOp(self, n):
        is_or = isinstance(n.op, ast.Or)
        vals = []
        mark = len(self.path)
        acc = None
        exprs = n.values
        res = []
        for i, e in enumerate(exprs):
            v = self.eval(e)
            if i == len(exprs) - 1:
                res.append((None, v))
                break
            t = self.decide(self.truth(v))
            if is_or:
                if t is TRUE:
                    res.append((None, v))
                    break
                if t is FALSE:
                    continue
                res.append((t, v))
                self.push(not_(t))
            else:
                if t is FALSE:
                    res.append((None, v))
                    break
                if t is TRUE:
                    continue
                res.append((t, v))
                self.push(t)
        facts = [(g, tag) for g, tag in self.path[mark:] if tag == "raise"]
        del self.path[mark:]
        acc = res[-1][1]
        for t, v in reversed(res[:-1]):
            if is_or:
                if self.empty_default(v, acc):
                    acc = v
                elif is_boolish(v) and is_boolish(acc):
                    acc = or_(v, acc)
                else:
                    acc = ite(t, v, acc)
            else:
                if is_boolish(v) and (is_boolish(acc)):
                    acc = and_(v, acc)
                elif is_boolish(v):
                    acc = and_(v, self.truth(acc)) if True else acc
                else:
                    acc = ite(t, acc, v)
        return acc

    def empty_default(self, v, alt):
        """`v or {}` / `v if v else {}`: an empty container replaced by an empty container"""
        if alt.op == "ref" and self.obj(alt).kind in ("dict", "list") and not self.obj(alt).writes:
            ty = self.typeof(v)
            if isinstance(ty, tuple) and ty[0] == self.obj(alt).kind:
                return True
        return False

    def e_Compare(self, n):
        left = self.eval(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(*out)

    DUN = {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}
    SWP = {"Lt": "__gt__", "Gt": "__lt__", "LtE": "__ge__", "GtE": "__le__"}

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if a is NONE or b is NONE:
                x = b if a is NONE else a
                r = self.is_none(x)
            else:
                r = TRUE if a is b else (self.decide(eq(a, b)) if (is_const(a) or is_const(b) or a.op in ("class", "ext") or b.op in ("class", "ext")) else mk("is", *sorted((a, b), key=lambda z: z.key)))
            return r if op == "Is" else not_(r)
        if op == "In":
            return self.contains_(a, b)
        if op == "NotIn":
            return not_(self.contains_(a, b))
        if a.op == "ite" and self.cmp_needs_split(a, b):
            c = self.decide(a.args[0])
            return ite(c, self.compare(op, a.args[1], b), self.compare(op, a.args[2], b))
        if b.op == "ite" and self.cmp_needs_split(b, a):
            c = self.decide(b.args[0])
            return ite(c, self.compare(op, a, b.args[1]), self.compare(op, a, b.args[2]))
        if self.setish(a) and (self.setish(b) or b.op == "setof") and op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
            sub_, sup = self.subset(a, b), self.subset(b, a)
            return {"LtE": sub_, "GtE": sup, "Eq": and_(sub_, sup), "NotEq": not_(and_(sub_, sup)),
                    "Lt": and_(sub_, not_(sup)), "Gt": and_(sup, not_(sub_))}[op]
        if op in ("Eq", "NotEq"):
            if self.has_user_method(a, "__eq__") and not self.dto_eq(a):
                r = truthy(self.call_method(a, "__eq__", [b], {}))
            else:
                r = self.decide(self.equal(a, b))
            return r if op == "Eq" else not_(r)
        if self.has_user_method(a, self.DUN[op]):
            return self.call_method(a, self.DUN[op], [b], {})
        if self.has_user_method(b, self.SWP[op]):
            return self.call_method(b, self.SWP[op], [a], {})
        if a.op == "ref" and self.obj(a).kind == "arr":
            a = self.arr_value(a)
        if b.op == "ref" and self.obj(b).kind == "arr":
            b = self.arr_value(b)
        if self.muts:
            a, b = self.now(a), self.now(b)
        if op == "Lt":
            return self.decide(lt(a, b))
        if op == "LtE":
            return self.decide(le(a, b))
        if op == "Gt":
            return self.decide(lt(b, a))
        return self.decide(le(b, a))

    def cmp_needs_split(self, a, b):
        return True

    def dto_eq(self, a):
        """equality of data objects is field equality: keep it symbolic"""
        return True if a.op != "ref" or self.obj(a).kind == "inst" else False

    def has_user_method(self, t, name):
        if t.op == "ref":
            o = self.obj(t)
            return o.kind == "inst" and self.find_method(o.cls, name) is not None
        ty = self.typeof(t)
        if isinstance(ty, tuple) and ty[0] == "inst":
            c = self.cls_by_name(ty[1])
            return c is not None and self.find_method(c, name) is not None
        return False

    def is_none(self, x):
        if x is NONE:
            return TRUE
        if x.op == "ite":
            c = self.decide(x.args[0])
            return ite(c, self.is_none(x.args[1]), self.is_none(x.args[2]))
        if x.op in ("const", "tuple", "ref", "func", "class", "ext", "mod", "bmeth", "poly", "strcat", "slice"):
            return FALSE
        ty = self.typeof(x)
        if ty is not None and not (isinstance(ty, tuple) and ty[0] == "opt") and ty != "any":
            return FALSE
        if x.op in ("call", "mcall", "items", "keys", "values", "listof"):
            if x.op == "mcall" and x.args[1] in ("get", "pop"):
                return self.decide(eq(x, NONE))
            return FALSE if x.op != "mcall" else self.decide(eq(x, NONE))
        return self.decide(eq(x, NONE))

    BIN = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}
    RBIN = {"Add": "__radd__", "Sub": "__rsub__", "Mult": "__rmul__", "Div": "__rtruediv__"}

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if self.muts:
            a, b = self.now(a), self.now(b)
        if op in self.BIN:
            if self.has_user_method(a, self.BIN[op]):
                return self.call_method(a, self.BIN[op], [b], {})
            if self.has_user_method(b, self.RBIN[op]):
                return self.call_method(b, self.RBIN[op], [a], {})
        if op == "Add":
            la = self.listish(a)
            lb = self.listish(b)
            if la or lb:
                if a.op == "tuple" and b.op == "tuple":
                    return tuple_(*(a.args + b.args))
                r = self.alloc("list")
                self.list_extend(r, a)
                self.list_extend(r, b)
                return r
            if self.strish(a) or self.strish(b):
                return strcat(a, b)
            if a.op == "tuple" and b.op == "tuple":
                return tuple_(*(a.args + b.args))
        if op == "Mult":
            for x, k in ((a, b), (b, a)):
                if x.op == "ref" and self.obj(x).kind == "list":
                    segs = self.iterate(x)
                    if is_num(k):
                        r = self.alloc("list")
                        for _ in range(int(cval(k))):
                            self.list_extend(r, x)
                        return r
                    return mk("repeatlist", x, k)
                if x.op == "tuple" and is_num(k):
                    return tuple_(*(x.args * int(cval(k))))
                if is_str(x) and is_num(k):
                    return const(cval(x) * int(cval(k)))
        if op == "Mod" and (is_str(a) or a.op == "strcat"):
            return fmt_percent(a, b)
        if op == "BitOr" and a.op == "ref" and self.obj(a).kind == "dict":
            r = self.alloc("dict")
            self.dict_update(r, a)
            self.dict_update(r, b)
            return r
        if a.op == "ref" and self.obj(a).kind == "arr":
            a = self.arr_value(a)
        if b.op == "ref" and self.obj(b).kind == "arr":
            b = self.arr_value(b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            if self.setish(a):
                return mk("setof", self.filtered(a, lambda x: not_(self.contains_(x, b))))
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "BitAnd" and self.setish(a):
            return mk("setof", self.filtered(a, lambda x: self.contains_(x, b)))
        if op == "BitOr" and self.setish(a):
            r = self.alloc("list")
            self.list_extend(r, a)
            self.list_extend(r, b)
            return mk("setof", r)
        if op in ("BitAnd", "BitOr") :
            return mk("band" if op == "BitAnd" else "bor", *sorted((a, b), key=lambda z: z.key))
        if op == "Pow" and is_num(b):
            k = cval(b)
            if isinstance(k, int) and 0 <= k <= 4:
                r = ONE
                for _ in range(k):
                    r = mul(r, a)
                return r
        if op in ("FloorDiv", "Mod") and is_num(a) and is_num(b) and b.args[1] != 0:
            return const(cval(a) // cval(b) if op == "FloorDiv" else cval(a) % cval(b))
        return mk("op" + op, a, b)

    def listish(self, t):
        if t.op == "ref":
            return self.obj(t).kind == "list"
        ty = self.typeof(t)
        return isinstance(ty, tuple) and ty[0] == "list"

    def strish(self, t):
        return is_str(t) or t.op == "strcat" or self.typeof(t) == "str"

    def e_IfExp(self, n):
        t = self.decide(self.truth(self.eval(n.test)))
        if t is TRUE:
            return self.eval(n.body)
        if t is FALSE:
            return self.eval(n.orelse)
        m = len(self.path)
        self.push(t)
        a = self.eval(n.body)
        del self.path[m:]
        self.push(not_(t))
        b = self.eval(n.orelse)
        del self.path[m:]
        if t.op == "truthy" and t.args[0] is a and self.empty_default(a, b):
            return a
        if t.op in ("le0",) and self.empty_default(a, b) and a.op == "ref":
            return a
        return ite(t, a, b)

    def e_Lambda(self, n):
        fr = self.frames[-1]
        fid = self.fresh()
        # capture by reference to the enclosing frame
        self.closures[fid] = (fr.module, n, None, fr)
        return mk("func", fid)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.frames[-1].env[n.target.id] = v
        return v

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Await(self, n):
        return self.unk("await")

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        fr = self.frames[-1]
        if fr.hook is not None:
            fr.hook(v)
            return NONE
        if fr.yields is not None:
            self.write(fr.yields, None, v, "append")
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            self.list_extend(fr.yields, v)
        return NONE

    # ---- comprehensions
    def remembers(self, snap, qs):
        """does the body read and write the same older dict or attribute?"""
        return any(any(self.heap_carried(snap, [q])) for q in qs)

    def comp(self, generators, emit):
        fr = self.frames[-1]
        saved = dict(fr.env)
        snap, mark = self.snapshot(), len(self.path)
        bound = []

        def go(i):
            if i == len(generators):
                emit()
                return
            g = generators[i]
            for s in self.iterate(self.eval(g.iter)):
                m = len(self.path)
                self.stack.extend(q for q, _ in s.binders)
                bound.extend(q for q, _ in s.binders)
                for c in s.guards:
                    self.push(c)
                self.assign(g.target, s.elem)
                dead = False
                for cond in g.ifs:
                    c = self.decide(self.truth(self.eval(cond)))
                    if c is FALSE:
                        dead = True
                        break
                    if c is not TRUE:
                        self.push(c)
                if not dead:
                    go(i + 1)
                keep = [x for x in self.path[m:] if x[1] == "raise"]
                del self.path[m:]
                for _ in s.binders:
                    self.stack.pop()
                for gg, tag in keep:
                    f = not_(gg)
                    for q, d in reversed(s.binders):
                        f = any_over(q, d, f)
                    self.path.append((not_(f), "raise"))

        go(0)
        if bound and self.remembers(snap, bound):
            # what one round leaves behind is seen by the next one: treat it as the loop it is
            self.rollback(snap)
            del self.path[mark:]
            fr.env = dict(saved)
            self.exec_stmt(loop_of(generators, emit))
        new = fr.env
        fr.env = saved
        # named expressions leak, targets do not
        for gen in generators:
            for cond in gen.ifs:
                for x in ast.walk(cond):
                    if isinstance(x, ast.NamedExpr) and x.target.id in new:
                        fr.env[x.target.id] = new[x.target.id]

    def e_ListComp(self, n):
        r = self.alloc("list")
        self.comp(n.generators, lambda: self.write(r, None, self.eval(n.elt), "append"))
        return r

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        return mk("setof", self.e_ListComp(n))

    def e_DictComp(self, n):
        r = self.alloc("dict")

        def emit():
            k = self.eval(n.key)
            self.write(r, k, self.eval(n.value))

        self.comp(n.generators, emit)
        return r

    # ---- calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            f = fr
            while f is not None and getattr(f, "defcls", None) is None:
                f = f.closure
            if f is not None:
                return mk("super", f.defcls.qual, f.env[f.selfarg])
        if isinstance(n.func, ast.Name) and n.func.id == "super" and len(n.args) == 2:
            c = self.eval(n.args[0])
            s = self.eval(n.args[1])
            if c.op == "class":
                return mk("super", c.args[0], s)
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                segs = self.iterate(v)
                if any(s.binders or s.guards for s in segs):
                    args.append(mk("star", v))
                else:
                    args += [s.elem for s in segs]
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                for s in self.iter_dict(d, "items"):
                    kk, vv = s.elem.args
                    if s.binders or not is_str(kk):
                        kwargs["**"] = d
                    else:
                        if s.guards:
                            vv = ite(and_(*s.guards), vv, UNDEF)
                        kwargs[cval(kk)] = vv
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.node = n
        return self.call(f, args, kwargs, n)

    # ------------------------------------------------------------------ external dispatch
    def ext_call(self, dotted, args, kwargs):
        from . import externals

        if dotted in self.summaries:
            return self.summaries[dotted](self, args, kwargs)

        return externals.call(self, dotted, args, kwargs)

    def method_ext(self, recv, name, args, kwargs):
        from . import externals

        return externals.method(self, recv, name, args, kwargs)

    # ------------------------------------------------------------------ entry points
    def run(self, f, args=(), kwargs=None, module=None):
        """call f from a neutral top frame"""
        if STALE and not self.frames:
            self.stale_state()
        m = module or next(iter(self.p.modules.values()))
        fr = Frame(m, {}, None, "<entry>")
        self.frames.append(fr)
        try:
            return self.call(f, list(args), kwargs or {})
        except _Raised:
            raise Dead()
        finally:
            self.frames.pop()

    def stale_state(self):
        """between two calls of the user another object or call may have left its values"""
        for k, mode in STALE.items():
            if mode != "var":
                continue
            if k[:2] in self.class_vals and len(k) == 2:
                self.class_vals[k] = kept.kept(k)
            elif len(k) == 2 and k[1] in self.modvals.get(k[0], {}):
                self.modvals[k[0]][k[1]] = kept.kept(k)
        for o in list(self.objs.values()):
            lab = o.meta.get("static")
            if o.kind == "inst" and lab is not None:
                for k, mode in STALE.items():
                    if mode == "var" and k[:-1] == lab:
                        self.write(mk("ref", o.oid, tuple(mk("bv", q) for q in o.formals)), const(k[-1]), kept.kept(k))

    def function(self, qual):
        """term for a module-level function or method, by dotted name"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.p.modules:
                rest = parts[i:]
                r = self.p.resolve(mod, rest[0])
                if r is None:
                    return None
                t = self.global_value(r, mod, rest[0])
                for x in rest[1:]:
                    if t.op != "class":
                        return None
                    c = self.p.classes[t.args[0]]
                    mm = self.find_method(c, x)
                    if mm is None:
                        return None
                    t = self.func_term(mm[0].module, mm[1], mm[0])
                return t
        return None


def segs_conditional(segs):
    return any(s.guards for s in segs)


_LOCALS = {}


def _locals(node):
    """local variables of a function, when every read of an unassigned one certainly fails"""
    r = _LOCALS.get(node)
    if r is None:
        r, out = set(), set()
        todo = list(node.body) if isinstance(node.body, list) else []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Try, ast.While, ast.With, ast.Delete)) or type(x).__name__ in ("Match", "TryStar"):
                out = None
                break
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                r |= set(x.names)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            todo.extend(ast.iter_child_nodes(x))
        r = _LOCALS[node] = out - r if out is not None else set()
    return r


class _Raised(Exception):
    pass


def self_sub(a, b):
    return sub(a, b)


def _is_generator(node):
    for n in node.body:
        for x in _walk_shallow(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def _walk_shallow(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        for x in _walk_shallow(c):
            yield x


class Emit(ast.stmt):
    _fields = ()


def loop_of(generators, emit):
    """the nested loops a comprehension stands for"""
    st = Emit()
    st.fn = emit
    for g in reversed(generators):
        for c in reversed(g.ifs):
            st = ast.If(test=c, body=[st], orelse=[])
        st = ast.For(target=g.target, iter=g.iter, body=[st], orelse=[])
    return ast.copy_location(ast.fix_missing_locations(ast.copy_location(st, generators[0].iter)), generators[0].iter)


def strcat(*parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            xs = list(p.args)
        else:
            xs = [p]
        for x in xs:
            if is_const(x):
                s = cval(x)
                x = const(s if isinstance(s, str) else str(s))
                if cval(x) == "":
                    continue
                if out and is_str(out[-1]):
                    out[-1] = const(cval(out[-1]) + cval(x))
                    continue
            out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("strcat", *out)


def fmt_percent(a, b):
    import re

    if not is_str(a):
        return mk("strcat", a, b)
    s = cval(a)
    vals = list(b.args) if b.op == "tuple" else [b]
    parts = []
    pos = 0
    for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?[sdifrgexX])", s):
        parts.append(const(s[pos: m.start()]))
        if m.group(0) == "%%":
            parts.append(const("%"))
        elif vals:
            v = vals.pop(0)
            parts.append(v)
        pos = m.end()
    parts.append(const(s[pos:]))
    return strcat(*parts)
