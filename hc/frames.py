"""Labelled tables: the meaning of data-frame terms on small models.

Cells are numbers, texts or polynomials over named unknowns (Val); the terms of the analysed code are given
the meaning of the pandas / numpy operations they name, so that where every cell of a result comes from can be
compared with the definition. Any operation outside the modelled ones makes the obligation undecided."""
import re
from fractions import Fraction

from .terms import *
from .meval import Ev, Arr, Undecided, PyErr, broadcast, common
from .engine import AnalysisError
from .externals import STR_PURE


class Val(object):
    """polynomial over named unknowns"""
    __slots__ = ("m", "h")

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}
        self.h = None

    def __eq__(self, o):
        if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
            o = Val({(): Fraction(o)})
        return isinstance(o, Val) and self.m == o.m

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.m.items()))
        return self.h

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, c in sorted(self.m.items(), key=repr):
            f = "*".join(str(x) if not isinstance(x, tuple) else ".".join(map(str, x)) for x in k)
            out.append(("%s*" % c if c != 1 and k else str(c) if not k else "") + f)
        return " + ".join(out)


def atom(*name):
    return Val({(name,): Fraction(1)})


def isnum(x):
    return isinstance(x, (int, float, Fraction, Val)) and not isinstance(x, bool)


def tov(x):
    if isinstance(x, Val):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Undecided("infinite value")
    if isinstance(x, (int, float, Fraction)):
        return Val({(): Fraction(x)})
    raise Undecided("arithmetic on %r" % (x,))


def down(v):
    """plain number when constant"""
    if isinstance(v, Val):
        if not v.m:
            return 0
        if list(v.m) == [()]:
            c = v.m[()]
            return int(c) if c.denominator == 1 else c
    return v


def vadd(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    a, b = tov(a), tov(b)
    m = dict(a.m)
    for k, c in b.m.items():
        m[k] = m.get(k, 0) + c
    return down(Val(m))


def cancel(n):
    """x * 1/x = 1 (a quantity divided by is not zero)"""
    for x in n:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "inv" and isinstance(x[1], Val) and len(x[1].m) == 1:
            (k, c), = x[1].m.items()
            if len(k) == 1 and c == 1 and k[0] in n:
                out = list(n)
                out.remove(x)
                out.remove(k[0])
                return cancel(tuple(out))
    return n


def vmul(a, b):
    a, b = tov(a), tov(b)
    m = {}
    for k, c in a.m.items():
        for l, d in b.m.items():
            n = cancel(tuple(sorted(k + l, key=repr)))
            m[n] = m.get(n, 0) + c * d
    return down(Val(m))


def vneg(a):
    return vmul(-1, a)


def vsub(a, b):
    return vadd(a, vneg(b))


def vdiv(a, b):
    b = down(b)
    if isinstance(b, (int, Fraction, float)):
        if b == 0:
            raise Undecided("division by zero")
        return vmul(a, Fraction(1) / Fraction(b))
    if isinstance(a, Val) and a == b:
        return 1
    return vmul(a, Val({(("inv", b),): Fraction(1)}))


class MultiKey(tuple):
    """label of a multi-level index"""


class Idx(object):
    """row or column labels"""

    def __init__(self, labels, names=None, multi=False):
        self.labels = list(labels)
        self.multi = multi
        self.names = list(names) if names is not None else [None] * self.nlevels()

    def nlevels(self):
        if not self.multi:
            return 1
        return len(self.labels[0]) if self.labels else (len(self.names) if hasattr(self, "names") else 2)

    def level(self, k):
        """position of level k given by name or number"""
        if isinstance(k, str) or k is None:
            if k in self.names:
                return self.names.index(k)
            raise PyErr("KeyError")
        n = len(self.names)
        if not isinstance(k, int) or not -n <= k < n:
            raise PyErr("IndexError")
        return k % n

    def values(self, k):
        k = self.level(k)
        if not self.multi:
            return list(self.labels)
        return [x[k] for x in self.labels]

    def __len__(self):
        return len(self.labels)

    def take(self, pos):
        return Idx([self.labels[p] for p in pos], self.names, self.multi)

    def __eq__(self, o):
        return isinstance(o, Idx) and self.labels == o.labels and self.multi == o.multi

    def __repr__(self):
        return "Idx%r" % (self.labels[:6],)


def droplevel(ix, k):
    names = [n for i, n in enumerate(ix.names) if i != k]
    lab = [tuple(v for i, v in enumerate(x) if i != k) for x in ix.labels]
    if len(names) == 1:
        return Idx([x[0] for x in lab], names, False)
    return Idx(lab, names, True)


class Series(object):
    def __init__(self, index, data, name=None):
        self.index, self.data, self.name = index, list(data), name
        assert len(index) == len(self.data)

    def __repr__(self):
        return "Series%s" % (list(zip(self.index.labels, self.data))[:4],)


class Frame(object):
    def __init__(self, index, columns, data):
        """data: one list per column"""
        self.index, self.columns, self.data = index, columns, [list(d) for d in data]
        assert len(self.data) == len(columns), (len(self.data), len(columns))
        for d in self.data:
            assert len(d) == len(index)

    def col(self, k):
        return self.data[k]

    def rows(self, pos):
        return Frame(self.index.take(pos), self.columns, [[d[p] for p in pos] for d in self.data])

    def cols(self, pos):
        return Frame(self.index, self.columns.take(pos), [self.data[p] for p in pos])

    def values(self):
        n, m = len(self.index), len(self.columns)
        return Arr((n, m), [self.data[j][i] for i in range(n) for j in range(m)])

    def __repr__(self):
        return "Frame(%s x %s)" % (self.columns.labels[:8], len(self.index))


class Group(object):
    """frame or series split by keys"""

    def __init__(self, obj, keys, names, cols=None):
        self.obj, self.keys, self.names, self.cols = obj, keys, names, cols


class StrAcc(object):
    """series.str"""

    def __init__(self, obj):
        self.obj = obj


class Acc(object):
    """frame.loc / frame.iloc / .at"""

    def __init__(self, obj, how):
        self.obj, self.how = obj, how


def skey(x):
    """sort key of labels"""
    if isinstance(x, tuple):
        return tuple(skey(y) for y in x)
    if isinstance(x, bool):
        return (0, int(x))
    if isinstance(x, (int, float, Fraction)):
        return (0, x)
    if isinstance(x, str):
        return (1, x)
    raise Undecided("order of %r" % (x,))


def uniq(xs):
    out = []
    seen = set()
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


AGG = {"sum": "sum", "numpy.sum": "sum", "builtins.sum": "sum", "mean": "mean", "numpy.mean": "mean", "first": "first",
       "last": "last", "max": "max", "min": "min", "numpy.max": "max", "numpy.min": "min", "size": "size", "count": "count",
       "numpy.nansum": "sum"}


def agg(how, xs):
    if how == "sum":
        acc = 0
        for x in xs:
            acc = vadd(acc, x)
        return acc
    if how == "mean":
        return vdiv(agg("sum", xs), len(xs))
    if how == "first":
        return xs[0]
    if how == "last":
        return xs[-1]
    if how in ("size", "count"):
        return len(xs)
    if len(set(xs)) == 1:
        return xs[0]
    if all(isinstance(x, (int, float, Fraction)) for x in xs):
        return max(xs) if how == "max" else min(xs)
    if how in ("max", "min"):
        return atom(how, tuple(sorted(map(repr, xs))))
    raise Undecided("aggregation %s" % how)


def numeric(xs):
    return all(isnum(x) or isinstance(x, bool) for x in xs)


UNINIT = atom("(not initialised)")


def rounded(how, d):
    import math

    def f(x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, Val) and len(x.m) == 1 and not any(x.m):
            x = x.m[()]
        if isinstance(x, Val) and d < 9:
            return atom(how, x, d)
        if not isinstance(x, (int, float, Fraction)) or isinstance(x, bool):
            raise Undecided(how)
        if how in ("floor", "ceil", "trunc"):
            return getattr(math, how)(x)
        return round(Fraction(x), d)
    return f


def term_of(v):
    """constant term of a python value, None when there is none"""
    if isinstance(v, tuple):
        xs = [term_of(x) for x in v]
        return None if None in xs else tuple_(*xs)
    return const(v) if isinstance(v, (str, int, bool)) else None


class FEv(Ev):
    """Ev over labelled tables. e: the engine whose terms are evaluated (objects, closures)"""

    def __init__(self, env, e=None, isinst=None, typ=None, funcs=None, rand=None):
        Ev.__init__(self, env, isinst, typ, e)
        self.e = e
        self.bv = {}
        self.funcs = funcs or {}
        self.rand = rand
        self.depth = 0

    # -------------------------------------------------------------- driver
    def __call__(self, t):
        fv = free_bvs(t)
        if fv:
            k = (id(t), tuple((q, self.bv.get(q)) for q in sorted(fv)))
            try:
                hash(k)
            except TypeError:
                return self.ev(t)
        else:
            k = id(t)
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self.ev(t)
        except (Undecided, PyErr) as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = v
        return v

    def cond(self, t):
        v = self(t)
        if isinstance(v, bool):
            return v
        return self.truth(v)

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, Val):
            raise Undecided("truth of a quantity")
        if isinstance(v, (bool, int, float, Fraction, str, tuple, list, dict)):
            return bool(v)
        if isinstance(v, (Frame, Series, Idx)):
            raise PyErr("ValueError")
        if isinstance(v, Arr):
            if len(v.data) == 1:
                return self.truth(v.data[0])
            raise PyErr("ValueError")
        raise Undecided("truth of %r" % (v,))

    def domain(self, d):
        """values of a binder domain"""
        if d.op == "drange":
            return list(range(self(d.args[0])))
        if d.op == "dkeys":
            return list(self(d.args[0]))
        raise Undecided("domain %s" % d.op)

    def outer(self, t, pair=False):
        """do the conditions of a compbody which do not depend on its own binders hold (they protect its domains)"""
        lvs, b = set(), t
        while b.op == "compbody":
            lvs.add(b.args[1])
            b = b.args[2]
        g = b.args[0] if b.op == "guarded" or pair and b.op == "tuple" and len(b.args) == 2 else None
        if g is None:
            return True
        for c in (g.args if g.op == "and" else (g,)):
            if not (free_cbvs(c) & lvs) and not contains(c, lambda y: y.op == "lastwriter") and not self.cond(c):
                return False
        return True

    def comp(self, t, fn):
        """enumerate a compbody, fn(body) at each point"""
        d, lv, body = t.args
        if not self.outer(t):
            return []
        vals = self.domain(d)
        self.depth += 1
        q = "#%d" % self.depth
        b = unbind(body, lv, mk("bv", q))
        out = []
        for v in vals:
            self.bv[q] = v
            if b.op == "compbody":
                out += self.comp(b, fn)
            else:
                r = fn(b)
                out += r
        self.bv.pop(q, None)
        self.depth -= 1
        return out

    def guarded(self, b, fn):
        if b.op == "guarded":
            g = b.args[0]
            if not all(self.cond(x) for x in (g.args if g.op == "and" else (g,)) if not contains(x, lambda y: y.op == "lastwriter")):
                return []
            return fn(b.args[1])
        return fn(b)

    def elements(self, t):
        """elements of a list term"""
        out = []
        for a in t.args:
            if a.op == "splat":
                x = a.args[0]
                if x.op == "compbody":
                    if not self.outer(x, True):
                        continue

                    def one(b):
                        if b.op == "tuple" and len(b.args) == 2:
                            if not self.cond(b.args[0]):
                                return []
                            return [self(b.args[1])]
                        raise Undecided("comprehension")
                    out += self.comp(x, one)
                else:
                    out += self.seq(self(x))
            elif a.op == "guarded":
                if self.cond(a.args[0]):
                    out.append(self(a.args[1]))
            else:
                out.append(self(a))
        return out

    def seq(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Idx):
            return list(v.labels)
        if isinstance(v, Series):
            return list(v.data)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Frame):
            return list(v.columns.labels)
        if isinstance(v, Arr):
            if len(v.shape) == 1:
                return list(v.data)
            return [v.get(i) for i in range(v.shape[0])]
        raise Undecided("iteration over %r" % (v,))

    # -------------------------------------------------------------- terms
    def ev(self, t):
        if t in self.env:
            return self.env[t]
        op = t.op
        if op == "bv":
            if t.args[0] in self.bv:
                return self.bv[t.args[0]]
            raise Undecided("free index")
        if op == "const":
            return cval(t)
        if op == "kept":
            raise PyErr("value kept from an earlier call (%s)" % t.args[0])
        if op == "list":
            return self.elements(t)
        if op == "dict":
            out = {}
            for a in t.args:
                if a.op == "compbody":
                    def one(b):
                        return self.guarded(b, lambda x: [(self(x.args[0]), self(x.args[1]))])
                    for k, v in self.comp(a, one):
                        out[k] = v
                else:
                    def one(b):
                        return [(self(b.args[0]), self(b.args[1]))]
                    for k, v in self.guarded(a, one):
                        out[k] = v
            return out
        if op == "poly":
            acc = None
            for c, atoms_ in t.args[0]:
                m = None
                for a in atoms_:
                    v = self(a)
                    if isinstance(v, list) and isinstance(m, int) or isinstance(m, list) and isinstance(v, int):
                        m = v * m
                        continue
                    m = v if m is None else self.arith(vmul, m, v)
                c = Fraction(c)
                if m is None:
                    m = down(Val({(): c}))
                elif c != 1:
                    if isinstance(m, list):
                        if c.denominator != 1:
                            raise PyErr("TypeError")
                        m = m * int(c)
                    else:
                        m = self.arith(vmul, m, down(Val({(): c})))
                if isinstance(m, list) and len(t.args[0]) > 1:
                    raise Undecided("order of a concatenation")
                acc = m if acc is None else self.arith(vadd, acc, m)
            return 0 if acc is None else acc
        if op == "inv":
            return self.arith(vdiv, 1, self(t.args[0]))
        if op in ("div", "truediv"):
            return self.arith(vdiv, self(t.args[0]), self(t.args[1]))
        if op in ("le0", "lt0"):
            v = self(t.args[0])
            if isinstance(v, (int, float, Fraction)):
                return v <= 0 if op == "le0" else v < 0
            return self.pointwise(lambda x: self.order(x, op), v)
        if op == "eq":
            a, b = self(t.args[0]), self(t.args[1])
            return self.compare(a, b)
        if op == "not":
            v = self(t.args[0])
            if isinstance(v, (Series, Arr, Frame)):
                return self.pointwise(lambda x: not self.truth(x), v)
            return not self.truth(v)
        if op in ("band", "bor", "bxor"):
            vs = [self(a) for a in t.args]
            acc = vs[0]
            f = {"band": lambda x, y: x and y, "bor": lambda x, y: x or y, "bxor": lambda x, y: x != y}[op]
            for v in vs[1:]:
                acc = self.zip2(lambda x, y: f(self.truth(x), self.truth(y)), acc, v)
            return acc
        if op == "and" or op == "or":
            return self.nary(t.args, op == "or")
        if op == "binv" or op == "invert":
            v = self(t.args[0])
            return self.pointwise(lambda x: not self.truth(x), v)
        if op == "item":
            return self.getitem(self(t.args[0]), self.index(t.args[1]))
        if op == "len":
            b = self(t.args[0])
            return self.length(b)
        if op == "in":
            a, b = self(t.args[0]), self(t.args[1])
            if isinstance(b, Series):
                return a in b.index.labels
            if isinstance(b, Frame):
                return a in b.columns.labels or (b.columns.multi and a in b.columns.values(0))
            if isinstance(b, Idx):
                return a in b.labels or (b.multi and a in b.values(0))
            if isinstance(b, Arr):
                return a in b.data
            if isinstance(b, (list, tuple, dict, range, str)):
                return a in b
            raise Undecided("in")
        if op == "range":
            xs = [self(a) for a in t.args]
            if any(x is None or isinstance(x, (str, Fraction, list, tuple)) for x in xs):
                raise PyErr("TypeError")
            if any(not isinstance(x, int) for x in xs):
                raise Undecided("range")
            return range(*xs)
        if op == "fill":
            v, sh = self(t.args[0]), self(t.args[1])
            return broadcast(v, sh if isinstance(sh, (tuple, list)) else (sh,))
        if op == "filllike":
            v, like = self(t.args[0]), self(t.args[1])
            if isinstance(like, Arr):
                return broadcast(v, like.shape)
            if isinstance(like, Idx):
                return broadcast(v, (len(like),))
            raise Undecided("like")
        if op == "copy" or op == "frozen":
            return self(t.args[0])
        if op == "tolist":
            return self.tolist(self(t.args[0]))
        if op in ("listof", "tupleof"):
            return self.seq(self(t.args[0]))
        if op == "setof":
            return uniq(self.seq(self(t.args[0])))
        if op == "perm" and t.args[0].op in ("sorted", "reversed") and t.args[1].op != "drange":
            i = self(t.args[1])
            xs = list(self.seq(self(t.args[0].args[0])))
            if not isinstance(i, int) or isinstance(i, bool) or not 0 <= i < len(xs):
                raise Undecided("position %r" % (i,))
            pos = list(range(len(xs)))
            if t.args[0].op == "reversed":
                return pos[::-1][i]
            o = t.args[0].args
            rev = self.cond(o[2]) if len(o) > 1 else False
            key = (lambda k: skey(self.func(o[1], xs[k]))) if len(o) > 1 and o[1] is not NONE else (lambda k: skey(xs[k]))
            return sorted(pos, key=key, reverse=rev)[i]
        if op == "sorted":
            xs = self.seq(self(t.args[0]))
            if len(t.args) > 1:
                rev = self.cond(t.args[2])
                if t.args[1] is not NONE:
                    return sorted(xs, key=lambda x: skey(self.func(t.args[1], x)), reverse=rev)
                return sorted(xs, key=skey, reverse=rev)
            return sorted(xs, key=skey)
        if op == "keys":
            return list(self(t.args[0]))
        if op == "values":
            return list(self(t.args[0]).values())
        if op == "items":
            return list(self(t.args[0]).items())
        if op == "zip":
            return list(zip(*[self.seq(self(a)) for a in t.args]))
        if op == "enumerate":
            return list(enumerate(self.seq(self(t.args[0]))))
        if op == "repeatlist":
            return list(self.seq(self(t.args[0]))) * self(t.args[1])
        if op in ("min", "max"):
            xs = [self(a) for a in t.args]
            if any(not isinstance(x, (int, float, Fraction)) or isinstance(x, bool) for x in xs):
                raise Undecided(op)
            return min(xs) if op == "min" else max(xs)
        if op in ("opMod", "opFloorDiv"):
            x, y = self(t.args[0]), self(t.args[1])
            if any(not isinstance(v, (int, float, Fraction)) or isinstance(v, bool) for v in (x, y)):
                raise Undecided(op)
            if y == 0:
                raise PyErr("ZeroDivisionError")
            return x % y if op == "opMod" else x // y
        if op == "strcat":
            out = []
            for a in t.args:
                v = self(a) if isinstance(a, T) else a
                if not isinstance(v, (str, int)) or isinstance(v, bool):
                    raise Undecided("text")
                out.append(str(v))
            return "".join(out)
        if op == "abs":
            def absv(x):
                if isinstance(x, Val):
                    raise Undecided("abs")
                return abs(x)
            return self.pointwise(absv, self(t.args[0]))
        if op == "where":
            return self.external("numpy.where", [self(x) for x in t.args])
        if op == "upd":
            return self.upd(t)
        if op == "accum":
            return self.accum(t)
        if op == "uninit":
            return UNINIT
        if op == "rand":
            if self.rand is None:
                raise Undecided("random")
            return self.rand(self, t)
        if op == "xattr":
            return self.xattr(self(t.args[0]), t.args[1])
        if op == "ref" and self.e is not None:
            return self.ref(t)
        if op == "call" and isinstance(t.args[0], T):
            f = self.funcs.get(t.args[0])
            if f is not None:
                return f(self, *[self(a) for a in t.args[1]], **{n: self(x) for n, x in (t.args[2] if len(t.args) > 2 else ())})
            raise Undecided("call of %r" % t.args[0])
        if op == "attr":
            b = self(t.args[0])
            if isinstance(b, dict) and ("." + t.args[1]) in b:
                return b["." + t.args[1]]
            raise Undecided("attribute %r" % t.args[1])
        if op == "sum":
            acc = [0]

            def one(b):
                acc[0] = self.arith(vadd, acc[0], self(b))
                return []
            self.comp(t, one)
            return acc[0]
        if op == "psum":
            v, d, lv, body = t.args
            vals, x, acc = self.domain(d), self(v), 0
            if x not in vals:
                raise Undecided("rank of an unknown iteration")
            self.depth += 1
            q = "#%d" % self.depth
            b = unbind(body, lv, mk("bv", q))
            for y in vals[: vals.index(x)]:
                self.bv[q] = y
                acc = self.arith(vadd, acc, self(b))
            self.bv.pop(q, None)
            self.depth -= 1
            return acc
        if op in ("fold", "pfold"):
            if op == "pfold":
                v, d, lv, v0, body = t.args
                vals = self.domain(d)
                x = self(v)
                if x not in vals:
                    raise Undecided("rank of an unknown iteration")
                vals = vals[: vals.index(x)]
            else:
                d, lv, v0, body = t.args
                vals = self.domain(d)
            own = mk("acc", fold_height(body))
            self.depth += 1
            q, qa = "#%d" % self.depth, "#acc%d" % self.depth
            b = unbind(body, lv, mk("bv", q))
            b = replace_top(b, lambda y: mk("bv", qa) if y is own else None)
            acc = self(v0)
            for y in vals:
                self.bv[q], self.bv[qa] = y, acc
                acc = self(b)
            self.bv.pop(q, None)
            self.bv.pop(qa, None)
            self.depth -= 1
            return acc
        if op == "slice":
            return slice(*[self(a) for a in t.args])
        if op == "sliceindices":
            sl, n = self(t.args[0]), self(t.args[1])
            if not isinstance(sl, slice) or not isinstance(n, int):
                raise Undecided("slice")
            return sl.indices(n)
        if op == "keyat":
            vals, i = self.domain(t.args[0]), self(t.args[1])
            if not isinstance(i, int):
                raise Undecided("position")
            if not -len(vals) <= i < len(vals):
                raise PyErr("IndexError")
            return vals[i]
        if op == "lastkey":
            vals = self.domain(t.args[0])
            if not vals:
                raise Undecided("last of nothing")
            return vals[-1]
        if op == "firstof":
            d, lv, c, x = t.args
            self.depth += 1
            q = "#%d" % self.depth
            c, x = unbind(c, lv, mk("bv", q)), unbind(x, lv, mk("bv", q))
            try:
                for y in self.domain(d):
                    self.bv[q] = y
                    if self.cond(c):
                        return self(x)
            finally:
                self.bv.pop(q, None)
                self.depth -= 1
            raise PyErr("IndexError")
        if op == "pos":
            vals, x = self.domain(t.args[1]), self(t.args[0])
            if x not in vals:
                raise Undecided("position")
            return vals.index(x)
        if op == "any":
            return any(self.comp(t, lambda b: [self.cond(b)]))
        return Ev.ev(self, t)

    def order(self, x, op):
        x = down(x)
        if isinstance(x, (int, float, Fraction)):
            return x <= 0 if op == "le0" else x < 0
        raise Undecided("order of quantities")

    def ref(self, t):
        from .externals import freeze
        o = self.e.obj(t)
        if o.kind in ("list", "dict"):
            f = freeze(self.e, t)
            if f is not t:
                return self(f)
        if o.kind == "arr":
            v = self.e.arr_value(t)
            if v is not t:
                return self(v)
            f = freeze(self.e, t)
            if f is not t:
                return self(f)
        if o.kind == "frame":
            f = freeze(self.e, t)
            if f is not t:
                return self(f)
        raise Undecided("object %s" % o.kind)

    def length(self, b):
        if isinstance(b, Arr):
            if not b.shape:
                raise PyErr("TypeError")
            return b.shape[0]
        if isinstance(b, Frame):
            return len(b.index)
        if isinstance(b, (Series,)):
            return len(b.data)
        if isinstance(b, (Idx, list, tuple, dict, str, range)):
            return len(b)
        raise Undecided("len of %r" % (b,))

    def tolist(self, v):
        if isinstance(v, Arr) and len(v.shape) > 1:
            return [self.tolist(v.get(i)) for i in range(v.shape[0])]
        return self.seq(v)

    # -------------------------------------------------------------- arithmetic
    def pointwise(self, f, a):
        if isinstance(a, Frame):
            return Frame(a.index, a.columns, [[f(x) for x in d] for d in a.data])
        if isinstance(a, Series):
            return Series(a.index, [f(x) for x in a.data], a.name)
        if isinstance(a, Arr):
            return Arr(a.shape, [f(x) for x in a.data])
        if isinstance(a, Idx):
            return Arr((len(a),), [f(x) for x in a.labels])
        return f(a)

    def align(self, a, b):
        """positions aligning two indexes; None when equal"""
        if a == b:
            return None
        raise Undecided("operation between different indexes")

    def zip2(self, f, a, b):
        if isinstance(a, Idx):
            a = Arr((len(a),), a.labels)
        if isinstance(b, Idx):
            b = Arr((len(b),), b.labels)
        if isinstance(a, list):
            a = Arr((len(a),), a)
        if isinstance(b, list):
            b = Arr((len(b),), b)
        if isinstance(a, Series) and isinstance(b, Series):
            if a.index == b.index:
                return Series(a.index, [f(x, y) for x, y in zip(a.data, b.data)], a.name if a.name == b.name else None)
            if len(set(map(repr, a.index.labels))) == len(a.index) and len(set(map(repr, b.index.labels))) == len(b.index) and \
                    set(a.index.labels) == set(b.index.labels):
                lab = sorted(a.index.labels, key=skey)
                da, db = dict(zip(a.index.labels, a.data)), dict(zip(b.index.labels, b.data))
                return Series(Idx(lab, a.index.names, a.index.multi), [f(da[x], db[x]) for x in lab])
            raise Undecided("operation between series on different labels")
        if isinstance(a, Frame) and isinstance(b, Frame):
            if a.index == b.index and a.columns == b.columns:
                return Frame(a.index, a.columns, [[f(x, y) for x, y in zip(p, q)] for p, q in zip(a.data, b.data)])
            raise Undecided("operation between frames on different labels")
        if isinstance(a, Frame) or isinstance(b, Frame):
            fr, o, sw = (a, b, False) if isinstance(a, Frame) else (b, a, True)
            g = (lambda x, y: f(y, x)) if sw else f
            if isinstance(o, Series):
                if o.index.labels == fr.columns.labels:
                    return Frame(fr.index, fr.columns, [[g(x, v) for x in d] for d, v in zip(fr.data, o.data)])
                raise Undecided("frame with series")
            if isinstance(o, Arr):
                o = broadcast(o, (len(fr.index), len(fr.columns)))
                m = len(fr.columns)
                return Frame(fr.index, fr.columns, [[g(x, o.data[i * m + j]) for i, x in enumerate(d)] for j, d in enumerate(fr.data)])
            return self.pointwise(lambda x: g(x, o), fr)
        if isinstance(a, Series) or isinstance(b, Series):
            s, o, sw = (a, b, False) if isinstance(a, Series) else (b, a, True)
            g = (lambda x, y: f(y, x)) if sw else f
            if isinstance(o, Arr):
                if len(o.shape) == 0 or o.shape == (1,):
                    return self.pointwise(lambda x: g(x, o.data[0]), s)
                if o.shape != (len(s.data),):
                    raise PyErr("ValueError")
                return Series(s.index, [g(x, y) for x, y in zip(s.data, o.data)], s.name)
            return self.pointwise(lambda x: g(x, o), s)
        if isinstance(a, Arr) or isinstance(b, Arr):
            sh = common(a, b)
            x, y = broadcast(a, sh), broadcast(b, sh)
            return Arr(sh, [f(p, q) for p, q in zip(x.data, y.data)])
        return f(a, b)

    def arith(self, f, a, b):
        return self.zip2(f, a, b)

    def compare(self, a, b):
        def same(x, y):
            if isinstance(x, Val) or isinstance(y, Val):
                if x == y:
                    return True
                raise Undecided("equality of quantities")
            if isinstance(x, tuple) and isinstance(y, list) or isinstance(x, list) and isinstance(y, tuple):
                return tuple(x) == tuple(y)
            return x == y and (isinstance(x, bool) == isinstance(y, bool))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return tuple(a) == tuple(b)
        if a is None or b is None:
            if isinstance(a, (Frame, Series, Arr)) or isinstance(b, (Frame, Series, Arr)):
                return self.zip2(lambda x, y: False, a if a is not None else 0, b if b is not None else 0)
            return a is b
        return self.zip2(same, a, b)

    # -------------------------------------------------------------- access
    def index(self, t):
        if t.op == "slice":
            return slice(*[self(a) for a in t.args])
        if t.op == "tuple":
            return tuple(self.index(a) for a in t.args)
        if t.op == "call" and t.args[0] == "builtins.slice":
            return slice(*[self(a) for a in t.args[1]])
        return self(t)

    def mask(self, m, n, index=None):
        """positions selected by a boolean mask"""
        if isinstance(m, Series):
            if index is not None and m.index.labels != index.labels:
                raise Undecided("mask on other labels")
            m = m.data
        elif isinstance(m, Arr):
            m = m.data
        if len(m) != n:
            raise PyErr("IndexError")
        return [i for i, x in enumerate(m) if self.truth(x)]

    def isbool(self, v):
        d = v.data if isinstance(v, (Series, Arr)) else v if isinstance(v, list) else None
        return d is not None and len(d) > 0 and all(isinstance(x, bool) for x in d)

    def getitem(self, b, i):
        if isinstance(b, Acc):
            return self.locate(b, i)
        if isinstance(b, Frame):
            if isinstance(i, slice):
                return b.rows(list(range(*i.indices(len(b.index)))))
            if self.isbool(i) or (isinstance(i, Series) and not i.data):
                return b.rows(self.mask(i, len(b.index), b.index))
            if isinstance(i, (list, Idx, Arr, Series)):
                lab = self.seq(i)
                pos = []
                for x in lab:
                    pos += self.colpos(b, x)
                return b.cols(pos)
            pos = self.colpos(b, i)
            if b.columns.multi and not (isinstance(i, tuple) and len(i) == len(b.columns.names)):
                k = len(i) if isinstance(i, tuple) else 1
                f = b.cols(pos)
                ix = f.columns
                for _ in range(k):
                    ix = droplevel(ix, 0)
                return Frame(f.index, ix, f.data)
            if len(pos) == 1:
                return Series(b.index, b.data[pos[0]], i)
            return b.cols(pos)
        if isinstance(b, Series):
            if self.isbool(i):
                p = self.mask(i, len(b.data), b.index)
                return Series(b.index.take(p), [b.data[k] for k in p], b.name)
            if isinstance(i, slice):
                p = list(range(*i.indices(len(b.data))))
                return Series(b.index.take(p), [b.data[k] for k in p], b.name)
            return self.locate(Acc(b, "loc"), i)
        if isinstance(b, Idx):
            if isinstance(i, slice):
                return b.take(range(*i.indices(len(b))))
            if isinstance(i, int):
                return b.labels[i]
            if self.isbool(i):
                return b.take(self.mask(i, len(b)))
            raise Undecided("index item")
        if isinstance(b, Arr):
            if isinstance(i, Arr) and self.isbool(i) and len(i.shape) > 1:
                if tuple(i.shape) != tuple(b.shape):
                    raise PyErr("IndexError")
                xs = [x for x, c in zip(b.data, i.data) if c]
                return Arr((len(xs),), xs)
            if isinstance(i, (Arr, list)) and self.isbool(i):
                p = self.mask(i, b.shape[0])
                return self.stackrows([b.get(k) for k in p], b.shape[1:])
            if isinstance(i, (Arr, list)):
                lab = self.seq(i)
                if all(isinstance(x, int) for x in lab):
                    return self.stackrows([b.get(k) for k in lab], b.shape[1:])
            return b.get(i)
        if isinstance(b, (list, tuple, str, range)):
            if isinstance(i, (int, slice)) and not isinstance(i, bool):
                try:
                    return b[i]
                except IndexError:
                    raise PyErr("IndexError")
            raise Undecided("list item %r" % (i,))
        if isinstance(b, dict):
            if i in b:
                return b[i]
            raise PyErr("KeyError")
        if isinstance(b, Group):
            if isinstance(i, str):
                return Group(b.obj, b.keys, b.names, i)
            if isinstance(i, list):
                return Group(b.obj, b.keys, b.names, i)
        raise Undecided("item of %r" % (b,))

    def stackrows(self, rows, shape):
        data = []
        for r in rows:
            data += r.data if isinstance(r, Arr) else [r]
        return Arr((len(rows),) + tuple(shape), data)

    def colpos(self, f, key):
        c = f.columns
        if c.multi:
            if isinstance(key, tuple):
                pos = [k for k, l in enumerate(c.labels) if tuple(l[:len(key)]) == tuple(key)]
            else:
                pos = [k for k, l in enumerate(c.labels) if l[0] == key and type(l[0]) == type(key)]
        else:
            pos = [k for k, l in enumerate(c.labels) if l == key]
        if not pos:
            raise PyErr("KeyError")
        return pos

    def keypos(self, ix, key):
        """(positions, levels to drop) for a .loc row key"""
        if isinstance(key, slice):
            if key == slice(None):
                return list(range(len(ix))), 0
            if not ix.multi and ix.labels == list(range(len(ix))) and key.step is None:
                lo = 0 if key.start is None else key.start
                hi = len(ix) - 1 if key.stop is None else key.stop
                return [p for p in range(len(ix)) if lo <= p <= hi], 0
            raise Undecided("label slice")
        if self.isbool(key) or isinstance(key, Series):
            return self.mask(key, len(ix), ix if isinstance(key, Series) else None), 0
        if isinstance(key, (list, Idx, Arr, range)):
            out = []
            for x in self.seq(key):
                p = [k for k, l in enumerate(ix.labels) if (l[0] if ix.multi and not isinstance(x, tuple) else l) == x]
                if not p:
                    raise PyErr("KeyError")
                out += p
            return out, 0
        if ix.multi:
            kt = key if isinstance(key, tuple) else (key,)
            pos = []
            for k, l in enumerate(ix.labels):
                ok = True
                for a, b in zip(kt, l):
                    if isinstance(a, slice):
                        if a != slice(None):
                            raise Undecided("label slice")
                    elif isinstance(a, list):
                        ok = ok and b in a
                    elif a != b:
                        ok = False
                if ok:
                    pos.append(k)
            if not pos:
                raise PyErr("KeyError")
            drop = [i for i, a in enumerate(kt) if not isinstance(a, (slice, list))]
            return pos, drop
        pos = [k for k, l in enumerate(ix.labels) if l == key]
        if not pos:
            raise PyErr("KeyError")
        return pos, "scalar" if len(pos) == 1 else 0

    def droplevels(self, ix, drop):
        if not isinstance(drop, list) or len(drop) >= len(ix.names):
            return ix
        for k in sorted(drop, reverse=True):
            ix = droplevel(ix, k)
        return ix

    def locate(self, a, i):
        o = a.obj
        if a.how in ("iloc", "iat"):
            if isinstance(o, Frame):
                r, c = i if isinstance(i, tuple) and len(i) == 2 else (i, slice(None))
                res = o
                if isinstance(r, int) and isinstance(c, int):
                    return o.data[c][r]
                if isinstance(c, int):
                    s = Series(o.index, o.data[c], o.columns.labels[c])
                    return self.locate(Acc(s, "iloc"), r)
                cp = list(range(*c.indices(len(o.columns)))) if isinstance(c, slice) else self.seq(c)
                if isinstance(r, int):
                    return Series(o.columns.take(cp), [o.data[k][r] for k in cp])
                rp = list(range(*r.indices(len(o.index)))) if isinstance(r, slice) else self.seq(r)
                if self.isbool(r):
                    rp = self.mask(r, len(o.index))
                return o.cols(cp).rows(rp)
            if isinstance(o, Series):
                if isinstance(i, int):
                    try:
                        return o.data[i]
                    except IndexError:
                        raise PyErr("IndexError")
                rp = list(range(*i.indices(len(o.data)))) if isinstance(i, slice) else self.seq(i)
                return Series(o.index.take(rp), [o.data[k] for k in rp], o.name)
        if isinstance(o, Series):
            pos, drop = self.keypos(o.index, i)
            if drop == "scalar" or (isinstance(drop, list) and len(drop) == len(o.index.names) and len(pos) == 1):
                return o.data[pos[0]]
            return Series(self.droplevels(o.index.take(pos), drop), [o.data[k] for k in pos], o.name)
        if isinstance(o, Frame):
            if isinstance(i, tuple) and len(i) == 2 and not (o.index.multi and self.rowkey(o, i)):
                r, c = i
            else:
                r, c = i, slice(None)
            pos, drop = self.keypos(o.index, r)
            f = o.rows(pos)
            f = Frame(self.droplevels(f.index, drop), f.columns, f.data)
            if not (isinstance(c, slice) and c == slice(None)):
                if self.isbool(c):
                    f = f.cols(self.mask(c, len(f.columns)))
                else:
                    if isinstance(c, tuple) and any(isinstance(x, slice) for x in c):
                        cp, cd = self.keypos(f.columns, c)
                        f = f.cols(cp)
                    else:
                        f = self.getitem(f, c)
            if drop == "scalar" or (isinstance(drop, list) and len(drop) == len(o.index.names) and len(pos) == 1):
                if isinstance(f, Series):
                    return f.data[0]
                return Series(f.columns, [d[0] for d in f.data])
            return f
        raise Undecided("loc")

    def rowkey(self, o, i):
        """does the pair i name row levels rather than (row, column)?"""
        r, c = i
        if isinstance(c, str) and c in o.columns.labels and c not in o.index.values(1):
            return False
        if isinstance(c, slice):
            return False
        if isinstance(c, list):
            return False
        return True

    # -------------------------------------------------------------- updates
    def upd(self, t):
        st = [self(t.args[0])]
        self.updates(t.args[1:], st)
        return st[0]

    def updates(self, us, st):
        for u in us:
            if u.op == "compbody":
                def one(b):
                    self.updates(b.args, st)
                    return []
                self.comp(u, one)
                continue
            how, key, val, c = u.args
            cur = st[0]
            h = cval(how)
            if not self.cond(c):
                continue
            if h == "=":
                cur = self(val)
            elif h == ".sort()" and key is NONE and val is NONE:
                if not isinstance(cur, (Arr, list)) or isinstance(cur, Arr) and len(cur.shape) != 1:
                    raise Undecided("sort")
                xs = sorted(self.seq(cur), key=skey)
                cur = Arr((len(xs),), xs) if isinstance(cur, Arr) else xs
            elif h == "[...]=" and isinstance(cur, Arr):
                cur = self.setarr(cur, self.index(key), self(val))
            elif h == "k=":
                if not isinstance(cur, dict):
                    raise Undecided("entry of %r" % (cur,))
                cur = dict(cur)
                cur[self(key)] = self(val)
            elif h == "[...]=":
                cur = self.setcol(cur, self(key), self(val))
            elif h.startswith("[...]= via "):
                cur = self.setloc(cur, h.split()[-1], self.index(key), self(val))
            elif h == ".columns":
                v = self(val)
                if not isinstance(v, Idx):
                    v = Idx(self.seq(v))
                if isinstance(cur, Frame):
                    if len(v) != len(cur.columns):
                        raise PyErr("ValueError")
                    cur = Frame(cur.index, v, cur.data)
                else:
                    raise Undecided("columns")
            elif h == ".index":
                v = self(val)
                if not isinstance(v, Idx):
                    v = Idx(self.seq(v))
                cur = Frame(v, cur.columns, cur.data) if isinstance(cur, Frame) else Series(v, cur.data, cur.name)
            elif h == "del":
                k = self(key)
                pos = self.colpos(cur, k)
                cur = cur.cols([p for p in range(len(cur.columns)) if p not in pos])
            elif h.startswith("._"):
                pass
            elif h == ".name" or h == ".names":
                pass
            else:
                raise Undecided("update %s" % h)
            st[0] = cur

    def setarr(self, b, i, v):
        if not (isinstance(i, (Arr, list)) and self.isbool(i)):
            where = self.getitem(Arr(b.shape, list(range(len(b.data)))), i)
            pos = list(where.data) if isinstance(where, Arr) else [where]
            shape = tuple(where.shape) if isinstance(where, Arr) else ()
            if isinstance(v, (Arr, list)):
                if isinstance(v, list) and any(isinstance(x, (list, tuple, Arr)) for x in v):
                    raise Undecided("array update")
                vs = tuple(v.shape) if isinstance(v, Arr) else (len(v),)
                xs = list(v.data if isinstance(v, Arr) else v)
                while len(vs) > 1 and vs[0] == 1:
                    vs = vs[1:]
                if vs != shape:
                    if len(xs) == 1:
                        xs = xs * len(pos)
                    elif len(vs) < len(shape) and vs == shape[len(shape) - len(vs):]:
                        xs = xs * (len(pos) // max(1, len(xs)))
                    elif len(vs) == len(shape) and all(p == q or q == 1 for p, q in zip(shape, vs)) or len(vs) < len(shape):
                        raise Undecided("array update")
                    else:
                        raise PyErr("ValueError")
            else:
                xs = [v] * len(pos)
            out = list(b.data)
            for p, x in zip(pos, xs):
                out[p] = x
            return Arr(b.shape, out)
        m = i.data if isinstance(i, Arr) else list(i)
        if len(m) != len(b.data):
            raise Undecided("array update")
        n = sum(1 for x in m if x)
        if isinstance(v, (Arr, list)):
            xs = list(v.data if isinstance(v, Arr) else v)
            if len(xs) == 1:
                xs = xs * n
            if len(xs) != n:
                raise PyErr("ValueError")
        else:
            xs = [v] * n
        xs, out = iter(xs), []
        for c, x in zip(m, b.data):
            out.append(next(xs) if c else x)
        return Arr(b.shape, out)

    def setcol(self, f, key, v):
        if isinstance(f, Arr):
            raise Undecided("array update")
        if not isinstance(f, Frame) or isinstance(key, (list, Series)):
            raise Undecided("column update")
        n = len(f.index)
        if isinstance(v, Series):
            if v.index == f.index:
                d = v.data
            else:
                m = dict(zip(v.index.labels, v.data))
                if len(m) != len(v.data):
                    raise Undecided("column aligned on repeated labels")
                if any(x not in m for x in f.index.labels):
                    raise Undecided("column aligned on missing labels")
                d = [m[x] for x in f.index.labels]
        elif isinstance(v, Arr):
            if v.shape != (n,):
                if v.shape in ((1,), ()):
                    d = [v.data[0]] * n
                else:
                    raise PyErr("ValueError")
            else:
                d = v.data
        elif isinstance(v, (list, tuple, range)):
            if len(v) != n:
                raise PyErr("ValueError")
            d = list(v)
        else:
            d = [v] * n
        data = list(f.data)
        lab = list(f.columns.labels)
        if key in lab:
            data[lab.index(key)] = d
            return Frame(f.index, f.columns, data)
        return Frame(f.index, Idx(lab + [key], f.columns.names, f.columns.multi), data + [d])

    def setloc(self, f, how, key, v):
        if not isinstance(f, Frame) or how not in ("loc", "at"):
            raise Undecided("update through %s" % how)
        r, c = key if isinstance(key, tuple) and len(key) == 2 else (key, slice(None))
        pos, _ = self.keypos(f.index, r)
        cols = list(range(len(f.columns)))
        lab = list(f.columns.labels)
        data = [list(d) for d in f.data]
        if not (isinstance(c, slice) and c == slice(None)):
            if isinstance(c, str) and c not in lab:
                lab.append(c)
                data.append([None] * len(f.index))
                cols = [len(lab) - 1]
            else:
                cols = self.colpos(f, c) if not isinstance(c, list) else [p for x in c for p in self.colpos(f, x)]
        if len(cols) != 1:
            raise Undecided("update of several columns")
        k = cols[0]
        if isinstance(v, Series):
            m = dict(zip(v.index.labels, v.data))
            for p in pos:
                x = f.index.labels[p]
                if x not in m:
                    raise Undecided("aligned on missing labels")
                data[k][p] = m[x]
        else:
            if isinstance(v, (Arr, list, tuple)):
                d = self.seq(v)
                if len(d) == 1 and len(pos) != 1:
                    d = d * len(pos)
                if len(d) != len(pos):
                    raise PyErr("ValueError")
            else:
                d = [v] * len(pos)
            for p, x in zip(pos, d):
                data[k][p] = x
        return Frame(f.index, Idx(lab, f.columns.names, f.columns.multi), data)

    def accum(self, t):
        """array with slices increased in a loop"""
        cur = self(t.args[0])
        if not isinstance(cur, Arr):
            raise Undecided("accumulate")
        data = list(cur.data)

        def one(b):
            def g(b):
                idx, op, val = b.args
                ix = self.index(idx)
                v = self(val)
                sub = Arr(cur.shape, list(range(len(data)))).get(ix)
                pos = sub.data if isinstance(sub, Arr) else [sub]
                if isinstance(v, Arr):
                    vs = broadcast(v, sub.shape).data if isinstance(sub, Arr) else v.data
                else:
                    vs = [v] * len(pos)
                old = {p: data[p] for p in pos}  # a position named twice is changed once
                for p, x in zip(pos, vs):
                    if cval(op) == "Add":
                        data[p] = vadd(old[p], x)
                    elif cval(op) == "Sub":
                        data[p] = vsub(old[p], x)
                    elif cval(op) == "set":
                        data[p] = x
                    else:
                        raise Undecided("accumulate %s" % cval(op))
                return []
            return self.guarded(b, g)
        for b in t.args[1:]:
            if b.op == "compbody":
                self.comp(b, one)
            else:
                one(b)
        return Arr(cur.shape, data)

    # -------------------------------------------------------------- attributes and methods
    def xattr(self, b, n):
        if isinstance(b, Frame):
            if n == "columns":
                return b.columns
            if n == "index":
                return b.index
            if n == "values":
                return b.values()
            if n == "shape":
                return (len(b.index), len(b.columns))
            if n == "size":
                return len(b.index) * len(b.columns)
            if n == "empty":
                return len(b.index) * len(b.columns) == 0
            if n == "ndim":
                return 2
            if n == "T":
                return self.transpose(b)
            if n in ("loc", "iloc", "at", "iat"):
                return Acc(b, n)
            if not b.columns.multi and n in b.columns.labels:
                return self.getitem(b, n)
        if isinstance(b, Series):
            if n == "index":
                return b.index
            if n == "values":
                return Arr((len(b.data),), b.data)
            if n == "size":
                return len(b.data)
            if n == "shape":
                return (len(b.data),)
            if n == "empty":
                return not b.data
            if n in ("loc", "iloc", "at", "iat"):
                return Acc(b, n)
            if n == "T":
                return b
            if n == "name":
                return b.name
        if isinstance(b, Idx):
            if n in ("values", "array"):
                return Arr((len(b),), b.labels)
            if n == "size":
                return len(b)
            if n == "shape":
                return (len(b),)
            if n == "nlevels":
                return len(b.names)
            if n == "names":
                return list(b.names)
            if n == "empty":
                return not b.labels
            if n == "is_unique":
                return len(set(b.labels)) == len(b.labels)
        if isinstance(b, Arr):
            if n == "shape":
                return b.shape
            if n == "ndim":
                return len(b.shape)
            if n == "size":
                return len(b.data)
            if n == "T":
                return b.transpose()
            if n == "values":
                return b
        if isinstance(b, dict) and "." + n in b:
            return b["." + n]
        if n == "str" and isinstance(b, (Series, Idx)):
            return StrAcc(b)
        raise Undecided("attribute %s of %s" % (n, type(b).__name__))

    def transpose(self, b):
        if isinstance(b, Frame):
            n = len(b.index)
            return Frame(b.columns, b.index, [[d[i] for d in b.data] for i in range(n)])
        if isinstance(b, Arr):
            return b.transpose()
        return b

    def func(self, f, *vals):
        """apply a function of the analysed code to values"""
        e = self.e
        if f.op == "ext":
            return self.external(f.args[0], list(vals))
        try:
            return self.func_on(f, vals)
        except Undecided:
            args = [term_of(v) for v in vals]
            if None in args:
                raise
        u, e.unroll_while = e.unroll_while, 40
        n = len(e.effects)
        try:
            r = e.run(f, args)
        except AnalysisError as ex:
            raise Undecided(str(ex))
        finally:
            e.unroll_while = u
        if [x for x in e.effects[n:] if x.kind in ("mutate", "raise")]:
            raise Undecided("function with effects")
        return self(r)

    def func_on(self, f, vals):
        e = self.e
        syms = []
        for v in vals:
            s = e.sym("arg%d" % e.fresh(), "any")
            if isinstance(v, tuple):
                parts = [e.sym("arg%d" % e.fresh(), "str" if isinstance(x, str) else "any") for x in v]
                for p, x in zip(parts, v):
                    self.env[p] = x
                s = tuple_(*parts)
            else:
                self.env[s] = v
            syms.append(s)
        n = len(e.effects)
        r = e.run(f, syms)
        bad = [x for x in e.effects[n:] if x.kind in ("mutate", "raise")]
        if bad:
            raise Undecided("function with effects")
        return self(r)

    def kwargs(self, t):
        return dict(t.args[3]) if len(t.args) > 3 else {}

    def mcall(self, t):
        b = self(t.args[0])
        n = t.args[1]
        a = list(t.args[2])
        k = self.kwargs(t)
        if isinstance(b, StrAcc):
            return self.strcall(b.obj, n, a, k)
        f = getattr(self, "m_" + n, None)
        if f is not None:
            r = f(b, a, k)
            if r is not NotImplemented:
                return r
        if isinstance(b, Arr):
            v = self.arrcall(b, n, a, k)
            if v is not NotImplemented:
                return v
        if isinstance(b, str) and not k and (n in STR_PURE or n in ("split", "rsplit", "splitlines", "partition", "rpartition")):
            args = [self(x) for x in a]
            if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in args):
                return getattr(b, n)(*args)
        raise Undecided("method %s of %s" % (n, type(b).__name__))

    def strcall(self, b, n, a, k):
        xs = b.data if isinstance(b, Series) else b.labels
        args = [self(x) for x in a]
        if not all(isinstance(x, str) for x in xs) or not all(isinstance(x, str) for x in args):
            raise Undecided("text of other values")
        if n in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold") and not k:
            f = lambda x: getattr(x, n)(*args)
        elif n == "len" and not a and not k:
            f = len
        elif n in ("contains", "match", "fullmatch") and len(a) == 1:
            self.only(k, ("regex",))
            rx = True if "regex" not in k else self.truth(self(k["regex"]))
            f = (lambda x: getattr(re, {"contains": "search"}.get(n, n))(args[0], x) is not None) if rx else (lambda x: args[0] in x)
        else:
            raise Undecided("method str.%s" % n)
        v = [f(x) for x in xs]
        return Series(b.index, v, b.name) if isinstance(b, Series) else Arr((len(v),), v)

    def arg(self, a, k, i, name, default=None):
        if i is not None and i < len(a):
            return self(a[i])
        if name in k:
            return self(k[name])
        return default

    def only(self, k, names):
        extra = set(k) - set(names)
        if extra:
            raise Undecided("argument %s" % sorted(extra))

    def axis(self, v):
        if v in (0, "index", "rows", None):
            return 0
        if v in (1, "columns"):
            return 1
        raise Undecided("axis %r" % (v,))

    def m_copy(self, b, a, k):
        return b

    m_view = m_copy

    def m_astype(self, b, a, k):
        ty = self.arg(a, k, 0, "dtype")
        if ty in ("float", "float64", ("class", "builtins.float"), ("class", "numpy.float64"), "int", ("class", "builtins.int"), ("class", "numpy.int64")):
            if isinstance(b, (Series, Arr, Frame)):
                return self.pointwise(rounded("trunc", 0) if "int" in str(ty) else lambda x: x, b)
        if ty in ("float32", "float16", ("class", "numpy.float32"), ("class", "numpy.float16")) and isinstance(b, (Series, Arr, Frame)):
            return self.pointwise(lambda x: atom("single", x, 0) if isinstance(x, Val) else x, b)
        raise Undecided("astype %r" % (ty,))

    def m_to_numpy(self, b, a, k):
        if a or k:
            raise Undecided("to_numpy")
        return self.xattr(b, "values")

    def m_round(self, b, a, k):
        self.only(k, ("decimals",))
        d = self.arg(a, k, 0, "decimals", 0)
        if not isinstance(d, int):
            raise Undecided("round")
        return self.pointwise(rounded("round", d), b)

    def m_clip(self, b, a, k):
        self.only(k, ("lower", "upper", "a_min", "a_max", "min", "max"))
        lo = self.arg(a, k, 0, "lower", self.arg([], k, None, "min"))
        hi = self.arg(a, k, 1, "upper", self.arg([], k, None, "max"))
        return self.pointwise(lambda x: clipped(x, lo, hi), b)

    def m_map(self, b, a, k):
        self.only(k, ())
        f = a[0]
        if f.op == "dict":
            d = self(f)
            g = lambda x: d.get(x)
        else:
            g = lambda x: self.func(f, x)
        if isinstance(b, Idx):
            out = [g(x) for x in b.labels]
            if out and all(isinstance(x, tuple) for x in out):
                return Idx(out, None, True)
            return Idx(out)
        return self.pointwise(g, b)

    m_apply_ = m_map

    def m_get_level_values(self, b, a, k):
        if not isinstance(b, Idx):
            return NotImplemented
        lv = self.arg(a, k, 0, "level")
        p = b.level(lv)
        return Idx(b.values(p), [b.names[p]])

    def m_unique(self, b, a, k):
        if isinstance(b, Idx):
            lv = self.arg(a, k, 0, "level")
            if lv is not None:
                b = self.m_get_level_values(b, a, k)
            return Idx(uniq(b.labels), b.names, b.multi)
        if isinstance(b, Series):
            return Arr((len(uniq(b.data)),), uniq(b.data))
        return NotImplemented

    def m_assign(self, b, a, k):
        if not isinstance(b, Frame) or a:
            return NotImplemented
        for n, v in k.items():
            b = self.setcol(b, n, self(v))
        return b


    def m_nunique(self, b, a, k):
        if isinstance(b, (Series, Idx)) and not a:
            return len(uniq(self.seq(b)))
        return NotImplemented

    def m_tolist(self, b, a, k):
        return self.tolist(b)

    m_to_list = m_tolist

    def m_drop(self, b, a, k):
        self.only(k, ("labels", "axis", "level", "columns", "index", "errors"))
        if isinstance(b, Idx):
            lab = self.arg(a, k, 0, "labels")
            lab = self.seq(lab) if isinstance(lab, (list, Idx, Arr)) else [lab]
            return b.take([i for i, x in enumerate(b.labels) if x not in lab])
        if not isinstance(b, Frame):
            return NotImplemented
        ax = self.axis(self.arg(a, k, 1, "axis", 0))
        lab = self.arg(a, k, 0, "labels")
        if "columns" in k:
            lab, ax = self(k["columns"]), 1
        if "index" in k:
            lab, ax = self(k["index"]), 0
        lab = self.seq(lab) if isinstance(lab, (list, Idx, Arr, Series, tuple)) and not (isinstance(lab, tuple) and b.columns.multi) else [lab]
        lv = self.arg(a, k, 3, "level")
        if len(a) == 3:
            raise Undecided("drop")
        ix = b.columns if ax == 1 else b.index
        if lv is not None:
            vals = ix.values(lv)
        elif ix.multi:
            vals = None
        else:
            vals = ix.labels
        keep = []
        for i, x in enumerate(ix.labels):
            if vals is not None:
                hit = vals[i] in lab
            else:
                hit = x in lab or x[0] in lab
            if not hit:
                keep.append(i)
        pool = set(vals) if vals is not None else set(ix.labels) | {x[0] for x in ix.labels}
        if self.arg([], k, None, "errors", "raise") == "raise" and any(x not in pool for x in lab):
            raise PyErr("KeyError")
        return b.cols(keep) if ax == 1 else b.rows(keep)

    def m_rename(self, b, a, k):
        self.only(k, ("columns", "level", "axis", "mapper", "index", "errors", "copy"))
        if not isinstance(b, Frame):
            return NotImplemented
        mp = k.get("columns")
        if mp is None and a and self.axis(self.arg([], k, None, "axis", 0)) == 1:
            mp = a[0]
        if mp is None and "mapper" in k and self.axis(self.arg([], k, None, "axis", 0)) == 1:
            mp = k["mapper"]
        if mp is None:
            raise Undecided("rename")
        lv = self.arg([], k, None, "level")
        if mp.op in ("func", "bmeth", "ext"):
            g = lambda x: self.func(mp, x)
        else:
            d = self(mp)
            g = lambda x: d.get(x, x)
        c = b.columns
        if c.multi:
            p = None if lv is None else c.level(lv)
            lab = [tuple(g(x) if p is None or i == p else x for i, x in enumerate(l)) for l in c.labels]
        else:
            lab = [g(x) for x in c.labels]
        return Frame(b.index, Idx(lab, c.names, c.multi), b.data)

    def m_set_axis(self, b, a, k):
        self.only(k, ("labels", "axis", "copy", "inplace"))
        v = self.arg(a, k, 0, "labels")
        ax = self.axis(self.arg(a, k, 1, "axis", 0))
        if not isinstance(v, Idx):
            v = Idx(self.seq(v))
        if isinstance(b, Frame):
            return Frame(b.index, v, b.data) if ax == 1 else Frame(v, b.columns, b.data)
        return NotImplemented

    def m_isin(self, b, a, k):
        v = self.arg(a, k, 0, "values")
        vs = self.seq(v)
        return self.pointwise(lambda x: x in vs, b)

    def m_notnull(self, b, a, k):
        return self.pointwise(lambda x: x is not None, b)

    m_notna = m_notnull

    def m_isnull(self, b, a, k):
        return self.pointwise(lambda x: x is None, b)

    m_isna = m_isnull

    def ordered(self, b, a, k, op, flip, neg):
        self.only(k, ("other",))
        o = self.arg(a, k, 0, "other")
        d = self.arith(vsub, o, b) if flip else self.arith(vsub, b, o)
        return self.pointwise(lambda x: self.order(x, op) != neg, d)

    def m_lt(self, b, a, k):
        return self.ordered(b, a, k, "lt0", False, False)

    def m_le(self, b, a, k):
        return self.ordered(b, a, k, "le0", False, False)

    def m_gt(self, b, a, k):
        return self.ordered(b, a, k, "lt0", True, False)

    def m_ge(self, b, a, k):
        return self.ordered(b, a, k, "le0", True, False)

    def m_head(self, b, a, k):
        n = self.arg(a, k, 0, "n", 5)
        if not isinstance(b, (Series, Frame)) or not isinstance(n, int) or n < 0:
            return NotImplemented
        return self.some(b, range(min(n, len(b.index))))

    def m_tail(self, b, a, k):
        n = self.arg(a, k, 0, "n", 5)
        if not isinstance(b, (Series, Frame)) or not isinstance(n, int) or n < 0:
            return NotImplemented
        return self.some(b, range(max(0, len(b.index) - n), len(b.index)))

    def some(self, b, pos):
        pos = list(pos)
        return b.rows(pos) if isinstance(b, Frame) else Series(b.index.take(pos), [b.data[i] for i in pos], b.name)

    def m_shift(self, b, a, k):
        self.only(k, ("periods", "fill_value"))
        n, fill = self.arg(a, k, 0, "periods", 1), self.arg([], k, None, "fill_value")
        if not isinstance(b, (Series, Frame)) or not isinstance(n, int):
            return NotImplemented
        mv = lambda d: [d[i - n] if 0 <= i - n < len(d) else fill for i in range(len(d))]
        return Series(b.index, mv(b.data), b.name) if isinstance(b, Series) else Frame(b.index, b.columns, [mv(d) for d in b.data])

    def m_dropna(self, b, a, k):
        self.only(k, ("axis", "how"))
        if isinstance(b, Series) and not k and not a:
            return self.some(b, [i for i, x in enumerate(b.data) if x is not None])
        if not isinstance(b, Frame) or a:
            return NotImplemented
        f = all if self.arg([], k, None, "how", "any") == "all" else any
        if self.axis(self.arg([], k, None, "axis", 0)) == 0:
            return b.rows([i for i in range(len(b.index)) if not f(d[i] is None for d in b.data)])
        return b.cols([i for i, d in enumerate(b.data) if not f(x is None for x in d)])

    def m_where(self, b, a, k, keep=True):
        c, o = self.arg(a, k, 0, "cond"), self.arg(a, k, 1, "other")
        if not isinstance(b, Series) or o is None:
            return NotImplemented
        if isinstance(c, Series) and c.index.labels != b.index.labels or isinstance(o, Series) and o.index.labels != b.index.labels:
            raise Undecided("where on other labels")
        cs = self.seq(c)
        os_ = list(o.data) if isinstance(o, (Series, Arr)) else [o] * len(b.data)
        if not all(isinstance(x, bool) for x in cs) or len(cs) != len(b.data) or len(os_) != len(b.data):
            raise Undecided("where")
        return Series(b.index, [x if bool(m) == keep else y for m, x, y in zip(cs, b.data, os_)], b.name)

    def m_mask(self, b, a, k):
        return self.m_where(b, a, k, False)

    def m_fillna(self, b, a, k):
        v = self.arg(a, k, 0, "value")
        return self.pointwise(lambda x: v if x is None else x, b)

    def m_eq(self, b, a, k):
        return self.compare(b, self.arg(a, k, 0, "other"))

    def m_ne(self, b, a, k):
        return self.pointwise(lambda x: not x, self.compare(b, self.arg(a, k, 0, "other")))

    def m___invert__(self, b, a, k):
        return self.pointwise(lambda x: not self.truth(x), b)

    def bin(self, f, b, a, k):
        self.only(k, ("other", "axis", "level"))
        if "axis" in k or "level" in k:
            ax = self.arg([], k, None, "axis")
            o = self.arg(a, k, 0, "other")
            if isinstance(b, Frame) and isinstance(o, Arr) and self.axis(ax) == 0 and o.shape == (len(b.index),):
                return Frame(b.index, b.columns, [[f(x, y) for x, y in zip(d, o.data)] for d in b.data])
            if isinstance(b, Frame) and isinstance(o, Series) and self.axis(ax) == 0 and o.index == b.index:
                return Frame(b.index, b.columns, [[f(x, y) for x, y in zip(d, o.data)] for d in b.data])
            if not isinstance(b, Series):
                raise Undecided("axis")
        return self.zip2(f, b, self.arg(a, k, 0, "other"))

    def m_mul(self, b, a, k):
        return self.bin(vmul, b, a, k)

    m_multiply = m_mul

    def m_add(self, b, a, k):
        return self.bin(vadd, b, a, k)

    def m_sub(self, b, a, k):
        return self.bin(vsub, b, a, k)

    m_subtract = m_sub

    def m_div(self, b, a, k):
        return self.bin(vdiv, b, a, k)

    m_truediv = m_divide = m_div

    def m_rsub(self, b, a, k):
        return self.bin(lambda x, y: vsub(y, x), b, a, k)

    def m_keys(self, b, a, k):
        if isinstance(b, Frame):
            return b.columns
        if isinstance(b, dict):
            return list(b)
        return NotImplemented

    def m_items(self, b, a, k):
        if isinstance(b, dict):
            return list(b.items())
        if isinstance(b, Series):
            return list(zip(b.index.labels, b.data))
        if isinstance(b, Frame):
            return [(c, Series(b.index, d, c)) for c, d in zip(b.columns.labels, b.data)]
        return NotImplemented

    def m_reset_index(self, b, a, k):
        self.only(k, ("drop", "level", "name"))
        drop = self.arg([], k, None, "drop", False)
        if a or "level" in k:
            raise Undecided("reset_index")
        n = len(b.index)
        if drop:
            return Frame(Idx(range(n)), b.columns, b.data) if isinstance(b, Frame) else Series(Idx(range(n)), b.data, b.name)
        names = [x if x is not None else ("index" if not b.index.multi else "level_%d" % i) for i, x in enumerate(b.index.names)]
        lv = [b.index.values(i) for i in range(len(names))]
        if isinstance(b, Series):
            nm = self.arg([], k, None, "name", b.name)
            return Frame(Idx(range(n)), Idx(names + [0 if nm is None else nm]), lv + [b.data])
        if b.columns.multi:
            raise Undecided("reset_index on column levels")
        return Frame(Idx(range(n)), Idx(names + b.columns.labels), lv + b.data)

    def m_set_index(self, b, a, k):
        self.only(k, ("keys", "drop"))
        ks = self.arg(a, k, 0, "keys")
        single = not isinstance(ks, (list, tuple))
        ks = [ks] if single else list(ks)
        pos = [self.colpos(b, x)[0] for x in ks]
        drop = self.arg([], k, None, "drop", True)
        keep = [i for i in range(len(b.columns)) if not (drop and i in pos)]
        if len(ks) == 1:
            ix = Idx(b.data[pos[0]], ks)
        else:
            ix = Idx(list(zip(*[b.data[p] for p in pos])), ks, True)
        return Frame(ix, b.columns.take(keep), [b.data[i] for i in keep])

    def m_droplevel(self, b, a, k):
        lv = self.arg(a, k, 0, "level")
        ax = self.axis(self.arg(a, k, 1, "axis", 0))
        lvs = lv if isinstance(lv, (list, tuple)) else [lv]

        def dl(ix):
            for p in sorted((ix.level(x) for x in lvs), reverse=True):
                ix = droplevel(ix, p)
            return ix
        if isinstance(b, Idx):
            return dl(b)
        if isinstance(b, Series):
            return Series(dl(b.index), b.data, b.name)
        if isinstance(b, Frame):
            return Frame(dl(b.index), b.columns, b.data) if ax == 0 else Frame(b.index, dl(b.columns), b.data)
        return NotImplemented

    def m_xs(self, b, a, k):
        self.only(k, ("key", "axis", "level", "drop_level"))
        key = self.arg(a, k, 0, "key")
        ax = self.axis(self.arg(a, k, 1, "axis", 0))
        lv = self.arg(a, k, 2, "level")
        dl = self.arg([], k, None, "drop_level", True)
        if isinstance(b, Series):
            ix = b.index
        else:
            ix = b.index if ax == 0 else b.columns
        if not ix.multi and lv is None:
            if ax == 0:
                return self.locate(Acc(b, "loc"), key)
            return self.getitem(b, key)
        keys = list(key) if isinstance(key, tuple) else [key]
        lvs = list(lv) if isinstance(lv, (list, tuple)) else [lv] if lv is not None else list(range(len(keys)))
        lvs = [ix.level(x) for x in lvs]
        if len(lvs) != len(keys):
            raise Undecided("xs")
        pos = [i for i, l in enumerate(ix.labels) if all((l[p] if ix.multi else l) == x for p, x in zip(lvs, keys))]
        if not pos:
            raise PyErr("KeyError")
        nx = ix.take(pos)
        if dl and len(lvs) < len(ix.names):
            nx = self.droplevels(nx, lvs)
        if isinstance(b, Series):
            return Series(nx, [b.data[i] for i in pos], b.name)
        if ax == 0:
            return Frame(nx, b.columns, [[d[i] for i in pos] for d in b.data])
        return Frame(b.index, nx, [b.data[i] for i in pos])

    def m_sort_index(self, b, a, k):
        self.only(k, ("level", "axis", "ascending", "inplace", "sort_remaining", "kind"))
        ax = self.axis(self.arg(a, k, 0, "axis", 0))
        lv = self.arg([], k, None, "level")
        asc = self.arg([], k, None, "ascending", True)
        if not isinstance(asc, bool):
            raise Undecided("ascending")
        ix = b.index if ax == 0 or isinstance(b, Series) else b.columns
        if ix.multi:
            lvs = list(lv) if isinstance(lv, (list, tuple)) else [lv] if lv is not None else list(range(len(ix.names)))
            lvs = [ix.level(x) for x in lvs]
            rest = [i for i in range(len(ix.names)) if i not in lvs]
            if self.arg([], k, None, "sort_remaining", True):
                lvs = lvs + rest
            key = lambda i: tuple(skey(ix.labels[i][p]) for p in lvs)
        else:
            key = lambda i: skey(ix.labels[i])
        pos = sorted(range(len(ix)), key=key, reverse=not asc)
        if isinstance(b, Series):
            return Series(b.index.take(pos), [b.data[i] for i in pos], b.name)
        return b.rows(pos) if ax == 0 else b.cols(pos)

    def m_sort_values(self, b, a, k):
        self.only(k, ("by", "axis", "ascending", "inplace", "kind", "ignore_index"))
        if isinstance(b, Series):
            pos = sorted(range(len(b.data)), key=lambda i: skey(b.data[i]), reverse=self.down(self.arg([], k, None, "ascending", True)))
            return Series(b.index.take(pos), [b.data[i] for i in pos], b.name)
        by = self.arg(a, k, 0, "by")
        by = by if isinstance(by, (list, tuple)) else [by]
        down = self.down(self.arg(a, k, 2, "ascending", True) if len(a) != 2 else True)
        cols = []
        for x in by:
            if x in b.columns.labels:
                cols.append(b.data[b.columns.labels.index(x)])
            else:
                cols.append(b.index.values(x))
        pos = sorted(range(len(b.index)), key=lambda i: tuple(skey(c[i]) for c in cols), reverse=down)
        return b.rows(pos)

    def down(self, asc):
        if asc not in (True, False, 1, 0):
            raise Undecided("order")
        return not asc

    # grouping
    def m_groupby(self, b, a, k):
        self.only(k, ("by", "axis", "level", "sort", "as_index", "observed", "group_keys"))
        if self.axis(self.arg(a, k, 1, "axis", 0)) != 0 or self.arg([], k, None, "sort", True) is not True or self.arg([], k, None, "as_index", True) is not True:
            raise Undecided("groupby")
        by = self.arg(a, k, 0, "by")
        lv = self.arg(a, k, 2, "level")
        if lv is not None:
            lvs = list(lv) if isinstance(lv, (list, tuple)) else [lv]
            cols = [b.index.values(x) for x in lvs]
            names = [b.index.names[b.index.level(x)] for x in lvs]
            single = not isinstance(lv, (list, tuple))
            used = []
        else:
            bys = by if isinstance(by, list) else list(by) if isinstance(by, tuple) else [by]
            single = not isinstance(by, (list, tuple))
            cols, names, used = [], [], []
            for x in bys:
                if isinstance(x, Series):
                    cols.append(x.data)
                    names.append(x.name)
                elif isinstance(b, Frame) and x in b.columns.labels:
                    cols.append(b.data[b.columns.labels.index(x)])
                    names.append(x)
                    used.append(x)
                elif x in b.index.names:
                    cols.append(b.index.values(x))
                    names.append(x)
                else:
                    raise PyErr("KeyError")
        keys = list(zip(*cols)) if cols else []
        if not keys:
            keys = []
        g = Group(b, keys, names)
        g.single = single or len(names) == 1
        g.used = used
        return g

    def aggregate(self, g, how):
        b = g.obj
        ks = sorted(uniq(g.keys), key=skey)
        members = {x: [] for x in ks}
        for i, x in enumerate(g.keys):
            members[x].append(i)
        ix = Idx([x[0] for x in ks], g.names) if len(g.names) == 1 else Idx(ks, g.names, True)
        if isinstance(b, Series):
            return Series(ix, [agg(how, [b.data[i] for i in members[x]]) for x in ks], b.name)
        cols = [i for i, c in enumerate(b.columns.labels) if c not in getattr(g, "used", [])]
        if g.cols is not None:
            want = g.cols if isinstance(g.cols, list) else [g.cols]
            cols = [self.colpos(b, c)[0] for c in want]
        elif how in ("sum", "mean", "max", "min"):
            cols = [i for i in cols if numeric(b.data[i])]
        if how == "size":
            return Series(ix, [len(members[x]) for x in ks])
        data = [[agg(how, [b.data[c][i] for i in members[x]]) for x in ks] for c in cols]
        if g.cols is not None and not isinstance(g.cols, list):
            return Series(ix, data[0], g.cols)
        return Frame(ix, b.columns.take(cols), data)

    def m_transform(self, b, a, k):
        if not isinstance(b, Group) or len(a) != 1 or k:
            return NotImplemented
        r = self.aggregate(b, self.how(a[0], None))
        if not isinstance(r, Series):
            raise Undecided("transform of a frame")
        at = dict(zip(r.index.labels, r.data))
        return Series(b.obj.index, [at[x[0] if len(b.names) == 1 else x] for x in b.keys], r.name)

    def reduce_(self, how, b, a, k):
        if isinstance(b, Group):
            self.only(k, ("numeric_only",))
            return self.aggregate(b, how)
        if isinstance(b, Series):
            self.only(k, ("axis", "skipna", "level"))
            if "level" in k:
                return self.aggregate(self.m_groupby(b, [], {"level": k["level"]}), how)
            return agg(how, b.data)
        if isinstance(b, Frame):
            self.only(k, ("axis", "skipna", "level", "numeric_only"))
            if "level" in k:
                return self.aggregate(self.m_groupby(b, [], {"level": k["level"]}), how)
            ax = self.axis(self.arg(a, k, 0, "axis", 0))
            num = [i for i, d in enumerate(b.data) if numeric(d)]
            if ax == 0:
                return Series(b.columns.take(num), [agg(how, b.data[i]) for i in num])
            return Series(b.index, [agg(how, [b.data[i][r] for i in num]) for r in range(len(b.index))])
        if isinstance(b, Arr):
            self.only(k, ("axis",))
            ax = self.arg(a, k, 0, "axis")
            if ax is None:
                return agg(how, b.data) if b.data or how == "sum" else self.empty(how)
            if len(b.shape) == 2 and ax in (0, 1, -1, -2):
                n, m = b.shape
                if ax in (1, -1):
                    return Arr((n,), [agg(how, b.data[i * m:(i + 1) * m]) for i in range(n)])
                return Arr((m,), [agg(how, [b.data[i * m + j] for i in range(n)]) for j in range(m)])
            if len(b.shape) == 1 and ax in (0, -1):
                return agg(how, b.data)
            raise Undecided("axis")
        if isinstance(b, (list, tuple)) and how == "sum":
            return agg(how, list(b))
        return NotImplemented

    def empty(self, how):
        raise PyErr("ValueError")

    def m_sum(self, b, a, k):
        return self.reduce_("sum", b, a, k)

    def m_mean(self, b, a, k):
        return self.reduce_("mean", b, a, k)

    def m_first(self, b, a, k):
        return self.reduce_("first", b, a, k)

    def m_max(self, b, a, k):
        return self.reduce_("max", b, a, k)

    def m_min(self, b, a, k):
        return self.reduce_("min", b, a, k)

    def m_size(self, b, a, k):
        return self.reduce_("size", b, a, k)

    def how(self, t, default):
        if t is None:
            return default
        v = self(t)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "class":
            v = v[1]
        if v in AGG:
            return AGG[v]
        raise Undecided("aggregation %r" % (v,))

    def m_agg(self, b, a, k):
        if isinstance(b, (Group, Series, Frame)) and len(a) == 1 and not k:
            return self.reduce_(self.how(a[0], "sum"), b, [], {})
        return NotImplemented

    m_aggregate = m_agg

    def pivot(self, b, a, k):
        self.only(k, ("values", "index", "columns", "aggfunc", "fill_value", "data", "dropna"))
        idx = self.arg(a, k, 1, "index")
        cols = self.arg(a, k, 2, "columns")
        vals = self.arg(a, k, 0, "values")
        how = self.how(a[3] if len(a) > 3 else k.get("aggfunc"), "mean")
        fv = self.arg([], k, None, "fill_value")
        idx = [] if idx is None else list(idx) if isinstance(idx, (list, tuple)) else [idx]
        cols = [] if cols is None else list(cols) if isinstance(cols, (list, tuple)) else [cols]
        if not isinstance(b, Frame):
            raise Undecided("pivot")
        if len(b.index) == 0:
            # nothing to aggregate
            names = [c for c in b.columns.labels if c not in idx + cols]
            ix = Idx([], idx, len(idx) > 1)
            return Frame(ix, Idx([]), [])
        single = vals is not None and not isinstance(vals, (list, tuple))
        v = [c for c in b.columns.labels if c not in idx + cols] if vals is None else [vals] if single else list(vals)
        sub = b.cols([self.colpos(b, c)[0] for c in idx + cols + v])
        keys = list(zip(*[sub.data[i] for i in range(len(idx) + len(cols))]))
        g = Group(sub, keys, idx + cols)
        g.used = idx + cols
        r = self.aggregate(g, how)
        # columns sorted
        pos = sorted(range(len(r.columns)), key=lambda i: skey(r.columns.labels[i]))
        r = r.cols(pos)
        if not cols:
            return r
        out = self.unstack(r, [len(idx) + i for i in range(len(cols))], fv)
        if single and len(cols) >= 1:
            out = Frame(out.index, droplevel(out.columns, 0), out.data)
        return out

    def m_pivot_table(self, b, a, k):
        return self.pivot(b, a, k)

    def m_pivot(self, b, a, k):
        self.only(k, ("index", "columns", "values"))
        return self.pivot(b, [], k)

    def unstack(self, b, levels, fv=None):
        ix = b.index
        levels = [ix.level(x) for x in levels]
        rest = [i for i in range(len(ix.names)) if i not in levels]
        if not rest:
            raise Undecided("unstack of all levels")
        rk = [tuple(l[i] for i in rest) for l in ix.labels]
        ck = [tuple(l[i] for i in levels) for l in ix.labels]
        rows, cols = sorted(uniq(rk), key=skey), sorted(uniq(ck), key=skey)
        pos = {(r, c): i for i, (r, c) in enumerate(zip(rk, ck))}
        if len(pos) != len(rk):
            raise PyErr("ValueError")
        nix = Idx([r[0] for r in rows], [ix.names[rest[0]]]) if len(rest) == 1 else Idx(rows, [ix.names[i] for i in rest], True)

        def column(d, c):
            return [d[pos[(r, c)]] if (r, c) in pos else fv for r in rows]
        if isinstance(b, Series):
            nc = Idx([c[0] for c in cols], [ix.names[levels[0]]]) if len(levels) == 1 else Idx(cols, [ix.names[i] for i in levels], True)
            return Frame(nix, nc, [column(b.data, c) for c in cols])
        lab, data = [], []
        for l, d in zip(b.columns.labels, b.data):
            for c in cols:
                lab.append((tuple(l) if b.columns.multi else (l,)) + c)
                data.append(column(d, c))
        return Frame(nix, Idx(lab, list(b.columns.names) + [ix.names[i] for i in levels], True), data)

    def m_unstack(self, b, a, k):
        self.only(k, ("level", "fill_value"))
        lv = self.arg(a, k, 0, "level", -1)
        lvs = list(lv) if isinstance(lv, (list, tuple)) else [lv]
        return self.unstack(b, lvs, self.arg(a, k, 1, "fill_value"))

    def m_swaplevel(self, b, a, k):
        i, j = self.arg(a, k, 0, "i", -2), self.arg(a, k, 1, "j", -1)
        ix = b.index
        p, q = ix.level(i), ix.level(j)
        o = list(range(len(ix.names)))
        o[p], o[q] = o[q], o[p]
        nx = Idx([tuple(l[x] for x in o) for l in ix.labels], [ix.names[x] for x in o], True)
        return Frame(nx, b.columns, b.data) if isinstance(b, Frame) else Series(nx, b.data, b.name)

    def m_reindex(self, b, a, k):
        self.only(k, ("index", "columns", "fill_value", "labels", "axis"))
        fv = self.arg([], k, None, "fill_value")
        if isinstance(b, Series):
            lab = self.arg(a, k, 0, "index")
            m = dict(zip(b.index.labels, b.data))
            ix = lab if isinstance(lab, Idx) else Idx(self.seq(lab))
            return Series(ix, [m.get(x, fv) for x in ix.labels], b.name)
        if isinstance(b, Frame):
            c = self.arg([], k, None, "columns")
            if c is None and a and self.axis(self.arg([], k, None, "axis", 0)) == 1:
                c = self(a[0])
            if c is not None:
                ix = c if isinstance(c, Idx) else Idx(self.seq(c))
                return Frame(b.index, ix, [b.data[b.columns.labels.index(x)] if x in b.columns.labels else [fv] * len(b.index) for x in ix.labels])
            lab = self.arg(a, k, 0, "index")
            ix = lab if isinstance(lab, Idx) else Idx(self.seq(lab), b.index.names)
            pos = {l: i for i, l in enumerate(b.index.labels)}
            return Frame(ix, b.columns, [[d[pos[x]] if x in pos else fv for x in ix.labels] for d in b.data])
        return NotImplemented

    def m_transpose(self, b, a, k):
        if a or k:
            raise Undecided("transpose")
        return self.transpose(b)

    def m_to_frame(self, b, a, k):
        if isinstance(b, Series):
            n = self.arg(a, k, 0, "name", b.name)
            return Frame(b.index, Idx([0 if n is None else n]), [b.data])
        return NotImplemented

    def m_squeeze(self, b, a, k):
        if isinstance(b, Frame) and len(b.columns) == 1 and not a and not k and len(b.index) > 1:
            return Series(b.index, b.data[0], b.columns.labels[0])
        return NotImplemented

    def m_query(self, b, a, k):
        raise Undecided("query")

    def m_get(self, b, a, k):
        if isinstance(b, dict):
            key = self(a[0])
            return b.get(key, self.arg(a, k, 1, "default"))
        return NotImplemented

    def m_append(self, b, a, k):
        raise Undecided("append")

    def m_indices(self, b, a, k):
        if isinstance(b, slice):
            return b.indices(self(a[0]))
        return NotImplemented

    def m_any(self, b, a, k):
        if not a and not k and isinstance(b, (Series, Arr)):
            return any(self.truth(x) for x in b.data)
        return self.over_frame(any, b, a, k)

    def over_frame(self, f, b, a, k):
        """any / all of a frame"""
        if not isinstance(b, Frame) or set(k) - {"axis"} or len(a) > 1:
            return NotImplemented
        ax = self.arg(a, k, 0, "axis", 0)
        if ax in (0, "index"):
            return Series(b.columns, [f(self.truth(x) for x in d) for d in b.data])
        if ax in (1, "columns"):
            return Series(b.index, [f(self.truth(d[i]) for d in b.data) for i in range(len(b.index))])
        return NotImplemented

    def m_drop_duplicates(self, b, a, k):
        if isinstance(b, Idx) and not k and not a:
            return Idx(uniq(b.labels), b.names, b.multi)
        if not isinstance(b, Frame) or len(a) > 1 or set(k) - {"subset", "keep"}:
            return NotImplemented
        keep = self(k["keep"]) if "keep" in k else "first"
        sub = self.arg(a, k, 0, "subset")
        if keep not in ("first", "last"):
            return NotImplemented
        cols = list(range(len(b.columns)))
        if sub is not None:
            sub = self.seq(sub) if isinstance(sub, (list, tuple, Idx)) else [sub]
            cols = [i for i, c in enumerate(b.columns.labels) if c in sub]
        n = len(b.index)
        rows = range(n) if keep == "first" else range(n - 1, -1, -1)
        kept = []
        for i in rows:
            def same(j):
                ds = [b.data[c] for c in cols]
                ds.sort(key=lambda d: isinstance(d[i], Val))
                return all(self.truth(self.compare(d[i], d[j])) for d in ds)
            if not any(same(j) for j in kept):
                kept.append(i)
        return b.rows(sorted(kept))

    def cumsum(self, b):
        xs = b.data if isinstance(b, (Arr, Series)) else self.seq(b)
        if isinstance(b, Arr) and len(b.shape) != 1:
            raise Undecided("cumsum")
        out, acc = [], 0
        for x in xs:
            acc = vadd(acc, x)
            out.append(acc)
        return Series(b.index, out, b.name) if isinstance(b, Series) else Arr((len(out),), out)

    def m_to_dict(self, b, a, k):
        if not a and not k and isinstance(b, Series):
            return dict(zip([tuple(x) if b.index.multi else x for x in b.index.labels], b.data))
        return NotImplemented

    def m_cumsum(self, b, a, k):
        if not a and not k and isinstance(b, (Series, Arr)):
            return self.cumsum(b)
        return NotImplemented

    def m_all(self, b, a, k):
        if not a and not k and isinstance(b, (Series, Arr)):
            return all(self.truth(x) for x in b.data)
        return self.over_frame(all, b, a, k)

    def arrcall(self, b, n, a, k):
        if n in ("flatten", "ravel"):
            o = self.arg(a, k, 0, "order", "C")
            if o == "F":
                x = b.transpose()
                return Arr((len(x.data),), x.data)
            if o not in ("C", "A", "K"):
                raise Undecided("order")
            return Arr((len(b.data),), b.data)
        if n == "reshape":
            o = self.arg([], k, None, "order", "C")
            self.only(k, ("order", "shape", "newshape"))
            sh = [self(x) for x in a]
            if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
                sh = list(sh[0])
            if o == "F" and len(sh) == 2:
                x = Arr(b.shape, b.data).transpose()
                return Arr((len(x.data),), x.data).reshape(sh[::-1]).transpose()
            if o != "C":
                raise Undecided("order")
            return b.reshape(sh)
        if n == "item" and not a and len(b.data) == 1:
            return b.data[0]
        if n == "repeat":
            return self.external("numpy.repeat", [b] + [self(x) for x in a], {x: self(y) for x, y in k.items()})
        if n == "take":
            return self.getitem(b, self.seq(self(a[0])))
        if n == "swapaxes" and len(b.shape) == 2:
            return b.transpose()
        return NotImplemented

    # -------------------------------------------------------------- functions
    def call(self, t):
        fn = t.args[0]
        a = list(t.args[1])
        k = dict(t.args[2])
        if fn == "pandas.pivot_table":
            b = self(a[0] if a else k["data"])
            return self.pivot(b, a[1:], k)
        if fn == "builtins.type":
            return ("class", self.typ(self(a[0]))) if self.typ else NotImplemented
        return self.external(fn, [self(x) for x in a], {x: self(y) for x, y in k.items()}, a, k)

    def external(self, fn, a, k=None, ta=(), tk=None):
        k = k or {}
        n = fn.split(".")[-1]
        g = lambda i, name, d=None: a[i] if i is not None and i < len(a) else k.get(name, d)
        if fn == "pandas.concat":
            return self.concat(g(0, "objs"), k)
        if fn == "pandas.DataFrame":
            return self.frame(g(0, "data"), g(1, "index"), g(2, "columns"), k)
        if fn == "pandas.Series":
            d, ix = g(0, "data"), g(1, "index")
            if isinstance(d, dict):
                return Series(Idx(list(d)), list(d.values()), k.get("name"))
            if ix is None and isinstance(d, Series):
                return d
            d = self.seq(d)
            ix = Idx(range(len(d))) if ix is None else ix if isinstance(ix, Idx) else Idx(self.seq(ix))
            return Series(ix, d, k.get("name"))
        if fn in ("pandas.MultiIndex.from_arrays", "pandas.MultiIndex.from_product", "pandas.MultiIndex.from_tuples"):
            v = g(0, None, k.get("arrays", k.get("iterables", k.get("tuples"))))
            names = k.get("names")
            v = self.seq(v)
            if n == "from_arrays":
                lab = list(zip(*[self.seq(x) for x in v]))
            elif n == "from_product":
                lab = [()]
                for x in v:
                    lab = [l + (y,) for l in lab for y in self.seq(x)]
            else:
                lab = [tuple(x) for x in v]
            return Idx(lab, names, True)
        if fn in ("pandas.Index", "pandas.RangeIndex"):
            if n == "RangeIndex":
                return Idx(range(*[x for x in a]))
            v = self.seq(g(0, "data"))
            return Idx(v, None, bool(v) and all(isinstance(x, tuple) for x in v))
        if fn == "pandas.merge":
            raise Undecided("merge")
        if fn in ("pandas.isnull", "pandas.isna", "numpy.isnan"):
            return self.pointwise(lambda x: x is None, a[0])
        if fn in ("pandas.notnull", "pandas.notna"):
            return self.pointwise(lambda x: x is not None, a[0])
        if fn in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy"):
            return self.array(a[0])
        if fn == "pandas.date_range":
            # dates are numbers here: evenly spaced from start to end, both included
            st, en, per = g(0, "start"), g(1, "end"), g(2, "periods")
            if not all(isinstance(x, (int, Fraction)) for x in (st, en, per)) or set(k) - {"start", "end", "periods", "closed", "inclusive"} or len(a) > 3:
                raise Undecided("date_range")
            ls = [st + Fraction(i * (en - st), per - 1) if per > 1 else st for i in range(int(per))]
            side = k.get("closed", k.get("inclusive"))
            if side in ("left", "neither"):
                ls = [x for x in ls if x != en]
            if side in ("right", "neither"):
                ls = [x for x in ls if x != st]
            return Idx(ls)
        if fn == "numpy.arange":
            return Arr((len(range(*a)),), list(range(*a)))
        if fn in ("numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like"):
            v = self.array(a[0])
            return broadcast({"zeros_like": 0, "ones_like": 1}.get(n, g(1, "fill_value")), v.shape)
        if fn in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty"):
            sh = g(0, "shape")
            v = {"zeros": 0, "ones": 1, "empty": None}.get(n, g(1, "fill_value"))
            return broadcast(v, tuple(sh) if isinstance(sh, (tuple, list)) else (sh,))
        if fn in ("numpy.tile", "numpy.repeat", "numpy.reshape", "numpy.ravel", "numpy.transpose", "numpy.broadcast_to"):
            v = self.array(a[0])
            env = dict(self.env)
            x = mk("sym", "$arr")
            rest = []
            ev = Ev({x: v})
            args = [x]
            for i, y in enumerate(a[1:]):
                s = mk("sym", "$a%d" % i)
                ev.env[s] = tuple(y) if isinstance(y, list) else y
                args.append(s)
            kk = []
            for i, (name, y) in enumerate(sorted(k.items())):
                s = mk("sym", "$k%d" % i)
                ev.env[s] = tuple(y) if isinstance(y, list) else y
                kk.append((name, s))
            return ev.call(mk("call", fn, tuple(args), tuple(kk)))
        if fn in ("numpy.sum", "builtins.sum", "numpy.mean", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "builtins.max", "builtins.min", "numpy.nansum"):
            how = {"sum": "sum", "nansum": "sum", "mean": "mean", "max": "max", "amax": "max", "min": "min", "amin": "min"}[n]
            b = a[0]
            if fn == "builtins.sum":
                acc = a[1] if len(a) > 1 else 0
                for x in self.seq(b):
                    acc = self.arith(vadd, acc, x)
                return acc
            if len(a) == 1 and isinstance(b, (list, tuple)) and fn.startswith("numpy"):
                b = self.array(b)
            if fn.startswith("builtins"):
                xs = self.seq(b) if len(a) == 1 else a
                return agg(how, xs)
            ax = g(1, "axis")
            if isinstance(b, (Frame, Series)):
                r = self.reduce_(how, b, [], {"axis": const(ax)} if ax is not None else {})
                return r
            return self.reduce_(how, b, [const(ax)] if ax is not None else [], {})
        if fn in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide"):
            f = {"add": vadd, "subtract": vsub, "multiply": vmul, "divide": vdiv, "true_divide": vdiv}[n]
            return self.zip2(f, a[0], a[1])
        if fn in ("numpy.negative",):
            return self.pointwise(vneg, a[0])
        if fn in ("numpy.clip",):
            return self.pointwise(lambda x: clipped(x, g(1, "a_min"), g(2, "a_max")), a[0])
        if fn in ("numpy.maximum", "numpy.minimum"):
            w = n[:3]
            return self.zip2(lambda x, y: clipped(x, y, None) if w == "max" else clipped(x, None, y), a[0], a[1])
        if fn == "numpy.unique":
            self.only(k, ("axis",))
            if len(a) > 1:
                raise Undecided(fn)
            v, ax = a[0], k.get("axis")
            if isinstance(v, Arr) and len(v.shape) == 2:
                w = v.shape[1]
                rows = uniq([tuple(v.data[i * w:(i + 1) * w]) for i in range(v.shape[0])])
                if ax is None:
                    xs = sorted(uniq(v.data), key=skey)
                    return Arr((len(xs),), xs)
                if ax not in (0, -2) or any(isinstance(x, Val) for r in rows for x in r):
                    raise Undecided(fn)
                rows.sort()
                return Arr((len(rows), w), [x for r in rows for x in r])
            if ax not in (None, 0):
                raise Undecided(fn)
            return Arr((len(uniq(self.seq(a[0]))),), sorted(uniq(self.seq(a[0])), key=skey))
        if fn in ("numpy.isin", "numpy.in1d"):
            vs = self.seq(a[1])
            return self.pointwise(lambda x: x in vs, a[0])
        if fn in ("numpy.logical_and", "numpy.logical_or"):
            f = (lambda x, y: self.truth(x) and self.truth(y)) if n == "logical_and" else (lambda x, y: self.truth(x) or self.truth(y))
            return self.zip2(f, a[0], a[1])
        if fn in ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs") and len(a) == 1 and not k:
            def absv(x):
                if isinstance(x, Val):
                    raise Undecided("abs")
                return abs(x)
            return self.pointwise(absv, a[0])
        if fn == "numpy.logical_not":
            return self.pointwise(lambda x: not self.truth(x), a[0])
        if fn == "numpy.where" and len(a) == 3:
            c = a[0]
            x = self.zip2(lambda p, q: (p, q), c, a[1])
            y = self.zip2(lambda p, q: (p, q), x, a[2])
            return self.pointwise(lambda z: z[0][1] if self.truth(z[0][0]) else z[1], y)
        if fn == "numpy.append" and len(a) == 2 and not k:
            xs = []
            for x in a:
                x = x.data if isinstance(x, (Arr, Series)) else self.seq(x) if isinstance(x, (list, tuple)) else [x]
                xs += x
            return Arr((len(xs),), xs)
        if fn == "numpy.linspace" and len(a) in (2, 3) and not set(k) - {"num", "endpoint"}:
            lo, hi, n = g(0, "start"), g(1, "stop"), g(2, "num", 50)
            if not isinstance(n, int) or n < 1 or isinstance(lo, Val) or isinstance(hi, Val):
                raise Undecided("linspace")
            return Arr((n,), [lo] if n == 1 else [down(vadd(lo, vdiv(vmul(vsub(hi, lo), i), n - (1 if k.get("endpoint", True) else 0)))) for i in range(n)])
        if fn == "numpy.sort" and len(a) == 1 and not k:
            b = a[0]
            if isinstance(b, (Series, Arr)) and (isinstance(b, Series) or len(b.shape) == 1):
                return Arr((len(b.data),), sorted(b.data, key=skey))
        if fn == "numpy.cumsum" and len(a) == 1 and not k:
            return self.cumsum(a[0])
        if fn in ("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.stack", "numpy.column_stack"):
            v = [self.array(x) for x in self.seq(a[0])]
            ax = g(1, "axis", 0)
            if not v:
                raise PyErr("ValueError")
            if n == "vstack" or (n == "stack" and ax == 0):
                v = [x if len(x.shape) == 2 and n == "vstack" else Arr((1,) + x.shape, x.data) for x in v]
                ax = 0
            elif n in ("column_stack",) or (n == "stack" and ax in (1, -1)):
                v = [Arr((1,) + x.shape, x.data) for x in v]
                return Arr((len(v),) + v[0].shape[1:], [y for x in v for y in x.data]).transpose()
            elif n == "hstack":
                ax = 0 if len(v[0].shape) == 1 else 1
            if ax == 0:
                return Arr((sum(x.shape[0] for x in v),) + v[0].shape[1:], [y for x in v for y in x.data])
            if ax in (1, -1) and all(len(x.shape) == 2 for x in v):
                v = [x.transpose() for x in v]
                return Arr((sum(x.shape[0] for x in v),) + v[0].shape[1:], [y for x in v for y in x.data]).transpose()
            raise Undecided("concatenate")
        if fn == "numpy.expand_dims":
            raise Undecided(fn)
        if fn == "numpy.resize" and not k and len(a) == 2:
            v, sh = self.array(a[0]), a[1]
            sh = (sh,) if isinstance(sh, int) else tuple(self.seq(sh))
            n_ = 1
            for x in sh:
                if not isinstance(x, int):
                    raise Undecided(fn)
                n_ *= x
            if not v.data:
                raise Undecided(fn)
            return Arr(sh, [v.data[i % len(v.data)] for i in range(n_)])
        if fn == "numpy.roll" and isinstance(g(1, "shift"), int):
            v, ax = self.array(a[0]), g(2, "axis")
            if ax is None or len(v.shape) == 1:
                n_ = len(v.data)
                return Arr(v.shape, [v.data[(i - g(1, "shift")) % n_] for i in range(n_)])
            if len(v.shape) == 2:
                t_ = ax in (1, -1)
                w = v.transpose() if t_ else v
                r_, c_ = w.shape
                w = Arr(w.shape, [w.data[((i - g(1, "shift")) % r_) * c_ + j] for i in range(r_) for j in range(c_)])
                return w.transpose() if t_ else w
        if fn in ("numpy.flip", "numpy.flipud", "numpy.fliplr"):
            v = self.array(a[0])
            ax = g(1, "axis") if n == "flip" else 0 if n == "flipud" else 1
            if ax is None or len(v.shape) == 1 and ax in (0, -1):
                return Arr(v.shape, v.data[::-1])
            if len(v.shape) == 2:
                r_, c_ = v.shape
                return Arr(v.shape, [v.data[((r_ - 1 - i) * c_ + j) if ax in (0, -2) else (i * c_ + c_ - 1 - j)] for i in range(r_) for j in range(c_)])
        if fn == "numpy.take" and not set(k) - {"axis", "indices"}:
            v, ix, ax = self.array(a[0]), self.seq(g(1, "indices")) if not isinstance(g(1, "indices"), int) else None, g(2, "axis")
            if ix is not None and len(v.shape) == 2 and ax == 0 and all(isinstance(i, int) for i in ix):
                c_ = v.shape[1]
                if any(not -v.shape[0] <= i < v.shape[0] for i in ix):
                    raise PyErr("IndexError")
                return Arr((len(ix), c_), [v.data[(i % v.shape[0]) * c_ + j] for i in ix for j in range(c_)])
        if fn in ("numpy.logical_and.reduce", "numpy.logical_or.reduce") and len(a) == 1 and not k:
            vs = self.seq(a[0])
            if vs:
                f = (lambda x, y: x and y) if "and" in fn else (lambda x, y: x or y)
                acc = vs[0]
                for v in vs[1:]:
                    acc = self.zip2(lambda x, y: f(self.truth(x), self.truth(y)), acc, v)
                return Arr((len(acc.data),), list(acc.data)) if isinstance(acc, Series) else acc
        if fn == "numpy.ndim":
            v = a[0]
            return len(v.shape) if isinstance(v, Arr) else 2 if isinstance(v, Frame) else 1 if isinstance(v, (Series, list)) else 0
        if fn == "numpy.shape":
            return self.xattr(self.array(a[0]), "shape")
        if fn == "numpy.size":
            return len(self.array(a[0]).data)
        if fn in ("numpy.any", "numpy.all") and len(a) == 1 and not k:
            v = [self.truth(x) for x in self.array(a[0]).data]
            return any(v) if n == "any" else all(v)
        if fn in ("builtins.round", "numpy.round", "numpy.around", "numpy.round_", "numpy.rint", "numpy.floor", "numpy.ceil", "numpy.trunc"):
            self.only(k, ("decimals", "ndigits"))
            d = a[1] if len(a) > 1 else k.get("decimals", k.get("ndigits", 0))
            if not isinstance(d, int):
                raise Undecided(fn)
            return self.pointwise(rounded(n, d), a[0])
        if fn in ("builtins.float", "builtins.int", "numpy.float64", "numpy.int64"):
            v = a[0]
            if isinstance(v, (int, float, Fraction)):
                return int(v) if n in ("int", "int64") else v
            if isinstance(v, Val) and "float" in n:
                return v
            if isinstance(v, Val):
                return rounded("trunc", 0)(v)
            raise Undecided(fn)
        if fn == "builtins.str":
            if isinstance(a[0], Fraction) and a[0].denominator in (2, 4, 8):
                return str(float(a[0]))
            if isinstance(a[0], (list, tuple, dict)) and all(isinstance(x, str) for x in a[0]) and (not isinstance(a[0], dict) or all(isinstance(x, (str, int)) for x in a[0].values())):
                return str(a[0])
            return str(a[0]) if isinstance(a[0], (str, int)) else self.undecided(fn)
        if fn in ("builtins.list", "builtins.tuple"):
            return self.seq(a[0]) if a else []
        if fn in ("builtins.set", "builtins.frozenset"):
            return uniq(self.seq(a[0])) if a else []
        if fn == "builtins.dict.fromkeys" and len(a) > 1 and a[1] == "<once>":
            return uniq(self.seq(a[0]))
        if fn == "builtins.dict.fromkeys":
            return {x: a[1] if len(a) > 1 else None for x in self.seq(a[0])}
        if fn == "builtins.dict":
            if a and isinstance(a[0], dict):
                return dict(a[0], **k)
            return dict(self.seq(a[0]) if a else [], **k)
        if fn == "builtins.range":
            return range(*a)
        if fn == "builtins.len":
            return self.length(a[0])
        if fn == "builtins.sorted":
            return sorted(self.seq(a[0]), key=skey)
        if fn == "builtins.zip":
            return list(zip(*[self.seq(x) for x in a]))
        if fn == "builtins.bool":
            return self.truth(a[0])
        if fn == "builtins.abs":
            raise Undecided(fn)
        raise Undecided("call of %s" % fn)

    def undecided(self, what):
        raise Undecided(what)

    def array(self, v):
        if isinstance(v, Arr):
            return Arr(v.shape, v.data)
        if isinstance(v, Frame):
            return v.values()
        if isinstance(v, (Series, Idx, range)):
            s = self.seq(v)
            return Arr((len(s),), s)
        if isinstance(v, (list, tuple)):
            rows = [self.array(x) if isinstance(x, (list, tuple, Arr, Series)) else x for x in v]
            if rows and all(isinstance(r, Arr) for r in rows):
                if len({r.shape for r in rows}) != 1:
                    raise Undecided("ragged array")
                return Arr((len(rows),) + rows[0].shape, [y for r in rows for y in r.data])
            if any(isinstance(r, Arr) for r in rows):
                raise Undecided("ragged array")
            return Arr((len(rows),), rows)
        if isnum(v) or isinstance(v, (str, bool)):
            return Arr((), [v])
        raise Undecided("array of %r" % (v,))

    def frame(self, d, ix, cols, k):
        self.only(k, ("data", "index", "columns", "dtype"))
        if isinstance(d, dict):
            names = list(d)
            data = []
            n = None
            for x in d.values():
                if isinstance(x, (Arr, Series, list, tuple, range, Idx)):
                    n = len(self.seq(x)) if n is None else n
                    if len(self.seq(x)) != n:
                        raise PyErr("ValueError")
            if n is None:
                if ix is None:
                    raise PyErr("ValueError")
                n = self.length(ix)
            sidx = None
            for x in d.values():
                if isinstance(x, Series):
                    if sidx is not None and not (sidx == x.index):
                        raise Undecided("series aligned by label")
                    sidx = x.index
                    data.append(x.data)
                elif isinstance(x, (Arr, list, tuple, range, Idx)):
                    data.append(self.seq(x))
                else:
                    data.append([x] * n)
            if ix is None:
                ix = sidx if sidx is not None else Idx(range(n))
            elif sidx is not None:
                raise Undecided("index given with series")
            ix = ix if isinstance(ix, Idx) else Idx(self.seq(ix))
            f = Frame(ix, Idx(names, None, bool(names) and all(isinstance(x, tuple) for x in names)), data)
            if cols is not None:
                c = self.seq(cols)
                f = Frame(ix, Idx(c), [data[names.index(x)] if x in names else [None] * n for x in c])
            return f
        if isinstance(d, Frame):
            return d if cols is None and ix is None else self.undecided("frame of frame")
        if d is None:
            n = 0 if ix is None else self.length(ix)
            c = [] if cols is None else self.seq(cols)
            return Frame(Idx(range(0)) if ix is None else (ix if isinstance(ix, Idx) else Idx(self.seq(ix))), cols if isinstance(cols, Idx) else Idx(c), [[None] * n for _ in c])
        if isinstance(d, (list, tuple)) and d and all(isinstance(x, dict) for x in d):
            names = uniq([c for x in d for c in x])
            if cols is not None:
                names = self.seq(cols)
            n = len(d)
            ix = Idx(range(n)) if ix is None else ix if isinstance(ix, Idx) else Idx(self.seq(ix))
            return Frame(ix, Idx(names), [[x.get(c) for x in d] for c in names])
        v = self.array(d)
        if len(v.shape) == 1:
            v = Arr(v.shape + (1,), v.data)
        n, m = v.shape
        ix = Idx(range(n)) if ix is None else ix if isinstance(ix, Idx) else Idx(self.seq(ix))
        c = Idx(range(m)) if cols is None else cols if isinstance(cols, Idx) else Idx(self.seq(cols), None, False)
        if len(c) != m or len(ix) != n:
            raise PyErr("ValueError")
        return Frame(ix, c, [[v.data[i * m + j] for i in range(n)] for j in range(m)])

    def concat(self, objs, k):
        self.only(k, ("objs", "axis", "keys", "ignore_index", "names", "sort", "copy", "join"))
        ax = self.axis(k.get("axis", 0))
        keys = k.get("keys")
        if isinstance(objs, dict):
            if keys is None:
                keys = list(objs)
                objs = list(objs.values())
            else:
                keys = self.seq(keys)
                objs = [objs[x] for x in keys]
        else:
            objs = self.seq(objs) if not isinstance(objs, (Frame, Series)) else self.undecided("concat")
        if not objs:
            raise PyErr("ValueError")
        if keys is not None:
            keys = self.seq(keys)
            n = min(len(keys), len(objs))
            if len(keys) != len(objs):
                objs, keys = objs[:n], keys[:n]
        names = k.get("names")
        objs = [Frame(o.index, Idx([0 if o.name is None else o.name]), [o.data]) if isinstance(o, Series) and ax == 1 else o for o in objs]
        if not all(isinstance(o, Frame) for o in objs):
            if ax == 0 and all(isinstance(o, Series) for o in objs):
                lab, data = [], []
                for i, o in enumerate(objs):
                    for l, d in zip(o.index.labels, o.data):
                        l = tuple(l) if o.index.multi else (l,)
                        lab.append(((keys[i],) if keys is not None else ()) + l)
                        data.append(d)
                multi = len(lab[0]) > 1 if lab else False
                if k.get("ignore_index"):
                    return Series(Idx(range(len(data))), data)
                return Series(Idx(lab if multi else [x[0] for x in lab], ([None] if keys is not None else []) + list(objs[0].index.names), multi), data)
            raise Undecided("concat of %s" % [type(o).__name__ for o in objs])
        if ax == 1:
            ix = objs[0].index
            for o in objs[1:]:
                if not (o.index == ix):
                    raise Undecided("concat of frames on different rows")
            lab, data = [], []
            for i, o in enumerate(objs):
                for l, d in zip(o.columns.labels, o.data):
                    l = tuple(l) if o.columns.multi else (l,)
                    kk = keys[i] if keys is not None else None
                    pre = () if keys is None else tuple(kk) if isinstance(kk, tuple) else (kk,)
                    lab.append(pre + l)
                    data.append(d)
            multi = bool(lab) and len(lab[0]) > 1
            if k.get("ignore_index"):
                return Frame(ix, Idx(range(len(data))), data)
            return Frame(ix, Idx(lab if multi else [x[0] for x in lab], None, multi), data)
        cols = objs[0].columns
        for o in objs[1:]:
            if sorted(map(repr, o.columns.labels)) != sorted(map(repr, cols.labels)):
                raise Undecided("concat of frames with different columns")
        data = [[] for _ in cols.labels]
        lab = []
        for i, o in enumerate(objs):
            for j, c in enumerate(cols.labels):
                data[j] += o.data[o.columns.labels.index(c)]
            for l in o.index.labels:
                l = tuple(l) if o.index.multi else (l,)
                lab.append(((keys[i],) if keys is not None else ()) + l)
        if k.get("ignore_index"):
            ix = Idx(range(len(lab)))
        else:
            multi = bool(lab) and len(lab[0]) > 1
            ix = Idx(lab if multi else [x[0] for x in lab], (([None] if names is None else names[:1]) if keys is not None else []) + list(objs[0].index.names), multi)
        return Frame(ix, cols, data)


def clipped(x, lo, hi):
    lo, hi = down(lo) if lo is not None else None, down(hi) if hi is not None else None
    if isinstance(x, Val) and len(x.m) == 1:
        (k, c), = x.m.items()
        if c == 1 and len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == "clip":
            _, y, l, h = k[0]
            if lo is None or l == lo or l is None:
                if hi is None or h == hi or h is None:
                    return atom("clip", y, l if lo is None else lo, h if hi is None else hi)
    if lo is None and hi is None:
        return x
    num = (int, float, Fraction)
    if isinstance(x, num) and isinstance(lo, num + (type(None),)) and isinstance(hi, num + (type(None),)):
        x = x if lo is None else max(x, lo)
        return x if hi is None else min(x, hi)
    return atom("clip", x, lo, hi)
