"""Evaluation of terms over small models (labelled arrays): decides conditions on shapes and positions."""
from fractions import Fraction
from .terms import *


class Undecided(Exception):
    pass


class PyErr(Exception):
    """the modelled operation raises"""

    def __init__(self, name):
        self.name = name


class Arr(object):
    """array of labels in C order"""

    def __init__(self, shape, data, kind="numpy.ndarray"):
        self.shape, self.data, self.kind = tuple(shape), list(data), kind
        n = 1
        for s in self.shape:
            n *= s
        assert n == len(self.data), (shape, len(self.data))

    def __repr__(self):
        return "Arr%s%s" % (self.shape, self.data[:6])

    def strides(self):
        st, k = [], 1
        for s in reversed(self.shape):
            st.insert(0, k)
            k *= s
        return st

    def get(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = list(idx)
        if any(i is Ellipsis for i in idx):
            raise Undecided("index ...")
        if len(idx) > len(self.shape):
            raise PyErr("IndexError")
        st = self.strides()
        idx = [i.data if isinstance(i, Arr) and len(i.shape) == 1 else i for i in idx]
        if any(isinstance(i, list) for i in idx):
            return self.fancy(idx)
        dims, steps = [], []
        for k in range(len(self.shape)):
            i = idx[k] if k < len(idx) else slice(None)
            if isinstance(i, slice):
                r = range(*i.indices(self.shape[k]))
                dims.append(list(r))
                steps.append((st[k], True))
            elif isinstance(i, int) and not isinstance(i, bool):
                if not -self.shape[k] <= i < self.shape[k]:
                    raise PyErr("IndexError")
                dims.append([i % self.shape[k]])
                steps.append((st[k], False))
            else:
                raise Undecided("index %r" % (i,))
        out = [0]
        for d, (s, _) in zip(dims, steps):
            out = [o + x * s for o in out for x in d]
        shape = [len(d) for d, (s, keep) in zip(dims, steps) if keep]
        data = [self.data[o] for o in out]
        if not shape:
            return data[0]
        return Arr(shape, data)

    def fancy(self, idx):
        """index with lists of positions (or masks) among slices and positions"""
        idx = idx + [slice(None)] * (len(self.shape) - len(idx))
        plain = [k for k, i in enumerate(idx) if isinstance(i, slice)]
        adv = [k for k, i in enumerate(idx) if not isinstance(i, slice)]
        lists = {}
        for k in adv:
            i, n = idx[k], self.shape[k]
            if isinstance(i, list) and i and all(isinstance(x, bool) for x in i):
                if len(i) != n:
                    raise PyErr("IndexError")
                i = [j for j, x in enumerate(i) if x]
            xs = i if isinstance(i, list) else [i]
            if not all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
                raise Undecided("index %r" % (i,))
            if any(not -n <= x < n for x in xs):
                raise PyErr("IndexError")
            lists[k] = [x % n for x in xs]
        m = {len(v) for v in lists.values()} - {1}
        if len(m) > 1:
            raise PyErr("IndexError")
        m = m.pop() if m else 1
        lists = {k: v if len(v) == m else v * m for k, v in lists.items()}
        if adv != list(range(adv[0], adv[-1] + 1)):
            raise Undecided("separated index lists")
        st = self.strides()
        out, shape = [0], []
        for k in range(len(self.shape)):
            if k in plain:
                r = list(range(*idx[k].indices(self.shape[k])))
                out = [o + x * st[k] for o in out for x in r]
                shape.append(len(r))
            elif k == adv[0]:
                out = [o + sum(lists[j][p] * st[j] for j in adv) for o in out for p in range(m)]
                shape.append(m)
        return Arr(shape, [self.data[o] for o in out])

    def reshape(self, shape):
        shape = list(shape)
        if shape.count(-1) == 1:
            k = 1
            for s in shape:
                if s != -1:
                    k *= s
            if k == 0 or len(self.data) % k:
                raise PyErr("ValueError")
            shape[shape.index(-1)] = len(self.data) // k
        n = 1
        for s in shape:
            n *= s
        if n != len(self.data):
            raise PyErr("ValueError")
        return Arr(shape, self.data)

    def transpose(self):
        if len(self.shape) < 2:
            return self
        if len(self.shape) != 2:
            raise Undecided("transpose")
        a, b = self.shape
        return Arr((b, a), [self.data[i * b + j] for j in range(b) for i in range(a)])


def broadcast(a, shape):
    shape = tuple(shape)
    if not isinstance(a, Arr):
        n = 1
        for s in shape:
            n *= s
        return Arr(shape, [a] * n)
    if len(a.shape) > len(shape):
        raise PyErr("ValueError")
    sh = (1,) * (len(shape) - len(a.shape)) + a.shape
    for x, y in zip(sh, shape):
        if x != y and x != 1:
            raise PyErr("ValueError")
    src = Arr(sh, a.data)
    st = src.strides()
    offs = [0]
    for d, s, k in zip(shape, st, sh):
        offs = [o + (x * s if k != 1 else 0) for o in offs for x in range(d)]
    return Arr(shape, [src.data[o] for o in offs])


def common(a, b):
    sa = a.shape if isinstance(a, Arr) else ()
    sb = b.shape if isinstance(b, Arr) else ()
    n = max(len(sa), len(sb))
    sa, sb = (1,) * (n - len(sa)) + tuple(sa), (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(sa, sb):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            raise PyErr("ValueError")
    return tuple(out)


def zipped(f, a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return f(a, b)
    sh = common(a, b)
    x, y = broadcast(a, sh), broadcast(b, sh)
    return Arr(sh, [f(p, q) for p, q in zip(x.data, y.data)])


def lmul(a, b):
    for x, y in ((a, b), (b, a)):
        if x == 1 and isinstance(x, (int, float)):
            return y
        if x == 0 and isinstance(x, (int, float)):
            return 0
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a * b
    return ("*",) + tuple(sorted([a, b], key=repr))


def ladd(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (int, float)) and x == 0:
            return y
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a + b
    return ("+",) + tuple(sorted([a, b], key=repr))


FLOATS = {"builtins.float", "numpy.float64", "numpy.double", "numpy.float_", "numpy.float"}


class Ev(object):
    """env: {term: value}; isinst: callable(value, class name) -> bool; typ: value -> class name"""

    def __init__(self, env, isinst=None, typ=None, refs=None):
        self.env, self.isinst, self.typ, self.refs = env, isinst, typ, refs
        self.memo = {}

    def __call__(self, t):
        k = id(t)
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self.ev(t)
        except (Undecided, PyErr) as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = v
        return v

    def cond(self, t):
        v = self(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str, tuple, list)) and not (isinstance(v, tuple) and v and v[0] in ("e", "*", "+")):
            return bool(v)
        if v is None:
            return False
        raise Undecided("truth of %r" % (v,))

    def nary(self, args, stop):
        err = None
        for a in args:
            try:
                if self.cond(a) is stop:
                    return stop
            except (Undecided, PyErr) as ex:
                err = ex
        if err is not None:
            raise err
        return not stop

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        op = t.op
        if op == "const":
            return cval(t)
        if op == "kept":
            raise PyErr("value kept from an earlier call (%s)" % t.args[0])
        if op == "and":
            return self.nary(t.args, False)
        if op == "or":
            return self.nary(t.args, True)
        if op == "not":
            return not self.cond(t.args[0])
        if op == "truthy":
            return self.cond(t.args[0])
        if op == "ite":
            return self(t.args[1]) if self.cond(t.args[0]) else self(t.args[2])
        if op in ("tuple", "list"):
            return tuple(self(a) for a in t.args)
        if op == "poly":
            acc = 0
            for c, atoms_ in t.args[0]:
                m = int(c) if c == int(c) else float(c)
                for a in atoms_:
                    m = zipped(lmul, m, self(a))
                acc = zipped(ladd, acc, m)
            return acc
        if op in ("le0", "lt0"):
            v = self(t.args[0])
            if isinstance(v, (int, float)):
                return v <= 0 if op == "le0" else v < 0
            raise Undecided("order of %r" % (v,))
        if op == "eq":
            a, b = self.ty(t.args[0]), self.ty(t.args[1])
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Undecided("array comparison")
            return a == b and (isinstance(a, bool) == isinstance(b, bool))
        if op == "ext":
            return ("class", t.args[0])
        if op == "item":
            b, i = self(t.args[0]), self.index(t.args[1])
            if isinstance(b, Arr):
                if b.kind != "numpy.ndarray":
                    raise Undecided("index of %s" % b.kind)
                return b.get(i)
            if isinstance(b, tuple) and isinstance(i, (int, slice)):
                try:
                    return b[i]
                except IndexError:
                    raise PyErr("IndexError")
            if isinstance(b, dict):
                if i in b:
                    return b[i]
                raise PyErr("KeyError")
            if b is None:
                raise PyErr("TypeError")
            raise Undecided("item of %r" % (b,))
        if op == "len":
            b = self(t.args[0])
            if isinstance(b, Arr):
                if not b.shape:
                    raise PyErr("TypeError")
                return b.shape[0]
            if isinstance(b, (tuple, dict, str)):
                return len(b)
            raise Undecided("len")
        if op == "in":
            a, b = self(t.args[0]), self(t.args[1])
            if isinstance(b, (dict, tuple)):
                return a in b
            raise Undecided("in")
        if op == "isinst":
            v = self(t.args[0])
            c = t.args[1]
            names = c if isinstance(c, tuple) else (c,)
            out = False
            if self.isinst is None:
                raise Undecided("isinstance")
            for x in names:
                r = self.isinst(v, x if isinstance(x, str) else repr(x))
                if r is None:
                    raise Undecided("isinstance")
                out = out or r
            return out
        if op == "xattr":
            b = self(t.args[0])
            n = t.args[1]
            if isinstance(b, Arr):
                if n == "shape":
                    return b.shape
                if n == "ndim":
                    return len(b.shape)
                if n == "size":
                    return len(b.data)
                if n == "T":
                    return b.transpose()
                if n in ("values",) and b.kind != "numpy.ndarray":
                    return Arr(b.shape, b.data)
            raise Undecided("attribute %s" % n)
        if op == "fill":
            v, sh = self(t.args[0]), self(t.args[1])
            return broadcast(v, sh if isinstance(sh, tuple) else (sh,))
        if op == "ref" and self.refs is not None:
            o = self.refs.obj(t)
            init = o.meta.get("init")
            if o.kind == "arr" and init is not None and not o.writes:
                return self(self.refs.inst_meta(t, init))
            raise Undecided("object %s" % o.kind)
        if op == "call":
            return self.call(t)
        if op == "mcall":
            return self.mcall(t)
        if op == "copy":
            return self(t.args[0])
        if op == "slice":
            return self.index(t)
        if op in ("min", "max"):
            xs = [self(a) for a in t.args]
            if xs and all(isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) for x in xs):
                return min(xs) if op == "min" else max(xs)
        raise Undecided("term %s" % op)

    def ty(self, t):
        v = self(t)
        return v

    def index(self, t):
        if t.op == "slice":
            return slice(*[self(a) for a in t.args])
        if t.op == "tuple":
            return tuple(self.index(a) for a in t.args)
        return self(t)

    def label(self, f, a):
        if isinstance(a, Arr):
            return Arr(a.shape, [f(x) for x in a.data])
        return f(a)

    def call(self, t):
        fn = t.args[0]
        if not isinstance(fn, str):
            raise Undecided("call")
        args = t.args[1]
        kw = dict(t.args[2])
        n = fn.split(".")[-1]
        if fn == "builtins.type":
            return ("class", self.typ(self(args[0])))
        if fn in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy"):
            v = self(args[0])
            if not set(kw) <= {"dtype", "copy"}:
                raise Undecided("array")
            if isinstance(v, Arr):
                v = Arr(v.shape, v.data)
                if "dtype" in kw:
                    v = self.cast(v, self(kw["dtype"]))
                return v
            raise Undecided("array of %r" % (v,))
        if fn == "numpy.tile" and len(args) == 2:
            v, r = self(args[0]), self(args[1])
            if isinstance(r, int):
                r = (r,)
            if not isinstance(v, Arr):
                v = Arr((1,), [v])
            k = max(len(r), len(v.shape))
            r = (1,) * (k - len(r)) + tuple(r)
            sh = (1,) * (k - len(v.shape)) + v.shape
            src = Arr(sh, v.data)
            st = src.strides()
            offs = [0]
            for d, m, s in zip(sh, r, st):
                offs = [o + (x % d) * s for o in offs for x in range(d * m)]
            return Arr([d * m for d, m in zip(sh, r)], [src.data[o] for o in offs])
        if fn == "numpy.repeat":
            v = self(args[0])
            r = self(args[1] if len(args) > 1 else kw["repeats"])
            ax = self(args[2] if len(args) > 2 else kw["axis"]) if len(args) > 2 or "axis" in kw else None
            if not isinstance(r, int):
                raise Undecided("repeat")
            if not isinstance(v, Arr):
                v = Arr((1,), [v])
            if ax is None:
                return Arr((len(v.data) * r,), [x for x in v.data for _ in range(r)])
            ax = ax % len(v.shape)
            inner = 1
            for s in v.shape[ax + 1:]:
                inner *= s
            out = []
            for i in range(0, len(v.data), inner or 1):
                out += v.data[i:i + inner] * r
            return Arr(v.shape[:ax] + (v.shape[ax] * r,) + v.shape[ax + 1:], out)
        if fn == "numpy.broadcast_to":
            sh = self(args[1])
            return broadcast(self(args[0]), sh if isinstance(sh, tuple) else (sh,))
        if fn in ("numpy.ravel",):
            v = self(args[0])
            return Arr((len(v.data),), v.data)
        if fn == "numpy.reshape":
            sh = self(args[1])
            return self(args[0]).reshape(sh if isinstance(sh, tuple) else (sh,))
        if fn in ("numpy.full", "numpy.ones", "numpy.zeros"):
            sh = self(args[0])
            v = {"ones": 1, "zeros": 0}.get(n)
            if v is None:
                v = self(args[1] if len(args) > 1 else kw["fill_value"])
            return broadcast(v, sh if isinstance(sh, tuple) else (sh,))
        if fn == "numpy.transpose":
            return self(args[0]).transpose()
        if fn == "numpy.ndim":
            v = self(args[0])
            return len(v.shape) if isinstance(v, Arr) else 0
        if fn == "numpy.shape":
            v = self(args[0])
            return v.shape if isinstance(v, Arr) else ()
        if fn == "numpy.size" and len(args) == 1:
            v = self(args[0])
            if isinstance(v, (Arr, int, float, Fraction)):
                return len(v.data) if isinstance(v, Arr) else 1
        if fn == "numpy.hstack" or fn == "numpy.concatenate":
            v = self(args[0])
            if isinstance(v, tuple) and all(isinstance(x, Arr) and len(x.shape) == 1 for x in v):
                return Arr((sum(x.shape[0] for x in v),), [y for x in v for y in x.data])
            raise Undecided("concatenate")
        if fn in ("builtins.float", "builtins.int", "builtins.len", "numpy.float64") and len(args) == 1:
            v = self(args[0])
            if fn in ("builtins.float", "numpy.float64"):
                if isinstance(v, Arr):
                    raise Undecided("float of array")
                return v
            if fn == "builtins.len":
                return self.ev(mk("len", args[0]))
            return self.cast(v, ("class", "builtins.int"))
        raise Undecided("call of %s" % fn)

    def cast(self, v, ty):
        if isinstance(ty, tuple) and ty[0] == "class" and ty[1] in FLOATS or ty in ("float", "float64"):
            return v
        return self.label(lambda x: x if isinstance(x, (int,)) else ("cast", repr(ty), x), v)

    def mcall(self, t):
        b, n, args = self(t.args[0]), t.args[1], t.args[2]
        kw = dict(t.args[3]) if len(t.args) > 3 else {}
        if isinstance(b, dict) and n == "get" and args and not kw:
            k = self(args[0])
            return b[k] if k in b else self(args[1]) if len(args) > 1 else None
        if not isinstance(b, Arr):
            raise Undecided("method %s" % n)
        if n == "astype":
            return self.cast(b, self(args[0] if args else kw["dtype"]))
        if n in ("flatten", "ravel"):
            if args or kw:
                o = self(args[0] if args else kw.get("order"))
                if o == "F":
                    x = b.transpose()
                    return Arr((len(x.data),), x.data)
                if o not in ("C", None):
                    raise Undecided("order")
            return Arr((len(b.data),), b.data)
        if n == "reshape":
            if kw:
                raise Undecided("reshape")
            sh = [self(a) for a in args]
            if len(sh) == 1 and isinstance(sh[0], tuple):
                sh = sh[0]
            return b.reshape(sh)
        if n in ("copy", "view", "to_numpy"):
            return Arr(b.shape, b.data)
        if n == "repeat":
            return self.call(mk("call", "numpy.repeat", (t.args[0],) + tuple(args), tuple(sorted(kw.items()))))
        if n == "item" and not args and len(b.data) == 1:
            return b.data[0]
        if n == "transpose" and not args:
            return b.transpose()
        if n == "squeeze":
            if not args and not kw:
                return Arr([s for s in b.shape if s != 1], b.data)
        raise Undecided("method %s" % n)
