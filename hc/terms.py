"""Hash-consed value terms used by the abstract interpreter.

A term denotes the value of an expression as a function of the (symbolic) inputs and of
the loop binders in scope.  No term is ever handed to a solver: equality of values is
identity of normal forms (polynomial form for arithmetic, negation normal form for
conditions, de Bruijn levels for sums / quantifiers over collections).
"""
from fractions import Fraction
import hashlib
import math


class T(object):
    __slots__ = ("op", "args", "key", "__weakref__", "_fv", "_depth", "_fc")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are not picklable")


_TABLE = {}


def _akey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_akey(x) for x in a) + ")"
    return type(a).__name__ + ":" + repr(a)


def _ident(a):
    if isinstance(a, T):
        return ("T", id(a))
    if isinstance(a, tuple):
        return tuple(_ident(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    ident = (op,) + tuple(_ident(a) for a in args)
    t = _TABLE.get(ident)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.key = hashlib.sha1(
            (op + "(" + ",".join(_akey(a) for a in args) + ")").encode()
        ).hexdigest()
        t._fv = None
        t._depth = None
        t._fc = None
        _TABLE[ident] = t
    return t


# --- constants -----------------------------------------------------------------
def const(v):
    if isinstance(v, bool) or v is None or v is Ellipsis:
        return mk("const", type(v).__name__, v)
    if isinstance(v, (int, float, Fraction)):
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v):
                return mk("const", "float", repr(v))
            v = Fraction(v)
        v = Fraction(v)
        return mk("const", "num", v)
    return mk("const", type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and t.args[0] == "num"


def cval(t):
    """python value of a constant term"""
    v = t.args[1]
    if t.args[0] == "num":
        return int(v) if v.denominator == 1 else float(v)
    if t.args[0] == "float":
        return float(v)
    return v


def is_str(t):
    return t.op == "const" and t.args[0] == "str"


# --- traversal -----------------------------------------------------------------
def _children(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            for y in _children(x):
                yield y


def children(t):
    for a in t.args:
        for c in _children(a):
            yield c


def walk(t, seen=None):
    """all distinct subterms"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(children(x))


def free_bvs(t):
    if t._fv is None:
        s = set()
        if t.op == "bv":
            s.add(t.args[0])
        for c in children(t):
            s |= free_bvs(c)
        t._fv = frozenset(s)
    return t._fv


# binder nodes: op -> (position of the level, positions of the bodies it binds)
BINDERS = {"sum": (1, (2,)), "any": (1, (2,)), "psum": (2, (3,)), "firstof": (1, (2, 3)),
           "nobreak": (2, (3,)), "fold": (1, (3,)), "pfold": (2, (4,)), "compbody": (1, (2,)),
           "each": (1, (2,))}


def depth(t):
    """largest level of a binder inside t (variables bound outside t do not count)"""
    if t._depth is None:
        d = t.args[BINDERS[t.op][0]] if t.op in BINDERS else 0
        for c in children(t):
            d = max(d, depth(c))
        t._depth = d
    return t._depth


def free_cbvs(t):
    if t._fc is None:
        s = set()
        if t.op == "cbv":
            s.add(t.args[0])
        b = BINDERS.get(t.op)
        for i, a in enumerate(t.args):
            x = set()
            for c in _children(a):
                x |= free_cbvs(c)
            if b is not None and i in b[1]:
                x.discard(t.args[b[0]])
            s |= x
        t._fc = frozenset(s)
    return t._fc


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def _mapargs(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_mapargs(x, f) for x in a)
    return a


def rebuild(t, f):
    """rebuild t with f applied on its children, re-normalising"""
    args = tuple(_mapargs(a, f) for a in t.args)
    if all(x is y for x, y in zip(args, t.args)) or args == t.args:
        return t
    return remake(t.op, args)


def remake(op, args):
    if op == "poly":
        acc = ZERO
        for c, atoms in args[0]:
            m = const(c)
            for a in atoms:
                m = mul(m, a)
            acc = add(acc, m)
        return acc
    if op == "inv":
        return inv(args[0])
    if op == "le0":
        return le0(args[0])
    if op == "lt0":
        return lt0(args[0])
    if op == "eq":
        return eq(args[0], args[1])
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "ite":
        return ite(*args)
    if op == "item":
        return item(*args)
    if op == "truthy":
        return truthy(args[0])
    if op in ("sum", "psum", "any"):
        if op == "sum":
            return _mksum(*args)
        if op == "any":
            return _mkany(*args)
        return _mkpsum(*args)
    if op == "len":
        return len_(args[0])
    if op in BINDERS:
        i, bodies = BINDERS[op]
        lv, b = _relevel(mk("bodies", *[args[j] for j in bodies]), args[i])
        args = list(args)
        args[i] = lv
        for n, j in enumerate(bodies):
            args[j] = b.args[n]
    return mk(op, *args)


def subst(t, m, memo=None):
    """replace binder variables: m = {qid: term}"""
    if not m:
        return t
    memo = {} if memo is None else memo
    keys = frozenset(m)

    def go(x):
        if not (free_bvs(x) & keys):
            return x
        r = memo.get(id(x))
        if r is not None:
            return r
        if x.op == "bv":
            r = m[x.args[0]]
        else:
            r = rebuild(x, go)
        memo[id(x)] = r
        return r

    return go(t)


def replace(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(id(x))
        if r is not None:
            return r
        y = rebuild(x, go)
        z = f(y)
        if z is None:
            z = y
        memo[id(x)] = z
        return z

    return go(t)


def replace_top(t, f, memo=None):
    """top-down rewriting: f(term) -> term (stop) or None (descend)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(id(x))
        if r is not None:
            return r
        z = f(x)
        if z is None:
            z = rebuild(x, go)
        memo[id(x)] = z
        return z

    return go(t)


# --- arithmetic ----------------------------------------------------------------
def poly(t):
    """{monomial(tuple of atoms): Fraction}"""
    if is_num(t):
        return {(): t.args[1]} if t.args[1] != 0 else {}
    if t.op == "const" and t.args[0] == "bool":
        return {(): Fraction(1)} if t.args[1] else {}
    if t.op == "poly":
        return {atoms: c for c, atoms in t.args[0]}
    return {(t,): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    ms = sorted(d.items(), key=lambda mc: tuple(a.key for a in mc[0]))
    return mk("poly", tuple((c, m) for m, c in ms))


def add(a, b):
    d = dict(poly(a))
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono(m1, m2):
    atoms = list(m1) + list(m2)
    # cancel x * inv(x)
    out = []
    for a in atoms:
        opp = a.args[0] if a.op == "inv" else mk("inv", a)
        if opp in out:
            out.remove(opp)
        else:
            out.append(a)
    return tuple(sorted(out, key=lambda x: x.key))


def mul(a, b):
    pa, pb = poly(a), poly(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def inv(a):
    if is_num(a) and a.args[1] != 0:
        return const(1 / a.args[1])
    if a.op == "inv":
        return a.args[0]
    p = poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if m:
            r = const(1 / c)
            for x in m:
                r = mul(r, x.args[0] if x.op == "inv" else mk("inv", x))
            return r
    return mk("inv", a)


def div(a, b):
    return mul(a, inv(b))


# --- conditions ----------------------------------------------------------------
INT_OPS = {"bv", "len", "cbv", "pos"}
INT_ATOMS = set()  # ids of terms declared integer (horizon, nb_scn, ...)


def is_int_atom(t):
    if t.op in INT_OPS or t in INT_ATOMS:
        return True
    if t.op in ("sum", "psum"):
        return is_int(t.args[-1])
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    return False


def is_int(t):
    return all(
        c.denominator == 1 and all(is_int_atom(a) for a in m)
        for m, c in poly(t).items()
    )


def _indicator(t):
    """condition c when t is 1 if c else 0"""
    if t.op == "ite":
        if t.args[1] is ONE and t.args[2] is ZERO:
            return t.args[0]
        if t.args[1] is ZERO and t.args[2] is ONE:
            return not_(t.args[0])
    if t.op == "sum":
        c = _indicator(t.args[2])
        if c is not None:
            return _mkany(t.args[0], t.args[1], c)
    return None


def _count(d):
    """(k, exists) when the polynomial is k + n or k - n, n a count"""
    if len(d) > 2:
        return None
    k, n, sg = 0, None, 0
    for m, c in d.items():
        if m == ():
            k = c
        elif len(m) == 1 and m[0].op == "sum" and c in (1, -1):
            n, sg = m[0], c
        else:
            return None
    if n is None:
        return None
    e = _indicator(n)
    return None if e is None else (k, sg, e)


def le0(p):
    """p <= 0"""
    d = poly(p)
    cnt = _count(d) if d else None
    if cnt is not None:
        k, sg, ex = cnt
        if sg < 0 and k == 1:
            return ex
        if sg > 0 and k == 0:
            return not_(ex)
    if not d:
        return TRUE
    if list(d) == [()]:
        return const(d[()] <= 0)
    return mk("le0", p)


def lt0(p):
    d = poly(p)
    if not d:
        return FALSE
    if list(d) == [()]:
        return const(d[()] < 0)
    if is_int(p):
        return le0(add(p, ONE))
    return mk("lt0", p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return const(a.args == b.args)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in ("class", "ext") and b.op in ("class", "ext"):
        return const(a is b)
    if a is ZERO or b is ZERO:
        cnt = _count(poly(b if a is ZERO else a))
        if cnt is not None and cnt[0] == 0:
            return not_(cnt[2])
    pa, pb = poly(a), poly(b)
    if a.op in ("poly",) or b.op in ("poly",) or is_num(a) or is_num(b):
        d = sub(a, b)
        if is_const(d):
            return const(d is ZERO)
        # canonical sign
        dd = poly(d)
        ms = sorted(dd, key=lambda m: tuple(x.key for x in m))
        lead = [m for m in ms if m][0]
        c = dd[lead]
        d = mul(d, const(1 / c))
        rest = sub(d, from_poly({lead: Fraction(1)}))
        x, y = from_poly({lead: Fraction(1)}), neg(rest)
        return mk("eq", *sorted((x, y), key=lambda z: z.key))
    return mk("eq", *sorted((a, b), key=lambda z: z.key))


def ne(a, b):
    return not_(eq(a, b))


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return lt0(neg(t.args[0]))
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    return mk("not", t)


def _nary(op, unit, zero, args):
    out = []
    for a in args:
        a = truthy(a)
        if a is unit:
            continue
        if a is zero:
            return zero
        if a.op == op:
            for x in a.args:
                if x not in out:
                    out.append(x)
        elif a not in out:
            out.append(a)
    for a in out:
        if not_(a) in out:
            return zero
    # x == c1 and x == c2
    if op == "and":
        eqs = {}
        for a in out:
            if a.op == "eq":
                for x, y in (a.args, a.args[::-1]):
                    if is_const(y) and not is_const(x):
                        if x in eqs and eqs[x] is not y:
                            return FALSE
                        eqs[x] = y
        if eqs:
            keep = []
            for a in out:
                if a.op == "not" and a.args[0].op == "eq":
                    x, y = a.args[0].args
                    if is_const(x):
                        x, y = y, x
                    if is_const(y) and x in eqs and eqs[x] is not y:
                        continue
                keep.append(a)
            out = keep
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    # absorption: a or (a and b) -> a ; and dually
    dual = "or" if op == "and" else "and"
    s = set(out)
    out = [a for a in out if not (a.op == dual and s & set(a.args))]
    # a or (not a and b) -> a or b
    new = []
    for a in out:
        if a.op == dual:
            keep = [x for x in a.args if not_(x) not in s]
            if len(keep) != len(a.args):
                a = _nary(dual, zero, unit, keep)
        new.append(a)
    if new != out:
        return _nary(op, unit, zero, new)
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda z: z.key))


def and_(*args):
    return _nary("and", TRUE, FALSE, args)


def or_(*args):
    return _nary("or", FALSE, TRUE, args)


def implies(a, b):
    return or_(not_(a), b)


BOOL_OPS = {"some", "eq", "not", "le0", "lt0", "and", "or", "in", "isinst", "any", "truthy",
            "is", "hasattr", "callable"}


def is_boolish(t):
    return t.op in BOOL_OPS or (t.op == "const" and t.args[0] == "bool")


def truthy(t):
    if is_boolish(t) and t.op != "truthy":
        return t
    if t.op == "truthy":
        return t
    if t.op == "const":
        return const(bool(cval(t)))
    if t.op == "tuple":
        return const(len(t.args) > 0)
    if t.op in ("func", "class", "mod", "ext", "bmeth"):
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op == "len":
        return lt(ZERO, t)
    return mk("truthy", t)


def ite(c, a, b):
    c = truthy(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_boolish(a) and is_boolish(b):
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    return mk("ite", c, a, b)


def assume(t, facts, memo=None):
    """simplify t assuming all `facts` (a set of condition terms) hold"""
    pos = set()
    for f in facts:
        if f.op == "and":
            pos |= set(f.args)
        pos.add(f)
    negs = {not_(f) for f in pos}
    # equalities x == const
    eqc = {}
    for f in pos:
        if f.op == "eq":
            x, y = f.args
            if is_const(x):
                x, y = y, x
            if is_const(y) and not is_const(x):
                eqc[x] = y

    def f(x):
        if x in pos:
            return TRUE
        if x in negs:
            return FALSE
        if x in eqc:
            return eqc[x]
        return None

    if not pos:
        return t
    return replace_top(t, f, memo)


# --- structured ----------------------------------------------------------------
def tuple_(*xs):
    return mk("tuple", *xs)


def item(base, idx):
    if base.op == "tuple" and is_num(idx):
        i = cval(idx)
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if base.op == "tuple" and idx.op == "slice" and all(
        a is NONE or is_num(a) for a in idx.args
    ):
        s = slice(*[None if a is NONE else cval(a) for a in idx.args])
        return mk("tuple", *base.args[s])
    if base.op == "const" and base.args[0] == "str" and is_num(idx):
        try:
            return const(base.args[1][cval(idx)])
        except IndexError:
            pass
    if base.op == "ite":
        return ite(base.args[0], item(base.args[1], idx), item(base.args[2], idx))
    return mk("item", base, idx)


def len_(x):
    if x.op == "tuple":
        return const(len(x.args))
    if is_str(x):
        return const(len(cval(x)))
    if x.op in ("items", "keys", "values", "listof", "sorted", "copy", "tupleof"):
        return len_(x.args[0])
    if x.op == "ite":
        return ite(x.args[0], len_(x.args[1]), len_(x.args[2]))
    return mk("len", x)


# domains: ("drange", n) integers 0..n-1 ; ("dkeys", d) keys of a mapping ; ("dset", x)
def drange(n):
    return mk("drange", n)


def dkeys(d):
    return mk("dkeys", d)


def dom_len(d):
    if d.op == "drange":
        return d.args[0]
    if d.op == "dkeys":
        return len_(d.args[0])
    return mk("count", d)


def bind(body, qid):
    """abstract binder qid in body; its level lies above the binders inside body"""
    tmp = mk("cbvtmp", 0)
    return _close(subst(body, {qid: tmp}), tmp)


def _close(x, tmp):
    lv = depth(x) + 1
    if lv in free_cbvs(x):
        lv = max(free_cbvs(x)) + 1
    cb = mk("cbv", lv)
    return lv, replace_top(x, lambda y: cb if y is tmp else None)


def unbind(body, lv, value):
    memo = {}

    def go(x):
        if lv not in free_cbvs(x):
            return x
        r = memo.get(id(x))
        if r is None:
            r = value if x.op == "cbv" else _rebuild_free(x, lv, go)
            memo[id(x)] = r
        return r

    return go(body)


def _rebuild_free(x, lv, f):
    b = BINDERS.get(x.op)
    if b is None or x.args[b[0]] != lv:
        return rebuild(x, f)
    args = tuple(a if i in b[1] else _mapargs(a, f) for i, a in enumerate(x.args))
    return remake(x.op, args)


def has_cbv(t, lv):
    return lv in free_cbvs(t)


def sum_over(qid, dom, body):
    lv, b = bind(body, qid)
    return _mksum(dom, lv, b)


def _mksum(dom, lv, b):
    if b is ZERO:
        return ZERO
    # distribute over addition, take out factors that do not depend on the binder
    p = poly(b)
    if len(p) > 1:
        acc = ZERO
        for m, c in p.items():
            acc = add(acc, _mksum(dom, lv, from_poly({m: c})))
        return acc
    if len(p) == 1:
        (m, c), = p.items()
        inside = [a for a in m if has_cbv(a, lv)]
        outside = [a for a in m if not has_cbv(a, lv)]
        r = const(c)
        for a in outside:
            r = mul(r, a)
        if not inside:
            return mul(r, dom_len(dom))
        core = ONE
        for a in inside:
            core = mul(core, a)
        # renumber the level canonically
        nl = _relevel(core, lv)
        return mul(r, mk("sum", dom, nl[0], nl[1]))
    return mk("sum", dom, lv, b)


def _relevel(core, lv):
    # smallest level above what is bound inside
    tmp = mk("cbvtmp", lv)
    return _close(unbind(core, lv, tmp), tmp)


def psum_before(q, dom, body):
    """sum of body over the iterations of loop q that precede the current one"""
    lv, b = bind(body, q)
    return _mkpsum(mk("bv", q), dom, lv, b)


def pos_of(v, dom):
    if dom.op == "drange":
        return v
    return mk("pos", v, dom)


def _mkpsum(v, dom, lv, b):
    if b is ZERO:
        return ZERO
    p = poly(b)
    if len(p) > 1:
        acc = ZERO
        for m, c in p.items():
            acc = add(acc, _mkpsum(v, dom, lv, from_poly({m: c})))
        return acc
    (m, c), = p.items()
    inside = [a for a in m if has_cbv(a, lv)]
    outside = [a for a in m if not has_cbv(a, lv)]
    r = const(c)
    for a in outside:
        r = mul(r, a)
    if not inside:
        return mul(r, pos_of(v, dom))
    core = ONE
    for a in inside:
        core = mul(core, a)
    nl = _relevel(core, lv)
    return mul(r, mk("psum", v, dom, nl[0], nl[1]))


def any_over(qid, dom, body):
    body = truthy(body)
    if body is FALSE:
        return FALSE
    lv, b = bind(body, qid)
    return _mkany(dom, lv, b)


def _mkany(dom, lv, b):
    if b is FALSE:
        return FALSE
    if b.op == "or":
        return or_(*[_mkany(dom, lv, x) for x in b.args])
    if not has_cbv(b, lv):
        return and_(b, lt(ZERO, dom_len(dom)))
    if b.op == "and":
        out = [x for x in b.args if not has_cbv(x, lv)]
        if out:
            inn = [x for x in b.args if has_cbv(x, lv)]
            return and_(*(out + [_mkany(dom, lv, and_(*inn))]))
    # exists key k of d with k == x  <=>  x in d
    if dom.op == "dkeys" and b.op == "eq":
        x, y = b.args
        cb = mk("cbv", lv)
        if y is cb:
            x, y = y, x
        if x is cb and not has_cbv(y, lv):
            return mk("in", y, dom.args[0])
    nl = _relevel(b, lv)
    return mk("any", dom, nl[0], nl[1])


def all_over(qid, dom, body):
    return not_(any_over(qid, dom, not_(truthy(body))))


# --- printing ------------------------------------------------------------------
def show(t, d=0):
    if d > 14:
        return "..."
    s = lambda x: show(x, d + 1) if isinstance(x, T) else (
        "(" + ", ".join(s(y) for y in x) + ")" if isinstance(x, tuple) else repr(x)
    )
    if not isinstance(t, T):
        return s(t)
    o, a = t.op, t.args
    if o == "const":
        v = cval(t)
        return repr(v)
    if o == "sym":
        return a[0]
    if o == "bv":
        return "$%s" % (a[0],)
    if o == "cbv":
        return "#%d" % a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ("," if len(a) == 1 else "") + ")"
    if o == "poly":
        ps = []
        for c, m in a[0]:
            body = "*".join(s(x) for x in m)
            cc = str(c if c.denominator != 1 else int(c))
            if not m:
                ps.append(cc)
            elif c == 1:
                ps.append(body)
            elif c == -1:
                ps.append("-" + body)
            else:
                ps.append(cc + "*" + body)
        return "(" + " + ".join(ps) + ")"
    if o == "le0":
        return "[%s <= 0]" % s(a[0])
    if o == "lt0":
        return "[%s < 0]" % s(a[0])
    if o == "eq":
        return "[%s == %s]" % (s(a[0]), s(a[1]))
    if o == "not":
        return "not " + s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in a) + ")"
    if o == "in":
        return "[%s in %s]" % (s(a[0]), s(a[1]))
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "sum":
        return "sum{#%d in %s} %s" % (a[1], s(a[0]), s(a[2]))
    if o == "psum":
        return "sum{#%d before %s in %s} %s" % (a[2], s(a[0]), s(a[1]), s(a[3]))
    if o == "any":
        return "exists{#%d in %s} %s" % (a[1], s(a[0]), s(a[2]))
    if o == "drange":
        return "0..%s" % s(a[0])
    if o == "dkeys":
        return "keys(%s)" % s(a[0])
    if o == "len":
        return "len(%s)" % s(a[0])
    if o == "ref":
        return "<obj %s%s>" % (a[0], "" if not a[1] else "[" + ", ".join(s(x) for x in a[1]) + "]")
    if o == "call":
        ks = ["%s=%s" % (k, s(v)) for k, v in a[2]]
        return "%s(%s)" % (s(a[0]) if isinstance(a[0], T) else a[0], ", ".join([s(x) for x in a[1]] + ks))
    if o == "mcall":
        ks = ["%s=%s" % (k, s(v)) for k, v in a[3]]
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + ks))
    if o in ("class", "ext", "mod"):
        return str(a[0]).split(".")[-1] if o == "class" else str(a[0])
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def fold_height(t):
    """nesting of folds inside t: the accumulator of a fold around t is acc(fold_height(t))"""
    h = 0
    for x in walk(t):
        if x.op in ("fold", "pfold"):
            h = max(h, 1 + fold_height(x.args[-1]))
    return h
