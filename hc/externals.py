"""Models of builtins and third-party libraries (numpy, pandas, ortools, msgpack, ...).

Each model states what the call means for the value analysis: which object it creates,
which of its arguments it writes to, or - for pure numerical code - an uninterpreted term
that the individual checks interpret.
"""
from .terms import *
from .engine import Seg, strcat, _Raised, UNDEF, MUTATORS

BUILTINS = {
    "len", "range", "sum", "any", "all", "enumerate", "zip", "map", "filter", "sorted", "list",
    "dict", "tuple", "set", "frozenset", "str", "int", "float", "bool", "complex", "isinstance",
    "issubclass", "hasattr", "getattr", "setattr", "delattr", "print", "type", "iter", "next", "id",
    "repr", "callable", "slice", "vars", "super", "object", "min", "max", "abs", "round",
    "reversed", "globals", "locals", "ValueError", "IndexError", "KeyError", "TypeError",
    "Exception", "RuntimeError", "IOError", "OSError", "AttributeError", "NotImplementedError",
    "StopIteration", "AssertionError", "ArithmeticError", "ZeroDivisionError", "BaseException",
    "ConnectionError", "TimeoutError", "LookupError", "divmod", "pow", "hash", "open",
    "property", "staticmethod", "classmethod", "bytes", "ord", "chr", "NotImplemented",
    "FileNotFoundError", "PermissionError", "Warning", "UserWarning", "memoryview", "input",
}

EXC = {b for b in BUILTINS if b.endswith("Error") or b.endswith("Exception") or b in ("StopIteration",)}
# direct parents of builtin exceptions used to decide isinstance / subclass questions
EXC_PARENT = {"IndexError": "LookupError", "KeyError": "LookupError", "IOError": "OSError",
              "ConnectionError": "OSError", "TimeoutError": "OSError", "FileNotFoundError": "OSError",
              "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError"}

STATUS = {"OPTIMAL": 0, "FEASIBLE": 1, "INFEASIBLE": 2, "UNBOUNDED": 3, "ABNORMAL": 4,
          "MODEL_INVALID": 5, "NOT_SOLVED": 6}

CONSTS = {
    "numpy.nan": const(float("nan")),
    "numpy.NaN": const(float("nan")),
    "numpy.inf": const(float("inf")),
    "math.inf": const(float("inf")),
    "math.nan": const(float("nan")),
    "numpy.newaxis": NONE,
    "typing.TYPE_CHECKING": FALSE,
}
PYW = "ortools.linear_solver.pywraplp"
for _k, _v in STATUS.items():
    CONSTS[PYW + ".Solver." + _k] = const(_v)


def canon(d):
    if d.startswith("np."):
        d = "numpy." + d[3:]
    if d.startswith("pd."):
        d = "pandas." + d[3:]
    d = d.replace("numpy.core.numeric.", "numpy.").replace("numpy.core.", "numpy.")
    if d in ("pandas.core.frame.DataFrame",):
        d = "pandas.DataFrame"
    if d in ("multiprocessing.pool.Pool", "multiprocessing.Pool", "multiprocessing.context.Pool"):
        d = "multiprocessing.Pool"
    if d == "builtins.IOError" or d == "builtins.EnvironmentError":
        d = "builtins.OSError"
    return d


def install(e):
    pass


# ----------------------------------------------------------------------------- helpers
def freeze(e, t, seen=()):
    """value term for a container object, when its content is fully known"""
    if t.op == "ref":
        o = e.obj(t)
        if o.oid in seen:
            return t
        seen = seen + (o.oid,)
        if o.kind == "list":
            segs = e.segments(t)
            out = []
            for s in segs:
                x = freeze(e, s.elem, seen)
                if not s.binders:
                    out.append(x if not s.guards else mk("guarded", and_(*s.guards), x))
                    continue
                g = and_(*s.guards) if s.guards else TRUE
                body = tuple_(g, x)
                for q, d in reversed(s.binders):
                    lv, b = bind(body, q)
                    body = mk("compbody", d, lv, b)
                out.append(mk("splat", body))
            return mk("list", *out)
        if o.kind == "dict":
            out = []
            for s in e.entries(t):
                k, v = s.elem.args
                v = freeze(e, v, seen)
                body = tuple_(k, v)
                if s.guards:
                    body = mk("guarded", and_(*s.guards), body)
                for q, d in reversed(s.binders):
                    lv, b = bind(body, q)
                    body = mk("compbody", d, lv, b)
                out.append(body)
            if any(contains(x, lambda y: y.op in ("lastwriter", "eqpat") or y.op == "unk" and y.args[1] == "ambiguous entry") for x in out):
                r = ordered(e, t, seen)
                if r is not None:
                    return r
            return mk("dict", *sorted(out, key=lambda x: x.key))
        if o.kind == "arr":
            v = e.arr_value(t)
            if v is t:
                return accumulated(e, t)
            return freeze(e, v, seen)
        if o.kind == "frame" and o.meta.get("value") is not None:
            return e.now(t, e.inst_meta(t, o.meta["value"]))
        return t
    if id(t) in e.muts:
        return e.now(t)
    if t.op in ("tuple", "list"):
        return mk(t.op, *[freeze(e, a, seen) for a in t.args])
    if t.op == "slice":
        return mk(t.op, *[freeze(e, a, seen) for a in t.args])
    if t.op in ("listof", "tupleof"):
        return mk("list", mk("splat", freeze(e, t.args[0], seen)))
    if t.op == "ite":
        return ite(t.args[0], freeze(e, t.args[1], seen), freeze(e, t.args[2], seen))
    return t


def ordered(e, t, seen):
    """dict built by writes whose keys may coincide: the writes in program order"""
    o = e.obj(t)
    if any(w.op != "set" for w in o.writes):
        return None
    nf = len(o.formals)
    leaves = []
    for w in o.writes:
        if tuple(w.args) != tuple(mk("bv", q) for q in w.binders[:nf]) or nf > len(w.binders) or any(q in e.stack for q in w.binders[nf:]):
            return None
        m = dict(zip(w.binders[:nf], t.args[1]))
        have = {id(g) for g, _ in o.guards}
        g = and_(*[x for x, tag in w.guards if id(x) not in have and tag != "raise"])
        leaf = tuple_(const("k="), w.key, freeze(e, w.val, seen), g)
        leaves.append((list(w.binders[nf:]), subst(leaf, m) if m else leaf, m))
    return mk("upd", mk("dict"), *e.loops(leaves, 0))


def accumulated(e, t):
    """array whose slices were increased (or set) one after the other, in the order of the writes"""
    o = e.obj(t)
    ws = [w for w in o.writes if w.op in ("set", "acc")]
    init = o.meta.get("init")
    if init is None or not ws or any(w.op not in ("set", "acc", "init") for w in o.writes):
        return t
    ops = {w.val.args[0] if w.op == "acc" else const("set") for w in ws}
    nf = len(o.formals)
    if const("set") in ops and len(ws) > 1:
        # several loops one after the other keep their order, writes of one loop body do not
        seen = set()
        for w in ws:
            qs = set(w.binders[nf:])
            if qs & seen:
                return t
            seen |= qs
    if any(w.op == "set" and (w.key is None or w.key is const("*") or w.key.op != "slice") for w in ws):
        return t
    out = []
    m = dict(zip(o.formals, t.args[1]))
    nf = len(o.formals)
    for w in ws:
        if tuple(w.args) != tuple(mk("bv", q) for q in w.binders[:nf]) or nf > len(w.binders):
            return t
        m2 = dict(zip(w.binders[:nf], t.args[1]))
        body = tuple_(w.key, w.val.args[0], freeze(e, w.val.args[1])) if w.op == "acc" else tuple_(w.key, const("set"), freeze(e, w.val))
        have = {id(g) for g, _ in o.guards}
        g = and_(*[x for x, tag in w.guards if id(x) not in have])
        if g is not TRUE:
            body = mk("guarded", g, body)
        body = subst(body, m2)
        for q in reversed(w.binders[nf:]):
            lv, b = bind(body, q)
            body = mk("compbody", subst(e.doms[q], m2), lv, b)
        out.append(body)
    return mk("accum", e.inst_meta(t, init), *out)


def fz(e, args, kwargs):
    return tuple(freeze(e, a) for a in args), tuple(sorted((k, freeze(e, v)) for k, v in kwargs.items()))


def pure(e, dotted, args, kwargs, log=True):
    if log:
        e.effect("xcall", fn=mk("ext", dotted), args=tuple(args), kwargs=tuple(sorted(kwargs.items())))
    a, k = fz(e, args, kwargs)
    return mk("call", dotted, a, k)


def arg(args, kwargs, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kwargs.get(name, default)


def emap(e, f, segs, kind="list"):
    """[f(x) for x in segs]"""
    r = e.alloc("list")
    for s in segs:
        m = len(e.path)
        e.stack.extend(q for q, _ in s.binders)
        for g in s.guards:
            e.push(g)
        try:
            v = f(s.elem)
            e.write(r, None, v, "append")
        finally:
            keep = [x for x in e.path[m:] if x[1] == "raise"]
            del e.path[m:]
            for _ in s.binders:
                e.stack.pop()
        for gg, tag in keep:
            ff = not_(gg)
            for q, d in reversed(s.binders):
                ff = any_over(q, d, ff)
            e.path.append((not_(ff), "raise"))
    return r


def mktuple(e, xs):
    xs = list(xs)
    if xs and all(x.op == "item" and is_num(x.args[1]) and cval(x.args[1]) == i and x.args[0] is xs[0].args[0]
                  for i, x in enumerate(xs)):
        b = xs[0].args[0]
        ty = e.typeof(b)
        if isinstance(ty, tuple) and ty[0] == "tuple" and len(ty[1]) == len(xs):
            return b
    return tuple_(*xs)


def cases(e, v, f):
    """apply f on the branches of a gated value"""
    if v.op == "ite":
        c = e.decide(v.args[0])
        if c is TRUE:
            return cases(e, v.args[1], f)
        if c is FALSE:
            return cases(e, v.args[2], f)
        return ite(c, cases(e, v.args[1], f), cases(e, v.args[2], f))
    return f(v)


def num01(x):
    if x.op == "const" and x.args[0] == "bool":
        return ONE if x is TRUE else ZERO
    if is_boolish(x):
        return ite(x, ONE, ZERO)
    return x


# ----------------------------------------------------------------------------- isinstance
KINDS = {"builtins.list": "list", "builtins.dict": "dict", "builtins.set": "set"}


def isinstance_known(e, v, c):
    if v.op == "unk":
        return None
    if c.op == "class":
        cls = e.p.classes[c.args[0]]
        if v.op == "ref":
            o = e.obj(v)
            return o.kind == "inst" and e.p.is_sub(o.cls, cls)
        ty = e.typeof(v)
        if isinstance(ty, tuple) and ty[0] == "inst":
            tc = e.cls_by_name(ty[1])
            if tc is None:
                return None
            if e.p.is_sub(tc, cls):
                return True
            if e.p.is_sub(cls, tc):
                return None
            return False
        if ty == "any" or ty is None or (isinstance(ty, tuple) and ty[0] == "opt"):
            if v.op in ("tuple", "const", "func", "class", "slice", "poly"):
                return False
            return None
        return False
    if c.op != "ext":
        return None
    d = c.args[0]
    if v.op == "ref":
        o = e.obj(v)
        if d in KINDS:
            return o.kind == KINDS[d]
        if d == PYW + ".Variable":
            return o.kind == "var"
        if d == "numpy.ndarray":
            return o.kind == "arr"
        if d == "pandas.DataFrame":
            return o.kind == "frame"
        if d == "builtins.object":
            return True
        if o.kind == "inst":
            return any(x == d or x.endswith("." + d.split(".")[-1]) for x in getattr(o.cls, "ext_bases", []))
        return False
    if v.op == "tuple":
        return d in ("builtins.tuple", "builtins.object")
    if v.op in ("func", "class", "bmeth", "ext", "mod"):
        return False if d.split(".")[-1] in ("list", "dict", "tuple", "str", "ndarray", "int", "float", "slice") else None
    if v.op == "slice":
        return d == "builtins.slice"
    if v.op == "const":
        k = v.args[0]
        if k == "num":
            if d == "builtins.float":
                return v.args[1].denominator != 1 or None
            return d in ("builtins.int", "numbers.Number") and v.args[1].denominator == 1
        return d == "builtins." + k or d == "builtins.object"
    if v.op in ("list", "listof"):
        return d == "builtins.list"
    if v.op == "tupleof":
        return d in ("builtins.tuple", "builtins.object")
    if v.op == "range":
        return d == "builtins.range"
    if v.op in ("dictof",):
        return d == "builtins.dict"
    ty = e.typeof(v)
    if ty is None or ty == "any" or (isinstance(ty, tuple) and ty[0] == "opt"):
        return None
    if isinstance(ty, tuple):
        k = ty[0]
        if k == "inst":
            return False
        return d == "builtins." + k
    if ty == "str":
        return d == "builtins.str"
    if ty == "arr":
        return d == "numpy.ndarray"
    if ty == "frame":
        return d == "pandas.DataFrame"
    if ty in ("num", "int", "bool"):
        if d in ("numpy.int64", "numpy.float64", "builtins.int", "builtins.float", "builtins.complex",
                 "numpy.integer", "numpy.floating", "numbers.Number", "builtins.bool", "numpy.number"):
            return None
        return False
    if ty == "npint64":
        return d in ("numpy.int64", "numpy.integer", "numpy.signedinteger", "numpy.number", "numpy.generic", "numbers.Number",
                     "numbers.Integral", "numbers.Real", "builtins.object")
    if ty == "none":
        return False
    return None


# ----------------------------------------------------------------------------- functions
IGNORE = ("logging.", "logger.", "time.sleep", "builtins.print", "warnings.", "sys.stdout", "progress.")
MUTATING = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0,
            "random.shuffle": 0, "numpy.random.shuffle": 0, "heapq.heapify": 0, "numpy.ndarray.sort": 0}


def call(e, d, args, kwargs):
    d = canon(d)
    if d in NPBIN and "out" in kwargs and len(args) == 2 and "where" not in kwargs and e.is_ref(kwargs["out"], "arr"):
        v = e.binop(NPBIN[d], *[e.arr_value(x) if e.is_ref(x, "arr") else x for x in args])
        e.write(kwargs["out"], const("*"), v)
        e.effect("arrwrite", target=kwargs["out"], val=v)
        return kwargs["out"]
    if "out" in kwargs and d.startswith("numpy."):
        mutate(e, kwargs["out"], "out=")
    if d in MUTATING and args:
        mutate(e, args[MUTATING[d]], d)
    if d.startswith("builtins."):
        n = d[9:]
        f = globals().get("b_" + n)
        if f is not None:
            return f(e, args, kwargs)
        if n == "dict.fromkeys" and args and e.is_ref(args[0]) and all(not s.binders and not s.guards for s in e.iterate(args[0])):
            return _fromkeys(e, args, kwargs)
        if n in EXC or n == "OSError":
            return mk("exc", d, tuple(args))
        return pure(e, d, args, kwargs)
    if any(d.startswith(p) for p in IGNORE):
        if d == "logging.getLogger":
            return mk("ext", "logger")
        if d.startswith("progress."):
            e.effect("xcall", fn=mk("ext", d), args=tuple(args), kwargs=tuple(sorted(kwargs.items())))
            return mk("ext", "logger")
        return NONE
    f = FUNCS.get(d)
    if f is not None:
        return f(e, args, kwargs)
    for p, f in PREFIX:
        if d.startswith(p):
            r = f(e, d, args, kwargs)
            if r is not None:
                return r
    if d.split(".")[0] not in ("numpy", "pandas", "plotly", "matplotlib", "math", "operator", "os", "sys", "object", "functools", "itertools", "scipy", "typing", "random"):
        e.effect("unmodelled", fn=d)
    return pure(e, d, args, kwargs)


def mutate(e, t, how, key=NONE, val=NONE):
    if t.op == "ref":
        o = e.obj(t)
        e.write(t, const("*") if o.kind in ("arr", "frame") else None, mk("unk", e.fresh(), how), "set" if o.kind in ("arr", "frame") else "opaque")
        if o.kind in ("arr", "frame"):
            e.effect("arrwrite", target=t, val=NONE, how=how)
    else:
        e.effect("mutate", target=t, how=how, key=key, val=val)


# ---- builtins
def b_len(e, a, k):
    return e.length(a[0])


def b_range(e, a, k):
    if len(a) == 1:
        return mk("range", ZERO, a[0], ONE)
    if len(a) == 2:
        return mk("range", a[0], a[1], ONE)
    if len(a) == 3:
        return mk("range", a[0], a[1], a[2])
    return e.unk("range")


def b_sum(e, a, k):
    start = arg(a, k, 1, "start", ZERO)
    x = a[0]
    if x.op not in ("ref", "tuple", "range", "values", "keys", "items", "chain", "zip", "listof", "ite", "attr", "item", "sym", "copy", "sorted", "setof", "enumerate"):
        return pure(e, "builtins.sum", a, k)
    if e.typeof(x) == "arr":
        return pure(e, "numpy.sum", a, k)
    acc = start
    y = x.args[0] if x.op in ("sorted", "listof", "tupleof") else x
    if y.op == "setof":
        segs = e.iterate(y)
        if any(s.binders and s.elem.op != "bv" for s in segs) or len(segs) > 1 and not all(is_const(s.elem) for s in segs):
            return add(acc, pure(e, "builtins.sum", [y], {}))
        if len(segs) > 1:
            return add(acc, const(sum({cval(s.elem) for s in segs})))
    for s in e.iterate(x):
        v = num01(s.elem)
        if e.listish(acc) or e.listish(v):
            acc = e.binop("Add", acc, v) if not s.binders else e.unk("sum of lists")
            continue
        if s.guards:
            v = ite(and_(*s.guards), v, ZERO)
        if not s.binders and (e.has_user_method(acc, "__add__") or e.has_user_method(v, "__radd__")):
            acc = e.binop("Add", acc, v)
            continue
        if v.op == "ref" and e.obj(v).kind == "arr":
            v = e.arr_value(v)
        for q, dm in reversed(s.binders):
            v = sum_over(q, dm, v)
        acc = add(acc, v)
    return acc


def _quant(e, x):
    out = []
    for s in e.iterate(x):
        c = e.truth(s.elem)
        out.append((s, c))
    return out


def b_any(e, a, k):
    r = FALSE
    for s, c in _quant(e, a[0]):
        c = and_(*(list(s.guards) + [c]))
        for q, dm in reversed(s.binders):
            c = any_over(q, dm, c)
        r = or_(r, c)
    return e.decide(r)


def b_all(e, a, k):
    r = FALSE
    for s, c in _quant(e, a[0]):
        c = and_(*(list(s.guards) + [not_(c)]))
        for q, dm in reversed(s.binders):
            c = any_over(q, dm, c)
        r = or_(r, c)
    return e.decide(not_(r))


def b_enumerate(e, a, k):
    return mk("enumerate", a[0], arg(a, k, 1, "start", ZERO))


def b_zip(e, a, k):
    return mk("zip", *a)


def b_map(e, a, k):
    f = a[0]
    src = a[1] if len(a) == 2 else mk("zip", *a[1:])
    if len(a) == 2:
        return emap(e, lambda x: e.call(f, [x], {}), e.iterate(src))
    return emap(e, lambda x: e.call(f, list(x.args), {}), e.iterate(src))


def b_filter(e, a, k):
    f = a[0]
    r = e.alloc("list")
    for s in e.iterate(a[1]):
        m = len(e.path)
        e.stack.extend(q for q, _ in s.binders)
        for g in s.guards:
            e.push(g)
        c = e.decide(e.truth(s.elem if f is NONE else e.call(f, [s.elem], {})))
        if c is not FALSE:
            e.push(c)
            e.write(r, None, s.elem, "append")
        del e.path[m:]
        for _ in s.binders:
            e.stack.pop()
    return r


def b_sorted(e, a, k):
    x = a[0]
    segs = e.iterate(x) if x.op in ("ref", "tuple") else None
    if segs is not None and all(not s.binders and not s.guards and is_const(s.elem) for s in segs) and not k:
        try:
            return e.new_list([const(v) for v in sorted(cval(s.elem) for s in segs)])
        except TypeError:
            pass
    key, rev = k.get("key", NONE), k.get("reverse", FALSE)
    if key is NONE and rev is FALSE:
        return mk("sorted", x)
    return mk("sorted", x, key, rev)


def b_reversed(e, a, k):
    return mk("reversed", a[0])


def b_list(e, a, k):
    if not a:
        return e.alloc("list")
    x = a[0]
    if x.op == "ite":
        return cases(e, x, lambda v: b_list(e, [v], k))
    if x.op in ("mcall", "call", "xattr", "unk") or (x.op == "item" and e.typeof(x) is None) or (x.op == "sym" and e.typeof(x) is None):
        return mk("listof", x)
    r = e.alloc("list")
    e.list_extend(r, x)
    return r


def b_tuple(e, a, k):
    if not a:
        return tuple_()
    x = a[0]
    if x.op == "tuple":
        return x
    if x.op == "ite":
        return cases(e, x, lambda v: b_tuple(e, [v], k))
    ty = e.typeof(x)
    if isinstance(ty, tuple) and ty[0] == "tuple":
        return x
    if x.op == "join":
        return x
    if x.op == "range" or x.op in ("sym", "attr", "item", "mcall", "call", "xattr"):
        if x.op == "range" and all(is_num(y) for y in x.args):
            return tuple_(*[s.elem for s in e.iterate(x)])
        return mk("tupleof", x)
    segs = e.iterate(x)
    if all(not s.binders and not s.guards for s in segs):
        return mktuple(e, [s.elem for s in segs])
    return mk("tupleof", freeze(e, x))


def b_set(e, a, k):
    return mk("setof", a[0] if a else tuple_())


b_frozenset = b_set


def b_dict(e, a, k):
    r = e.alloc("dict")
    if a:
        x = a[0]
        ty = e.typeof(x)
        if (x.op == "ref" and e.obj(x).kind == "dict") or x.op == "dictof" or (isinstance(ty, tuple) and ty[0] == "dict") or x.op == "ite":
            e.dict_update(r, x)
        elif x.op == "items":
            e.dict_update(r, x.args[0])
        else:
            for s in e.iterate(x):
                m = len(e.path)
                e.stack.extend(q for q, _ in s.binders)
                for g in s.guards:
                    e.push(g)
                e.write(r, e.getitem(s.elem, ZERO), e.getitem(s.elem, ONE))
                del e.path[m:]
                for _ in s.binders:
                    e.stack.pop()
    for n, v in k.items():
        e.write(r, const(n), v)
    return r


def b_str(e, a, k):
    if not a:
        return const("")
    x = a[0]
    if is_const(x):
        return const(str(cval(x)))
    if e.strish(x):
        return x
    return mk("call", "builtins.str", (freeze(e, x),), ())


def b_int(e, a, k):
    x = a[0]
    if x.op == "ite":
        return cases(e, x, lambda v: b_int(e, [v], k))
    if is_num(x):
        return const(int(cval(x)))
    if is_int(x) or e.typeof(x) == "int":
        return x
    for f in e.facts():
        if f.op == "isinst" and f.args[0] is x and f.args[1].op == "ext" and f.args[1].args[0] in ("numpy.int64", "builtins.int", "numpy.integer", "numpy.int32"):
            return x
    return mk("call", "builtins.int", (x,), ())


def b_float(e, a, k):
    x = a[0]
    if x.op == "const" and x.args[0] == "str":
        try:
            return const(float(cval(x)))
        except ValueError:
            pass
    if e.exact_types and x.op != "const":
        return x if x.op == "call" and x.args[0] == "builtins.float" else mk("call", "builtins.float", (x,), ())
    return x


def b_bool(e, a, k):
    return e.truth(a[0])


def b_isinstance(e, a, k):
    return e.decide(e.isinstance_(a[0], a[1]))


def b_issubclass(e, a, k):
    if a[0].op == "class" and a[1].op == "class":
        return const(e.p.is_sub(e.p.classes[a[0].args[0]], e.p.classes[a[1].args[0]]))
    return mk("issub", *a)


def b_hasattr(e, a, k):
    if is_str(a[1]) and a[0].op == "ref" and e.obj(a[0]).kind == "inst":
        o = e.obj(a[0])
        n = cval(a[1])
        if e.read(a[0], const(n)) is not None or e.find_method(o.cls, n):
            return TRUE
        return FALSE
    return mk("hasattr", a[0], a[1])


def b_getattr(e, a, k):
    if is_str(a[1]):
        return e.getattr(a[0], cval(a[1]))
    if a[1].op == "ite":
        return cases(e, a[1], lambda n: b_getattr(e, [a[0], n], k))
    return e.unk("getattr with a computed name")


def b_setattr(e, a, k):
    if is_str(a[1]):
        e.setattr(a[0], cval(a[1]), a[2])
    else:
        e.effect("mutate", target=a[0], how="setattr", key=a[1], val=a[2])
        e.unk("setattr with a computed name")
    return NONE


def b_vars(e, a, k):
    return mk("dictof", a[0]) if a else e.unk("vars()")


def b_type(e, a, k):
    return e.type_of(a[0])


def b_iter(e, a, k):
    return mk("iterof", a[0])


def b_next(e, a, k):
    x = a[0]
    while x.op == "iterof":
        x = x.args[0]
    segs = e.iterate(x)
    if segs and not segs[0].binders and not segs[0].guards:
        return segs[0].elem
    if len(segs) == 1 and len(segs[0].binders) == 1:
        q, dm = segs[0].binders[0]
        c = and_(*segs[0].guards) if segs[0].guards else TRUE
        if c is TRUE:
            first = ZERO if dm.op == "drange" else mk("keyat", dm, ZERO)
            v = subst(segs[0].elem, {q: first})
            ex = lt(ZERO, dom_len(dm))
        else:
            lv, b = bind(tuple_(c, segs[0].elem), q)
            v = mk("firstof", dm, lv, b.args[0], b.args[1])
            ex = any_over(q, dm, c)
        if len(a) > 1:
            return ite(ex, v, a[1])
        return v
    if not segs and len(a) > 1:
        return a[1]
    return e.unk("next()")


def b_min(e, a, k):
    return _minmax(e, "min", a, k)


def b_max(e, a, k):
    return _minmax(e, "max", a, k)


def _minmax(e, n, a, k):
    if len(a) > 1 and all(is_num(x) for x in a):
        return const((min if n == "min" else max)(cval(x) for x in a))
    if len(a) > 1:
        return mk(n, *sorted({freeze(e, x) for x in a}, key=lambda x: x.key))
    return pure(e, "builtins." + n, a, k)


def b_abs(e, a, k):
    if is_num(a[0]):
        return const(abs(cval(a[0])))
    return mk("abs", a[0])


def b_round(e, a, k):
    return mk("call", "builtins.round", tuple(a), ())


def b_slice(e, a, k):
    a = list(a)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return mk("slice", *a)


def b_callable(e, a, k):
    if a[0].op in ("func", "bmeth", "class", "ext"):
        return TRUE
    return mk("callable", a[0])


def b_print(e, a, k):
    return NONE


def b_repr(e, a, k):
    return mk("call", "builtins.repr", (freeze(e, a[0]),), ())


def b_id(e, a, k):
    return mk("call", "builtins.id", (a[0],), ())


def b_object(e, a, k):
    return e.alloc("object")


# ---- copy
def f_deepcopy(e, a, k):
    return e.clone(a[0])


def f_copy(e, a, k):
    return e.shallow_copy(a[0])


def f_reduce(e, a, k):
    f = a[0]
    segs = e.iterate(a[1])
    acc = a[2] if len(a) > 2 else None
    if all(not s.binders and not s.guards for s in segs):
        for s in segs:
            acc = s.elem if acc is None else e.call(f, [acc, s.elem], {})
        return acc if acc is not None else e.unk("reduce of nothing")
    return e.unk("reduce over a symbolic collection")


def f_partial(e, a, k):
    return mk("partial", a[0], tuple(a[1:]), tuple(sorted(k.items())))


def f_chain(e, a, k):
    return mk("chain", *a)


def f_chain_it(e, a, k):
    r = e.alloc("list")
    for s in e.iterate(a[0]):
        m = len(e.path)
        e.stack.extend(q for q, _ in s.binders)
        for g in s.guards:
            e.push(g)
        e.list_extend(r, s.elem)
        del e.path[m:]
        for _ in s.binders:
            e.stack.pop()
    return r


def f_product(e, a, k):
    if k:
        return e.unk("product(repeat)")
    return mk("product", *a)


def f_count(e, a, k):
    return e.unk("itertools.count")


# ---- numpy constructors
def shape_of(e, t):
    return freeze(e, t) if t is not None else None


def f_fill(v):
    def f(e, a, k):
        shape = freeze(e, arg(a, k, 0, "shape"))
        if shape.op == "list":
            shape = tuple_(*shape.args)
        return typed(e, e.alloc("arr", init=mk("fill", v, shape)), arg(a, k, 1, "dtype", NONE))

    return f


INTS = ("builtins.int", "numpy.int64", "numpy.int32", "numpy.int8", "numpy.int16", "numpy.int_", "numpy.uint8", "numpy.uint32", "numpy.uint64", "numpy.integer")


def is_int_type(dt):
    n = cval(dt) if is_const(dt) else dt.args[0] if dt.op == "ext" else None
    return isinstance(n, str) and (n in INTS or n in ("int", "int64", "int32", "i", "i4", "i8"))


SINGLE = {"float32": "numpy.float32", "f4": "numpy.float32", "f": "numpy.float32", "single": "numpy.float32", "float16": "numpy.float16", "f2": "numpy.float16", "half": "numpy.float16",
          "bool": "builtins.bool", "bool_": "builtins.bool", "?": "builtins.bool"}


def cut_type(dt):
    """name of the conversion a narrow dtype applies to what is stored; None for float"""
    n = cval(dt) if is_const(dt) else dt.args[0] if dt.op == "ext" else None
    if is_int_type(dt):
        return "builtins.int"
    return SINGLE.get(n.split(".")[-1].lstrip("<>=")) if isinstance(n, str) else None


def typed(e, r, dt):
    """note an array of whole or short numbers: what is stored in it is cut"""
    n = cut_type(dt)
    if n:
        e.obj(r).meta["whole"] = n
    return r


def f_full(e, a, k):
    shape = freeze(e, arg(a, k, 0, "shape"))
    if shape.op == "list":
        shape = tuple_(*shape.args)
    v = arg(a, k, 1, "fill_value")
    n = cut_type(arg(a, k, 2, "dtype", NONE))
    if n and e.typeof(v) != "int" and not (is_num(v) and cval(v).denominator == 1):
        v = mk("call", n, (v,), ())
    return typed(e, e.alloc("arr", init=mk("fill", v, shape)), arg(a, k, 2, "dtype", NONE))


def f_filllike(v):
    def f(e, a, k):
        x = a[0]
        dt = k.get("dtype", NONE)
        if x.op == "ref" and e.obj(x).kind == "arr":
            i = e.obj(x).meta.get("init")
            if i is not None and i.op == "fill":
                r = e.alloc("arr", init=mk("fill", v, i.args[1]))
                if e.obj(x).meta.get("whole") and dt is NONE:
                    e.obj(r).meta["whole"] = e.obj(x).meta["whole"]
                return typed(e, r, dt)
        return typed(e, e.alloc("arr", init=mk("filllike", v, freeze(e, x))), dt)

    return f


def f_fulllike(e, a, k):
    return f_filllike(arg(a, k, 1, "fill_value"))(e, a, k)


def f_array(e, a, k):
    dt = arg(a, k, 1, "dtype", NONE)
    if dt is not NONE:
        r = f_array(e, [arg(a, k, 0, "object")], {})
        return e.method_ext(r, "astype", [dt], {})
    x = arg(a, k, 0, "object")
    if k.get("copy") is FALSE and not k.get("ndmin"):
        return f_asarray(e, [x], {})
    if "ndmin" in k or "order" in k:
        return pure(e, "numpy.array", a, k)
    if x.op == "ite":
        return cases(e, x, lambda v: f_array(e, [v], {}))
    if x.op == "ref" and e.obj(x).kind == "arr":
        return e.clone(x)
    if x.op == "packed" or x.op == "tolist":
        x = x.args[0]
    if x.op == "call" and x.args[0] == "numpy.array":
        return e.alloc("arr", init=x)
    return e.alloc("arr", init=mk("call", "numpy.array", (freeze(e, x),), ()))


def f_asarray(e, a, k):
    dt = arg(a, k, 1, "dtype", NONE)
    if dt is not NONE:
        return e.method_ext(f_asarray(e, a[:1], {}), "astype", [dt], {})
    x = a[0]
    if x.op == "ref" and e.obj(x).kind in ("list", "dict"):
        return f_array(e, a, k)
    if x.op == "ref" and e.obj(x).kind == "arr":
        return x
    return mk("mcall", x, "view", (), ())


# ---- pandas
def f_frame(e, a, k):
    data = arg(a, k, 0, "data", NONE)
    kw = dict(k)
    kw.pop("data", None)
    f = e.alloc("frame", init=data, value=mk("call", "pandas.DataFrame", (freeze(e, data),), tuple(sorted((n, freeze(e, v)) for n, v in kw.items()))))
    if data.op == "ref" and e.obj(data).kind == "dict":
        for s in e.entries(data):
            if not s.binders:
                e.write(f, tuple_(const("initcol"), s.elem.args[0]), s.elem.args[1], "init")
    e.effect("frame", frame=f, data=data, kwargs=tuple(sorted(kw.items())))
    return f


# ---- ortools
def f_solver(e, a, k):
    s = e.alloc("solver")
    e.effect("solver", solver=s, args=tuple(a))
    return s


# ---- pools
def f_pool(e, a, k):
    p = e.alloc("pool")
    e.effect("pool", pool=p, args=tuple(a), kwargs=tuple(sorted(k.items())))
    return p


# ---- msgpack / json like
def f_packb(e, a, k):
    x = arg(a, k, 0, "o")
    c = e.clone(x)
    single = k.get("use_single_float", FALSE)
    if single is not FALSE:
        shorten(e, c, set())
    return mk("packed", c)


def shorten(e, t, seen):
    """every number inside t becomes a short float"""
    if t.op in ("tuple", "list"):
        for x in t.args:
            shorten(e, x, seen)
        return
    if t.op != "ref" or t.args[0] in seen:
        return
    seen.add(t.args[0])
    for w in e.obj(t).writes:
        if w.val is None or w.op == "del":
            continue
        if w.val.op in ("ref", "tuple", "list"):
            shorten(e, w.val, seen)
        elif w.val.op not in ("unk", "const", "tuple", "list"):
            if e.typeof(w.val) != "str":
                w.val = mk("call", "numpy.float32", (w.val,), ())


def f_unpackb(e, a, k):
    x = arg(a, k, 0, "packed")
    return cases(e, x, lambda v: e.clone(v.args[0]) if v.op == "packed" else mk("call", "msgpack.unpackb", (v,), ()))


def f_time(e, a, k):
    return mk("clock", e.fresh())


def f_http(meth):
    def f(e, a, k):
        r = mk("resp", e.fresh(), meth)
        kw = dict(k)
        if a:
            kw.setdefault("url", a[0])
        if len(a) > 1:
            kw.setdefault("params" if meth == "get" else "data", a[1])
        if len(a) > 2 and meth == "post":
            kw.setdefault("json", a[2])
        e.effect("http", method=meth, resp=r, kwargs=tuple(sorted(kw.items())))
        if e.server is not None:
            e.server.answer(e, r, meth, kw)
        return r

    return f


def f_http_request(e, a, k):
    m = arg(a, k, 0, "method")
    kw = dict(k)
    kw.pop("method", None)
    if len(a) > 1:
        kw["url"] = a[1]
    return f_http(cval(m).lower() if is_str(m) else "?")(e, [], kw)


def f_urandom(e, a, k):
    e.effect("entropy", n=a[0] if a else NONE)
    return mk("entropy", e.fresh(), *([a[0]] if a else []))


def f_seed(e, a, k):
    e.effect("seed", arg=a[0] if a else NONE)
    return NONE


def p_random(e, d, a, k):
    t = mk("rand", e.fresh(), d, *fz(e, a, k))
    e.effect("random", fn=d, args=tuple(a), kwargs=tuple(sorted(k.items())), val=t)
    return t


def f_where(e, a, k):
    if len(a) == 3:
        return mk("where", freeze(e, a[0]), freeze(e, a[1]), freeze(e, a[2]))
    return pure(e, "numpy.where", a, k)


def f_operator(op):
    def f(e, a, k):
        return e.binop(op, a[0], a[1])

    return f


def f_opcmp(op):
    def f(e, a, k):
        return e.compare(op, a[0], a[1])

    return f


def f_npbin(op):
    def f(e, a, k):
        if "where" in k:
            return pure(e, "numpy." + op, a, k)
        return e.binop(op, a[0], a[1])

    return f


def f_sessions(e, a, k):
    return mk("ext", "requests")


def f_dec(e, a, k):
    return a[0] if a else NONE


def f_multiindex(e, a, k):
    return pure(e, "pandas.MultiIndex", a, k)


NPBIN = {"numpy.add": "Add", "numpy.subtract": "Sub", "numpy.multiply": "Mult", "numpy.divide": "Div", "numpy.true_divide": "Div"}
FUNCS = {
    "copy.deepcopy": f_deepcopy, "copy.copy": f_copy,
    "functools.reduce": f_reduce, "functools.partial": f_partial, "functools.wraps": f_dec,
    "itertools.chain": f_chain, "itertools.chain.from_iterable": f_chain_it, "itertools.product": f_product,
    "numpy.zeros": f_fill(ZERO), "numpy.ones": f_fill(ONE), "numpy.empty": f_fill(mk("uninit")), "numpy.full": f_full,
    "numpy.zeros_like": f_filllike(ZERO), "numpy.ones_like": f_filllike(ONE), "numpy.empty_like": f_filllike(mk("uninit")),
    "numpy.full_like": f_fulllike,
    "numpy.array": f_array, "numpy.copy": f_array, "numpy.asarray": f_asarray, "numpy.asanyarray": f_asarray, "numpy.ascontiguousarray": f_asarray,
    "numpy.where": f_where,
    "numpy.add": f_npbin("Add"), "numpy.subtract": f_npbin("Sub"), "numpy.multiply": f_npbin("Mult"), "numpy.divide": f_npbin("Div"), "numpy.true_divide": f_npbin("Div"),
    "numpy.negative": lambda e, a, k: neg(e.arr_value(a[0]) if e.is_ref(a[0], "arr") else a[0]),
    "numpy.logical_and": f_npbin("BitAnd"), "numpy.bitwise_and": f_npbin("BitAnd"), "numpy.logical_or": f_npbin("BitOr"),
    "operator.add": f_operator("Add"), "operator.sub": f_operator("Sub"), "operator.mul": f_operator("Mult"), "operator.truediv": f_operator("Div"),
    "operator.and_": f_operator("BitAnd"), "operator.iand": f_operator("BitAnd"), "operator.or_": f_operator("BitOr"),
    "operator.eq": f_opcmp("Eq"), "operator.lt": f_opcmp("Lt"), "operator.le": f_opcmp("LtE"), "operator.gt": f_opcmp("Gt"), "operator.ge": f_opcmp("GtE"),
    "operator.itemgetter": lambda e, a, k: mk("itemgetter", *a),
    "operator.attrgetter": lambda e, a, k: mk("attrgetter", *a),
    "pandas.DataFrame": f_frame,
    "collections.defaultdict": lambda e, a, k: f_defaultdict(e, a, k), "collections.OrderedDict": b_dict,
    PYW + ".Solver": f_solver, PYW + ".Solver.CreateSolver": f_solver,
    "multiprocessing.Pool": f_pool, "multiprocessing.get_context": lambda e, a, k: mk("ext", "multiprocessing"),
    "multiprocessing.dummy.Pool": f_pool, "multiprocessing.pool.ThreadPool": f_pool,
    "concurrent.futures.ProcessPoolExecutor": f_pool, "concurrent.futures.ThreadPoolExecutor": f_pool,
    "contextlib.closing": lambda e, a, k: a[0],
    "msgpack.packb": f_packb, "msgpack.unpackb": f_unpackb, "msgpack.dumps": f_packb, "msgpack.loads": f_unpackb,
    "json.dumps": f_packb, "json.loads": f_unpackb, "pickle.dumps": f_packb, "pickle.loads": f_unpackb,
    "time.time": f_time, "time.perf_counter": f_time, "time.monotonic": f_time, "time.process_time": f_time,
    "requests.post": f_http("post"), "requests.get": f_http("get"), "requests.request": f_http_request, "requests.put": f_http("put"), "requests.Session": f_sessions, "requests.session": f_sessions,
    "os.urandom": f_urandom, "os.getrandom": f_urandom, "secrets.token_bytes": f_urandom, "secrets.randbits": f_urandom,
    "secrets.randbelow": f_urandom, "numpy.random.SeedSequence": f_urandom, "uuid.uuid4": f_urandom, "numpy.random.seed": f_seed,
    "typing.cast": lambda e, a, k: a[1], "typing.TypeVar": lambda e, a, k: mk("ext", "typing.T"),
    "builtins.dict.fromkeys": lambda e, a, k: _fromkeys(e, a, k),
    "numpy.float64": b_float, "numpy.int64": b_int,
}
PREFIX = [("numpy.random.", p_random), ("random.", p_random)]


def _fromkeys(e, a, k):
    r = e.alloc("dict")
    for s in e.iterate(a[0]):
        e.stack.extend(q for q, _ in s.binders)
        e.write(r, s.elem, a[1] if len(a) > 1 else NONE)
        for _ in s.binders:
            e.stack.pop()
    return r


# ----------------------------------------------------------------------------- methods
STR_PURE = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "replace", "startswith", "endswith", "find", "rfind", "count",
            "isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isidentifier", "isupper", "islower", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix"}


def method(e, recv, name, args, kwargs):
    if recv.op == "ite":
        return cases_call(e, recv, name, args, kwargs)
    ty = e.typeof(recv)
    kind = e.obj(recv).kind if recv.op == "ref" else (ty[0] if isinstance(ty, tuple) else ty)
    if recv.op == "ext" and recv.args[0] == "object":
        return NONE
    if recv.op == "dictof":
        kind = "dict"
    if recv.op in ("grp", "grpval"):
        kind = recv.op
    if recv.op in ("keys", "values", "items", "listof", "tupleof", "sorted", "reversed", "enumerate", "zip"):
        kind = "list"
    if is_str(recv) and name in STR_PURE and not kwargs and all(is_const(x) and isinstance(cval(x), (str, int)) for x in args):
        try:
            return const(getattr(cval(recv), name)(*[cval(x) for x in args]))
        except (TypeError, ValueError):
            pass
    f = globals().get("m_%s_%s" % (kind, name))
    if f is None and kind in ("solver", "var", "cons", "pool"):
        f = globals().get("m_%s" % kind)
        return f(e, recv, name, args, kwargs)
    if f is None and recv.op == "objective":
        return m_objective(e, recv, name, args, kwargs)
    if f is None and (kind == "str" or recv.op == "strcat"):
        f = globals().get("m_str_%s" % name)
        if f is None and name in ("strip", "lower", "upper", "replace", "title"):
            return mk("mcall", recv, name, tuple(args), ())
    if f is not None:
        return f(e, recv, args, kwargs)
    if recv.op == "slice" and name == "indices":
        x = mk("sliceindices", recv, *args)
        return tuple_(*[mk("item", x, const(i)) for i in range(3)])
    if recv.op == "join" and name == "split":
        return m_str_split(e, recv, args, kwargs)
    if name in ("item", "tolist") and not args and not kwargs and e.typeof(recv) in ("num", "int", "npint64"):
        return mk("call", "builtins.int", (recv,), ()) if e.typeof(recv) == "npint64" else recv
    if name in ("tolist",):
        v = recv
        if recv.op == "ref" and kind == "arr":
            v = e.arr_value(recv)
            if v is recv:
                return mk("tolist", e.clone(recv))
        return mk("tolist", v)
    if name == "copy" and (kwargs.get("deep") is FALSE or (args and args[0] is FALSE)):
        return mk("mcall", recv, "view", (), ())
    if name == "copy" and kind in ("arr", "frame"):
        return e.clone(recv)
    if name == "copy" and recv.op in ("sym", "attr", "item", "xattr", "mcall", "call", "copy", "poly", "upd"):
        if recv.op == "copy":
            return mk("copy", recv.args[0], e.fresh())
        return mk("copy", recv, e.fresh())
    if name == "update_layout" or name == "add_trace":
        e.effect("draw", fig=recv, how=name, args=tuple(args), kwargs=tuple(sorted(kwargs.items())))
        return recv
    if kwargs.get("inplace") is TRUE:
        a, k = fz(e, args, {x: y for x, y in kwargs.items() if x != "inplace"})
        new = mk("mcall", freeze(e, recv) if recv.op == "ref" else e.now(recv), name, a, k)
        if recv.op == "ref":
            mutate(e, recv, name + "(inplace=True)")
            if kind == "frame":
                e.mutated(recv, e.effects[-1], "=", NONE, new)
            return NONE
        ef = e.effect("mutate", target=recv, how="=", key=NONE, val=new)
        return NONE
    if recv.op == "resp" and e.server is not None:
        return e.server.method(e, recv, name)
    if name == "json" and recv.op == "resp":
        return mk("json", recv)
    if recv.op == "setof" or (recv.op == "keys" and name != "mapping"):
        if name == "issubset":
            return e.subset(recv, args[0])
        if name == "issuperset":
            return e.subset(args[0], recv)
        if name == "isdisjoint":
            return not_(e.truth(mk("setof", e.filtered(recv, lambda x: e.contains_(x, args[0])))))
        if name in ("difference", "intersection", "union") and len(args) == 1:
            return e.binop({"difference": "Sub", "intersection": "BitAnd", "union": "BitOr"}[name], recv, args[0])
    if name in MUTATORS and kind not in ("num", "int", "str", "bool"):
        if recv.op == "setof":
            return NONE
        if not (name in ("pop", "add", "remove", "insert", "update", "clear", "sort") and recv.op == "ext"):
            mutate(e, recv, "." + name + "()", NONE, args[0] if args else NONE)
            if name in ("pop", "setdefault", "popitem"):
                return mk("unk", e.fresh(), "result of " + name)
            return NONE
    if name == "from_bytes" and recv.op == "ext":
        return mk("frombytes", args[0])
    if recv.op == "ext":
        return call(e, recv.args[0] + "." + name, args, kwargs)
    e.effect("xcall", fn=mk("xmeth", recv, name), args=tuple(args), kwargs=tuple(sorted(kwargs.items())))
    a, k = fz(e, args, kwargs)
    r = recv
    if recv.op == "ref" and kind == "arr":
        r = e.arr_value(recv)
    elif recv.op == "ref" and kind in ("frame", "list", "dict"):
        r = freeze(e, recv)
    elif id(recv) in e.muts:
        r = e.now(recv)
    return mk("mcall", r, name, a, k)


def cases_call(e, recv, name, args, kwargs):
    c = e.decide(recv.args[0])
    if c is TRUE:
        return e.call(e.getattr(recv.args[1], name), args, kwargs)
    if c is FALSE:
        return e.call(e.getattr(recv.args[2], name), args, kwargs)
    return e._branch(c, lambda: e.call(e.getattr(recv.args[1], name), args, kwargs),
                     lambda: e.call(e.getattr(recv.args[2], name), args, kwargs))


# ---- lists
def m_list_append(e, t, a, k):
    if t.op == "ref":
        e.write(t, None, a[0], "append")
    else:
        sym_append(e, t, "append", a[0])
    return NONE


def sym_append(e, t, op, v):
    from .engine import Write

    e.effect("mutate", target=t, how=op, key=NONE, val=v)
    o = e.sym_overlay(t)
    o.writes.append(Write((t,), None, v, tuple(e.stack), tuple(e.path), e.tick(), e.site(),
                          "append" if op == "append" else "splice" if op == "extend" else "opaque"))


def m_list_extend(e, t, a, k):
    if t.op == "ref":
        e.list_extend(t, a[0])
    else:
        sym_append(e, t, "extend", a[0])
    return NONE


def m_list_insert(e, t, a, k):
    if t.op == "ref":
        segs = e.segments(t)
        if all(not s.binders and not s.guards for s in segs) and is_num(a[0]) and not e.stack_extra(t) and not e.cond_extra(t):
            els = [s.elem for s in segs]
            els.insert(cval(a[0]), a[1])
            e.write(t, None, NONE, "clear")
            for x in els:
                e.write(t, None, x, "append")
        else:
            e.write(t, None, a[1], "opaque")
    else:
        sym_append(e, t, "insert", a[1])
    return NONE


def m_list_copy(e, t, a, k):
    return e.shallow_copy(t)


def m_list_index(e, t, a, k):
    segs = e.iterate(t)
    if all(not s.binders and not s.guards and is_const(s.elem) for s in segs) and is_const(a[0]):
        for i, s in enumerate(segs):
            if s.elem is a[0]:
                return const(i)
    return mk("mcall", freeze(e, t), "index", (a[0],), ())


def m_list_pop(e, t, a, k):
    if t.op == "ref":
        segs = e.segments(t)
        if all(not s.binders and not s.guards for s in segs) and (not a or is_num(a[0])) and segs and not e.stack_extra(t) and not e.cond_extra(t):
            els = [s.elem for s in segs]
            v = els.pop(cval(a[0]) if a else -1)
            e.write(t, None, NONE, "clear")
            for x in els:
                e.write(t, None, x, "append")
            return v
        e.write(t, None, NONE, "opaque")
        return e.unk("list.pop")
    sym_append(e, t, "pop", NONE)
    return e.unk("list.pop")


def _opq(how):
    def f(e, t, a, k):
        if t.op == "ref":
            e.write(t, None, NONE, "opaque")
        else:
            sym_append(e, t, how, a[0] if a else NONE)
        return NONE

    return f


m_list_remove = _opq("remove")
m_list_sort = _opq("sort")
m_list_reverse = _opq("reverse")


def m_list_clear(e, t, a, k):
    if t.op == "ref":
        e.write(t, None, NONE, "clear")
    else:
        sym_append(e, t, "clear", NONE)
    return NONE


# ---- dicts
def m_dict_keys(e, t, a, k):
    return mk("keys", t)


def m_dict_values(e, t, a, k):
    return mk("values", t)


def m_dict_items(e, t, a, k):
    return mk("items", t)


def m_dict_get(e, t, a, k):
    key = a[0]
    dft = arg(a, k, 1, "default", NONE)
    c = e.decide(e.contains_(key, t))
    if c is FALSE:
        return dft
    if c is TRUE:
        return e.getitem(t, key)
    m = len(e.path)
    e.push(c)
    v = e.getitem(t, key)
    del e.path[m:]
    return ite(c, v, dft)


def m_dict_update(e, t, a, k):
    if t.op == "ref":
        if a:
            e.dict_update(t, a[0])
        for n, v in k.items():
            e.write(t, const(n), v)
    else:
        if a:
            for s in e.iter_dict(a[0], "items"):
                e.stack.extend(q for q, _ in s.binders)
                m = len(e.path)
                for g in s.guards:
                    e.push(g)
                e.setitem(t, s.elem.args[0], s.elem.args[1])
                del e.path[m:]
                for _ in s.binders:
                    e.stack.pop()
        for n, v in k.items():
            e.setitem(t, const(n), v)
    return NONE


def is_empty_list(e, t):
    return t.op == "ref" and e.obj(t).kind == "list" and not e.obj(t).writes


def m_grp_append(e, t, a, k):
    e.write(t.args[0], t.args[1], a[0], "gappend")
    return NONE


def m_grp_extend(e, t, a, k):
    e.write(t.args[0], t.args[1], freeze(e, a[0]) if False else a[0], "gextend")
    return NONE


def default_item(e, t, key):
    """d[key] of a defaultdict"""
    d = e.obj(t).meta["default"]
    c = e.decide(e.contains_(key, t))
    if c is TRUE:
        return e.read(t, key)
    if d == "list":
        v = e.new_list()
    elif d == "dict":
        v = e.alloc("dict")
    elif d == "int" or d == "float":
        v = ZERO
    else:
        v = e.unk("default factory")
    return m_dict_setdefault(e, t, [key, v], {})


def f_defaultdict(e, a, k):
    r = e.alloc("dict")
    f = a[0] if a else NONE
    e.obj(r).meta["default"] = f.args[0].split(".")[-1] if f.op == "ext" else "?"
    if f.op == "const":
        del e.obj(r).meta["default"]
    return r


def m_dict_setdefault(e, t, a, k):
    key, dft = a[0], (a[1] if len(a) > 1 else NONE)
    if t.op == "ref" and e.obj(t).kind == "dict" and is_empty_list(e, dft) and e.stack_extra(t) and all(
            w.op in ("gappend", "gextend") for w in e.obj(t).writes):
        return mk("grp", t, key)
    if t.op == "ref":
        e.reads.append((e.obj(t).oid, t.args[1], key, e.seq))
        e.kept_first.add((e.obj(t).oid, t.args[1], key))
    c = e.decide(e.contains_(key, t))
    if c is TRUE:
        return e.getitem(t, key)
    if c is FALSE:
        e.setitem(t, key, dft)
        return dft
    m = len(e.path)
    e.push(c)
    v = e.getitem(t, key)
    del e.path[m:]
    e.push(not_(c))
    e.setitem(t, key, dft)
    del e.path[m:]
    return ite(c, v, dft)


def m_dict_pop(e, t, a, k):
    v = m_dict_get(e, t, a, k) if len(a) > 1 else e.getitem(t, a[0])
    if t.op == "ref":
        e.write(t, a[0], NONE, "del")
    else:
        e.effect("mutate", target=t, how=".pop()", key=a[0], val=NONE)
    return v


def m_dict_copy(e, t, a, k):
    return e.shallow_copy(t)


def m_dict_clear(e, t, a, k):
    if t.op == "ref":
        e.write(t, None, NONE, "opaque")
    else:
        e.effect("mutate", target=t, how=".clear()", key=NONE, val=NONE)
    return NONE


# ---- strings
def m_str_join(e, t, a, k):
    x = a[0]
    if x.op == "ite":
        return cases(e, x, lambda v: m_str_join(e, t, [v], k))
    ty = e.typeof(x)
    if isinstance(ty, tuple) and ty[0] == "tuple":
        parts = [e.getitem(x, const(i)) for i in range(len(ty[1]))]
    elif x.op == "ref" and e.obj(x).kind == "list":
        segs = e.segments(x)
        if any(s.binders or s.guards for s in segs):
            return mk("join", t, freeze(e, x))
        parts = [s.elem for s in segs]
    else:
        return mk("join", t, x)
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(t)
        out.append(p)
    return strcat(*out)


def m_str_split(e, t, a, k):
    sep = a[0] if a else NONE
    if t.op == "join" and t.args[0] is sep:
        return t.args[1]
    if t.op == "const" and is_str(sep):
        return e.new_list([const(x) for x in cval(t).split(cval(sep))])
    if t.op == "strcat" and is_str(sep):
        groups = [[]]
        for p in t.args:
            if is_str(p) and cval(sep) in cval(p):
                bits = cval(p).split(cval(sep))
                groups[-1].append(const(bits[0]))
                for b in bits[1:]:
                    groups.append([const(b)])
            else:
                groups[-1].append(p)
        def one(g):
            g = [x for x in g if not (is_str(x) and cval(x) == "")]
            if len(g) == 1:
                return g[0]
            return strcat(*g)
        return e.new_list([one(g) for g in groups])
    return mk("mcall", t, "split", tuple(a), ())


def m_str_format(e, t, a, k):
    import string

    if not is_str(t):
        return mk("mcall", t, "format", tuple(a), ())
    parts, auto = [], 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(cval(t)):
            parts.append(const(lit))
            if fld is None:
                continue
            if fld == "":
                v = a[auto]
                auto += 1
            elif fld.isdigit():
                v = a[int(fld)]
            elif fld in k:
                v = k[fld]
            else:
                v = mk("mcall", t, "format", tuple(a), ())
            parts.append(v)
    except (IndexError, ValueError):
        return mk("mcall", t, "format", tuple(a), ())
    return strcat(*parts)


# ---- ortools
def m_solver(e, s, name, a, k):
    if name in ("NumVar", "Var", "IntVar", "BoolVar", "MakeNumVar"):
        lb = arg(a, k, 0, "lb", ZERO)
        ub = arg(a, k, 1, "ub", ONE)
        integer = name in ("IntVar", "BoolVar") or (name == "Var" and arg(a, k, 2, "integer", FALSE) is not FALSE)
        v = e.alloc("var", lb=lb, ub=ub, solver=s)
        e.effect("numvar", var=v, solver=s, lb=lb, ub=ub, integer=integer,
                 name=arg(a, k, 3 if name == "Var" else 2, "name", NONE))
        return v
    if name in ("Constraint", "RowConstraint", "MakeRowConstraint"):
        a2 = [x for x in a if not e.strish(x)]
        ninf, pinf = mk("neginf"), mk("posinf")
        lb = arg(a2, k, 0, "lb", ninf)
        ub = arg(a2, k, 1, "ub", pinf)
        c = e.alloc("cons", lb=lb, ub=ub, solver=s)
        e.effect("constraint", cons=c, solver=s, lb=lb, ub=ub)
        return c
    if name == "Add":
        c = e.alloc("cons", solver=s)
        e.effect("addcons", cons=c, solver=s, expr=a[0])
        return c
    if name in ("Objective", "MutableObjective"):
        return mk("objective", s)
    if name in ("Minimize", "Maximize"):
        e.effect("objdir", solver=s, dir="min" if name == "Minimize" else "max")
        e.effect("objexpr", solver=s, expr=a[0])
        return NONE
    if name == "Sum":
        return b_sum(e, a, k)
    if name == "Solve":
        r = mk("status", s, e.fresh())
        e.effect("solve", solver=s, status=r)
        return r
    if name == "infinity":
        return mk("posinf")
    if name in ("Clear",):
        e.effect("solverclear", solver=s)
        return NONE
    e.effect("solvermeth", solver=s, name=name, args=tuple(a))
    return mk("mcall", s, name, tuple(a), ())


def rebound(e, ref, kind, how, a, k):
    """new bounds for a variable or constraint created in the same iterations"""
    if ref.op != "ref":
        return False
    for x in reversed(e.effects):
        if x.kind != kind:
            continue
        own = x.data["var" if kind == "numvar" else "cons"]
        if own is not ref:
            continue
        if x.binders != tuple(e.stack):
            return False
        had = list(x.guards)
        path = list(e.path)
        if path[:len(had)] != had:
            return False
        c = and_(*[g for g, tag in path[len(had):] if tag != "raise"])
        new = {}
        if how == "SetBounds":
            new = {"lb": arg(a, k, 0, "lb", None), "ub": arg(a, k, 1, "ub", None)}
        else:
            new = {how[-2:].lower(): arg(a, k, 0, how[-2:].lower(), None)}
        if any(v is None for v in new.values()):
            return False
        meta = e.obj(ref).meta
        for f, v in new.items():
            v = ite(c, v, x.data[f])
            x.data[f] = v
            meta[f] = v
        return True
    return False


def m_var(e, v, name, a, k):
    if name in ("solution_value", "SolutionValue"):
        e.effect("solvalue", var=v)
        return mk("solval", v)
    if name in ("SetBounds", "SetLb", "SetUb", "SetLB", "SetUB") and rebound(e, v, "numvar", name, a, k):
        return NONE
    if name in ("SetBounds", "SetLb", "SetUb", "SetLB", "SetUB", "SetInteger"):
        e.effect("varbounds", var=v, how=name, args=tuple(a))
        return NONE
    if name in ("name", "index"):
        return mk("mcall", v, name, (), ())
    if name in ("Lb", "lb"):
        return e.inst_meta(v, e.obj(v).meta["lb"])
    if name in ("Ub", "ub"):
        return e.inst_meta(v, e.obj(v).meta["ub"])
    e.effect("varmeth", var=v, name=name)
    return mk("mcall", v, name, tuple(a), ())


def m_cons(e, c, name, a, k):
    if name == "SetCoefficient":
        e.effect("setcoef", cons=c, var=a[0], coef=a[1])
        return NONE
    if name in ("SetBounds", "SetLb", "SetUb", "SetLB", "SetUB") and rebound(e, c, "constraint", name, a, k):
        return NONE
    if name in ("SetBounds", "SetLb", "SetUb", "SetLB", "SetUB"):
        e.effect("consbounds", cons=c, how=name, args=tuple(a))
        return NONE
    if name in ("Clear", "set_is_lazy"):
        e.effect("consclear", cons=c, how=name)
        return NONE
    return mk("mcall", c, name, tuple(a), ())


def m_objective(e, o, name, a, k):
    s = o.args[0]
    if name == "SetCoefficient":
        e.effect("setobj", solver=s, var=a[0], coef=a[1])
        return NONE
    if name in ("SetMinimization", "SetMaximization"):
        e.effect("objdir", solver=s, dir="min" if name == "SetMinimization" else "max")
        return NONE
    if name == "SetOptimizationDirection":
        e.effect("objdir", solver=s, dir="max" if a[0] is TRUE else "min" if a[0] is FALSE else "?")
        return NONE
    if name == "SetOffset":
        e.effect("objoffset", solver=s, val=a[0])
        return NONE
    if name == "Clear":
        e.effect("objclear", solver=s)
        return NONE
    return mk("mcall", o, name, tuple(a), ())


def m_pool(e, p, name, a, k):
    e.in_task += 1
    try:
        return pool_method(e, p, name, a, k)
    finally:
        e.in_task -= 1


def pool_method(e, p, name, a, k):
    if name in ("map", "imap", "imap_unordered", "map_async", "starmap", "starmap_async"):
        f = arg(a, k, 0, "func")
        it = arg(a, k, 1, "iterable")
        e.effect("poolmap", pool=p, how=name, fn=f)
        if name.startswith("starmap"):
            g = lambda x: e.call(f, [s.elem for s in e.iterate(x)], {})
        else:
            g = lambda x: e.call(f, [x], {})
        segs = e.iterate(it)
        if name == "imap_unordered":
            if len(segs) > 1 and all(not s.binders and not s.guards for s in segs):
                return emap(e, g, list(reversed(segs)))  # the tasks may end in any order, in this one too
            if len(segs) > 1 or any(len(s.binders) != 1 for s in segs):
                emap(e, g, segs)
                return e.unk("unordered results of a pool")
            for s in segs:
                for q, _ in s.binders:
                    e.order[q] = mk("unordered", e.fresh())
        r = emap(e, g, segs)
        if name.endswith("_async"):
            return mk("asyncres", r)
        return r
    if name in ("apply", "apply_async", "submit"):
        f = a[0]
        if name == "submit":
            v = e.call(f, list(a[1:]), k)
        else:
            ar = arg(a, k, 1, "args", tuple_())
            v = e.call(f, [s.elem for s in e.iterate(ar)], {})
        return v if name == "apply" else mk("asyncres", v)
    if name in ("close", "terminate", "join", "shutdown", "__exit__"):
        e.effect("poolclose", pool=p, how=name)
        return NONE
    return mk("mcall", p, name, tuple(a), ())
