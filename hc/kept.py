"""State that outlives the call which wrote it: class attributes, module variables, default arguments and
containers an object keeps for itself.

Each such variable starts an analysis with its initial content. That is exact as long as whatever an earlier call
left in it is what the present call would put there itself. This module decides the latter: the value written must
be determined by the key it is written under (and by what cannot change during the lifetime of the variable).
A variable for which this is refuted is *stale*; the property is then analysed again with the content left by an
earlier call in its place, as a value of its own ("kept"), so that only properties the old content reaches report it.
"""
import ast

from .terms import *
from .terms import show as show_term

STALE = {}     # label -> mode, in force during the second pass
REGISTRY = []  # (engine, object) of the pass under way
VARS = []      # (engine, label, value, guards, binders, task, site, literal) assignments of class attributes and globals
READ = set()   # labels of variables read
SITES = []     # what made a variable stale: (label, text, site)

UNIQUE = ("name", "dest")


def reset():
    del REGISTRY[:]
    del VARS[:]
    READ.clear()


def static(e, t, label, owner=None, depth=0):
    """objects reachable from the initial value t belong to the variable"""
    if depth > 3:
        return t
    if t.op == "tuple":
        for i, x in enumerate(t.args):
            static(e, x, label + (str(i),), owner, depth + 1)
    elif t.op == "ref":
        o = e.obj(t)
        if "static" in o.meta or o.kind not in ("list", "dict", "set", "inst", "arr"):
            return t
        o.meta["static"] = label
        o.meta["owner"] = owner
        o.meta["n0"] = len(o.writes)
        REGISTRY.append((e, o))
        mode = STALE.get(label)
        if mode is not None:
            o.meta["stale"] = mode
            if mode == "extra":
                e.write(t, None, kept(label), "splice")
        for w in list(o.writes):
            if isinstance(w.val, T):
                static(e, w.val, label + (str(w.key.args[1]) if w.key is not None and is_const(w.key) else "*",), owner, depth + 1)
    return t


def kept(label, *key):
    return mk("kept", ".".join(label), *key)


# ---------------------------------------------------------------- what a value depends on
PATH = ("attr", "item", "xattr", "cell")


def paths(e, t, out, seen, deep=True):
    """access paths rooted at symbols and binders on which t depends"""
    if not isinstance(t, T):
        if isinstance(t, (tuple, list)):
            for x in t:
                paths(e, x, out, seen, deep)
        return
    if t in seen:
        return
    seen.add(t)
    if t.op in ("sym", "bv"):
        out.add(t)
        return
    if t.op in PATH:
        b = t
        while b.op in PATH:
            b = b.args[0]
        if b.op in ("sym", "bv"):
            out.add(t)
            x = t
            while x.op in PATH:
                for y in x.args[1:]:
                    paths(e, y, out, seen, deep)
                x = x.args[0]
            return
    if t.op == "ref" and deep:
        o = e.objs.get(t.args[0])
        if o is not None:
            for a in t.args[1]:
                paths(e, a, out, seen, deep)
            for w in o.writes:
                if w.key is not None:
                    paths(e, w.key, out, seen, deep)
                paths(e, w.val, out, seen, deep)
            for v in o.meta.values():
                if isinstance(v, (T, tuple)):
                    paths(e, v, out, seen, deep)
        return
    for x in t.args:
        paths(e, x, out, seen, deep)


def keypaths(e, t, out, seen):
    """access paths the key identifies"""
    if not isinstance(t, T):
        if isinstance(t, (tuple, list)):
            for x in t:
                keypaths(e, x, out, seen)
        return
    if t in seen:
        return
    seen.add(t)
    if t.op == "call" and t.args[0] in ("builtins.id", "builtins.len", "builtins.type"):
        return
    if t.op in ("len", "typeof"):
        return
    paths(e, t, out, set(), False) if t.op in PATH + ("sym", "bv") else None
    if t.op not in PATH + ("sym", "bv"):
        if t.op == "ref":
            paths(e, t, out, set())
            return
        for x in t.args:
            keypaths(e, x, out, seen)


def prefixes(p):
    while True:
        yield p
        if p.op not in PATH:
            return
        p = p.args[0]


def root(p):
    while p.op in PATH:
        p = p.args[0]
    return p


def determined(e, val, key, fixed):
    """None, or a path val depends on which the key does not identify"""
    known = set()
    keypaths(e, key, known, set())
    if contains(key, lambda x: x.op == "unk"):
        return None
    det = {p.args[0] for p in known if p.op == "bv"}
    changed = True
    while changed:  # the name of an element identifies it among its siblings
        changed = False
        for p in known:
            x = p.args[0] if p.op == "attr" and p.args[1] in UNIQUE else p
            if x.op == "item" and x.args[1].op == "bv":
                q = x.args[1].args[0]
                if q not in det and binders(e, x.args[0]) <= det:
                    det.add(q)
                    changed = True
    need = set()
    paths(e, val, need, set())
    for p in sorted(need, key=lambda x: str(x)):
        if any(x in known for x in prefixes(p)):
            continue
        r = root(p)
        if r.op == "sym" and not fixed(r, p):
            return p
        if binders(e, p) - det:
            return p
    return None


def binders(e, p):
    """binders p depends on, also through the domains of its own"""
    out, todo = set(), [p]
    seen = set()
    while todo:
        t = todo.pop()
        for q in free_bvs(t):
            if q in seen:
                continue
            seen.add(q)
            out.add(q)
            d = e.doms.get(q)
            if d is not None:
                todo.append(d)
    return out


# ---------------------------------------------------------------- verdict of the first pass
def fixed_for(o_owner, task):
    def f(r, p):
        if task:
            return True
        return o_owner is not None and r is root(o_owner)
    return f


def literal(node):
    """an expression which always has the same value"""
    return not any(isinstance(x, (ast.Name, ast.Attribute)) and not (isinstance(x, ast.Name) and x.id in ("dict", "list", "set", "tuple"))
                   for x in ast.walk(node))


def stale():
    """{label: (mode, text, site)} of the pass just made"""
    out = {}
    for e, o in REGISTRY:
        label = o.meta["static"]
        ws = o.writes[o.meta["n0"]:]
        if not ws or label in out:
            continue
        owner = o.meta.get("owner")
        for w in ws:
            fx = fixed_for(owner, w.task)
            if o.kind == "dict" and w.op == "set":
                if o.meta.get("tested"):
                    p = determined(e, w.val, w.key, fx)
                    if p is not None:
                        out[label] = ("cache", "an entry kept under %s depends on %s" % (show(w.key), show(p)), w.site)
                        break
                if owner is None:
                    ps = set()
                    paths(e, w.key, ps, set())
                    free = [p for p in ps if root(p).op == "sym" and not fx(root(p), p)]
                    given = not ps and not w.lit and "." in w.site[2] and (o.meta.get("whole") or o.meta.get("tested"))
                    if free and o.meta.get("whole") or given:
                        out[label] = ("extra", "entries of earlier calls remain", w.site)
                        break
            elif o.kind in ("list", "set", "dict") and w.op in ("append", "splice") and owner is None:
                if o.kind == "list" or o.kind == "dict":
                    if o.meta.get("whole") and not any(x.op == "clear" for x in ws):
                        out[label] = ("extra", "items of earlier calls remain", w.site)
                        break
            elif o.kind == "inst" and w.op == "set" and owner is None:
                p = determined(e, w.val, TRUE, fx)
                if p is not None or not w.lit:
                    out[label + (str(w.key.args[1]),)] = ("var", "the value left by an earlier call depends on %s" % (show(p) if p is not None else "its arguments"), w.site)
    for e, label, val, task, site, lit, owner in VARS:
        if label in out or label not in READ:
            continue
        p = determined(e, val, TRUE, fixed_for(owner, task))
        ps = set()
        if p is None:
            paths(e, val, ps, set())
        if p is not None or (not ps and not lit):
            out[label] = ("var", "the value left by an earlier call depends on %s" % (show(p) if p is not None else "its arguments"), site)
    return out


def show(t):
    return show_term(t)[:120]
