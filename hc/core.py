"""Reports, evidence and shared helpers of the checks."""
import json
import os
import sys
import time

from .terms import *
from .engine import Engine, Dead, AnalysisError, Seg
from .program import Program
from .model import SCHEMA

REPO = os.environ.get("HC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("HC_OUT", os.path.join(VERIF, "evidence"))

_PROGRAM = None


def program():
    global _PROGRAM
    if _PROGRAM is None:
        _PROGRAM = Program(REPO)
    return _PROGRAM


class Missing(Exception):
    """a public anchor of the analysis is gone"""


class Report(object):
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.obligations = []  # (rule, subject, verdict, detail, site)
        self.engines = []
        self.notes = []
        self.kept = {}  # second pass: state earlier calls leave behind

    def engine(self, schema=None, summaries=None):
        e = Engine(program(), schema or SCHEMA, summaries)
        self.engines.append(e)
        return e

    def use(self, e):
        if e not in self.engines:
            self.engines.append(e)

    def ok(self, rule, subject, detail="", site=None):
        self.obligations.append((rule, subject, "holds", detail, site))

    def bad(self, rule, subject, detail="", site=None):
        self.obligations.append((rule, subject, "violated", detail, site))

    def maybe(self, rule, subject, detail="", site=None):
        self.obligations.append((rule, subject, "undecided", detail, site))

    def check(self, rule, subject, cond, detail="", site=None, terms=()):
        """holds / violated; undecided when one of the terms involved is not modelled"""
        if cond:
            self.ok(rule, subject, detail, site)
        elif any(unmodelled(t) for t in terms):
            self.maybe(rule, subject, detail, site)
        else:
            self.bad(rule, subject, detail, site)
        return cond

    def of(self, v):
        return [o for o in self.obligations if o[2] == v]


UNMODELLED_OPS = {"unk", "eqpat", "wcar", "wout", "fold"}


def unmodelled(t):
    if isinstance(t, (list, tuple)):
        return any(unmodelled(x) for x in t)
    if not isinstance(t, T):
        return False
    return contains(t, lambda x: x.op in UNMODELLED_OPS)


def sitestr(s):
    if s is None:
        return ""
    if isinstance(s, str):
        return s
    return "%s:%s (%s)" % tuple(s)


# ---------------------------------------------------------------- binders
class Scope(object):
    """Names binders after what they range over."""

    def __init__(self, e, rules):
        self.e, self.rules = e, rules
        self.cache = {}

    def role(self, q):
        if q not in self.cache:
            self.cache[q] = self.rules(self.e.doms.get(q))
        return self.cache[q]


def guards(x, skip=("raise",)):
    return [g for g, tag in x.guards if tag not in skip]


def gsimp(e, binders, gs):
    """conjunction of guards simplified under the binder domains"""
    st, pa = list(e.stack), list(e.path)
    e.stack[:] = list(binders)
    e.path[:] = []
    try:
        return e.decide(and_(*gs))
    finally:
        e.stack[:] = st
        e.path[:] = pa


def elim_eq(binders, gs, terms):
    """use guards binder==term to eliminate binders; returns (binders, guards, terms)"""
    binders, gs, terms = list(binders), list(gs), list(terms)
    flat = []
    for g in gs:
        flat += list(g.args) if g.op == "and" else [g]
    gs = flat
    again = True
    while again:
        again = False
        for i, g in enumerate(gs):
            if g.op != "eq":
                continue
            for a, b in (g.args, g.args[::-1]):
                if a.op == "bv" and a.args[0] in binders and a.args[0] not in free_bvs(b) and not is_const(b):
                    q = a.args[0]
                    m = {q: b}
                    gs = [subst(x, m) for j, x in enumerate(gs) if j != i]
                    terms = [subst(x, m) for x in terms]
                    binders.remove(q)
                    again = True
                    break
            if again:
                break
    return binders, gs, terms


def mapterm(t, f):
    if isinstance(t, T):
        return replace(t, f)
    return t


# ---------------------------------------------------------------- running
def finish(rep, t0, known=None):
    viol = rep.of("violated")
    und = rep.of("undecided")
    held = rep.of("holds")
    funcs, sites, unk = set(), 0, 0
    for e in rep.engines:
        funcs |= set(str(f) for f in e.functions_analysed)
        sites += e.call_sites
        unk += len(e.unknowns)
    rules = {}
    for o in rep.obligations:
        rules[o[0]] = rules.get(o[0], 0) + 1
    cov = {
        "explanation": "Static value-flow analysis of the current source of %s: each obligation is an "
        "instance of a rule at a construct of the code (effect, call site, stored field, branch), decided "
        "on normal forms of the values that reach it." % REPO,
        "obligations": len(rep.obligations),
        "discharged": len(held),
        "undecided": len(und),
        "violated": len(viol),
        "functions_analysed": len(funcs),
        "call_sites_analysed": sites,
        "unmodelled_constructs": unk,
        "rules": rules,
        "samples": [
            {"rule": o[0], "subject": o[1], "verdict": o[2], "detail": o[3][:400], "site": sitestr(o[4])}
            for o in (viol + und + held)[:40]
        ],
        "functions": sorted(funcs)[:200],
        "notes": rep.notes,
    }
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, rep.prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for o in und:
        print("UNDECIDED property=%s rule=%s subject=%s at %s: %s" % (rep.prop, o[0], o[1], sitestr(o[4]), o[3][:300]))
    rdir = os.path.join(OUT, "replay")
    path = os.path.join(rdir, rep.prop + ".txt")
    if viol:
        os.makedirs(rdir, exist_ok=True)
        with open(path, "w") as h:
            h.write("property %s\nre-run: python3 -m hc.run %s\n\n" % (rep.prop, rep.prop))
            for o in viol:
                h.write("rule: %s\nconstruct: %s\nsite: %s\nfinding: %s\n\n" % (o[0], o[1], sitestr(o[4]), o[3]))
        for o in viol[:12]:
            print("  violated rule=%s subject=%s at %s: %s" % (o[0], o[1], sitestr(o[4]), o[3][:600]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    if os.path.exists(path):
        os.remove(path)
    print("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d call_sites=%d (%.2fs)" % (
        rep.prop, len(rep.obligations), len(held), len(und), len(funcs), sites, time.time() - t0))
    return 0


# ---------------------------------------------------------------- spec snippets, raises, truth tables
def spec(e, name, src):
    """term of function `name` of a reference snippet, to be analysed by the same rules"""
    import ast as _ast
    from .program import Module

    key = "hc_spec_%d" % (abs(hash(src)) % (1 << 40))
    if key not in e.p.modules:
        m = Module(key, key + ".py", _ast.parse(src), src)
        e.p.modules[key] = m
    return e.function(key + "." + name)


def srun(e, name, src, args):
    """value of a reference snippet, outside the current path"""
    pa, st = list(e.path), list(e.stack)
    e.path[:] = []
    e.stack[:] = []
    try:
        return e.run(spec(e, name, src), args)
    finally:
        e.path[:] = pa
        e.stack[:] = st


def exc_name(x):
    t = x.exc
    if t.op == "exc":
        return t.args[0].split(".")[-1]
    return "?"


def raises(e, since=0, names=None):
    return [x for x in e.effects if x.kind == "raise" and x.seq > since and x.caught is not True
            and (names is None or exc_name(x) in names)]


def rcond(x, e=None):
    """condition under which the effect happens (in some iteration of its loops)"""
    c = and_(*[g for g, _ in x.guards])
    if e is not None:
        for q in reversed(x.binders):
            if q in free_bvs(c):
                c = any_over(q, e.doms[q], c)
    return c


def refused(e, since=0, names=("ValueError",)):
    """condition under which the code analysed since raises one of names"""
    return or_(*[rcond(x, e) for x in raises(e, since, names)])


def lit(t):
    """(atom, polarity): complementary comparisons share one atom"""
    if t.op in ("le0", "lt0"):
        n = not_(t)
        if n.op in ("le0", "lt0") and n.key < t.key:
            return n, False
    return t, True


def atoms(t, out):
    if t.op in ("and", "or", "not"):
        for a in t.args:
            atoms(a, out)
    elif t.op == "ite":
        for a in t.args:
            atoms(a, out)
    elif t is TRUE or t is FALSE:
        pass
    else:
        a, _ = lit(t)
        if a not in out:
            out.append(a)
    return out


def beval(t, env):
    if t.op == "and":
        return all(beval(a, env) for a in t.args)
    if t.op == "or":
        return any(beval(a, env) for a in t.args)
    if t.op == "not":
        return not beval(t.args[0], env)
    if t.op == "ite":
        return beval(t.args[1], env) if beval(t.args[0], env) else beval(t.args[2], env)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    a, p = lit(t)
    return env[a] if p else not env[a]


def equiv(a, b, given=None, limit=14):
    """propositional equivalence of two conditions over their atoms (None: too large)"""
    at = atoms(b, atoms(a, []))
    if given is not None:
        atoms(given, at)
    if len(at) > limit:
        return None
    for bits in range(1 << len(at)):
        env = {x: bool(bits >> i & 1) for i, x in enumerate(at)}
        if given is not None and not beval(given, env):
            continue
        if beval(a, env) != beval(b, env):
            return False
    return True


def implied(a, b, given=None, limit=16):
    """a => b over their atoms (None: too large)"""
    return equiv(and_(a, not_(b)), FALSE, given, limit)


def some(c):
    """an entry of the array condition c holds (arrays of a study are never empty)"""
    c = truthy(c) if c.op == "truthy" else c
    if c is TRUE or c is FALSE:
        return c
    if c.op == "or":
        return or_(*[some(x) for x in c.args])
    if c.op == "truthy":
        c = c.args[0]
    return mk("some", c)


ALLS = {"numpy.all", "numpy.alltrue", "builtins.all"}
ANYS = {"numpy.any", "numpy.sometrue", "builtins.any"}
MINS = {"numpy.min", "numpy.amin", "builtins.min", "numpy.nanmin"}
MAXS = {"numpy.max", "numpy.amax", "builtins.max", "numpy.nanmax"}


def _extremum(t):
    if t.op == "call" and isinstance(t.args[0], str) and len(t.args[1]) == 1 and not t.args[2]:
        if t.args[0] in MINS:
            return "min", t.args[1][0]
        if t.args[0] in MAXS:
            return "max", t.args[1][0]
    if t.op == "mcall" and t.args[1] in ("min", "max") and not t.args[2] and not (len(t.args) > 3 and t.args[3]):
        return t.args[1], t.args[0]
    return None


def cnorm(e, t):
    """conditions over whole arrays brought to 'some entry is ...', string truth to comparison"""
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str) and len(x.args[1]) == 1 and not x.args[2]:
            if x.args[0] in ALLS:
                return not_(some(not_(x.args[1][0])))
            if x.args[0] in ANYS:
                return some(x.args[1][0])
        if x.op == "mcall" and x.args[1] in ("all", "any") and not x.args[2] and not (len(x.args) > 3 and x.args[3]):
            return not_(some(not_(x.args[0]))) if x.args[1] == "all" else some(x.args[0])
        if x.op in ("le0", "lt0"):
            p = poly(x.args[0])
            hit = [(m, c, _extremum(m[0])) for m, c in p.items() if len(m) == 1 and _extremum(m[0])]
            if len(hit) == 1:
                m, c, (how, v) = hit[0]
                q = dict(p)
                del q[m]
                inner = add(from_poly(q), mul(const(c), v))
                body = le0(inner) if x.op == "le0" else lt0(inner)
                if (how == "min") == (c > 0):
                    return some(body)
                return not_(some(not_(body)))
        if x.op == "truthy" and e.typeof(x.args[0]) == "str":
            return not_(eq(x.args[0], const("")))
        return None

    return replace(t, f)


class Mark(object):
    """state before a call: later writes to older objects or to symbolic inputs are mutations"""

    def __init__(self, e):
        self.e, self.seq, self.uid = e, e.seq, e.uid
        self.writes = {i: len(o.writes) for i, o in e.objs.items()}

    def changed(self, allowed=()):
        """list of (description, site) of changes to anything older than the mark"""
        out = []
        for i, n in self.writes.items():
            o = self.e.objs[i]
            if len(o.writes) > n and o.kind != "overlay" and i not in allowed:
                w = o.writes[n]
                out.append(("%s created earlier is modified (%s)" % (o.cls.name if o.cls else o.kind, w.key), w.site))
        for x in self.e.effects:
            if x.seq <= self.seq:
                continue
            if x.kind == "mutate":
                t = x.target
                if t.op == "mcall" and t.args[1] == "view" and str(x.how) in (".columns", ".index"):
                    continue  # labels of a shallow copy are its own
                r = self.e.root(x.target)
                if r.op == "sym":
                    out.append(("%s is modified in place (%s)" % (x.target, x.how), x.site))
                elif r.op == "ref" and r.args[0] in self.writes:
                    out.append(("%s is modified in place (%s)" % (x.target, x.how), x.site))
        return out
