"""C01-C08: the linear program built by a local solve, read off the abstract execution."""
from .core import *

# variable role -> (class, field) of the LP object holding it, element list, parameter
ROLES = {
    ("LPConsumption", "variable"): "lol",
    ("LPProduction", "variable"): "prod",
    ("LPStorage", "var_capacity"): "level",
    ("LPStorage", "var_flow_in"): "inject",
    ("LPStorage", "var_flow_out"): "withdraw",
    ("LPLink", "variable"): "link",
    ("LPConverter", "var_flow_dest"): "cdest",
    ("LPConverter", "var_flow_src"): "csrc",
}
COORD = {
    "lol": ("S", "T", "N", "D", "I:consumptions"),
    "prod": ("S", "T", "N", "D", "I:productions"),
    "level": ("S", "T", "N", "D", "I:storages"),
    "inject": ("S", "T", "N", "D", "I:storages"),
    "withdraw": ("S", "T", "N", "D", "I:storages"),
    "link": ("S", "T", "N", "D", "I:links"),
    "cdest": ("S", "T", "C"),
    "csrc": ("S", "T", "C", "K"),
}
ROWS = {
    "balance": ("S", "T", "N", "D"),
    "storage": ("S", "T", "N", "D", "I:storages"),
    "mix": ("S", "T", "C", "K"),
}
NAMES = {
    "lol": "lost load", "prod": "production used", "level": "storage level", "inject": "storage injection",
    "withdraw": "storage withdrawal", "link": "link flow", "cdest": "converter output", "csrc": "converter source flow",
}
ORDER = ["S", "T", "N", "D", "I:consumptions", "I:productions", "I:storages", "I:links", "C", "K"]


def binder_role(e, study):
    """what a binder ranges over"""

    def rules(d):
        if d is None:
            return None
        while d.op in ("dsorted", "dreversed"):
            d = d.args[0]
        if d.op == "drange":
            n = d.args[0]
            if n is attr_(study, "horizon"):
                return "T"
            if n is attr_(study, "nb_scn"):
                return "S"
            if n.op == "len" and n.args[0].op == "attr":
                l = n.args[0]
                nd = l.args[0]
                if l.args[1] in ("consumptions", "productions", "storages", "links") and is_node(nd, study):
                    return "I:" + l.args[1]
            return None
        if d.op == "dkeys":
            x = d.args[0]
            if x is attr_(study, "networks"):
                return "N"
            if x is attr_(study, "converters"):
                return "C"
            if x.op == "attr" and x.args[1] == "nodes" and x.args[0].op == "item" and x.args[0].args[0] is attr_(study, "networks"):
                return "D"
            if x.op == "attr" and x.args[1] == "src_ratios" and x.args[0].op == "item" and x.args[0].args[0] is attr_(study, "converters"):
                return "K"
        return None

    return rules


def is_node(nd, study):
    return (nd.op == "item" and nd.args[0].op == "attr" and nd.args[0].args[1] == "nodes"
            and nd.args[0].args[0].op == "item" and nd.args[0].args[0].args[0] is attr_(study, "networks"))


def attr_(t, n):
    return mk("attr", t, n)


V = {r: mk("sym", "@" + r) for r in ORDER}


class LP(object):
    """one abstract execution of a local solve"""

    def __init__(self, entry="optimizer"):
        p = program()
        self.e = e = Engine(p, SCHEMA)
        self.study = e.sym("study", ("inst", "Study"))
        if entry == "optimizer":
            c = e.function("hadar.optimizer.optimizer.LPOptimizer")
            if c is None:
                raise Missing("hadar.optimizer.optimizer.LPOptimizer")
            o = e.run(c, [])
            f = e.function("hadar.optimizer.optimizer.LPOptimizer.solve")
            self.ret = e.run(f, [o, self.study])
        else:
            f = e.function("hadar.optimizer.lp.optimizer.solve_lp")
            if f is None:
                raise Missing("solve_lp")
            self.ret = e.run(f, [self.study])
        self.scope = Scope(e, binder_role(e, self.study))
        self.vars = {}   # oid -> role
        self.varfx = {}  # oid -> effect
        self.cons = {}   # oid -> constraint effect
        for x in e.effects:
            if x.kind == "numvar":
                self.varfx[x.var.args[0]] = x
            elif x.kind == "constraint":
                self.cons[x.cons.args[0]] = x
        self.find_roles()
        self.records()

    # -- variables
    def find_roles(self):
        e = self.e
        for x in e.effects:
            if x.kind != "attrstore" or x.target.op != "ref":
                continue
            o = e.obj(x.target)
            if o.cls is None:
                continue
            r = ROLES.get((o.cls.name, x.attr))
            if r is None:
                continue
            for v in self.refs(x.val):
                if v in self.varfx:
                    self.vars.setdefault(v, r)
        for oid, x in self.varfx.items():
            if oid in self.vars:
                continue
            for r, ub in self.limits().items():
                if self.canon_ub(x) is ub and r not in self.vars.values():
                    self.vars[oid] = r
                    break

    def refs(self, t, depth=0):
        """object families a value may be, through dict and list content"""
        e = self.e
        out = []
        if depth > 4:
            return out
        for s in walk(t):
            if s.op == "ref":
                out.append(s.args[0])
                o = e.obj(s)
                if o.kind in ("dict", "list"):
                    for w in o.writes:
                        if isinstance(w.val, T):
                            out += self.refs(w.val, depth + 1)
        return out

    def coords(self, oid):
        """roles of the formals of an object family"""
        return [self.scope.role(q) for q in self.e.objs[oid].formals]

    def canon_binders(self, binders):
        m, seen = {}, {}
        for q in binders:
            r = self.scope.role(q)
            if r is None:
                continue
            k = seen.get(r, 0)
            seen[r] = k + 1
            m[q] = V[r] if k == 0 else mk("sym", "@%s'%d" % (r, k))
        return m

    def canon(self, t, m):
        """replace variables by V(role; coordinates) and binders by their canonical names"""
        t = subst(t, m)

        def f(x):
            if x.op == "ref" and x.args[0] in self.varfx:
                cs = self.coords(x.args[0])
                return mk("var", self.vars.get(x.args[0], "numvar@%s" % (self.varfx[x.args[0]].site[1],)),
                          tuple(sorted(((str(c), a) for c, a in zip(cs, x.args[1])), key=lambda y: y[0])))
            return None

        return replace(t, f)

    def canon_ub(self, x):
        return self.canon(x.ub, self.canon_binders(x.binders))

    def elem(self, kind, n=None, d=None, i=None):
        nd = item(attr_(item(attr_(self.study, "networks"), n or V["N"]), "nodes"), d or V["D"])
        return item(attr_(nd, kind), i or V["I:" + kind])

    def conv(self):
        return item(attr_(self.study, "converters"), V["C"])

    def at(self, el, field, s=None, t=None):
        return item(attr_(el, field), tuple_(s or V["S"], t or V["T"]))

    def limits(self):
        st = self.elem("storages")
        return {
            "lol": self.at(self.elem("consumptions"), "quantity"),
            "prod": self.at(self.elem("productions"), "quantity"),
            "level": self.at(st, "capacity"),
            "inject": self.at(st, "flow_in"),
            "withdraw": self.at(st, "flow_out"),
            "link": self.at(self.elem("links"), "quantity"),
            "cdest": self.at(self.conv(), "max"),
            "csrc": div(self.at(self.conv(), "max"), self.ratio()),
        }

    def ratio(self):
        return item(item(attr_(self.conv(), "src_ratios"), V["K"]), tuple_(V["S"], V["T"]))

    def var(self, role, **over):
        return mk("var", role, tuple(sorted(((c, over.get(c, V[c])) for c in COORD[role]), key=lambda y: y[0])))

    # -- coefficient records
    def records(self):
        e = self.e
        self.coefs = []  # dict(row oid, rowargs{role:term}, var, coef, guard, fx)
        self.objs = []
        for x in e.effects:
            if x.kind == "setcoef":
                for cons, g0 in split(x.cons):
                    for var, g1 in split(x.var):
                        self.add_coef(x, cons, var, g0 + g1)
            elif x.kind == "setobj":
                for var, g1 in split(x.var):
                    bs, gs, ts = elim_eq(x.binders, guards(x) + g1, [var, x.coef, x.solver])
                    m = self.canon_binders(bs)
                    g = subst(gsimp(e, bs, gs), m)
                    self.objs.append(dict(var=self.canon(ts[0], m), coef=self.canon(ts[1], m), guard=g, fx=x,
                                          solver=self.canon(ts[2], m),
                                          extent=tuple(sorted(str(self.scope.role(q)) for q in bs))))

    def add_coef(self, x, cons, var, g0):
        e = self.e
        bs, gs, ts = elim_eq(x.binders, guards(x) + g0, [cons, var, x.coef])
        m = self.canon_binders(bs)
        g = subst(gsimp(e, bs, gs), m)
        c = ts[0]
        row, args = None, {}
        if c.op == "ref" and c.args[0] in self.cons:
            row = c.args[0]
            args = {str(r): self.canon(a, m) for r, a in zip(self.coords(row), c.args[1])}
        self.coefs.append(dict(row=row, args=args, cons=self.canon(c, m), var=self.canon(ts[1], m),
                               coef=self.canon(ts[2], m), guard=g, fx=x,
                               extent=tuple(sorted(str(self.scope.role(q)) for q in bs))))

    def row_kind(self, oid):
        rs = set()
        for c in self.coefs:
            if c["row"] == oid and c["var"].op == "var":
                rs.add(c["var"].args[0])
        if rs & {"lol", "prod", "link"}:
            return "balance"
        if "level" in rs:
            return "storage"
        if rs & {"inject", "withdraw"}:
            return "storage"
        if rs & {"cdest", "csrc"}:
            # a mix row relates a source with its own converter
            cs = [r for r in self.coords(oid)]
            return "balance" if set(cs) == set(ROWS["balance"]) else "mix"
        return None


def split(t):
    """cases of a gated value"""
    if t.op == "ite":
        return [(v, [t.args[0]] + g) for v, g in split(t.args[1])] + [
            (v, [not_(t.args[0])] + g) for v, g in split(t.args[2])]
    return [(t, [])]


_LP = {}


def lp(entry="optimizer"):
    from . import kept
    if entry not in _LP:
        n, m = len(kept.REGISTRY), len(kept.VARS)
        x = LP(entry)
        _LP[entry] = x, kept.REGISTRY[n:], kept.VARS[m:], set(kept.READ)
    else:
        kept.REGISTRY.extend(_LP[entry][1])
        kept.VARS.extend(_LP[entry][2])
        kept.READ.update(_LP[entry][3])
    return _LP[entry][0]


def entries_for(rep):
    out = [lp("optimizer")]
    if rep.tier == "thorough":
        out.append(lp("solve_lp"))
    for x in out:
        rep.use(x.e)
    return out


def unmodelled_effects(rep, L, rule):
    """constructs that could change the model without the analysis seeing how"""
    for x in L.e.effects:
        if x.kind in ("addcons", "objexpr", "unmodelled", "varbounds", "consbounds", "consclear", "objclear", "objoffset"):
            if x.kind in ("unmodelled",):
                continue
            rep.maybe(rule, x.kind, "construct not modelled: %r" % (x.data,), x.site)


def cover(groups):
    """union of guards"""
    return or_(*groups)


# ------------------------------------------------------------------------------ C01
def c01(rep):
    for L in entries_for(rep):
        e = L.e
        unmodelled_effects(rep, L, "objective")
        exp = {
            "lol": L.at(L.elem("consumptions"), "cost"),
            "prod": L.at(L.elem("productions"), "cost"),
            "level": L.at(L.elem("storages"), "cost"),
            "link": L.at(L.elem("links"), "cost"),
            "cdest": L.at(L.conv(), "cost"),
        }
        dirs = [x for x in e.effects if x.kind == "objdir"]
        for x in dirs:
            rep.check("objective direction", "solver", x.dir in ("min", "minimize", TRUE, "minimization"),
                      "the objective must be minimised", x.site)
        match_terms(rep, L, "objective term", {r: ((), L.var(r), c, COORD[r]) for r, c in exp.items()}, L.objs,
                    lambda o: (), "charged in the objective")
        for o in L.objs:
            rep.check("objective of this scenario's solver", str(o["fx"].site[1]),
                      solver_family(L, o["fx"].solver, o["fx"]), "objective belongs to another solver",
                      o["fx"].site, (o["solver"],))


def solver_family(L, s, fx):
    e = L.e
    if s.op != "ref":
        return False
    return all(a.op == "bv" and a.args[0] in fx.binders for a in s.args[1])


def match_terms(rep, L, rule, expected, records, rowof, what):
    """expected: name -> (row, var, coef, extent). every record must be one of the expected ones and
    every expected one must be there, unconditionally"""
    got = {k: [] for k in expected}
    blurred = []
    for r in records:
        row = rowof(r)
        hit = None
        for k, (erow, var, coef, ext) in expected.items():
            if row == erow and r["var"] is var and r["coef"] is coef and set(r["extent"]) >= set(ext):
                hit = k
                break
        if hit is None:
            if r["guard"] is FALSE:
                continue
            if r["coef"] is ZERO and not any(row == x[0] and r["var"] is x[1] for x in expected.values()):
                continue
            near = [k for k, x in expected.items() if r["var"].op == "var" and r["var"].args[0] == x[1].args[0]]
            rep.check(rule, near[0] if near else "extra term", False,
                      "%s x %s is %s%s, which the model does not call for%s" % (
                          show(r["coef"]), show(r["var"]), what, row_s(row), cond_s(r["guard"])),
                      r["fx"].site, (r["coef"], r["var"], r["guard"]) + tuple(x for _, x in row))
            if near and unmodelled((r["coef"], r["var"], r["guard"])):
                got[near[0]].append((mk("unk", 0, "term"), r))
            elif unmodelled((r["var"],)) and not collides(r["guard"]):
                blurred.append(mk("unk", 0, "term"))
        else:
            got[hit].append((r["guard"], r))
    for k, rs in got.items():
        g = or_(*[x for x, _ in rs]) if rs else FALSE
        site = rs[0][1]["fx"].site if rs else None
        rep.check(rule, k, g is TRUE,
                  "%s %s" % (k, "must be %s once per %s, found: %s" % (
                      what, "/".join(expected[k][3]), show(g) if rs else "never")) if g is not TRUE else
                  "%s x %s%s, once per %s" % (show(expected[k][2]), show(expected[k][1]), row_s(expected[k][0]), "/".join(expected[k][3])),
                  site, (g,) if rs else [g] + blurred)


PLAIN_OPS = {"tuple", "strcat", "join", "item", "attr", "poly", "sorted", "bv", "const", "sym", "len", "setof", "ref"}


def collides(g):
    """several elements are kept under one key made of plain parts: only the last survives"""
    return contains(g, lambda x: x.op == "lastwriter" and not contains(x.args[0], lambda y: y.op not in PLAIN_OPS))


def row_s(row):
    return (" in row [%s]" % ", ".join("%s=%s" % (a, show(b)) for a, b in row)) if row else ""


def cond_s(g):
    return "" if g is TRUE else " (when %s)" % show(g)


# ------------------------------------------------------------------------------ rows
def rows_of(L, kind):
    return [o for o in L.cons if L.row_kind(o) == kind]


def row_shape(rep, L, oid, kind, rule):
    """each instance of the family belongs to exactly one (scenario, step, ...) of the study"""
    x = L.cons[oid]
    roles = L.coords(oid)
    okk = sorted(map(str, roles)) == sorted(ROWS[kind])
    rep.check(rule, kind + " row", okk,
              "one %s equation per %s; the equation is created once per %s" % (
                  kind, "/".join(ROWS[kind]), "/".join(map(str, roles))), x.site,
              [L.e.doms[q] for q in L.e.objs[oid].formals if L.scope.role(q) is None])
    return okk


def scale(recs, refvar, want):
    """factor by which a row has to be multiplied so that refvar gets coefficient want"""
    for r in recs:
        if r["var"] is refvar:
            c = r["coef"]
            if c is want or c is ZERO:
                return ONE
            if is_num(c) or c.op in ("poly", "inv"):
                return div(want, c)
    return ONE


def scaled(recs, k):
    if k is ONE:
        return recs
    out = []
    for r in recs:
        r = dict(r)
        r["coef"] = mul(r["coef"], k)
        out.append(r)
    return out


def stray(rep, L, rule, roles):
    """coefficients set on something that is not a known equation"""
    for r in L.coefs:
        if r["row"] is None and r["var"].op == "var" and r["var"].args[0] in roles:
            rep.check(rule, "equation", False, "coefficient of %s is set on %s" % (show(r["var"]), show(r["cons"])),
                      r["fx"].site, (r["cons"],))


# ------------------------------------------------------------------------------ C02
def c02(rep):
    for L in entries_for(rep):
        unmodelled_effects(rep, L, "balance")
        rows = rows_of(L, "balance")
        stray(rep, L, "balance term", COORD)
        rep.check("balance row", "existence", len(rows) >= 1, "a balance equation exists",
                  None, [x for _, x in L.e.unknowns] and [mk("unk", 0, "")])
        gs = []
        for oid in rows:
            row_shape(rep, L, oid, "balance", "balance row")
            x = L.cons[oid]
            m = L.canon_binders(x.binders)
            gs.append(subst(gsimp(L.e, x.binders, guards(x)), m))
        g = or_(*gs) if gs else FALSE
        rep.check("balance row", "coverage", g is TRUE, "equation created %s" % (
            "for every node, scenario and step" if g is TRUE else "only when " + show(g)),
            L.cons[rows[0]].site if rows else None, (g,))
        i = V["I:consumptions"]
        dom = drange(len_(L.elem("consumptions").args[0]))
        q = L.e.fresh()
        asked = sum_over(q, dom, L.at(L.elem("consumptions", i=mk("bv", q)), "quantity"))
        N, D, S, Tt = V["N"], V["D"], V["S"], V["T"]
        row = (("D", D), ("N", N), ("S", S), ("T", Tt))

        def mkrow(n, d):
            return (("D", d), ("N", n), ("S", S), ("T", Tt))

        conv = L.conv()
        exp = {
            "lost load": (row, L.var("lol"), ONE, COORD["lol"]),
            "production": (row, L.var("prod"), ONE, COORD["prod"]),
            "storage injection": (row, L.var("inject"), const(-1), COORD["inject"]),
            "storage withdrawal": (row, L.var("withdraw"), ONE, COORD["withdraw"]),
            "link export": (row, L.var("link"), const(-1), COORD["link"]),
            "link import": (mkrow(N, attr_(L.elem("links"), "dest")), L.var("link"), ONE, COORD["link"]),
            "converter delivery": (mkrow(attr_(conv, "dest_network"), attr_(conv, "dest_node")), L.var("cdest"), ONE, COORD["cdest"]),
            "converter intake": (mkrow(item(V["K"], ZERO), item(V["K"], ONE)), L.var("csrc"), const(-1), COORD["csrc"]),
        }
        recs = []
        for oid in rows:
            rs = [r for r in L.coefs if r["row"] == oid]
            k = scale(rs, L.var("prod"), ONE)
            x = L.cons[oid]
            m = L.canon_binders(x.binders)
            for b, nm in ((x.lb, "lower"), (x.ub, "upper")):
                v = mul(L.canon(b, m), k)
                rep.check("balance row", nm + " side", v is asked,
                          "%s side of the balance is %s, asked consumption is %s" % (nm, show(v), show(asked)), x.site, (v,))
            recs += scaled(rs, k)
        match_terms(rep, L, "balance term", exp, recs, lambda r: tuple(sorted(r["args"].items())), "counted")


# ------------------------------------------------------------------------------ C03
def c03(rep):
    for L in entries_for(rep):
        unmodelled_effects(rep, L, "storage")
        rows = rows_of(L, "storage")
        st = L.elem("storages")
        stray(rep, L, "storage term", ("level", "inject", "withdraw"))
        gs = []
        T0 = eq(V["T"], ZERO)
        eff = L.at(st, "eff")
        init = attr_(st, "init_capacity")
        row = tuple(sorted((c, V[c]) for c in ROWS["storage"]))
        for oid in rows:
            if not row_shape(rep, L, oid, "storage", "storage row"):
                continue
            x = L.cons[oid]
            m = L.canon_binders(x.binders)
            g = subst(gsimp(L.e, x.binders, guards(x)), m)
            gs.append((g, oid))
            rs = [dict(r) for r in L.coefs if r["row"] == oid]
            k = scale(rs, L.var("level"), ONE)
            rs = scaled(rs, k)
            facts = set(g.args if g.op == "and" else [g])
            first = tdecide(T0, facts)
            for b, nm in ((x.lb, "lower"), (x.ub, "upper")):
                v = mul(L.canon(b, m), k)
                want = ite(T0, init, ZERO)
                if first is TRUE:
                    want = init
                elif first is FALSE:
                    want = ZERO
                rep.check("storage row", nm + " side", tsame(v, want, facts),
                          "%s side is %s instead of %s%s" % (nm, show(v), show(want), cond_s(g)), x.site, (v,))
            prev = L.var("level", T=sub(V["T"], ONE))
            exp = {
                "injected flow times efficiency": (row, L.var("inject"), neg(eff), COORD["inject"]),
                "withdrawn flow": (row, L.var("withdraw"), ONE, COORD["withdraw"]),
                "level": (row, L.var("level"), ONE, COORD["level"]),
            }
            ext = COORD["level"]
            if first is not TRUE:
                exp["previous level"] = (row, prev, const(-1), ext)
            for r in rs:
                r["guard"] = tassume(r["guard"], facts)
                # the previous level may be guarded by "not the first step"
                if r["var"] is prev and r["guard"] is not TRUE:
                    if tassume(or_(r["guard"], T0), facts) is TRUE or tnorm(r["guard"]) is tnorm(not_(T0)):
                        r["guard"] = TRUE
                elif r["var"] is prev and first is None and r["guard"] is TRUE:
                    r["guard"] = mk("sym", "also at the first step")
            match_terms(rep, L, "storage term", exp, rs, lambda r: tuple(sorted(r["args"].items())), "in the recurrence")
        tot = tnorm(or_(*[g for g, _ in gs])) if gs else FALSE
        rep.check("storage row", "coverage", tot is TRUE,
                  "recurrence created %s" % ("for every storage, scenario and step" if tot is TRUE else "only when " + show(tot)),
                  L.cons[gs[0][1]].site if gs else None, (tot,))
        for i, (g, o) in enumerate(gs):
            for g2, o2 in gs[i + 1:]:
                both = tnorm(and_(g, g2))
                rep.check("storage row", "single", both is FALSE, "two recurrences for the same storage and step", L.cons[o2].site, (both,))


def tfacts():
    return None


def tnorm(c):
    """conditions on the time index: 0 <= T, so T<=0 is T==0 and T>=1 is not T==0"""
    T_ = V["T"]
    T0 = eq(T_, ZERO)

    def f(x):
        if x.op == "le0":
            p = x.args[0]
            if p is T_ or p is sub(T_, ZERO):
                return T0
            if p is sub(ONE, T_):
                return not_(T0)
            if p is neg(T_):
                return TRUE
        if x.op == "lt0":
            p = x.args[0]
            if p is neg(T_):
                return not_(T0)
            if p is T_:
                return FALSE
        return None

    return replace_top(c, f) if isinstance(c, T) else c


def tassume(c, facts):
    return assume(tnorm(c), set(tnorm(f) for f in facts))


def tdecide(c, facts):
    r = tassume(c, facts)
    return r if is_const(r) else None


def tsame(v, want, facts):
    v = assume(replace(v, lambda x: tnorm(x) if x.op in ("le0", "lt0") else None), set(tnorm(f) for f in facts))
    return v is want or assume(want, set(tnorm(f) for f in facts)) is v


# ------------------------------------------------------------------------------ C04
def c04(rep):
    for L in entries_for(rep):
        unmodelled_effects(rep, L, "conversion")
        rows = rows_of(L, "mix")
        stray(rep, L, "conversion term", ("cdest", "csrc"))
        row = tuple(sorted((c, V[c]) for c in ROWS["mix"]))
        gs = []
        recs = []
        for oid in rows:
            if not row_shape(rep, L, oid, "mix", "conversion row"):
                continue
            x = L.cons[oid]
            m = L.canon_binders(x.binders)
            gs.append(subst(gsimp(L.e, x.binders, guards(x)), m))
            rs = [r for r in L.coefs if r["row"] == oid]
            k = scale(rs, L.var("cdest"), const(-1))
            for b, nm in ((x.lb, "lower"), (x.ub, "upper")):
                v = mul(L.canon(b, m), k)
                rep.check("conversion row", nm + " side", v is ZERO, "%s side is %s instead of 0" % (nm, show(v)), x.site, (v,))
            recs += scaled(rs, k)
        g = or_(*gs) if gs else FALSE
        rep.check("conversion row", "coverage", g is TRUE,
                  "ratio equation created %s" % ("for every source of every converter, scenario and step" if g is TRUE else "only when " + show(g)),
                  L.cons[rows[0]].site if rows else None, (g,))
        exp = {
            "source flow times ratio": (row, L.var("csrc"), L.ratio(), COORD["csrc"]),
            "converter output": (row, L.var("cdest"), const(-1), COORD["csrc"]),
        }
        match_terms(rep, L, "conversion term", exp, recs, lambda r: tuple(sorted(r["args"].items())), "in the ratio equation")


# ------------------------------------------------------------------------------ C05
def c05(rep):
    for L in entries_for(rep):
        e = L.e
        lim = L.limits()
        seen = {}
        for oid, x in L.varfx.items():
            role = L.vars.get(oid)
            rep.check("decision variable", "role at line %s" % x.site[1], role is not None,
                      "variable bounded by %s belongs to no element" % show(L.canon_ub(x)), x.site, (x.ub,))
            if role is None:
                continue
            seen.setdefault(role, []).append(x)
            roles = L.coords(oid)
            rep.check("own variable", NAMES[role], sorted(map(str, roles)) == sorted(COORD[role]),
                      "one variable per %s; created once per %s" % ("/".join(COORD[role]), "/".join(map(str, roles))),
                      x.site, [e.doms[q] for q in e.objs[oid].formals if L.scope.role(q) is None])
            m = L.canon_binders(x.binders)
            lb, ub = L.canon(x.lb, m), L.canon(x.ub, m)
            rep.check("lower limit", NAMES[role], lb is ZERO, "lower limit %s instead of 0" % show(lb), x.site, (lb,))
            rep.check("upper limit", NAMES[role], ub is lim[role],
                      "upper limit %s, declared limit %s" % (show(ub), show(lim[role])), x.site, (ub,))
            rep.check("continuous", NAMES[role], not x.integer or x.integer is FALSE, "variable is not continuous", x.site)
        for role in COORD:
            xs = seen.get(role, [])
            g = or_(*[subst(gsimp(e, x.binders, guards(x)), L.canon_binders(x.binders)) for x in xs]) if xs else FALSE
            rep.check("own variable", NAMES[role] + " exists", g is TRUE, "created %s" % (
                "always" if g is TRUE else "only when " + show(g)), xs[0].site if xs else None, (g,))
        for x in e.effects:
            if x.kind == "varbounds":
                rep.bad("limits changed", "variable", "bounds of a variable are changed after creation", x.site)
            if x.kind in ("addcons",):
                rep.maybe("limits", "constraint", "constraint expression not modelled", x.site)


# ------------------------------------------------------------------------------ C06
FIELDS = [
    ("consumptions", "name", {"quantity": ("lol", True)}),
    ("productions", "name", {"quantity": ("prod", False)}),
    ("storages", "name", {"capacity": ("level", False), "flow_in": ("inject", False), "flow_out": ("withdraw", False)}),
    ("links", "dest", {"quantity": ("link", False)}),
]


def one_seg(rep, rule, subject, segs, dom, site=None):
    """the collection has exactly one entry per element of dom, in that order"""
    good = len(segs) == 1 and len(segs[0].binders) == 1 and not segs[0].guards and segs[0].binders[0][1] is dom
    rep.check(rule, subject, good, "one entry per element of %s, found %s" % (
        show(dom), "; ".join("%s%s" % ([show(d) for _, d in s.binders], "" if not s.guards else " when " + show(and_(*s.guards))) for s in segs) or "none"),
        site, [s.elem for s in segs] + [d for s in segs for _, d in s.binders])
    return segs[0] if good else None


def c06(rep):
    for L in entries_for(rep):
        e = L.e
        res = L.ret
        if res.op != "ref" or e.obj(res).cls is None or e.obj(res).cls.name != "Result":
            rep.check("result", "type", False, "a solve returns %s instead of a Result" % show(res), None, (res,))
            continue
        e.path[:] = []
        e.stack[:] = []
        nets = e.getattr(res, "networks")
        s = one_seg(rep, "structure", "networks", e.iter_dict(nets, "items"), dkeys(attr_(L.study, "networks")))
        if s:
            n = s.binders[0][0]
            rep.check("structure", "network names", s.elem.args[0] is mk("bv", n), "network key is %s" % show(s.elem.args[0]), None, (s.elem,))
            with_binders(e, s.binders, lambda: c06_net(rep, L, s.elem.args[1], n))
        convs = e.getattr(res, "converters")
        s = one_seg(rep, "structure", "converters", e.iter_dict(convs, "items"), dkeys(attr_(L.study, "converters")))
        if s:
            with_binders(e, s.binders, lambda: c06_conv(rep, L, s.elem, s.binders[0][0]))


def with_binders(e, binders, f):
    n = len(e.stack)
    e.stack.extend(q for q, _ in binders)
    try:
        return f()
    finally:
        del e.stack[n:]


def c06_net(rep, L, net, n):
    e = L.e
    nodes = e.getattr(net, "nodes")
    inp = item(attr_(item(attr_(L.study, "networks"), mk("bv", n)), "nodes"), ZERO).args[0]
    s = one_seg(rep, "structure", "nodes", e.iter_dict(nodes, "items"), dkeys(inp))
    if not s:
        return
    d = s.binders[0][0]
    rep.check("structure", "node names", s.elem.args[0] is mk("bv", d), "node key is %s" % show(s.elem.args[0]), None, (s.elem,))
    node = s.elem.args[1]
    innode = item(inp, mk("bv", d))

    def body():
        for lst, key, fields in FIELDS:
            l = e.getattr(node, lst)
            si = one_seg(rep, "structure", lst, e.iterate(l), drange(len_(attr_(innode, lst))))
            if not si:
                continue
            i = si.binders[0][0]
            el = item(attr_(innode, lst), mk("bv", i))

            def inner():
                k = e.getattr(si.elem, key)
                rep.check("structure", lst + "." + key, k is attr_(el, key), "%s of %s entry is %s" % (key, lst, show(k)), None, (k,))
                for f, (role, asked) in fields.items():
                    arr = e.getattr(si.elem, f)
                    own_array(rep, L, lst + "." + f, arr, {n, d, i})
                    cell(rep, L, lst + "." + f, arr, role, el, asked, {"N": mk("bv", n), "D": mk("bv", d), "I:" + lst: mk("bv", i)})

            with_binders(e, si.binders, inner)

    with_binders(e, s.binders, body)


def c06_conv(rep, L, kv, c):
    e = L.e
    o = kv.args[1]
    conv = item(attr_(L.study, "converters"), mk("bv", c))
    rep.check("structure", "converter names", kv.args[0] is mk("bv", c), "converter key is %s" % show(kv.args[0]), None, (kv,))
    nm = e.getattr(o, "name")
    rep.check("structure", "converter.name", nm in (mk("bv", c), attr_(conv, "name")), "converter name is %s" % show(nm), None, (nm,))
    fd = e.getattr(o, "flow_dest")
    own_array(rep, L, "converter.flow_dest", fd, {c})
    cell(rep, L, "converter.flow_dest", fd, "cdest", None, False, {"C": mk("bv", c)})
    fs = e.getattr(o, "flow_src")
    s = one_seg(rep, "structure", "converter sources", e.iter_dict(fs, "items"), dkeys(attr_(conv, "src_ratios")))
    if s:
        k = s.binders[0][0]

        def body():
            rep.check("structure", "converter source key", s.elem.args[0] is mk("bv", k), "source key is %s" % show(s.elem.args[0]), None, (s.elem,))
            own_array(rep, L, "converter.flow_src", s.elem.args[1], {c, k})
            cell(rep, L, "converter.flow_src", s.elem.args[1], "csrc", None, False, {"C": mk("bv", c), "K": mk("bv", k)})

        with_binders(e, s.binders, body)


def own_array(rep, L, name, arr, need):
    e = L.e
    if arr.op != "ref":
        rep.check("own storage", name, False, "values are kept in %s" % show(arr), None, (arr,))
        return
    have = set()
    for a in arr.args[1]:
        have |= free_bvs(a)
    o = e.obj(arr)
    rep.check("own storage", name, need <= have and o.kind == "arr",
              "each element has its own array" if need <= have else "elements share one array", o.site)


def cell(rep, L, name, arr, role, el, asked, coords):
    e = L.e
    s, t = e.fresh(), e.fresh()
    e.doms[s] = drange(attr_(L.study, "nb_scn"))
    e.doms[t] = drange(attr_(L.study, "horizon"))
    b = {"S": mk("bv", s), "T": mk("bv", t)}
    b.update(coords)

    def body():
        v = e.getitem(arr, tuple_(b["S"], b["T"]))
        v = L.canon(v, {})
        var = mk("var", role, tuple(sorted(((c, b[c]) for c in COORD[role]), key=lambda y: y[0])))
        want = mk("solval", var)
        if asked:
            want = sub(item(attr_(el, "quantity"), tuple_(b["S"], b["T"])), want)
        site = None
        if arr.op == "ref" and e.obj(arr).writes:
            site = e.obj(arr).writes[-1].site
        rep.check("reported value", name, v is want, "entry [scenario, step] of %s is %s, should be %s" % (name, show(v), show(want)), site, (v,))

    with_binders(e, [(s, e.doms[s]), (t, e.doms[t])], body)


# ------------------------------------------------------------------------------ C07
def c07(rep):
    for L in entries_for(rep):
        e = L.e
        for k, (mode, text, site) in sorted(rep.kept.items()):
            rep.bad("nothing shared", ".".join(k), "state kept from one scenario or solve to the next: " + text, site)
        if not rep.kept:
            rep.ok("nothing shared", "class attributes, module variables, default arguments", "no variable outliving a solve holds anything a later one reads")
        solves = [x for x in e.effects if x.kind == "solve"]
        rep.check("solved", "solver start", len(solves) >= 1, "the solver is started", None, e.unknowns and [mk("unk", 0, "")])
        for x in solves:
            roles = [L.scope.role(q) for q in x.binders]
            rep.check("once per scenario", "solver start", roles == ["S"], "the solver is started once per %s" % (roles,), x.site,
                      [e.doms[q] for q in x.binders if L.scope.role(q) is None])
            g = gsimp(e, x.binders, guards(x))
            rep.check("every scenario", "solver start", g is TRUE, "started %s" % ("always" if g is TRUE else "only when " + show(g)), x.site, (g,))
            s = x.solver
            own = s.op == "ref" and [L.scope.role(q) for q in e.obj(s).formals] == ["S"] and all(a.op == "bv" and L.scope.role(a.args[0]) == "S" for a in s.args[1])
            rep.check("fresh solver", "solver", own, "each scenario has its own solver", e.obj(s).site if s.op == "ref" else x.site, (s,))
            model = [y for y in e.effects if y.kind in ("numvar", "constraint", "setcoef", "setobj", "addcons", "objexpr", "objdir", "varbounds", "consbounds")]
            for y in model:
                rep.check("complete before start", "%s" % y.kind, y.seq < x.seq,
                          "%s happens %s the solver is started" % (y.kind, "before" if y.seq < x.seq else "after"), y.site)
                # same scenario's solver
                tgt = y.data.get("solver")
                if tgt is not None and tgt.op == "ref" and own:
                    same = tgt.args[0] == s.args[0] and [a for a in tgt.args[1]] == [mk("bv", q) for q in y.binders if L.scope.role(q) == "S"]
                    rep.check("own model", y.kind, same, "belongs to the solver of its scenario", y.site, (tgt,))
            sv = [y for y in e.effects if y.kind == "solvalue"]
            for y in sv:
                rep.check("read after solve", "solution value", y.seq > x.seq, "solution value is read %s the solve" % ("after" if y.seq > x.seq else "before"), y.site)
        rep.check("once per scenario", "solver starts", len(solves) <= 1, "%d solver start sites" % len(solves), solves[-1].site if solves else None)
        # a model value of one scenario never mixes scenarios
        for r in L.coefs:
            ss = [a for k, a in r["args"].items() if k == "S"] + [a for v in [r["var"]] if v.op == "var" for k, a in v.args[1] if k == "S"]
            rep.check("one scenario", "coefficient at line %s" % r["fx"].site[1], all(a is V["S"] for a in ss) and not scn_mixed(r["coef"]),
                      "equation, variable and coefficient belong to the same scenario", r["fx"].site, tuple(ss) + (r["coef"],))
        for oid, x in L.varfx.items():
            m = L.canon_binders(x.binders)
            rep.check("one scenario", "bounds at line %s" % x.site[1], not scn_mixed(L.canon(x.ub, m)) , "limit taken for its own scenario", x.site, (x.ub,))
        for x in e.effects:
            if x.kind == "hazard":
                rep.maybe("order", "dictionary entry", "entry may be read before it is written", x.site)


def scn_mixed(t):
    """a (scenario, step) lookup whose scenario is not the current one"""
    for x in walk(t):
        if x.op == "item" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and x.args[0].op in ("attr", "item"):
            if x.args[1].args[0] is not V["S"]:
                return True
    return False


# ------------------------------------------------------------------------------ C08
STATUS = {"OPTIMAL": 0, "FEASIBLE": 1, "INFEASIBLE": 2, "UNBOUNDED": 3, "ABNORMAL": 4, "MODEL_INVALID": 5, "NOT_SOLVED": 6}


def c08(rep):
    for L in entries_for(rep):
        e = L.e
        solves = [x for x in e.effects if x.kind == "solve"]
        if not solves:
            rep.check("status", "solve", False, "no solve found", None, [mk("unk", 0, "")])
            continue
        x = solves[0]
        st = x.status
        reads = [y for y in e.effects if y.kind == "solvalue"]
        rep.check("status", "solution values", bool(reads), "solution values are read", None)
        for y in reads:
            gs = [g for g, tag in y.guards]
            for nm, val in STATUS.items():
                g = fold_status(and_(*gs), st, val)
                if nm in ("OPTIMAL",):
                    rep.check("usable solution is reported", nm, g is not FALSE, "an optimal solution is reported", y.site, (g,))
                elif nm == "FEASIBLE":
                    continue
                else:
                    rep.check("no value without solution", nm, g is FALSE,
                              "solution value is %s when the solver ends with %s" % ("not read" if g is FALSE else "read", nm), y.site,
                              tuple(gs) if unmodelled(tuple(gs)) else ())
        # every bad status must end in a raise of the whole call
        outs = e.effects
        ras = [y for y in outs if y.kind == "raise" and not y.data.get("caught")]
        for nm, val in STATUS.items():
            if nm in ("OPTIMAL", "FEASIBLE"):
                hit = [y for y in ras if mentions(and_(*[g for g, t in y.guards]), st) and fold_status(and_(*[g for g, t in y.guards]), st, val) is TRUE]
                if nm == "OPTIMAL":
                    rep.check("optimal is accepted", nm, not hit, "no error for an optimal solution", hit[0].site if hit else None)
                continue
            hit = [y for y in ras if fold_status(and_(*[g for g, t in y.guards]), st, val) is TRUE]
            rep.check("error raised", nm, bool(hit), "solver status %s %s" % (nm, "raises" if hit else "raises nothing"), x.site,
                      [g for y in ras for g, _ in y.guards])


def mentions(t, st):
    return contains(t, lambda x: x is st or (x.op == "status"))


def fold_status(c, st, val):
    k = const(val)

    def f(x):
        if x.op == "status":
            return k
        return None

    return replace(c, f)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
