"""C09, C10, C27: the study builder and the numerical values."""
from .core import *
from .meval import Ev, Arr, Undecided, PyErr

INP = "hadar.optimizer.domain.input."
NUM = "hadar.optimizer.domain.numeric."
KINDS = {"ScalarNumericalValue": "num", "RowNumericValue": "arr", "ColumnNumericValue": "arr",
         "MatrixNumericalValue": "arr"}

SPEC = '''
def known(s, n, d):
    return n in s.networks and d in s.networks[n].nodes

def used(items, name):
    return any(x.name == name for x in items)

def consumption(s, n, d, name):
    return any(x.name == name for x in s.networks[n].nodes[d].consumptions)

def production(s, n, d, name):
    return any(x.name == name for x in s.networks[n].nodes[d].productions)

def storage(s, n, d, name):
    return any(x.name == name for x in s.networks[n].nodes[d].storages)

def link(s, n, src, dest):
    nodes = s.networks[n].nodes
    return src not in nodes or dest not in nodes or src == dest or any(l.dest == dest for l in nodes[src].links)

def to_converter(s, c, n, d):
    return c in s.converters and (n, d) in s.converters[c].src_ratios

def converter(s, c, n, d):
    return (c in s.converters and s.converters[c].dest_network != "" and s.converters[c].dest_node != "") or \\
        n not in s.networks or d not in s.networks[n].nodes

def target_consumption(s, n, d):
    return s.networks[n].nodes[d].consumptions

def target_production(s, n, d):
    return s.networks[n].nodes[d].productions

def target_storage(s, n, d):
    return s.networks[n].nodes[d].storages

def target_link(s, n, d):
    return s.networks[n].nodes[d].links

def net_known(s, n):
    return n in s.networks

def conv_known(s, c):
    return c in s.converters

def conv(s, c):
    return s.converters[c]
'''

# parameter -> "nv" (numerical value), "num", "str"; default is the documented one
OPS = {
    "consumption": dict(params={"name": "str", "cost": "nv", "quantity": "nv"}, cls="Consumption"),
    "production": dict(params={"name": "str", "cost": "nv", "quantity": "nv"}, cls="Production"),
    "storage": dict(params={"name": "str", "capacity": "nv", "flow_in": "nv", "flow_out": "nv", "cost": "nv",
                            "init_capacity": "num", "eff": "nv"}, cls="Storage",
                    defaults={"cost": 0, "init_capacity": 0, "eff": 0.99}),
    "link": dict(params={"src": "str", "dest": "str", "cost": "nv", "quantity": "nv"}, cls="Link"),
    "to_converter": dict(params={"name": "str", "ratio": "nv"}, defaults={"ratio": 1}),
    "converter": dict(params={"name": "str", "to_network": "str", "to_node": "str", "max": "nv", "cost": "nv"},
                      defaults={"cost": 0}),
}


class Step(object):
    """one builder call made on an arbitrary study in which network and node selected exist"""

    def __init__(self, rep, kind, route, op, omit=(), facts=None):
        self.rep, self.kind, self.op = rep, kind, op

        def create(e, a, k):
            v = a[1] if len(a) > 1 else k.get("value")
            if v is not None and v.op == "ref" and e.obj(v).kind == "inst":
                return v
            e.effect("create", arg=v)
            return e.run(e.function(NUM + kind), [v, e.sym("h", "int"), e.sym("n", "int")])

        e = self.e = rep.engine(summaries={"NumericalValueFactory.create": create})
        st = self.st = e.sym("study", ("inst", "Study"))
        self.net, self.nd = e.sym("net", "str"), e.sym("nd", "str")
        sel = route(e, st, self.net, self.nd)
        e.overlay.clear()
        e.path[:] = []
        self.sel = sel
        self.facts = [(srun(e, "known", SPEC, [st, self.net, self.nd]), "if")]
        self.args = {}
        ty = KINDS[kind]
        for p, t in OPS[op]["params"].items():
            if p in omit:
                continue
            self.args[p] = e.sym("arg_" + p, {"nv": ty, "num": "num", "str": "str"}[t])
        if facts:
            self.facts += [(f(self), "if") for f in facts]
        self.given = and_(*[f for f, _ in self.facts])
        e.path[:] = list(self.facts)
        self.start = e.seq
        e.log_reads = True
        self.dead = False
        self.ret = None
        try:
            self.ret = e.call_method(sel, op, [], dict(self.args))
        except Dead:
            self.dead = True
        e.log_reads = False
        self.stop = e.seq
        e.path[:] = []

    def spec(self, name, args):
        e = self.e
        ov, n, pa = e.overlay, len(e.effects), list(e.path)
        e.overlay = {}
        e.path[:] = list(self.facts)
        try:
            return e.run(spec(e, name, SPEC), args)
        finally:
            e.overlay = ov
            e.path[:] = pa
            del e.effects[n:]

    def events(self, *kinds):
        return [x for x in self.e.effects if self.start < x.seq <= self.stop and x.kind in kinds]

    def writes(self):
        """changes of the study"""
        e = self.e
        return [x for x in self.events("mutate") if e.root(x.target) is self.st]

    def refused(self):
        return cnorm(self.e, or_(*[rcond(x, self.e) for x in self.events("raise")
                                   if x.caught is not True and exc_name(x) == "ValueError"]))

    def neg(self, p):
        v = self.args.get(p)
        if v is None:
            return FALSE
        c = lt(v, ZERO)
        return some(c) if self.e.typeof(v) == "arr" else c

    def above1(self, p):
        v = self.args.get(p)
        if v is None:
            return FALSE
        c = lt(ONE, v)
        return some(c) if self.e.typeof(v) == "arr" else c

    def need(self):
        a, s = self.args, self.st
        if self.op in ("consumption", "production"):
            c = or_(self.spec(self.op, [s, self.net, self.nd, a["name"]]), self.neg("quantity"))
        elif self.op == "storage":
            c = or_(self.spec("storage", [s, self.net, self.nd, a["name"]]), *(
                [self.neg(x) for x in ("flow_in", "flow_out", "capacity", "init_capacity", "eff")] + [self.above1("eff")]))
        elif self.op == "link":
            c = or_(self.spec("link", [s, self.net, a["src"], a["dest"]]), self.neg("quantity"))
        elif self.op == "to_converter":
            c = self.spec("to_converter", [s, a["name"], self.net, self.nd])
        else:
            c = self.spec("converter", [s, a["name"], a["to_network"], a["to_node"]])
        return cnorm(self.e, c)


def r_node(e, st, net, nd):
    sel = e.run(e.function(INP + "Study.network"), [st], {"name": net})
    return e.call_method(sel, "node", [nd], {})


def r_network(e, st, net, nd):
    return e.run(e.function(INP + "Study.network"), [st], {"name": net})


def step_site(s):
    w = s.writes()
    return w[0].site if w else "hadar/optimizer/domain/input.py (%s)" % s.op


def partial_parts(c):
    """the single reasons of a refusal"""
    return list(c.args) if c.op == "or" else [c]


def c09(rep):
    for op in OPS:
        for kind in KINDS:
            s = Step(rep, kind, r_node, op)
            e = s.e
            ref, need = s.refused(), s.need()
            tag = "%s with %s" % (op, kind)
            ok = True
            for part in partial_parts(need):
                if part is FALSE:
                    continue
                r = implied(part, ref, s.given)
                ok = ok and r is True
                site = [x.site for x in s.events("raise")]
                rep.check("invalid element refused", tag, r is True,
                          "not refused with ValueError although %r; refused when %r" % (part, ref),
                          site[0] if site else step_site(s), [ref] + ([mk("unk", 0, "large")] if r is None else []))
            # nothing is stored before the last possible refusal
            stops = [x for x in s.events("raise") if x.caught is not True] + s.events("create")
            for w in s.writes():
                gw = cnorm(e, and_(*[g for g, _ in w.guards]))
                late = None
                for x in stops:
                    if x.seq > w.seq and implied(and_(gw, cnorm(e, rcond(x, e))), FALSE, s.given) is not True:
                        late = x
                        break
                rep.check("nothing added on refusal", "%s: %s %s" % (tag, w.target, w.how), late is None,
                          "the study is changed before %s can refuse the element" % (
                              "the conversion of %r" % late.arg if late is not None and late.kind == "create" else "the check"),
                          w.site, [gw])
            # a missing entry must be refused with ValueError, not by a failing lookup
            for x in s.events("keyread"):
                if e.root(x.target) is not s.st:
                    continue
                absent = not_(truthy(mk("in", x.key, x.target)))
                g = cnorm(e, and_(absent, *[y for y, _ in x.guards]))
                prior = [w for w in s.writes() if w.seq < x.seq and w.target is x.target and w.key is x.key]
                if prior:
                    continue
                r = implied(g, FALSE, s.given)
                if r is not True and implied(g, not_(need), s.given) is True:
                    continue
                rep.check("refused with ValueError", "%s: %s" % (tag, x.target), r is True,
                          "entry %r of %r is looked up although it may be missing" % (x.key, x.target), x.site, [g] + ([mk("unk", 0, "large")] if r is None else []))
    rep.notes.append("each builder call on an arbitrary study, with the four kinds of numerical value")


# ---------------------------------------------------------------- C27
def nv_value(e, v, kind):
    """(raw value, class name) of a stored numerical value"""
    if v.op == "ref" and e.obj(v).kind == "inst":
        return e.getattr(v, "value"), e.obj(v).cls.name
    return v, None


def routes():
    x = lambda e, n: e.sym("other_" + n, "str")

    def values(e, *names):
        return {n: e.sym("other_" + n, "num") for n in names}

    def after_op(op):
        def r(e, st, net, nd):
            s = r_node(e, st, net, nd)
            kw = {p: e.sym("other_" + p, "str" if t == "str" else "num") for p, t in OPS[op]["params"].items()}
            return e.call_method(s, op, [], kw)
        return r

    def via_network(e, st, net, nd):
        s = r_node(e, st, x(e, "net"), x(e, "nd"))
        s = e.call_method(s, "network", [net], {})
        return e.call_method(s, "node", [nd], {})

    def via_network2(e, st, net, nd):
        s = r_network(e, st, x(e, "net"), x(e, "nd"))
        s = e.call_method(s, "network", [], {"name": net})
        return e.call_method(s, "node", [nd], {})

    def via_node(e, st, net, nd):
        s = r_node(e, st, net, x(e, "nd"))
        return e.call_method(s, "node", [nd], {})

    def after_netop(op):
        def r(e, st, net, nd):
            s = r_network(e, st, net, nd)
            kw = {p: e.sym("other_" + p, "str" if t == "str" else "num") for p, t in OPS[op]["params"].items()}
            s = e.call_method(s, op, [], kw)
            return e.call_method(s, "node", [nd], {})
        return r

    def after_nodeop(op):
        def r(e, st, net, nd):
            s = r_node(e, st, net, x(e, "nd"))
            kw = {p: e.sym("other_" + p, "str" if t == "str" else "num") for p, t in OPS[op]["params"].items()}
            s = e.call_method(s, op, [], kw)
            return e.call_method(s, "node", [nd], {})
        return r

    def default(e, st, net, nd):
        s = e.run(e.function(INP + "Study.network"), [st])
        return e.call_method(s, "node", [nd], {})

    out = {"network().node()": r_node, "node().network().node()": via_network, "network().network().node()": via_network2,
           "node().node()": via_node}
    for op in ("consumption", "production", "storage", "to_converter"):
        out["node().%s()" % op] = after_op(op)
    for op in ("link", "converter"):
        out["network().%s().node()" % op] = after_netop(op)
        out["node().%s().node()" % op] = after_nodeop(op)
    return out


NET_ROUTES = {
    "network()": r_network,
    "node().network()": lambda e, st, net, nd: e.call_method(r_node(e, st, e.sym("other_net", "str"), nd), "network", [net], {}),
    "node().link()": lambda e, st, net, nd: e.call_method(r_node(e, st, net, nd), "link", [], {
        "src": e.sym("o_a", "str"), "dest": e.sym("o_b", "str"), "cost": e.sym("o_c", "num"), "quantity": e.sym("o_q", "num")}),
}


def stored_ok(s, val, p, t, want, kind):
    e = s.e
    if t == "nv":
        v, cls = nv_value(e, val, kind)
        return v is want and cls in (kind, None) and cls is not None, v
    return val is want, val


def overridden(v, want):
    """the given value, replaced by a field of an element already there as soon as one has the right name"""
    if v.op != "fold" or v.args[2] is not want:
        return False
    b = v.args[3]
    if b.op != "ite" or b.args[2].op != "acc":
        return False
    c, x = b.args[0], b.args[1]
    return c.op == "eq" and not any(unmodelled(y) or contains(y, lambda z: z.op == "acc") for y in (c, x)) and x.op == "attr"


def c27_element(rep, s, tag, kind, site=None):
    """consumption, production, storage, link"""
    s.e.path[:] = list(s.facts) + [(not_(x), "raise") for x in partial_parts(s.refused())]
    try:
        c27_element_(rep, s, tag, kind)
    finally:
        s.e.path[:] = []


def c27_element_(rep, s, tag, kind):
    e, op = s.e, s.op
    if s.dead:
        rep.bad("element stored", tag, "the call always fails", step_site(s))
        return
    ref = s.refused()
    spec_ = OPS[op]
    node = s.args["src"] if op == "link" else s.nd
    target = s.spec("target_" + op, [s.st, s.net, node])
    ws = s.writes()
    adds = []
    for w in ws:
        if w.target is target and w.how in ("append", ".append()", "insert", "extend", "+="):
            adds.append(w)
        else:
            g = cnorm(e, and_(*[x for x, _ in w.guards]))
            if implied(g, FALSE, s.given) is True:
                continue
            rep.check("nothing else changed", tag, False, "%r is changed too (%s)" % (w.target, w.how), w.site, [w.target])
    if len(adds) != 1:
        rep.check("element stored once", tag, False, "%d elements are added to %r" % (len(adds), target), step_site(s),
                  [w.target for w in ws])
        return
    w = adds[0]
    g = cnorm(e, and_(*[x for x, _ in w.guards]))
    r = implied(not_(s.need()), and_(g, not_(ref)), s.given)
    rep.check("valid element stored", tag, r is True, "a valid element is stored only when %r" % and_(g, not_(ref)), w.site,
              [g, ref] + ([mk("unk", 0, "large")] if r is None else []))
    v = w.val
    if v is None or v.op != "ref" or e.obj(v).kind != "inst":
        rep.check("element stored", tag, False, "added value is %r" % v, w.site, [mk("unk", 0, "x")])
        return
    cn = e.obj(v).cls.name
    rep.check("element kind", tag, cn == spec_["cls"], "a %s is stored, expected a %s" % (cn, spec_["cls"]), w.site)
    fresh = e.obj(v).seq > s.start
    rep.check("element is new", tag, fresh, "the stored element was created earlier", w.site)
    for p, t in spec_["params"].items():
        if p == "src":
            continue
        want = s.args.get(p)
        if want is None:
            want = const(spec_["defaults"][p])
        got = e.getattr(v, p)
        ok, sh = stored_ok(s, got, p, t, want, kind)
        rep.check("field value", "%s: %s" % (tag, p), ok, "field %s holds %r, expected %r" % (p, sh, want), w.site, [] if overridden(sh, want) else [sh])


def post(s, name, args):
    """value of a reference read on the study after the step"""
    e = s.e
    pa, n = list(e.path), len(e.effects)
    e.path[:] = list(s.facts) + [(not_(s.refused_raw), "if")]
    try:
        return e.run(spec(e, name, SPEC), args)
    finally:
        e.path[:] = pa
        del e.effects[n:]


def under(t, base):
    while True:
        if t is base:
            return True
        if t.op not in ("attr", "item", "xattr"):
            return False
        t = t.args[0]


def c27_converter(rep, s, tag, kind, existing):
    e, op = s.e, s.op
    if s.dead:
        rep.bad("converter stored", tag, "the call always fails", step_site(s))
        return
    ref = s.refused()
    name = s.args["name"]
    ws = s.writes()
    r = implied(not_(s.need()), not_(ref), s.given)
    rep.check("valid converter stored", tag, r is True, "refused when %r" % ref, step_site(s), [ref] + ([mk("unk", 0, "x")] if r is None else []))
    old = s.spec("conv", [s.st, name])
    convs = mk("attr", s.st, "converters")
    facts = list(s.facts) + [(not_(x), "raise") for x in partial_parts(ref)]
    e.path[:] = facts
    obj = None
    try:
        for w in ws:
            g = e.decide(and_(*[x for x, _ in w.guards]))
            if g is FALSE:
                continue
            if w.target is convs and w.key is name:
                if existing:
                    rep.check("converter kept", tag, g is FALSE, "an existing converter is replaced", w.site, [g])
                else:
                    obj = w.val
                    rep.check("converter stored", tag, implied(not_(s.need()), and_(cnorm(e, g), not_(ref)), s.given) is True, "stored when %r" % g, w.site, [g])
                continue
            if existing and under(w.target, old):
                continue
            if w.target is convs or not existing:
                rep.check("nothing else changed", tag, False, "%r is changed (%s, key %r)" % (w.target, w.how, w.key), w.site, [w.target, w.key])
                continue
            rep.check("nothing else changed", tag, False, "%r is changed too (%s)" % (w.target, w.how), w.site, [w.target])
        if not existing:
            if obj is None or obj.op != "ref":
                rep.check("converter stored", tag, False, "no converter is created under the name given (%r)" % obj, step_site(s), [obj] if obj is not None else [])
                return
            cn = e.obj(obj).cls.name if e.obj(obj).cls else "?"
            rep.check("converter kind", tag, cn == "Converter", "a %s is stored" % cn, step_site(s))
        cur = old if existing else obj
        want = {}
        if op == "converter":
            want = {"dest_network": s.args["to_network"], "dest_node": s.args["to_node"], "max": s.args["max"],
                    "cost": s.args.get("cost", const(OPS[op]["defaults"]["cost"]))}
        for f in ("name", "dest_network", "dest_node", "cost", "max"):
            got = e.getattr(cur, f)
            if f in want:
                v, cls = nv_value(e, got, kind)
                ok = v is want[f] and (f.startswith("dest") or cls == kind)
                rep.check("converter field", "%s: %s" % (tag, f), ok, "%s holds %r, expected %r" % (f, v, want[f]), step_site(s), [v])
            elif existing:
                rep.check("converter kept", "%s: %s" % (tag, f), got is mk("attr", old, f), "%s becomes %r" % (f, got), step_site(s), [got])
            elif f == "name":
                rep.check("converter field", "%s: name" % tag, got is name, "name holds %r" % got, step_site(s), [got])
        sr = e.getattr(cur, "src_ratios")
        if op == "to_converter":
            key = tuple_(s.net, s.nd)
            if existing:
                hits = [w for w in ws if w.target is sr]
                ok = len(hits) == 1 and hits[0].key is key
                val = hits[0].val if hits else None
                n = len(hits)
            else:
                if sr.op != "ref" or e.obj(sr).kind != "dict":
                    rep.check("converter source", tag, False, "sources are %r" % sr, step_site(s), [mk("unk", 0, "x")])
                    return
                ent = e.entries(sr)
                n = len(ent)
                ok = n == 1 and not ent[0].binders and ent[0].elem.args[0] is key
                val = ent[0].elem.args[1] if n else None
            rep.check("converter source", tag, ok, "%d sources are written, expected the selected node" % n, step_site(s))
            if ok:
                v, cls = nv_value(e, val, kind)
                want_r = s.args.get("ratio", const(1))
                rep.check("converter ratio", tag, v is want_r and cls == kind, "ratio stored is %r, expected %r" % (v, want_r), step_site(s), [v])
        elif existing:
            rep.check("converter kept", tag + ": sources", sr is mk("attr", old, "src_ratios") and not [w for w in ws if w.target is sr],
                      "sources become %r" % sr, step_site(s), [sr])
        else:
            ok = sr.op == "ref" and e.obj(sr).kind == "dict" and not e.entries(sr)
            rep.check("converter source", tag + ": sources", ok, "a new converter starts with sources %r" % sr, step_site(s), [sr])
    finally:
        e.path[:] = []


def c27(rep):
    kinds = ("ScalarNumericalValue", "MatrixNumericalValue")
    rts = routes()
    for op in ("consumption", "production", "storage"):
        for rn, r in rts.items():
            c27_element(rep, Step(rep, kinds[0], r, op), "%s.%s" % (rn, op), kinds[0])
        for kind in list(KINDS)[1:]:
            c27_element(rep, Step(rep, kind, r_node, op), "%s with %s" % (op, kind), kind)
    s = Step(rep, kinds[0], r_node, "storage", omit=("cost", "init_capacity", "eff"))
    c27_element(rep, s, "storage defaults", kinds[0])
    for rn, r in list(rts.items()) + list(NET_ROUTES.items()):
        c27_element(rep, Step(rep, kinds[0], r, "link"), "%s.link" % rn, kinds[0])
    is_known = lambda s: truthy(srun(s.e, "conv_known", SPEC, [s.st, s.args["name"]]))
    for existing in (True, False):
        f = [is_known] if existing else [lambda s: not_(is_known(s))]
        w = "existing" if existing else "new"
        for op, rr in (("to_converter", rts), ("converter", dict(list(rts.items())[:4] + list(NET_ROUTES.items())))):
            for rn, r in rr.items():
                c27_converter(rep, Step(rep, kinds[0], r, op, facts=f), "%s.%s on a %s converter" % (rn, op, w), kinds[0], existing)
            d = tuple(OPS[op]["defaults"])
            for rn, r in (("node", r_node),) + ((("network", r_network),) if op == "converter" else ()):
                c27_converter(rep, Step(rep, kinds[0], r, op, omit=d, facts=f), "%s %s defaults on a %s converter" % (rn, op, w), kinds[0], existing)
    c27_select(rep)


def c27_select(rep):
    """network(), node(): create when missing, keep when present; constructor; build"""
    for rn in ("Study.network", "network().network", "node().network", "default", "default2", "default3"):
        e = rep.engine()
        st = e.sym("study", ("inst", "Study"))
        net, nd = e.sym("net", "str"), e.sym("nd", "str")
        other = e.sym("other", "str")
        args = [net]
        if rn == "default":
            f, args, net = None, [], const("default")
        if rn in ("Study.network", "default"):
            sel = None
        elif rn in ("network().network", "default2"):
            sel = r_network(e, st, other, nd)
        else:
            sel = r_node(e, st, other, nd)
        if rn.startswith("default"):
            args, net = [], const("default")
        e.overlay.clear()
        e.path[:] = []
        m = e.seq
        res = e.run(e.function(INP + "Study.network"), [st] + args) if sel is None else e.call_method(sel, "network", args, {})
        check_created(rep, e, st, m, mk("attr", st, "networks"), net, "InputNetwork", rn, {"nodes": "dict"})
        e.path[:] = [(truthy(srun(e, "net_known", SPEC, [st, net])), "if")]
        e.overlay.clear()
        for rn2 in ("node",):
            m = e.seq
            r2 = e.call_method(res, "node", [nd], {})
            t = e.getattr(item(mk("attr", st, "networks"), net), "nodes")
            check_created(rep, e, st, m, t, nd, "InputNode", rn + ".node", {k: "list" for k in ("consumptions", "productions", "storages", "links")})
        for x, n in ((res, rn), (r2, rn + ".node")):
            m = e.seq
            b = e.call_method(x, "build", [], {})
            rep.check("build returns the study", n, b is st, "build() returns %r" % b, "hadar/optimizer/domain/input.py (build)", [b])
            rep.check("build returns the study", n + " unchanged", not [y for y in e.effects if y.seq > m and y.kind == "mutate"], "build() changes the study", "hadar/optimizer/domain/input.py (build)")
    # constructor
    for omit in ((), ("nb_scn", "version")):
        e = rep.engine()
        a = {k: e.sym(k, t) for k, t in (("horizon", "int"), ("nb_scn", "int"), ("version", "str")) if k not in omit}
        if "version" in a:
            e.path.append((truthy(a["version"]), "if"))
        st = e.run(e.function(INP + "Study"), [], a)
        nb = a.get("nb_scn", ONE)
        fac = e.getattr(st, "factory")
        site = "hadar/optimizer/domain/input.py (Study.__init__)"
        for f, w in (("horizon", a["horizon"]), ("nb_scn", nb)):
            rep.check("study field", f, e.getattr(st, f) is w, "%s holds %r" % (f, e.getattr(st, f)), site, [e.getattr(st, f)])
            rep.check("conversion of values", f, e.getattr(fac, f) is w, "values are converted for %s %r" % (f, e.getattr(fac, f)), site, [e.getattr(fac, f)])
        for f in ("networks", "converters"):
            v = e.getattr(st, f)
            ok = v.op == "ref" and e.obj(v).kind == "dict" and not e.entries(v)
            rep.check("study starts empty", f, ok, "%s starts as %r" % (f, v), site, [v])
            if ok:
                rep.check("study starts empty", f + " of its own", "static" not in e.obj(v).meta,
                          "%s is %s" % (f, "shared by all studies" if "static" in e.obj(v).meta else "its own"), site)
        if "version" in a:
            v = e.getattr(st, "version")
            rep.check("study field", "version", v is a["version"], "version holds %r" % v, site, [v])


def check_created(rep, e, st, since, container, key, cls, tag, fields):
    ws = [x for x in e.effects if x.kind == "mutate" and x.seq > since and e.root(x.target) is st]
    absent = not_(mk("in", key, container))
    site = ws[0].site if ws else "hadar/optimizer/domain/input.py (%s)" % tag
    for w in ws:
        if w.target is not container:
            rep.check("selection changes nothing else", tag, False, "%r is changed (%s)" % (w.target, w.how), w.site, [w.target])
    hits = [w for w in ws if w.target is container]
    ok = len(hits) == 1 and (hits[0].key is key or hits[0].how == "setdefault")
    rep.check("created when missing", tag, ok, "%d writes of %r, key %r" % (len(hits), container, [w.key for w in hits]), site, [mk("unk", 0, "x")] if len(hits) > 1 else [])
    if not ok:
        return
    w = hits[0]
    g = and_(*[x for x, _ in w.guards])
    given = and_(*[x for x, _ in e.path])
    r = equiv(g, absent, given)
    rep.check("kept when present", tag, r is True, "created when %r, expected when %r" % (g, absent), w.site, [g])
    v = w.val
    ok = v is not None and v.op == "ref" and e.obj(v).kind == "inst" and e.obj(v).cls.name == cls
    rep.check("created when missing", tag + " kind", ok, "%r is stored" % v, w.site, [v] if v is not None else [])
    if not ok:
        return
    n = len(e.path)
    e.path.append((absent, "if"))
    xs = [e.getattr(v, f) for f in fields]
    del e.path[n:]
    for (f, k), x in zip(fields.items(), xs):
        if x.op == "ref":
            ok = e.obj(x).kind == k and not (e.entries(x) if k == "dict" else e.segments(x)) and e.obj(x).seq > since
            rep.check("created empty", "%s.%s" % (tag, f), ok, "%s starts as %r" % (f, x), w.site, [x])
        else:
            rep.check("created empty", "%s.%s" % (tag, f), False, "%s starts as %r" % (f, x), w.site, [x])
    if len(fields) > 1:
        rep.check("created empty", tag + " own lists", len(set(map(id, xs))) == len(xs), "two fields share a list", w.site, xs)


# ---------------------------------------------------------------- C10
PROBE = '''
def at(f, v, i, j):
    return f.create(v)[i, j]

def flat(f, v):
    return f.create(v).flatten()

def made(f, v):
    return f.create(v)

def second(f, u, v, i, j):
    f.create(u)
    return f.create(v)[i, j]
'''

SUBCLASS = {"numpy.ndarray": (), "builtins.list": (), "pandas.DataFrame": (), "pandas.Series": (), "builtins.dict": (),
            "builtins.int": (), "builtins.float": (), "builtins.complex": (), "builtins.str": (), "builtins.NoneType": (),
            "builtins.set": (), "builtins.tuple": ()}


class Val(object):
    """a value of a type of which only the type matters"""

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return self.kind


def mtype(v):
    if isinstance(v, Arr) or isinstance(v, Val):
        return v.kind
    if isinstance(v, dict):
        return "builtins.dict"
    if isinstance(v, tuple) and v and v[0] == "e":
        return v[2]
    if v is None:
        return "builtins.NoneType"
    if isinstance(v, (bool, int, float, str)):
        return "builtins." + type(v).__name__
    raise Undecided("type of %r" % (v,))


def misinst(v, name):
    k = mtype(v)
    if name == k:
        return True
    n = name.split(".")[-1]
    if n in ("Number", "Real", "Complex"):
        return k in ("builtins.int", "builtins.float") or (n != "Real" and k == "builtins.complex")
    if name in ("builtins.object",):
        return True
    if name in SUBCLASS or name.startswith("hadar.") or n.endswith("NumericalValue") or n.endswith("NumericValue"):
        return False
    if n in ("Sequence", "Iterable", "Mapping", "generic", "floating", "integer", "bool"):
        if n in ("generic", "floating", "integer", "bool"):
            return False
        if n == "Mapping":
            return k == "builtins.dict"
        return None
    return None


def entries_of(shape):
    out = [()]
    for s in shape:
        out = [o + (i,) for o in out for i in range(s)]
    return out


def arr_model(shape, kind):
    return Arr(shape, [("e", i, "numpy.float64") for i in entries_of(shape)], kind)


def relabel(v):
    """a value of the same type and shape with other entries"""
    if isinstance(v, Arr):
        return Arr(v.shape, [relabel(x) for x in v.data], v.kind)
    return ("e", ("before",) + v[1], v[2])


def meaning(v, shape, n, h):
    """labelled value per (scenario, step), or None when the data has no meaning"""
    if shape is None:
        return lambda i, j: v
    e = lambda *i: ("e", tuple(i), "numpy.float64")
    if shape == (n, h):
        return lambda i, j: e(i, j)
    if shape == (n, 1):
        return lambda i, j: e(i, 0)
    if shape == (h,):
        return lambda i, j: e(j)
    return None


def outcome(ev, rs, value):
    """('error', name) or ('value', v)"""
    for x in rs:
        try:
            if ev.nary([g for g, _ in x.guards] or [TRUE], False):
                return "error", exc_name(x), x.site
        except PyErr as ex:
            return "error", ex.name, None
    try:
        return "value", ev(value), None
    except PyErr as ex:
        return "error", ex.name, None


def c10_cases(thorough):
    hs = (1, 2, 3)
    for n in hs:
        for h in hs:
            shapes = [()] + [(k,) for k in range(0, 5)] + [(k, l) for k in range(0, 5) for l in range(0, 5)] + \
                [(n, h, 1), (1, n, h), (n, 1, 1), (1, 1, 1), (h, 1, 1)]
            for kind in ("numpy.ndarray", "builtins.list", "pandas.DataFrame", "pandas.Series"):
                for sh in shapes:
                    if kind == "builtins.list" and (sh == () or 0 in sh[:-1]):
                        continue
                    if kind == "pandas.DataFrame" and len(sh) != 2 or kind == "pandas.Series" and len(sh) != 1:
                        continue
                    yield n, h, "%s of shape %s" % (kind, sh), arr_model(sh, kind), sh
            for kind in ("builtins.int", "builtins.float"):
                yield n, h, kind, ("e", (), kind), None
            for kind in ("builtins.str", "builtins.NoneType", "builtins.set", "builtins.object"):
                yield n, h, kind, Val(kind), "none"
            yield n, h, "a dictionary without value", {}, "none"


VIEWS = {"view", "ravel", "reshape", "squeeze", "transpose", "swapaxes"}


def keeps(e, ev, v, t):
    """text of the part of t that is the array v itself or a view of it; None when t holds copies only"""
    if t.op == "ite":
        return keeps(e, ev, v, t.args[1] if ev.cond(t.args[0]) else t.args[2])
    if t is v:
        return show(t)
    if t.op == "ref":
        o = e.obj(t)
        if o.kind == "inst":
            for f in ("value",):
                w = e.getattr(t, f)
                return keeps(e, ev, v, w)
        if o.kind == "arr":
            i = o.meta.get("init")
            return None if i is None or not (i.op == "mcall" and i.args[1] in VIEWS) else keeps(e, ev, v, i)
        return None
    if t.op == "mcall":
        kw = dict(t.args[3]) if len(t.args) > 3 else {}
        if t.args[1] in VIEWS or t.args[1] == "astype" and kw.get("copy") is FALSE:
            return keeps(e, ev, v, t.args[0]) and show(t)[:120]
        return None
    if t.op == "xattr" and t.args[1] == "T":
        return keeps(e, ev, v, t.args[0])
    return None


def c10(rep):
    e = rep.engine()
    e.exact_types = True
    N, H = e.sym("nb_scn", "int"), e.sym("horizon", "int")
    v = e.sym("v")
    u = e.sym("u")
    i, j = e.sym("i", "int"), e.sym("j", "int")
    site = "hadar/optimizer/domain/numeric.py (NumericalValueFactory.create)"
    runs = {}
    for what, args in (("at", [v, i, j]), ("flat", [v]), ("made", [v]), ("second", [u, v, i, j])):
        fac = e.run(e.function(NUM + "NumericalValueFactory"), [], {"horizon": H, "nb_scn": N})
        e.path[:] = []
        m = e.seq
        try:
            r = srun(e, what, PROBE, [fac] + args)
        except Dead:
            rep.bad("values are accepted", what, "conversion always fails", site)
            return
        runs[what] = (r, raises(e, m))
    seen = {}

    def report(rule, ok, subject, detail, where):
        # one obligation per rule and kind of data
        k = (rule, subject)
        if k in seen and (seen[k] is False or ok is not False):
            return
        seen[k] = ok
        if ok is True:
            rep.ok(rule, subject, detail, where)
        elif ok is None:
            rep.maybe(rule, subject, detail, where)
        else:
            rep.obligations = [o for o in rep.obligations if (o[0], o[1]) != k]
            rep.bad(rule, subject, detail, where)

    count = 0
    for n, h, name, val, shape in c10_cases(rep.tier != "quick"):
        for wrap in (False, True):
            if wrap and not name.startswith(("builtins.list", "builtins.float")):
                continue
            x = {"value": val} if wrap else val
            label = ("{'value': %s}" if wrap else "%s") % name.split(" of shape")[0]
            mean = meaning(val, shape, n, h) if shape != "none" else None
            if shape == ():
                mean = None
            valid = mean is not None
            if valid and shape is not None and 0 in shape:
                continue
            cl = label + ("" if shape in (None, "none") else " of valid shape" if valid else " of another shape")
            for a in range(0, n + 1):
                for b in range(0, h + 1):
                    if not valid and (a, b) != (0, 0):
                        continue
                    ev = Ev({N: n, H: h, v: x, i: a, j: b}, misinst, mtype, e)
                    count += 1
                    ctx = "%s with %d scenarios, horizon %d" % (name, n, h)
                    try:
                        res = outcome(ev, runs["at"][1], runs["at"][0])
                    except Undecided as ex:
                        report("value at scenario and step" if valid else "other data rejected", None, cl, "%s: %s" % (ctx, ex), site)
                        continue
                    except RecursionError:
                        report("value at scenario and step", None, cl, ctx, site)
                        continue
                    if not valid:
                        report("other data rejected", res[:2] == ("error", "ValueError"), cl, "%s gives %s, expected ValueError" % (ctx, res[:2]), res[2] or site)
                    elif a < n and b < h:
                        want = mean(a, b)
                        report("value at scenario and step", res[:2] == ("value", want), cl,
                               "%s: [%d, %d] gives %s, expected %s" % (ctx, a, b, res[:2], want), res[2] or site)
                    else:
                        report("out of range refused", res[:2] == ("error", "IndexError"), cl,
                               "%s: [%d, %d] gives %s, expected IndexError" % (ctx, a, b, res[:2]), res[2] or site)
            if valid:
                ev = Ev({N: n, H: h, v: x}, misinst, mtype, e)
                count += 1
                ctx = "%s with %d scenarios, horizon %d" % (name, n, h)
                try:
                    res = outcome(ev, runs["flat"][1], runs["flat"][0])
                except Undecided as ex:
                    report("flattened form", None, cl, "%s: %s" % (ctx, ex), site)
                    continue
                want = [mean(a, b) for a in range(n) for b in range(h)]
                got = res[1].data if res[0] == "value" and isinstance(res[1], Arr) and len(res[1].shape) == 1 else res[:2]
                report("flattened form", got == want, cl, "%s: flatten gives %s, expected %s" % (ctx, str(got)[:120], str(want)[:120]), res[2] or site)
    # the array given stays the caller's own
    for n, h, name, val, shape in c10_cases(False):
        if not name.startswith("numpy.ndarray") or not shape or 0 in shape or meaning(val, shape, n, h) is None:
            continue
        ev = Ev({N: n, H: h, v: val}, misinst, mtype, e)
        ctx = "%s with %d scenarios, horizon %d" % (name, n, h)
        try:
            shared = keeps(e, ev, v, runs["made"][0])
        except (Undecided, PyErr, RecursionError) as ex:
            report("value kept apart from the array given", None, "numpy.ndarray", "%s: %s" % (ctx, ex), site)
            continue
        report("value kept apart from the array given", not shared, "numpy.ndarray",
               "%s: the converted value holds the caller's array (%s): changing the array later changes the study" % (ctx, shared), site)
    # what was converted before has no say, not even the same object with other content
    same = [mk("is", *sorted((u, v), key=lambda z: z.key)), eq(mk("call", "builtins.id", (u,), ()), mk("call", "builtins.id", (v,), ()))]
    ids = [mk("call", "builtins.id", (x,), ()) for x in (u, v)]
    cases = {}
    for n, h, name, val, shape in c10_cases(False):
        if shape not in ("none", ()) and (shape is None or 0 not in shape) and meaning(val, shape, n, h) is not None:
            cases.setdefault((n, h), []).append((name, val, shape))
    for (n, h), vals in sorted(cases.items()):
        for name, val, shape in vals:
            for name1, val1, shape1 in vals:
                if (n, h) != (2, 3) and shape1 != shape:
                    continue
                other = relabel(val1)
                for one in ((False, True) if isinstance(val, Arr) and name1 == name else (False,)):
                    a, b = n - 1, h - 1
                    env = {N: n, H: h, u: other, v: val, i: a, j: b}
                    env.update({x: one for x in same})
                    env.update({ids[0]: 1, ids[1]: 1 if one else 2})
                    ev = Ev(env, misinst, mtype, e)
                    count += 1
                    cl = "the same %s, changed" % name.split(" of shape")[0] if one else name.split(" of shape")[0]
                    ctx = "%s with %d scenarios, horizon %d, after %s" % (name, n, h, "an earlier conversion of the same object" if one else name1)
                    try:
                        res = outcome(ev, runs["second"][1], runs["second"][0])
                    except (Undecided, RecursionError) as ex:
                        report("independent of earlier conversions", None, cl, "%s: %s" % (ctx, ex), site)
                        continue
                    want = meaning(val, shape, n, h)(a, b)
                    report("independent of earlier conversions", res[:2] == ("value", want), cl,
                           "%s: [%d, %d] gives %s, expected %s" % (ctx, a, b, res[:2], want), res[2] or site)
    # an already converted value is kept
    e2 = rep.engine()
    nv = e2.sym("nv", ("inst", "NumericalValue"))
    fac = e2.run(e2.function(NUM + "NumericalValueFactory"), [], {"horizon": e2.sym("horizon", "int"), "nb_scn": e2.sym("nb_scn", "int")})
    try:
        r = srun(e2, "made", PROBE, [fac, nv])
        rep.check("converted value kept", "NumericalValue", r is nv, "conversion of a converted value gives %r" % r, site, [r])
    except Dead:
        rep.bad("converted value kept", "NumericalValue", "conversion of a converted value fails", site)
    rep.notes.append("%d evaluations of the analysed conversion over labelled arrays: scenario count and horizon 1..3, every shape up to 4x4 "
                     "(conditions only compare sizes, so these realise every ordering of size, scenario count and horizon)" % count)


CHECKS = {"C09": c09, "C10": c10, "C27": c27}
