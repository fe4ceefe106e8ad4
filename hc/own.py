"""C14, C18: who may change what."""
from .core import *
from .work import fn
from . import lp, tables, plots, study, remote
from .engine import AnalysisError
from .tables import ALL, KINDS, MODELS, RES, value, chain, env_of, selected
from .stages import judge, isinst
from .frames import FEv

FRESH = ("lt0", "le0", "eq", "not", "and", "or", "band", "bor", "bnot", "in", "mcall")  # masks
VIEWS = {"values", "T", "flat", "loc", "iloc", "at", "iat", "array", "index", "columns", "real", "imag", "_values", "data"}


def owners(e, t):
    """symbolic inputs whose storage t denotes: [(symbol, sure)]"""
    out, todo, seen = [], [(t, True)], set()
    while todo:
        t, sure = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        op = t.op
        if op == "ite":
            todo += [(t.args[1], sure), (t.args[2], sure)]
        elif op == "attr" and e.typeof(t.args[0]) == ("inst", "ResultAnalyzer") and t.args[1] not in tables.AN_SCHEMA["ResultAnalyzer"]:
            continue  # working state of the analyzer itself
        elif op in ("upd", "attr", "dictof", "firstof", "cell"):
            todo.append((t.args[0], sure))
        elif op == "xattr":
            if isinstance(e.typeof(t.args[0]), tuple) or t.args[1] in VIEWS:
                todo.append((t.args[0], sure))
        elif op == "item":
            b, i = t.args
            if isinstance(e.typeof(b), tuple):
                todo.append((b, sure))
            elif i.op in FRESH or i.op == "ref" or i.op == "listof":
                continue  # selected cells are copied
            else:
                loc = b.op == "xattr" and b.args[1] in ("loc", "iloc")
                todo.append((b, sure and not loc))
        elif op == "mcall":
            if t.args[1] in ("get", "setdefault", "values", "items", "keys"):
                todo.append((t.args[0], sure))
            elif t.args[1] in ("reshape", "ravel", "transpose", "view", "squeeze", "swapaxes", "to_numpy", "asarray"):
                todo.append((t.args[0], False))
        elif op == "sym":
            out.append((t, sure))
    return out


def untouched(rep, e, rule, subject, since, inputs, where):
    """no effect after `since` changes the storage of an input"""
    bad = False
    for x in e.effects:
        if x.seq <= since or x.kind not in ("mutate", "inplace", "attrstore", "framestore", "arrwrite", "store"):
            continue
        t = x.data.get("target", x.data.get("frame"))
        if t is None or t.op in ("ref", "class", "ext", "mod"):
            continue
        how = str(x.data.get("how", ""))
        if e.typeof(t) == ("inst", "ResultAnalyzer") and how[:1] == "." and how[1:] not in tables.AN_SCHEMA["ResultAnalyzer"]:
            continue
        if x.kind == "inplace" and e.typeof(t) in ("num", "int", "str", "bool"):
            continue
        for s, sure in owners(e, t):
            if s not in inputs:
                continue
            if x.kind == "inplace" and e.typeof(t) != "arr" and not isinstance(e.typeof(t), tuple):
                sure = False
            bad = True
            (rep.bad if sure else rep.maybe)(rule, "%s: %s" % (subject, show(t)[:80]), "%s is modified (%s)" % (show(t)[:80], x.data.get("how", x.kind)), x.site)
    if not bad:
        rep.ok(rule, subject, "%d effects, none on the storage of %s" % (len(e.effects), ", ".join(show(s) for s in inputs)), where)


def c14(rep):
    # solving
    rule = "solving leaves the study untouched"
    for L in lp.entries_for(rep):
        syms = {s for s in L.e.symtype if s.op == "sym" and L.e.symtype[s] == ("inst", "Study")}
        if not syms:
            rep.maybe(rule, L.__class__.__name__, "no study", "hadar/optimizer/lp/optimizer.py")
            continue
        untouched(rep, L.e, rule, "LPOptimizer.solve", 0, syms, "hadar/optimizer/lp/optimizer.py")
    for hist in ([(200, "TERMINATED")], [(200, "QUEUED"), (200, "COMPUTING"), (200, "TERMINATED")], [(200, "ERROR")], [(404, "ERRORPAGE")]):
        e, sv, url, tok, st, *_ = remote.session(rep, hist)
        since = e.seq
        try:
            srun(e, "solve", remote.SOLVE, [url, tok, st])
        except (Dead, AnalysisError):
            pass
        untouched(rep, e, rule, "RemoteOptimizer.solve, %s" % hist[-1][1].lower(), since, {st}, "hadar/optimizer/optimizer.py")
    # analysing
    rule = "analysing leaves study, result and tables untouched"
    e = rep.engine(tables.SCHEMA, tables.NVS)
    st, re = e.sym("study", ("inst", "Study")), e.sym("result", ("inst", "Result"))
    try:
        an = e.run(fn(e, RES + "ResultAnalyzer"), [st, re])
    except Dead:
        return rep.bad(rule, "ResultAnalyzer", "construction always fails", tables.SITE)
    untouched(rep, e, rule, "ResultAnalyzer(study, result)", 0, {st, re}, tables.SITE)
    names = {"consumption": "load", "production": "gas", "storage": "cell", "link": "b", "to_converter": "conv", "from_converter": "back"}
    for kind, n in names.items():
        for sel in ((ALL, ALL, ALL, ALL, ALL), ("default", "a", 0, slice(0, 2), n), ("default", ["a", "b"], [0, 1], 1, [n])):
            e = rep.engine(tables.AN_SCHEMA, tables.NVS)
            an = e.sym("an", ("inst", "ResultAnalyzer"))
            steps = list(zip(("network", "node", "scn", "time", kind), sel))
            try:
                chain(e, an, steps)
            except Dead:
                pass
            untouched(rep, e, rule, "query " + ".".join("%s(%s)" % (a, "" if v is ALL else v) for a, v in steps), 0, {an}, tables.SITE)
    asks = [("get_cost", ()), ("get_cost", ("a",)), ("get_cost", ("a", "default")), ("get_cost", (None, "default")), ("get_rac", ()), ("get_rac", ("gas",)),
            ("get_balance", ("a",)), ("get_balance", ("a", "gas")), ("get_elements_inside", ()), ("get_elements_inside", ("a",)),
            ("get_elements_inside", ("a", "default")), ("get_elements_inside", (None, "default")), ("nodes", ()), ("nodes", ("default",))]
    for m, args in asks:
        e = rep.engine(tables.AN_SCHEMA, tables.NVS)
        an = e.sym("an", ("inst", "ResultAnalyzer"))
        try:
            e.run(fn(e, RES + "ResultAnalyzer." + m), [an] + [value(e, x) for x in args])
        except Dead:
            pass
        untouched(rep, e, rule, "%s(%s)" % (m, ", ".join(map(repr, args))), 0, {an}, tables.SITE)
    # plotting
    rule = "plotting leaves study, result and tables untouched"
    for net, node, what, name, draws in plot_calls():
        e = rep.engine(plots.HSCHEMA, plots.HSUM)
        an = e.sym("an", ("inst", "ResultAnalyzer"))
        coord = e.sym("coord", ("dict", "str", "arr"))
        for d, kw in draws:
            text = ".".join(x for x in ("network()", node and "node()", what and what + "()", "%s(%s)" % (d, ", ".join("%s=%s" % p for p in kw.items()))) if x)
            since = e.seq
            try:
                o = e.run(fn(e, "hadar.viewer.html.HTMLPlotting"), [an], {"node_coord": coord})
                o = e.call_method(o, "network", [const(net)], {})
                if node:
                    o = e.call_method(o, "node", [const(node)], {})
                if what:
                    o = e.call_method(o, what, [const(name)], {})
                e.call_method(o, d, [], {k: value(e, v) for k, v in kw.items()})
            except Dead:
                pass
            untouched(rep, e, rule, text, since, {an, coord}, plots.SITE)
    rep.notes.append("every change of a container, table or array met on the way is traced to the storage it belongs to")


def plot_calls():
    full = [("timeline", {}), ("monotone", {"t": 0}), ("monotone", {"scn": 0}), ("gaussian", {"t": 0}), ("gaussian", {"scn": 0})]
    for w, n in (("consumption", "load"), ("production", "gas"), ("link", "b"), ("to_converter", "conv"), ("from_converter", "back")):
        yield "default", "a", w, n, full
    yield "default", "a", "storage", "cell", [("candles", {}), ("candles", {"scn": 1}), ("monotone", {"t": 0}), ("monotone", {"scn": 0})]
    yield "default", "a", None, None, [("stack", {}), ("stack", {"scn": 1})]
    yield "default", None, None, None, [("rac_matrix", {}), ("map", {"t": 0, "zoom": 2}), ("map", {"t": 1, "zoom": 2, "scn": 1, "limit": 3})]


# ---------------------------------------------------------------- C18
def c18(rep):
    c18_builder(rep)
    c18_query(rep)
    c18_plot(rep)


def c18_builder(rep):
    def args(e, op):
        return {p: e.sym("other_" + p, "str" if t == "str" else "num") for p, t in study.OPS[op]["params"].items()}

    def other(e, n):
        return e.sym("other_" + n, "str")

    def node_noise(e, sel, what):
        if what == "node":
            s = e.call_method(sel, "node", [other(e, "nd")], {})
            e.call_method(s, "production", [], args(e, "production"))
        elif what == "network":
            s = e.call_method(sel, "network", [other(e, "net")], {})
            e.call_method(e.call_method(s, "node", [other(e, "nd")], {}), "storage", [], args(e, "storage"))
        elif what == "build":
            e.call_method(sel, "build", [], {})
        else:
            e.call_method(sel, what, [], args(e, what))

    def kept_node(what):
        def r(e, st, net, nd):
            s = study.r_node(e, st, net, nd)
            node_noise(e, s, what)
            return s
        return r

    def kept_network(what):
        def r(e, st, net, nd):
            s = study.r_network(e, st, net, nd)
            node_noise(e, s, what)
            return s
        return r

    def kept_then_node(what):
        def r(e, st, net, nd):
            s = study.r_network(e, st, net, nd)
            node_noise(e, s, what)
            return e.call_method(s, "node", [nd], {})
        return r

    def from_study(e, st, net, nd):
        first = study.r_node(e, st, other(e, "net"), other(e, "nd"))
        e.call_method(first, "consumption", [], args(e, "consumption"))
        return study.r_node(e, st, net, nd)

    def sibling(e, st, net, nd):
        """two nodes of one network, the first one used after the second was selected"""
        n = study.r_network(e, st, net, nd)
        a = e.call_method(n, "node", [nd], {})
        b = e.call_method(n, "node", [other(e, "nd")], {})
        e.call_method(b, "production", [], args(e, "production"))
        return a

    kind = "ScalarNumericalValue"
    node_routes = {"n = network().node(); n.%s(); n" % w: kept_node(w) for w in ("node", "network", "build", "consumption", "production", "storage", "link", "to_converter", "converter")}
    node_routes.update({"n = network(); n.%s(); n.node()" % w: kept_then_node(w) for w in ("node", "network", "build", "link", "converter")})
    node_routes["study used before"] = from_study
    node_routes["a = network().node(); b = network().node(); a"] = sibling
    net_routes = {"n = network(); n.%s(); n" % w: kept_network(w) for w in ("node", "network", "build", "link", "converter")}
    sub = Sub(rep, "a kept step still selects its own node and network")
    for n, r in node_routes.items():
        for op in ("consumption", "production", "storage"):
            study.c27_element(sub, study.Step(rep, kind, r, op), "%s.%s" % (n, op), kind)
        s = study.Step(rep, kind, r, "to_converter", facts=[lambda s: not_(truthy(srun(s.e, "conv_known", study.SPEC, [s.st, s.args["name"]])))])
        study.c27_converter(sub, s, "%s.to_converter" % n, kind, False)
    for n, r in list(net_routes.items()) + list(node_routes.items()):
        study.c27_element(sub, study.Step(rep, kind, r, "link"), "%s.link" % n, kind)
        s = study.Step(rep, kind, r, "converter", facts=[lambda s: not_(truthy(srun(s.e, "conv_known", study.SPEC, [s.st, s.args["name"]])))])
        study.c27_converter(sub, s, "%s.converter" % n, kind, False)


class Sub(object):
    """obligations of another property's rules, filed under one rule of this one"""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def ok(self, rule, subject, detail="", site=None):
        self.rep.ok(self.rule, "%s (%s)" % (subject, rule), detail, site)

    def bad(self, rule, subject, detail="", site=None):
        self.rep.bad(self.rule, "%s (%s)" % (subject, rule), detail, site)

    def maybe(self, rule, subject, detail="", site=None):
        self.rep.maybe(self.rule, "%s (%s)" % (subject, rule), detail, site)

    def check(self, rule, subject, cond, detail="", site=None, terms=()):
        self.rep.check(self.rule, "%s (%s)" % (subject, rule), cond, detail, site, terms)


def offers(e, o, steps):
    """chain of query steps; a step the object does not offer fails"""
    for name, v in steps:
        f = e.getattr(o, name)
        if f.op == "unk" and str(f.args[1]).startswith("attribute ") and o.op == "ref":
            raise Dead()
        o = e.run(f, [] if v is ALL else [value(e, v)])
    return o


def c18_query(rep):
    from .externals import freeze
    rule = "a kept query step answers as a fresh query"
    names = {"consumption": "load", "production": "gas", "storage": "cell", "link": "b", "to_converter": "conv", "from_converter": "back"}
    alt = {"network": "gas", "node": "b", "scn": 1, "time": 0}
    for kind in names:
        for order in (("node", "scn", "time", "KIND"), ("KIND", "time", "node", "scn"), ("time", "KIND", "scn", "node")):
            sel = dict(node="a", scn=ALL, time=slice(0, 2), KIND=ALL)
            steps = [("network", "default")] + [(kind if s == "KIND" else s, sel[s]) for s in order]
            e = rep.engine(tables.AN_SCHEMA, tables.NVS)
            o = an = e.sym("an", ("inst", "ResultAnalyzer"))
            kept = []
            try:
                for i, st in enumerate(steps):
                    # the same step is first continued differently, up to a complete query
                    rest = [(n, alt[n] if n in alt else "x") for n, _ in steps[i:]]
                    offers(e, o, rest)
                    if i > 0 and kind != "production" and i <= [n for n, _ in steps].index(kind):
                        offers(e, o, [(n if n != kind else "production", v if n != kind else ALL) for n, v in rest])
                    kept.append(o)
                    o = offers(e, o, [st])
            except Dead:
                rep.bad(rule, ".".join(n for n, _ in steps), "a step continued twice always fails", tables.SITE)
                continue
            answers = [("continued after other queries", freeze(e, o))]
            try:
                for i, k in reversed(list(enumerate(kept))):
                    answers.append(("continued again from step %d" % i, freeze(e, offers(e, k, steps[i:]))))
            except Dead:
                rep.bad(rule, ".".join(n for n, _ in steps), "a step continued again always fails", tables.SITE)
            for what, r in answers:
                m = MODELS[0]
                judge(rep, rule, "%s, %s" % (".".join(n for n, _ in steps), what), lambda: selected(FEv(env_of(e, an, m), e, isinst)(r), m, kind, steps), tables.SITE)


def c18_plot(rep):
    A = plots.PMODELS[0]
    P = plots.Plots(rep)
    P.rule = "a kept plot selection shows its own element"
    noise = {
        0: [[("network", ("gas",), {}), ("node", ("b",), {}), ("consumption", ("load",), {})], [("network", ("gas",), {}), ("rac_matrix", (), {})]],
        1: [[("node", ("c",), {}), ("production", ("gas",), {}), ("timeline", (), {})], [("rac_matrix", (), {})], [("map", (), {"t": 0, "zoom": 1})]],
        2: [[("consumption", ("other",), {}), ("timeline", (), {})], [("production", ("other", "avail"), {})], [("stack", (), {"scn": 1})],
            [("link", ("c",), {})], [("storage", ("cell",), {})], [("to_converter", ("v",), {})], [("from_converter", ("v",), {})]],
        3: [[("monotone", (), {"t": 1})], [("monotone", (), {"scn": 1})]],
    }
    P.noise = noise
    for el, net, node, name in (("consumption", "default", "a", "load"), ("production", "default", "b", "gas"), ("link", "default", "a", "b"),
                                ("to_converter", "default", "a", "conv"), ("from_converter", "default", "b", "conv")):
        q0 = plots.element(A, KINDS[el], net, node, name)
        kind = {"consumption": "given", "production": "used", "link": "used"}.get(el, "flow")
        q = {k: v[kind] for k, v in q0.items()}
        pre = [("network", (net,), {}), ("node", (node,), {}), (el, (name,), {})]
        P.ask([A], pre + [("timeline", (), {})], lambda m, d: plots.d_timeline(m, d, q), "timeline")
        P.ask([A], pre + [("monotone", (), {"t": 0})], lambda m, d: plots.d_monotone(m, d, q, 0, None), "monotone")
    q0 = plots.element(A, "storage", "default", "c", "cell")
    P.ask([A], [("network", ("default",), {}), ("node", ("c",), {}), ("storage", ("cell",), {}), ("candles", (), {})], lambda m, d: plots.d_candles(m, d, q0, 0), "candles")
    P.noise = {k: v for k, v in noise.items() if k < 3}
    P.ask([A], [("network", ("default",), {}), ("rac_matrix", (), {})], lambda m, d: plots.d_matrix(m, d, "default"), "matrix")
    P.ask([A], [("network", ("default",), {}), ("node", ("a",), {}), ("stack", (), {})], lambda m, d: plots.d_stack(m, d, "default", "a", 0, "used", "asked"), "stack")


CHECKS = {"C14": c14, "C18": c18}
