"""Mechanical behaviour-keeping rewrites of whole files: every check has to stay quiet.

usage: auto_ref.py [transform] [file substring]
"""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        self.names.add(n.id)

    def visit_arg(self, n):
        self.names.add(n.arg)


def fresh(fn, base):
    v = Names()
    v.visit(fn)
    k, name = 0, base
    while name in v.names:
        k += 1
        name = "%s%d" % (base, k)
    return name


class Fn(ast.NodeTransformer):
    """visits functions, innermost first"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return self.func(n) or n


class ReturnTemp(Fn):
    """return X -> res = X; return res"""

    def func(self, fn):
        name = fresh(fn, "res")

        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def visit_Lambda(self, n):
                return n

            def visit_Return(self, n):
                if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
                    return n
                return [ast.Assign([ast.Name(name, ast.Store())], n.value), ast.Return(ast.Name(name, ast.Load()))]
        fn.body = [y for x in fn.body for y in (lambda r: r if isinstance(r, list) else [r])(T().visit(x))]


class InvertIf(Fn):
    """if c: A else: B -> if not c: B else: A"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                    return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
                return n

            def visit_IfExp(self, n):
                self.generic_visit(n)
                return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        fn.body = [T().visit(x) for x in fn.body]


class Rename(Fn):
    """local variables get other names"""

    def func(self, fn):
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + ([fn.args.vararg] if fn.args.vararg else []) + ([fn.args.kwarg] if fn.args.kwarg else [])}
        local, glob = set(), set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
                return
        local -= params | glob

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in local:
                    n.id = n.id + "_v"
                return n
        fn.body = [T().visit(x) for x in fn.body]


def only_comp(n):
    return isinstance(n, (ast.ListComp, ast.DictComp)) and not any(g.is_async for g in n.generators)


class Unroll(Fn):
    """x = [e for ...] / return [e for ...] -> loop with append"""

    def func(self, fn):
        name = fresh(fn, "acc")
        stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}

        def loop(c, name):
            names = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            uses = sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in names)
            mine = sum(1 for x in ast.walk(c) if isinstance(x, ast.Name) and x.id in names)
            params = {a.arg for a in fn.args.args}
            if uses != mine or names & params:
                return None
            if isinstance(c, ast.ListComp):
                inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [c.elt], []))
                init = ast.List([], ast.Load())
            else:
                inner = ast.Assign([ast.Subscript(ast.Name(name, ast.Load()), c.key, ast.Store())], c.value)
                init = ast.Dict([], [])
            for g in reversed(c.generators):
                for i in reversed(g.ifs):
                    inner = ast.If(i, [inner], [])
                inner = ast.For(g.target, g.iter, [inner], [])
            return [ast.Assign([ast.Name(name, ast.Store())], init), inner]

        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def visit_Return(self, n):
                if n.value is not None and only_comp(n.value):
                    r = loop(n.value, name)
                    if r:
                        return r + [ast.Return(ast.Name(name, ast.Load()))]
                return n

            def visit_Assign(self, n):
                if only_comp(n.value) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    if n.targets[0].id not in used:
                        r = loop(n.value, n.targets[0].id)
                        if r:
                            return r
                return n
        fn.body = [y for x in fn.body for y in (lambda r: r if isinstance(r, list) else [r])(T().visit(x))]


class Args(Fn):
    """every call argument that is an expression is computed first, when the statement is a plain call, assignment or return of a call"""

    def func(self, fn):
        k = [0]

        def lift(call, out):
            new = []
            for a in call.args:
                if isinstance(a, (ast.Starred, ast.Name, ast.Constant, ast.GeneratorExp, ast.Lambda)):
                    new.append(a)
                    continue
                k[0] += 1
                nm = fresh(fn, "arg_%d" % k[0])
                out.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                new.append(ast.Name(nm, ast.Load()))
            call.args = new

        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def one(self, n):
                if isinstance(n.value, ast.Call) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                    if isinstance(n.value.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(n.value.func)):
                        out = []
                        lift(n.value, out)
                        return out + [n]
                return n
            visit_Assign = visit_Return = visit_Expr = one
        fn.body = [y for x in fn.body for y in (lambda r: r if isinstance(r, list) else [r])(T().visit(x))]


class Extract(Fn):
    """body of a method moved to a private helper method"""

    def visit_ClassDef(self, c):
        out = []
        for x in c.body:
            out.append(x)
            if not isinstance(x, ast.FunctionDef) or x.decorator_list or x.name.startswith("__") or x.args.vararg or x.args.kwarg or x.args.kwonlyargs:
                continue
            if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)) or any(isinstance(y, ast.Name) and y.id == "super" for y in ast.walk(x)):
                continue
            h = copy.deepcopy(x)
            h.name = "_" + c.name.lower() + "_" + x.name.lstrip("_")
            h.args.defaults = []
            doc = [x.body[0]] if isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) else []
            h.body = h.body[len(doc):] or [ast.Pass()]
            names = [a.arg for a in x.args.args]
            if not names:
                continue
            call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names[1:]], [])
            x.body = doc + [ast.Return(call)]
            out.append(h)
        c.body = out
        return c

    def visit_FunctionDef(self, n):
        return n


class ElseReturn(Fn):
    """if c: return A; rest -> if c: return A else: rest (last statement list)"""

    def func(self, fn):
        def go(body):
            for i, st in enumerate(body):
                if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                    st.orelse = go(body[i + 1:])
                    return body[:i + 1]
            return body
        fn.body = go(fn.body)


class Join(Fn):
    """x += y -> x = x + y for numbers and constants only; [..] + [..] untouched. Comparisons turned round"""

    def func(self, fn):
        turn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

        class T(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and type(n.ops[0]) in turn:
                    return ast.Compare(n.comparators[0], [turn[type(n.ops[0])]()], [n.left])
                return n
        fn.body = [T().visit(x) for x in fn.body]


class LoopVar(Fn):
    """for a, b in X: -> for pair in X: a, b = pair"""

    def func(self, fn):
        k = [0]

        class T(ast.NodeTransformer):
            def visit_For(self, n):
                self.generic_visit(n)
                if isinstance(n.target, ast.Tuple):
                    k[0] += 1
                    nm = fresh(fn, "pair_%d" % k[0])
                    n.body = [ast.Assign([n.target], ast.Name(nm, ast.Load()))] + n.body
                    n.target = ast.Name(nm, ast.Store())
                return n
        fn.body = [T().visit(x) for x in fn.body]


class Enum(Fn):
    """for i in range(len(xs)) -> for i, _ in enumerate(xs); for x in xs (name) -> for i in range(len(xs)): only the first"""

    def func(self, fn):
        k = [0]

        class T(ast.NodeTransformer):
            def visit_For(self, n):
                self.generic_visit(n)
                i = n.iter
                if isinstance(i, ast.Call) and isinstance(i.func, ast.Name) and i.func.id == "range" and len(i.args) == 1 and isinstance(i.args[0], ast.Call) \
                        and isinstance(i.args[0].func, ast.Name) and i.args[0].func.id == "len" and isinstance(n.target, ast.Name):
                    k[0] += 1
                    n.target = ast.Tuple([n.target, ast.Name(fresh(fn, "_el%d" % k[0]), ast.Store())], ast.Store())
                    n.iter = ast.Call(ast.Name("enumerate", ast.Load()), i.args[0].args, [])
                return n
        fn.body = [T().visit(x) for x in fn.body]


class Items(Fn):
    """for k, v in d.items(): -> for k in d: v = d[k]   (d a name or attribute chain)"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_For(self, n):
                self.generic_visit(n)
                i = n.iter
                if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and i.func.attr == "items" and not i.args and isinstance(n.target, ast.Tuple) \
                        and isinstance(n.target.elts[0], ast.Name) and not any(isinstance(x, ast.Call) for x in ast.walk(i.func.value)):
                    key, val = n.target.elts
                    n.body = [ast.Assign([val], ast.Subscript(copy.deepcopy(i.func.value), ast.Name(key.id, ast.Load()), ast.Load()))] + n.body
                    n.target, n.iter = key, i.func.value
                return n
        fn.body = [T().visit(x) for x in fn.body]


class SelfAlias(Fn):
    """attributes of self read into a local first is risky; here only: me = self at the start"""

    def func(self, fn):
        if not fn.args.args or fn.args.args[0].arg != "self" or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for x in ast.walk(fn)):
            return
        if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
            return
        nm = fresh(fn, "me")

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id == "self":
                    n.id = nm
                return n
        doc = [fn.body[0]] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        fn.body = doc + [ast.Assign([ast.Name(nm, ast.Store())], ast.Name("self", ast.Load()))] + [T().visit(x) for x in fn.body[len(doc):]]


class Keywords(ast.NodeTransformer):
    """f(a=x) kept; literal dict(...) -> {...}"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and all(k.arg for k in n.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        if isinstance(n.func, ast.Name) and n.func.id == "list" and not n.args and not n.keywords:
            return ast.List([], ast.Load())
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return n


class Lambdas(Fn):
    """name = lambda ... -> def"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_Assign(self, n):
                if isinstance(n.value, ast.Lambda) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    return ast.FunctionDef(n.targets[0].id, n.value.args, [ast.Return(n.value.body)], [], None)
                return n
        fn.body = [T().visit(x) for x in fn.body]


class Aug(Fn):
    """x -= y / x += y on plain local names holding numbers: n += 1 only with constants"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if isinstance(n.value, ast.Constant) and isinstance(n.target, ast.Name):
                    return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
                return n
        fn.body = [T().visit(x) for x in fn.body]


class AndIf(Fn):
    """if a and b: X (no else) -> if a: if b: X"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                    body = n.body
                    for t in reversed(n.test.values):
                        body = [ast.If(t, body, [])]
                    return body[0]
                return n
        fn.body = [T().visit(x) for x in fn.body]


class IfExpStmt(Fn):
    """x = a if c else b -> if statement; return too"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def visit_Assign(self, n):
                if isinstance(n.value, ast.IfExp):
                    return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
                return n

            def visit_Return(self, n):
                if isinstance(n.value, ast.IfExp):
                    return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
                return n
        fn.body = [T().visit(x) for x in fn.body]


class Static(ast.NodeTransformer):
    """static methods become module functions, kept reachable from the class"""

    def visit_Module(self, m):
        out = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                for x in c.body:
                    if isinstance(x, ast.FunctionDef) and [getattr(d, "id", None) for d in x.decorator_list] == ["staticmethod"]:
                        h = copy.deepcopy(x)
                        h.decorator_list = []
                        h.name = "_%s_%s" % (c.name.lower(), x.name.strip("_"))
                        h.returns = None
                        for a in h.args.args:
                            a.annotation = None
                        out.append(h)
                        names = [a.arg for a in x.args.args]
                        doc = [x.body[0]] if isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) else []
                        x.body = doc + [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names], []))]
        # helpers behind everything they use: at the end of the module
        m.body = m.body + out
        return m


class Hoist(Fn):
    """method lookups hoisted in front of for loops: xs.append -> add = xs.append"""

    def func(self, fn):
        k = [0]

        def block(body):
            out = []
            for st in body:
                for f in ("body", "orelse"):
                    if hasattr(st, f) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                if isinstance(st, ast.For):
                    stored = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    found = {}
                    for x in ast.walk(st):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name) and x.func.value.id not in stored:
                            v = x.func.value.id
                            if v not in found:
                                k[0] += 1
                                found[v] = fresh(fn, "add_%d" % k[0])
                            x.func = ast.Name(found[v], ast.Load())
                    for v, nm in found.items():
                        out.append(ast.Assign([ast.Name(nm, ast.Store())], ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load())))
                out.append(st)
            return out
        fn.body = block(fn.body)


class CompToLoop(Fn):
    """v = [e for x in it if c] -> v = []; for x in it: if c: v.append(e)"""

    def func(self, fn):
        used = Names()
        used.visit(fn)
        counts = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                counts[x.id] = counts.get(x.id, 0) + 1
        params = {a.arg for a in fn.args.args}

        def one(st):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, (ast.ListComp, ast.DictComp)):
                comp = st.value
                bound = {n.id for g in comp.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                inside = {}
                for x in ast.walk(comp):
                    if isinstance(x, ast.Name):
                        inside[x.id] = inside.get(x.id, 0) + 1
                if any(counts[b] != inside[b] or b in params for b in bound) or any(isinstance(x, (ast.Lambda,)) for x in ast.walk(comp)):
                    return [st]
                if isinstance(st, ast.Assign) and not (len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
                    return [st]
                name = fresh(fn, "gathered")
                if isinstance(comp, ast.ListComp):
                    init = ast.List([], ast.Load())
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [comp.elt], []))]
                else:
                    init = ast.Dict([], [])
                    body = [ast.Assign([ast.Subscript(ast.Name(name, ast.Load()), comp.key, ast.Store())], comp.value)]
                for g in reversed(comp.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                st.value = ast.Name(name, ast.Load())
                return [ast.Assign([ast.Name(name, ast.Store())], init)] + body + [st]
            return [st]

        def block(b):
            out = []
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                out += one(st)
            return out
        fn.body = block(fn.body)


class Formats(Fn):
    """'%s x %s' % (a, b) -> f-string;  '..{}..'.format(a) -> f-string"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and not n.keywords:
                    parts = f.value.value.split("{}")
                    if len(parts) == len(n.args) + 1 and not any("{" in p for p in parts):
                        vals = []
                        for i, p in enumerate(parts):
                            if p:
                                vals.append(ast.Constant(p))
                            if i < len(n.args):
                                vals.append(ast.FormattedValue(n.args[i], -1))
                        return ast.JoinedStr(vals)
                return n

            def visit_BinOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
                    parts = n.left.value.split("%s")
                    if len(parts) == len(n.right.elts) + 1 and not any("%" in p for p in parts):
                        vals = []
                        for i, p in enumerate(parts):
                            if p:
                                vals.append(ast.Constant(p))
                            if i < len(n.right.elts):
                                vals.append(ast.FormattedValue(n.right.elts[i], -1))
                        return ast.JoinedStr(vals)
                return n
        fn.body = [T().visit(x) for x in fn.body]


class Unformat(Fn):
    """f-string -> '{}'.format"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                txt, args = "", []
                for v in n.values:
                    if isinstance(v, ast.Constant):
                        if "{" in v.value or "}" in v.value:
                            return n
                        txt += v.value
                    elif v.conversion == -1 and v.format_spec is None:
                        txt += "{}"
                        args.append(v.value)
                    else:
                        return n
                return ast.Call(ast.Attribute(ast.Constant(txt), "format", ast.Load()), args, [])
        fn.body = [T().visit(x) for x in fn.body]


class Compare(Fn):
    """a > b -> b < a; not a in b -> a not in b; x is None -> None is x"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                m = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
                if len(n.ops) == 1 and type(n.ops[0]) in m and not any(isinstance(x, ast.Call) for x in ast.walk(n)):
                    return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
                return n
        fn.body = [T().visit(x) for x in fn.body]


class Demorgan(Fn):
    """a and b -> not (not a or not b), in tests"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                t = n.test
                if isinstance(t, ast.BoolOp):
                    op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
                return n
        fn.body = [T().visit(x) for x in fn.body]


class While(Fn):
    """for i in range(n): body -> i = 0; while i < n: body; i += 1 (no continue, i not used after)"""

    def func(self, fn):
        def block(b, rest_names):
            out = []
            for k, st in enumerate(b):
                for f in ("body", "orelse"):
                    if getattr(st, f, None) and isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
                        setattr(st, f, block(getattr(st, f), rest_names))
                if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and not st.orelse and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "range" and len(st.iter.args) == 1:
                    if not any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Lambda)) for x in ast.walk(st)):
                        i = st.target.id
                        lim = fresh(fn, "limit")
                        out += [ast.Assign([ast.Name(lim + i, ast.Store())], st.iter.args[0]), ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(lim + i, ast.Load())]), st.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                        continue
                out.append(st)
            return out
        fn.body = block(fn.body, None)


class ModuleFn(Fn):
    """body of a method moved to a module function taking self"""

    def visit_Module(self, m):
        body = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                hs = []
                for x in c.body:
                    if not isinstance(x, ast.FunctionDef) or x.decorator_list or x.name.startswith("__") or x.args.vararg or x.args.kwarg or x.args.kwonlyargs or not x.args.args:
                        continue
                    if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)) or any(isinstance(y, ast.Name) and y.id == "super" for y in ast.walk(x)):
                        continue
                    if any(isinstance(y, ast.Attribute) and y.attr.startswith("__") and not y.attr.endswith("__") for y in ast.walk(x)):
                        continue
                    h = copy.deepcopy(x)
                    h.name = "_%s_%s" % (c.name.lower(), x.name.strip("_"))
                    h.args.defaults = []
                    h.returns = None
                    for a in h.args.args:
                        a.annotation = None
                    doc = [x.body[0]] if isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) else []
                    h.body = h.body[len(doc):] or [ast.Pass()]
                    names = [a.arg for a in x.args.args]
                    x.body = doc + [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names], []))]
                    hs.append(h)
                body += [c] + hs
            else:
                body.append(c)
        m.body = body
        return m


class Super(ast.NodeTransformer):
    """Base.__init__(self, ...) -> super().__init__(...)"""

    def visit_ClassDef(self, c):
        bases = [b.id for b in c.bases if isinstance(b, ast.Name)]
        if len(c.bases) == 1 and len(bases) == 1:
            for x in ast.walk(c):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__" and isinstance(x.func.value, ast.Name) and x.func.value.id == bases[0] and x.args:
                    x.func = ast.Attribute(ast.Call(ast.Name("super", ast.Load()), [], []), "__init__", ast.Load())
                    x.args = x.args[1:]
        return c


class SplitWith(Fn):
    """chained calls a.b().c() on the right of an assignment split into steps"""

    def func(self, fn):
        def one(st):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Call):
                nm = fresh(fn, "step")
                pre = ast.Assign([ast.Name(nm, ast.Store())], st.value.func.value)
                st.value.func.value = ast.Name(nm, ast.Load())
                return one(pre) + [st]
            return [st]

        def block(b):
            out = []
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                out += one(st)
            return out
        fn.body = block(fn.body)


class TryElse(Fn):
    """the body in `with`-less guard: if True"""

    def func(self, fn):
        doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        rest = fn.body[len(doc):]
        if rest and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in rest):
            fn.body = doc + [ast.Try(rest, [], [], [ast.Pass()])]


class Annot(Fn):
    """x = v -> x: object = v for plain names (first assignments)"""

    def func(self, fn):
        seen = set()

        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def visit_Assign(self, n):
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in seen:
                    seen.add(n.targets[0].id)
                    return ast.AnnAssign(n.targets[0], ast.Constant("object"), n.value, 1)
                return n
        if not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
            fn.body = [T().visit(x) for x in fn.body]


class Sorted2(Fn):
    """d.keys() in loops and membership -> d"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    c = n.comparators[0]
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "keys" and not c.args:
                        n.comparators = [c.func.value]
                return n

            def visit_For(self, n):
                self.generic_visit(n)
                c = n.iter
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "keys" and not c.args:
                    n.iter = c.func.value
                return n
        fn.body = [T().visit(x) for x in fn.body]


class LoopToComp(Fn):
    """v = []; for x in it: v.append(e) -> v = [e for x in it]"""

    def func(self, fn):
        def block(b):
            out = []
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                prev = out[-1] if out else None
                if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1 and isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(prev.targets[0], ast.Name):
                    v = prev.targets[0].id
                    x = st.body[0]
                    ifs = []
                    while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                        ifs.append(x.test)
                        x = x.body[0]
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == v and isinstance(prev.value, ast.List) and not prev.value.elts:
                        e = x.value.args[0]
                        if not any(isinstance(y, ast.Name) and y.id == v for z in [e, st.iter] + ifs for y in ast.walk(z)):
                            prev.value = ast.ListComp(e, [ast.comprehension(st.target, st.iter, ifs, 0)])
                            continue
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == v and isinstance(prev.value, (ast.Dict, ast.Call)) and ast.unparse(prev.value) in ("{}", "dict()"):
                        k, e = x.targets[0].slice, x.value
                        if not any(isinstance(y, ast.Name) and y.id == v for z in [k, e, st.iter] + ifs for y in ast.walk(z)):
                            prev.value = ast.DictComp(k, e, [ast.comprehension(st.target, st.iter, ifs, 0)])
                            continue
                out.append(st)
            return out
        fn.body = block(fn.body)


class Guard(Fn):
    """last statement `if c: body` of a loop -> if not c: continue; body"""

    def func(self, fn):
        for st in ast.walk(fn):
            if isinstance(st, ast.For) and isinstance(st.body[-1], ast.If) and not st.body[-1].orelse:
                i = st.body[-1]
                st.body = st.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body


class EarlyReturn(Fn):
    """last statement `if c: body` of a function returning nothing -> if not c: return; body"""

    def func(self, fn):
        last = fn.body[-1]
        if isinstance(last, ast.If) and not last.orelse and not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(fn)):
            fn.body = fn.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Return(None)], [])] + last.body


class Swap(Fn):
    """adjacent assignments that do not touch each other change places"""

    def func(self, fn):
        def touch(st):
            w = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            r = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            return w, r

        def plain(st):
            return isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets) and not any(isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr)) for x in ast.walk(st))

        def field(st):
            return isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and isinstance(st.targets[0].value, ast.Name) and isinstance(st.value, (ast.Name, ast.Constant))

        def block(b):
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        block(getattr(st, f))
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if field(x) and field(y) and ast.unparse(x.targets[0]) != ast.unparse(y.targets[0]):
                    b[i], b[i + 1] = y, x
                    i += 2
                    continue
                if plain(x) and plain(y):
                    (w1, r1), (w2, r2) = touch(x), touch(y)
                    if not (w1 & (w2 | r2)) and not (w2 & r1):
                        b[i], b[i + 1] = y, x
                        i += 2
                        continue
                i += 1
        block(fn.body)


class LoopBody(Fn):
    """the body of a loop moved into a local function"""

    def func(self, fn):
        n = [0]

        def block(b):
            out = []
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                if isinstance(st, ast.For) and not st.orelse and isinstance(st.target, (ast.Name, ast.Tuple)):
                    bad = any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.FunctionDef)) for y in st.body for x in ast.walk(y))
                    stores = {x.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    inner = {id(x) for y in st.body for x in ast.walk(y)}
                    outer = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inner} | {a.arg for a in fn.args.args}
                    targets = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]
                    if not bad and not (stores & outer):
                        n[0] += 1
                        h = fresh(fn, "each%d" % n[0])
                        out.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(t) for t in targets], None, [], [], None, []), st.body, [], None, None, type_params=[]))
                        st.body = [ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(t, ast.Load()) for t in targets], []))]
                out.append(st)
            return out
        fn.body = block(fn.body)


class MapList(Fn):
    """[f(x) for x in it] -> list(map(lambda x: f(x), it)), one generator, name target"""

    def func(self, fn):
        class T(ast.NodeTransformer):
            def visit_ListComp(self, n):
                self.generic_visit(n)
                g = n.generators[0]
                if len(n.generators) == 1 and isinstance(g.target, ast.Name):
                    it = g.iter
                    for c in g.ifs:
                        it = ast.Call(ast.Name("filter", ast.Load()), [ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), c), it], [])
                    return ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("map", ast.Load()), [ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt), it], [])], [])
                return n
        names = Names()
        names.visit(fn)
        if not {"list", "map", "filter"} & {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} and not {"map", "filter", "list"} & {a.arg for a in fn.args.args}:
            fn.body = [T().visit(x) for x in fn.body]


class Consts(ast.NodeTransformer):
    """strings used as keys / column names named at the top of the module"""

    def visit_Module(self, m):
        seen = {}
        skip = set()
        for x in ast.walk(m):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Module)) and x.body and isinstance(x.body[0], ast.Expr):
                skip.add(id(x.body[0].value))
            if isinstance(x, ast.JoinedStr):
                skip |= {id(v) for v in x.values}
            if isinstance(x, ast.arg) and x.annotation is not None:
                skip |= {id(v) for v in ast.walk(x.annotation)}
            if isinstance(x, ast.FunctionDef) and x.returns is not None:
                skip |= {id(v) for v in ast.walk(x.returns)}
            if isinstance(x, ast.MatchValue) if hasattr(ast, "MatchValue") else False:
                skip |= {id(v) for v in ast.walk(x)}

        class T(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, str) and n.value.isidentifier() and id(n) not in skip:
                    nm = "K_" + n.value.upper()
                    if nm in seen and seen[nm] != n.value:
                        return n
                    seen[nm] = n.value
                    return ast.Name(nm, ast.Load())
                return n
        body = []
        for st in m.body:
            if isinstance(st, (ast.ClassDef, ast.FunctionDef)):
                st = T().visit(st)
            body.append(st)
        k = 0
        while k < len(body) and (isinstance(body[k], (ast.Import, ast.ImportFrom)) or isinstance(body[k], ast.Expr)):
            k += 1
        m.body = body[:k] + [ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(v)) for nm, v in seen.items()] + body[k:]
        return m


class Star(Fn):
    """f(a, k=v) -> kw = dict(k=v); f(a, **kw) for statements that are one call"""

    def func(self, fn):
        def one(st):
            v = getattr(st, "value", None)
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and len(v.keywords) >= 2 and all(k.arg for k in v.keywords) and not v.args:
                nm = fresh(fn, "options")
                pre = ast.Assign([ast.Name(nm, ast.Store())], ast.Dict([ast.Constant(k.arg) for k in v.keywords], [k.value for k in v.keywords]))
                v.keywords = [ast.keyword(None, ast.Name(nm, ast.Load()))]
                return [pre, st]
            return [st]

        def block(b):
            out = []
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                out += one(st)
            return out
        fn.body = block(fn.body)


class Expr(Fn):
    """the value of an assignment or return computed by a local function"""

    def func(self, fn):
        n = [0]

        def one(st, params):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, (ast.BinOp, ast.ListComp, ast.DictComp, ast.Compare, ast.BoolOp, ast.IfExp)) and not any(isinstance(x, (ast.Yield, ast.NamedExpr, ast.Await)) for x in ast.walk(st.value)):
                n[0] += 1
                h = fresh(fn, "part%d" % n[0])
                f = ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), [ast.Return(st.value)], [], None, None, type_params=[])
                st.value = ast.Call(ast.Name(h, ast.Load()), [], [])
                return [f, st]
            return [st]

        def block(b):
            out = []
            for st in b:
                for f in ("body", "orelse", "finalbody"):
                    if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                out += one(st, None)
            return out
        if fn.name != "__init__" or True:
            fn.body = block(fn.body)


def both(*ts):
    class B:
        def visit(self, a):
            for t in ts:
                a = ast.parse(ast.unparse(ast.fix_missing_locations(t().visit(a))))
            return a
    B.__name__ = "+".join(t.__name__ for t in ts)
    return B


ALL = [ReturnTemp, InvertIf, Rename, Unroll, Args, Extract, ElseReturn, Join, LoopVar, Enum, Items, SelfAlias, Keywords, Lambdas, Aug, AndIf, IfExpStmt, Static, Hoist, CompToLoop, Formats, Unformat, Compare, Demorgan, While, ModuleFn, Super, SplitWith, TryElse, Annot, Sorted2, LoopToComp, Guard, EarlyReturn, Swap, LoopBody, MapList, Consts, Star, Expr]
ALL += [both(LoopToComp, Expr, Swap), both(Guard, LoopVar, Consts), both(LoopBody, Formats), both(CompToLoop, LoopBody), both(Extract, ReturnTemp, Args), both(ModuleFn, Rename, ElseReturn), both(CompToLoop, While), both(InvertIf, Demorgan, Unroll), both(SelfAlias, Keywords, Hoist), both(SplitWith, Args, IfExpStmt)]
CHECKS = ["C%02d" % i for i in range(1, 28)] + ["C31"]


def files():
    for r, _, fs in os.walk(os.path.join(REPO, "hadar")):
        for f in fs:
            if f.endswith(".py") and f != "__init__.py":
                yield os.path.relpath(os.path.join(r, f), REPO)


def rewritten(T, rel):
    src = open(os.path.join(REPO, rel)).read()
    a = ast.parse(src)
    before = ast.unparse(a)
    b = ast.fix_missing_locations(T().visit(a))
    after = ast.unparse(b)
    return None if after == before else after + "\n"


def one(job):
    T, rels = job
    d = tempfile.mkdtemp(prefix="hcauto")
    try:
        shutil.copytree(os.path.join(REPO, "hadar"), os.path.join(d, "hadar"))
        for rel in rels:
            open(os.path.join(d, rel), "w").write(rewritten(T, rel))
        out = []
        for c in CHECKS:
            p = subprocess.run([sys.executable, "-m", "hc.run", c], cwd=VERIF, env=dict(os.environ, HC_REPO=d, HC_OUT=os.path.join(d, "out")), capture_output=True, text=True)
            last = (p.stdout.strip().splitlines() or ["?"])
            if p.returncode or "undecided=0 " not in last[-1]:
                out.append((c, p.returncode, [x for x in last if x.strip().startswith(("violated", "UNDECIDED"))][:2] or last[-1:]))
        return T.__name__, rels, out
    finally:
        shutil.rmtree(d)


def main():
    want = sys.argv[1] if len(sys.argv) > 1 else ""
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    each = bool(sub) or os.environ.get("EACH")
    jobs = []
    for T in ALL:
        if want and want not in ("all", T.__name__):
            continue
        rels = [r for r in sorted(files()) if sub in r and rewritten(T, r) is not None]
        jobs += [(T, [r]) for r in rels] if each else [(T, rels)] if rels else []
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for name, rels, out in ex.map(one, jobs):
            for c, rc, lines in out:
                bad += rc != 0
                print("%s %s %s %s" % ("FAIL" if rc else "und ", name, rels[0] if len(rels) == 1 else "%d files" % len(rels), c))
                for l in lines:
                    print("      " + l[:400])
            sys.stdout.flush()
    print("%d rewrites, %d alarms" % (len(jobs), bad))


if __name__ == "__main__":
    main()
