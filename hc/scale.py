"""Sizes beyond the label universes.

The labelled tables have a few elements, scenarios and steps. Code that behaves differently from some larger size on contains
that size: as bound of a comparison, of a slice, of min/max, as a modulus or in a range. Such a program is analysed once more with
these bounds lowered into the universe (the same number everywhere in the function), where both sides of the bound occur.
Correct code does not depend on where such a bound lies.
"""
import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SKIP = ("hadar.optimizer.remote",)  # status codes
CLIPPING = {"min", "max", "minimum", "maximum", "clip", "head", "tail", "nlargest", "nsmallest", "islice"}
TOP = 2 ** 31 - 1


def number(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        n = n.operand
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return n.value
    return None


def named(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


def sized(n):
    """len(x), x.ndim, x.nlevels: number of parts of something that is not data"""
    return isinstance(n, ast.Call) and named(n.func) == "len" or isinstance(n, ast.Attribute) and n.attr in ("ndim", "nlevels")


def bounds(tree, least):
    """(node, smallest relevant value) of the places where a size may be written"""
    # a limit that refuses (depth of recursion, sanity of an argument) is where it is for a reason
    limits = {c for n in ast.walk(tree) if isinstance(n, ast.If) and isinstance(n.body[-1], ast.Raise) or isinstance(n, ast.Assert)
              for c in ast.walk(n.test)}
    for n in ast.walk(tree):
        if n in limits:
            continue
        if isinstance(n, ast.Compare):
            xs = [n.left] + n.comparators
            for i, op in enumerate(n.ops):
                a, b = xs[i], xs[i + 1]
                for x, y in ((a, b), (b, a)):
                    if number(y) is not None:
                        continue
                    if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        yield x, max(least, 6 if sized(y) else 3)
                    elif isinstance(op, (ast.Eq, ast.NotEq)):
                        yield x, max(least, 7)
        elif isinstance(n, ast.Subscript):
            for s in ast.walk(n.slice) if not isinstance(n.slice, ast.Slice) else [n.slice]:
                if isinstance(s, ast.Slice):
                    for x in (s.lower, s.upper, s.step):
                        if x is not None:
                            yield x, max(least, 7)
        elif isinstance(n, ast.Call):
            f = named(n.func)
            if f in CLIPPING:
                for x in n.args + [k.value for k in n.keywords]:
                    yield x, max(least, 3)
            elif f in ("range", "arange", "slice"):
                for x in n.args:
                    yield x, max(least, 8)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)) and number(n.left) is None:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
                yield n.right, max(least, 3)


class Lower(ast.NodeTransformer):
    def __init__(self, values, k):
        self.values, self.k = values, k

    def visit_Constant(self, n):
        if number(n) in self.values:
            return ast.copy_location(ast.Constant(type(n.value)(self.k)), n)
        return n


def lower(name, tree, k=None):
    """places in this module where a size is written; lowered to k when given"""
    if any(name == s or name.startswith(s + ".") for s in SKIP):
        return []
    least = 11 if name == "hadar.viewer.html" else 3
    tops = list(tree.body)
    fns = [n for n in ast.walk(tree) if isinstance(n, FN)]
    inner = {m for f in fns for m in ast.walk(f) if isinstance(m, FN) and m is not f}
    found, names = [], {}
    for f in [f for f in fns if f not in inner]:
        vals = set()
        for x, least_ in bounds(f, least):
            v = number(x)
            if v is not None and least_ <= v < TOP and not (least == 11 and v in (100, 255)):
                vals.add(v)
                found.append((f.name, x.lineno, v))
            elif named(x) is not None:
                names[named(x)] = max(least_, names.get(named(x), 0))
        if vals and k is not None:
            Lower(vals, k).visit(f)
    # sizes with a name: constants of the module, of a class, default arguments, locals
    for n in ast.walk(tree):
        pairs = []
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            pairs = [(named(n.targets[0]), n, "value")]
        elif isinstance(n, ast.AnnAssign):
            pairs = [(named(n.target), n, "value")]
        for nm, o, fld in pairs:
            v = number(getattr(o, fld)) if getattr(o, fld) is not None else None
            if nm in names and v is not None and names[nm] <= v < TOP:
                found.append((nm, n.lineno, v))
                if k is not None:
                    Lower({v}, k).visit(o)
        if isinstance(n, FN):
            a = n.args
            pos = a.posonlyargs + a.args
            for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
                v = number(d)
                if p.arg in names and v is not None and names[p.arg] <= v < TOP and isinstance(d, ast.Constant):
                    found.append((p.arg, n.lineno, v))
                    if k is not None:
                        d.value = type(d.value)(k)
    return found
