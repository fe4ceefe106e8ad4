"""Source loader: modules, classes and functions of the analysed package (AST only)."""
import ast
import warnings
import os

from .scale import lower

SCALE = int(os.environ.get("HC_SCALE", "0"))


def parse(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(src, path)


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.defs = {}  # name -> last top-level binding node
        self.values = {}  # evaluated globals
        for st in _toplevel(tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.defs[al.asname] = ("mod", al.name)
                    else:
                        self.defs[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for al in st.names:
                    if al.name == "*":
                        self.defs.setdefault("*", []).append(base)
                    else:
                        self.defs[al.asname or al.name] = ("from", base, al.name)
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    for n in ast.walk(tg):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = ("assign", st, tg)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.defs[st.target.id] = ("assign", st, st.target)


def _toplevel(body):
    for st in body:
        yield st
        if isinstance(st, ast.If):
            for x in _toplevel(st.body + st.orelse):
                yield x
        elif isinstance(st, ast.Try):
            hs = [s for h in st.handlers for s in h.body]
            for x in _toplevel(hs + st.body + st.orelse + st.finalbody):
                yield x


class Class(object):
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual
        self.name = node.name
        self.methods = {}
        self.assigns = {}
        self.mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.assigns[st.target.id] = st.value


class Program(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.sizes = []  # sizes the code mentions (scale.py)
        pkg = os.path.join(root, "hadar")
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(path, encoding="utf-8") as h:
                    src = h.read()
                tree = parse(src, path)
                for fn, line, v in lower(rel, tree, SCALE or None):
                    self.sizes.append((os.path.relpath(path, root), fn, line, v))
                m = Module(rel, path, tree, src)
                self.modules[rel] = m
        for m in self.modules.values():
            for st in _toplevel(m.tree.body):
                if isinstance(st, ast.ClassDef):
                    q = m.name + "." + st.name
                    self.classes[q] = Class(m, st, q)

    def add(self, name, src):
        """a specification module, written in the analysed language"""
        if name not in self.modules:
            m = self.modules[name] = Module(name, name + ".py", parse(src, name), src)
            for st in _toplevel(m.tree.body):
                if isinstance(st, ast.ClassDef):
                    q = m.name + "." + st.name
                    self.classes[q] = Class(m, st, q)

    def resumed(self, c, module=None):
        """may some other slice of the same module take up where one ending at c stops?"""
        for m in ([module] if module is not None else self.modules.values()):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Slice) and n.lower is not None:
                    if isinstance(n.lower, ast.Constant):
                        if n.lower.value == c:
                            return True
                    elif isinstance(n.lower, (ast.Name, ast.Attribute)):
                        return True
        return False

    def functions(self):
        n = 0
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    n += 1
        return n

    def resolve(self, modname, name, depth=0):
        """resolve a global name to ('class',Class)|('func',Module,node)|('assign',..)|('ext',dotted)|('mod',name)"""
        if depth > 20:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name if modname else name)
        d = m.defs.get(name)
        if d is None:
            sub = modname + "." + name
            if sub in self.modules:
                return ("mod", sub)
            for b in m.defs.get("*", []):
                r = self.resolve(b, name, depth + 1)
                if r is not None and r[0] != "ext":
                    return r
            return None
        if isinstance(d, tuple):
            if d[0] == "mod":
                return ("mod", d[1])
            if d[0] == "from":
                base, nm = d[1], d[2]
                if base in self.modules:
                    r = self.resolve(base, nm, depth + 1)
                    if r is None and base + "." + nm in self.modules:
                        return ("mod", base + "." + nm)
                    return r
                if base + "." + nm in self.modules:
                    return ("mod", base + "." + nm)
                return ("ext", base + "." + nm)
            return ("assign", m, d[1], d[2])
        if isinstance(d, ast.ClassDef):
            return ("class", self.classes[m.name + "." + name])
        if isinstance(d, ast.FunctionDef):
            return ("func", m, d)
        return None

    def find_class(self, name):
        for q, c in self.classes.items():
            if q == name or c.name == name:
                return c
        return None

    def mro(self, cls):
        if cls.mro is not None:
            return cls.mro
        out = [cls]
        ext = []
        for b in cls.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            nm = b.id if isinstance(b, ast.Name) else None
            r = None
            if nm:
                r = self.resolve(cls.module.name, nm)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                rr = self.resolve(cls.module.name, b.value.id)
                if rr and rr[0] == "mod":
                    r = self.resolve(rr[1], b.attr)
            if r and r[0] == "class":
                for x in self.mro(r[1]):
                    if x in out:
                        out.remove(x)
                    out.append(x)
            elif r and r[0] == "ext":
                ext.append(r[1])
            elif nm and r is None:
                ext.append("builtins." + nm)
        cls.mro = out
        cls.ext_bases = ext + [e for c in out[1:] for e in getattr(c, "ext_bases", [])]
        return out

    def is_sub(self, cls, other):
        return other in self.mro(cls)

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and self.is_sub(c, cls)]
