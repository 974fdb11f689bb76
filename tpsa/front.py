"""Front end: parse the package, resolve names to modules, functions, classes."""
import ast
import warnings

warnings.simplefilter("ignore", SyntaxWarning)
import os

from .terms import mk

REPO = os.environ.get("TRUSSPY_REPO", "/repo")


class FrontError(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.defs = {}  # name -> ('func',node)|('class',node)|('import',mod,attr)|('assign',expr)|('multi',)
        self.is_pkg = path.endswith("__init__.py")


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "src", "trusspy")
        self.modules = {}
        self.nodes = {}
        self.node_mod = {}
        self.funcs = {}
        self.classes = {}
        if not os.path.isdir(self.root):
            raise FrontError("package directory %s not found" % self.root)
        for dp, dn, fn in os.walk(self.root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            self._scan(m)

    def _load(self, path):
        rel = os.path.relpath(path, os.path.dirname(self.root))[:-3]
        name = rel.replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[: -len(".__init__")]
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree, src)
        self.modules[name] = m
        for i, n in enumerate(ast.walk(tree)):
            n._tid = "%s#%d" % (name, i)
            n._mod = m
            self.nodes[n._tid] = n
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n

    def add_source(self, name, path):
        """a module of reference formulas (analysed, never imported by the package)"""
        if name in self.modules:
            return self.modules[name]
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree, src)
        self.modules[name] = m
        for i, n in enumerate(ast.walk(tree)):
            n._tid = "%s#%d" % (name, i)
            n._mod = m
            self.nodes[n._tid] = n
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self._scan(m)
        return m

    def _scan(self, m):
        self._scan_block(m, m.tree.body)

    def _scan_block(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                m.defs[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.defs[a.asname] = ("import", a.name, None)
                    else:
                        top = a.name.split(".")[0]
                        m.defs[top] = ("import", top, None)
            elif isinstance(s, ast.ImportFrom):
                base = self._resolve_from(m, s)
                for a in s.names:
                    if a.name == "*":
                        m.defs.setdefault("*", []).append(base) if isinstance(m.defs.get("*"), list) else m.defs.__setitem__("*", [base])
                    else:
                        m.defs[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ("assign", s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.defs[e.id] = ("assigni", s.value, k)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.defs[s.target.id] = ("assign", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan_block(m, s.body)
                for h in getattr(s, "handlers", []):
                    self._scan_block(m, h.body)
                self._scan_block(m, getattr(s, "orelse", []))

    def _resolve_from(self, m, s):
        if s.level == 0:
            return s.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[: -up]
        return ".".join(parts + ([s.module] if s.module else []))

    # ---- name resolution -------------------------------------------------
    def lookup(self, modname, name, seen=()):
        """-> ('func',node) | ('class',node) | ('mod',Module) | ('ext',dotted) | ('assign',module,expr) | None"""
        if (modname, name) in seen:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        d = m.defs.get(name)
        if d is None or name == "*":
            sub = self.modules.get(modname + "." + name)
            if sub is not None:
                return ("mod", sub)
            for b in m.defs.get("*", []) or []:
                r = self.lookup(b, name, seen + ((modname, name),))
                if r is not None:
                    return r
            return None
        if d[0] in ("func", "class"):
            return d
        if d[0] in ("assign", "assigni"):
            return (d[0], m, name) + tuple(d[1:])
        _, base, attr = d
        if attr is None:
            if base in self.modules:
                return ("mod", self.modules[base])
            return ("ext", base)
        if base in self.modules:
            return self.lookup(base, attr, seen + ((modname, name),))
        if base.split(".")[0] == "trusspy":
            return ("missing", base + "." + attr)
        return ("ext", base + "." + attr)

    def public(self, dotted):
        """Resolve trusspy.a.b.Name -> definition"""
        mod, name = dotted.rsplit(".", 1)
        return self.lookup(mod, name)

    def cls_methods(self, node):
        return {s.name: s for s in node.body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))}

    def cls_bases(self, node):
        out = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                d = self.lookup(node._mod.name, b.id)
                if d and d[0] == "class":
                    out.append(d[1])
        return out

    def find_method(self, node, name):
        ms = self.cls_methods(node)
        if name in ms:
            return ms[name]
        for b in self.cls_bases(node):
            r = self.find_method(b, name)
            if r is not None:
                return r
        return None

    def qual(self, node):
        names = []
        n = node
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.append(n.name)
            n = getattr(n, "_parent", None)
        return node._mod.name + "." + ".".join(reversed(names))


def where(prog, node):
    m = getattr(node, "_mod", None)
    if m is None:
        return "?"
    return "%s:%d" % (os.path.relpath(m.path, prog.repo), getattr(node, "lineno", 0))


def funcT(node):
    return mk("func", node._tid)


def clsT(node):
    return mk("cls", node._tid)
