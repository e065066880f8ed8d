"""Reads the real sources under /repo: modules, classes, functions, imports (all by AST)."""
import ast
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
import hashlib
import os

REPO = os.environ.get("CDMIR_REPO", "/repo")


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d))
        self.decorators = decs
        self.is_property = "property" in decs
        self.is_static = "staticmethod" in decs
        self.is_gen = has_yield(node)


def has_yield(node):
    stack = list(ast.iter_child_nodes(node))
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module, self.name = qual, node, module, node.name
        self.methods = {}
        self.attrs, self.nested = {}, {}
        for s in node.body:
            if isinstance(s, ast.ClassDef):
                self.nested[s.name] = ClassInfo(qual + "." + s.name, s, module)
            elif isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(qual + "." + s.name, s, module, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value


class Module:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        src = open(path, encoding="utf-8").read()
        self.src = src
        self.sha = hashlib.sha256(src.encode()).hexdigest()
        self.tree = ast.parse(src)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(self.name + "." + s.name, s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self.name + "." + s.name, s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = self.name.split(".")
                    pk = pk if self.is_pkg else pk[:-1]
                    pk = pk[:len(pk) - (s.level - 1)]
                    base = ".".join(pk + ([base] if base else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.Try):
                self._scan(s.body)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.extra_paths = [os.path.join(self.repo, "cdmir/discovery/funtional_based/LearningHierarchicalStructure")]

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = None
        for root in [self.repo] + self.extra_paths:
            p = os.path.join(root, *name.split("."))
            if os.path.isfile(p + ".py"):
                m = Module(name, p + ".py", False)
                break
            if os.path.isfile(os.path.join(p, "__init__.py")):
                m = Module(name, os.path.join(p, "__init__.py"), True)
                break
        self.mods[name] = m
        return m

    def resolve(self, mod, name, depth=0):
        """name in module -> ('func',FuncInfo) | ('class',ClassInfo) | ('const',mod,ast) | ('ext',dotted) | ('mod',name) | None"""
        if depth > 12:
            return None
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                if self.module(imp[1]) is not None:
                    return ("mod", imp[1])
                return ("ext", imp[1])
            base, nm = imp[1], imp[2]
            bm = self.module(base)
            if bm is None:
                sub = self.module(base + "." + nm)
                if sub is not None:
                    return ("mod", base + "." + nm)
                return ("ext", base + "." + nm)
            r = self.resolve(bm, nm, depth + 1)
            if r is None:
                sub = self.module(base + "." + nm)
                if sub is not None:
                    return ("mod", base + "." + nm)
            return r
        if name in mod.consts:
            return ("const", mod, mod.consts[name])
        return None

    def find(self, qual):
        """qualified name -> FuncInfo or ClassInfo"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                return m.funcs.get(rest[0]) or m.classes.get(rest[0])
            if len(rest) == 2 and rest[0] in m.classes:
                return m.classes[rest[0]].methods.get(rest[1])
        return None

    def mro(self, cls):
        """linear single-inheritance chain of repo classes"""
        out = []
        while cls is not None:
            out.append(cls)
            nxt = None
            for b in cls.node.bases:
                nm = b.id if isinstance(b, ast.Name) else None
                if nm:
                    r = self.resolve(cls.module, nm)
                    if r and r[0] == "class":
                        nxt = r[1]
                        break
            cls = nxt
        return out

    def bases_ext(self, cls):
        return [ast.unparse(b) for c in self.mro(cls) for b in c.node.bases]

    def method(self, cls, name, after=None):
        chain = self.mro(cls)
        if after is not None:
            idx = [i for i, c in enumerate(chain) if c.qual == after.qual]
            chain = chain[idx[0] + 1:] if idx else []
        for c in chain:
            if name in c.methods:
                return c.methods[name]
        return None
