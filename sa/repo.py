"""Program model of /repo/dhg: modules, import bindings, classes with MRO, functions.

Only the syntax trees of the current working tree are read; nothing is imported or executed.
"""
import ast
import hashlib
import os

REPO = os.environ.get("DHG_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the rule relies on is gone: the analysis has no answer."""


class Func:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decos = []
        for d in getattr(node, "decorator_list", []):
            self.decos.append(ast.unparse(d.func if isinstance(d, ast.Call) else d))

    @property
    def qual(self):
        c = (self.cls.name + ".") if self.cls else ""
        return f"{self.module.name}.{c}{self.name}"

    @property
    def is_property(self):
        return any(d == "property" or d.endswith("abstractproperty") for d in self.decos)

    @property
    def is_setter(self):
        return any(d.endswith(".setter") for d in self.decos)

    @property
    def is_static(self):
        return any(d == "staticmethod" or d.endswith("abstractstaticmethod") for d in self.decos)

    @property
    def is_classmethod(self):
        return "classmethod" in self.decos

    @property
    def is_abstract(self):
        return any("abstract" in d for d in self.decos)

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    _scope = None

    def scope(self):
        """(names local to the function, names declared global)"""
        if self._scope is None:
            loc, glob = set(), set()

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        loc.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                        loc.add(c.id)
                    elif isinstance(c, ast.Global):
                        glob.update(c.names)
                    elif isinstance(c, ast.Nonlocal):
                        glob.update(c.names)
                    walk(c)
            if not isinstance(self.node, ast.Lambda):
                walk(self.node)
            self._scope = (frozenset(loc - glob), frozenset(glob))
        return self._scope

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, s, self)
                if f.is_setter:
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Cls {self.qual}>"


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg
        self.rel = os.path.relpath(path, REPO)
        self.tree = ast.parse(src, path)
        self.mutable = {n for x in ast.walk(self.tree) if isinstance(x, ast.Global) for n in x.names}  # rebound by functions
        self.defs = {}  # name -> ('func',Func)|('class',Cls)|('import',dotted)|('var',expr)
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = ("func", Func(self, s))
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", Cls(self, s))
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in import_bindings(s, self):
                    self.defs[k] = ("import", v)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("var", s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ("var", None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.defs[s.target.id] = ("var", s.value)
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)


def import_bindings(s, module):
    out = []
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out.append((a.asname, a.name))
            else:
                out.append((a.name.split(".")[0], a.name.split(".")[0]))
    else:
        base = s.module or ""
        if s.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            out.append((a.asname or a.name, base + "." + a.name if a.name != "*" else base + ".*"))
    return out


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        base = os.path.join(self.root, "dhg")
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} is missing")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if pkg else rel
                src = open(p, encoding="utf8").read()
                self.digest.update(rel.encode() + b"\0" + src.encode())
                m = Module(name, p, src, pkg)
                m.rel = os.path.relpath(p, self.root)
                self.modules[name] = m
        self._mro = {}

    # ---- name resolution --------------------------------------------------
    def resolve_dotted(self, dotted, seen=()):
        """('module',Module)|('func',Func)|('class',Cls)|('var',(Module,expr))|('ext',dotted)|None (missing in dhg)."""
        if dotted in seen:
            return None
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if not (dotted == "dhg" or dotted.startswith("dhg.")):
            return ("ext", dotted)
        head, _, tail = dotted.rpartition(".")
        r = self.resolve_dotted(head, seen + (dotted,)) if head else None
        if r is None:
            return None
        if r[0] == "module":
            return self.resolve_in(r[1], tail, seen + (dotted,))
        if r[0] == "ext":
            return ("ext", r[1] + "." + tail)
        if r[0] == "class":
            f = self.lookup(r[1], tail)
            return ("func", f) if f else None
        return None

    def resolve_in(self, module, name, seen=()):
        d = module.defs.get(name)
        if d is None:
            sub = module.name + "." + name
            if sub in self.modules:
                return ("module", self.modules[sub])
            for k, v in module.defs.items():
                if v[0] == "import" and v[1].endswith(".*"):
                    r = self.resolve_dotted(v[1][:-2] + "." + name, seen)
                    if r is not None:
                        return r
            return None
        if d[0] == "import":
            if d[1].endswith(".*"):
                return None
            return self.resolve_dotted(d[1], seen)
        if d[0] == "var":
            return ("var", (module, d[1]))
        return d

    # ---- classes ----------------------------------------------------------
    def cls(self, name):
        """A class by bare name or dotted name; AnalysisBroken when it vanished."""
        if "." in name:
            r = self.resolve_dotted(name)
            if r and r[0] == "class":
                return r[1]
        for m in self.modules.values():
            d = m.defs.get(name)
            if d and d[0] == "class":
                return d[1]
        raise AnalysisBroken(f"class {name} not found")

    def has_cls(self, name):
        try:
            return self.cls(name)
        except AnalysisBroken:
            return None

    def func(self, dotted):
        r = self.resolve_dotted(dotted)
        if r and r[0] == "func":
            return r[1]
        raise AnalysisBroken(f"function {dotted} not found")

    def bases(self, c):
        out = []
        for b in c.node.bases:
            try:
                parts = ast.unparse(b).split(".")
            except Exception:
                continue
            r = self.resolve_in(c.module, parts[0])
            for p in parts[1:]:
                if r is None:
                    break
                if r[0] == "module":
                    r = self.resolve_in(r[1], p)
                elif r[0] == "ext":
                    r = ("ext", r[1] + "." + p)
            if r and r[0] == "class":
                out.append(r[1])
            else:
                out.append(r[1] if r and r[0] == "ext" else ".".join(parts))
        return out

    def mro(self, c):
        if c in self._mro:
            return self._mro[c]
        out = [c]
        for b in self.bases(c):
            if isinstance(b, Cls):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        self._mro[c] = out
        return out

    def lookup(self, c, name, after=None, setter=False):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if isinstance(k, Cls):
                if setter and name in k.setters:
                    return k.setters[name]
                if name in k.methods and not setter:
                    return k.methods[name]
                if setter and name in k.methods:
                    return None  # overriding definition hides an inherited setter
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def method(self, clsname, name):
        c = self.cls(clsname) if isinstance(clsname, str) else clsname
        f = self.lookup(c, name)
        if f is None:
            raise AnalysisBroken(f"method {c.name}.{name} not found")
        return f

    def ext_bases(self, c):
        return [x for x in self.mro(c) if not isinstance(x, Cls)]

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for d in m.defs.values():
                if d[0] == "class" and d[1] is not c and c in self.mro(d[1]):
                    out.append(d[1])
        return out

    def all_classes(self):
        for m in self.modules.values():
            for d in m.defs.values():
                if d[0] == "class":
                    yield d[1]

    def all_funcs(self):
        """Every function and method, nested ones excluded."""
        for m in self.modules.values():
            for d in m.defs.values():
                if d[0] == "func":
                    yield d[1]
                elif d[0] == "class":
                    yield from d[1].methods.values()
                    yield from d[1].setters.values()
