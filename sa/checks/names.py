"""W01 names and calls resolve, W02 exports, W04 documented arguments and defaults."""
import ast
import builtins
import os
import re

from ..ext import Ext
from ..repo import Cls, Func, Module, import_bindings

INFO = {
    "W01": dict(
        technique="scope, import and attribute resolution plus call-signature binding over the whole program, with flow-insensitive class inference and a may-assigned dataflow for locals; third-party sources are parsed, not imported",
        note="every name load, import, self/module/class attribute and statically resolvable call of the package is an obligation; the receiver class of an attribute is inferred from constructors, annotations and class-level assignments",
        explanation="Every reference of the package is resolved against the definitions in the current tree (and the installed third-party sources); calls whose target is known are bound to the target's signature, self-calls once per concrete subclass.",
        assumptions=["attributes of values whose class cannot be inferred are only required to be spelled like some known attribute", "names created reflectively (setattr, globals) are taken to exist"],
    ),
    "W02": dict(
        technique="resolution of every export list and of every documented API entry against the module bindings, with identity of the definition they lead to",
        note="obligations are the strings of every __all__ and the dhg.* names in the API documentation",
        explanation="Each exported string and each documented name is followed through the import bindings to a definition; the definition has to carry the exported name, and a documented member of a package with an export list has to be in the list.",
        assumptions=["the API pages under docs/source/api are the documented interface"],
    ),
    "W04": dict(
        technique="comparison of every documented argument and default value with the signature in the syntax tree",
        note="obligations are the argument entries of the docstrings of public, non-abstract functions and methods",
        explanation="Every argument named in a docstring has to be accepted by the signature and, where the docstring states its default, omitting it has to yield that value (directly or through an is-None replacement at the start of the body).",
        assumptions=["entries without a stated literal default impose nothing on the default"],
    ),
}

EXT = Ext()
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__path__", "__package__", "__spec__", "__builtins__"}
KNOWN_DECOS = ("staticmethod", "classmethod", "abc.abstractmethod", "abstractmethod", "abc.abstractstaticmethod", "torch.no_grad", "torch.inference_mode", "torch.enable_grad", "functools.wraps", "wraps")


def all_functions(repo):
    """(Func, outer chain) for every function, method, nested function and lambda of the package."""
    for f in repo.all_funcs():
        yield f


# ---- signatures ---------------------------------------------------------------------
def bind(node, npos, kws, star, dstar, skip):
    """None when the call can bind, else the reason."""
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ponly = {x.arg for x in a.posonlyargs}
    req = [x.arg for x in a.posonlyargs + a.args]
    req = req[: len(req) - len(a.defaults)][skip:]
    kwo = [x.arg for x in a.kwonlyargs]
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    if npos > len(pos) and not a.vararg:
        return f"{npos} positional arguments for {len(pos)}"
    taken = set(pos[:npos])
    for k in kws:
        if k in taken:
            return f"argument {k} given twice"
        if (k not in pos or k in ponly) and k not in kwo and not a.kwarg:
            return f"no argument named {k}"
    if not star and not dstar:
        for k in req:
            if k not in taken and k not in kws:
                return f"argument {k} missing"
    if not dstar:
        for k in kreq:
            if k not in kws:
                return f"argument {k} missing"
    return None


def call_shape(c):
    npos = sum(1 for x in c.args if not isinstance(x, ast.Starred))
    star = any(isinstance(x, ast.Starred) for x in c.args)
    kws = [k.arg for k in c.keywords if k.arg]
    return npos, kws, star, any(k.arg is None for k in c.keywords)


# ---- classes --------------------------------------------------------------------------
class Classes:
    def __init__(self, repo):
        self.repo = repo
        self._inst = {}
        self._sub = {}
        self._field = {}

    def subs(self, c):
        if c not in self._sub:
            self._sub[c] = self.repo.subclasses(c)
        return self._sub[c]

    def own(self, c):
        """(attribute names defined or stored by the class itself, dynamic?)"""
        if c in self._inst:
            return self._inst[c]
        out, dyn = set(c.methods) | set(c.setters) | set(c.attrs), False
        for n in ast.walk(c.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call):
                fn = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                if fn in ("setattr", "register_buffer", "register_parameter", "add_module", "register_module", "__setattr__"):
                    arg = n.args[1] if fn == "setattr" and len(n.args) > 1 else n.args[0] if n.args else None
                    if isinstance(arg, ast.Constant):
                        out.add(arg.value)
                    else:
                        dyn = True
            elif isinstance(n, ast.Attribute) and n.attr == "__dict__":
                dyn = True
            elif isinstance(n, ast.Name) and n.id in ("vars", "setattr"):
                dyn = dyn or n.id == "vars"
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            dyn = True
        self._inst[c] = (out, dyn)
        return self._inst[c]

    def has(self, c, name, down=True):
        """Can an instance of c (or of a subclass) have the attribute?  True / False."""
        if name in ("__class__", "__dict__", "__doc__", "__module__", "__name__") or name in dir(object):
            return True
        for k in self.repo.mro(c):
            if isinstance(k, Cls):
                o, dyn = self.own(k)
                if name in o or dyn:
                    return True
            else:
                if k in ("object",):
                    continue
                r = EXT.resolve(k)
                if not r or r[0] != "class":
                    return True
                names, ok = EXT.attrs(r[1])
                if name in names or not ok:
                    return True
        if down:
            return any(self.has(s, name, False) for s in self.subs(c))
        return False

    def concrete(self, c):
        """c and its subclasses that have no abstract method left."""
        out = []
        for k in [c] + self.subs(c):
            names = {n for m in self.repo.mro(k) if isinstance(m, Cls) for n in m.methods}
            if not any(self.repo.lookup(k, n).is_abstract for n in names):
                out.append(k)
        return out

    def init(self, c):
        """The constructor: Func, None (no arguments) or 'ext'."""
        for k in self.repo.mro(c):
            if isinstance(k, Cls):
                for n in ("__new__", "__init__"):
                    if n in k.methods:
                        return k.methods[n]
                if any(ast.unparse(d).split("(")[0].endswith("dataclass") for d in k.node.decorator_list):
                    return "ext"
            elif k not in ("object", "abc.ABC"):
                r = EXT.resolve(k)
                if r and r[0] == "class":
                    f = EXT.lookup(r[1], "__init__")
                    if f is not None:
                        return f
                return "ext"
        return None


# ---- one function -----------------------------------------------------------------------
class Scope:
    """Name resolution for one module / function nest, with the inferred classes of locals."""

    def __init__(self, chk, cl, module, cls=None):
        self.chk, self.repo, self.cl, self.module, self.cls = chk, chk.repo, cl, module, cls


def plain_decos(f):
    return all(d in KNOWN_DECOS or d == "property" or d.endswith(".setter") for d in f.decos)


def annot_classes(repo, module, node):
    """The package classes an annotation names: (set, complete?)"""
    if node is None:
        return set(), False
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        try:
            node = ast.parse(node.value, mode="eval").body
        except SyntaxError:
            return set(), False
    if isinstance(node, ast.Constant) and node.value is None:
        return set(), True
    if isinstance(node, ast.Subscript):
        h = ast.unparse(node.value).split(".")[-1]
        if h in ("Union", "Optional"):
            els = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            out, ok = set(), True
            for e in els:
                s, k = annot_classes(repo, module, e)
                out |= s
                ok = ok and k
            return out, ok
        return set(), False
    if isinstance(node, (ast.Name, ast.Attribute)):
        parts = ast.unparse(node).split(".")
        r = repo.resolve_in(module, parts[0])
        if r is None and parts[0] == "dhg":
            r = ("module", repo.modules["dhg"])
        if r is None and len(parts) == 1 and repo.has_cls(parts[0]):
            return {repo.cls(parts[0])}, True
        for p in parts[1:]:
            if r and r[0] == "module":
                r = repo.resolve_in(r[1], p)
            else:
                r = None
        if r and r[0] == "class":
            return {r[1]}, True
    return set(), False


class Walker:
    def __init__(self, chk, cl):
        self.chk, self.repo, self.cl = chk, chk.repo, cl
        self.n = dict(names=0, imports=0, attrs=0, calls=0)
        self.dhg_names = None

    # -- reporting
    def bad(self, rule, what, module, node, msg):
        self.chk.finding(rule, what, f"{module.rel}:{getattr(node, 'lineno', 0)}", msg)

    def ok(self, kind):
        self.n[kind] += 1
        self.chk.obl += 1
        self.chk.ok += 1

    # -- driver
    def module(self, m):
        self.fn = "<module>"
        self.scopes = []  # list of (names: set, types: dict)
        self.cls = None
        self.m = m
        self.selfname = None
        for s in m.tree.body:
            self.stmt_top(s)

    def stmt_top(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.func(s, None)
        elif isinstance(s, ast.ClassDef):
            self.klass(s)
        else:
            self.visit(s)

    def klass(self, node):
        c = None
        d = self.m.defs.get(node.name)
        if d and d[0] == "class" and d[1].node is node:
            c = d[1]
        for x in node.decorator_list + node.bases + [k.value for k in node.keywords]:
            self.visit(x)
        body = {n for s in node.body for n in stored(s)}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = None
                if c is not None:
                    f = next((x for x in list(c.methods.values()) + list(c.setters.values()) if x.node is s), None)
                for x in s.decorator_list:
                    self.scopes.append((body | set(c.setters if c else ()), {}))
                    self.visit(x)
                    self.scopes.pop()
                self.func(s, c, f)
            else:
                self.scopes.append((body, {}))
                self.visit(s)
                self.scopes.pop()

    def func(self, node, cls, f=None):
        a = node.args
        outer = (self.fn, self.cls, self.selfname)
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        if not self.scopes:
            for x in getattr(node, "decorator_list", []) if cls is None else []:
                self.visit(x)
            self.cls = cls
            self.fn = f"{cls.name}.{node.name}" if cls else node.name
            static = f is not None and f.is_static
            ps = [x.arg for x in a.posonlyargs + a.args]
            self.selfname = ps[0] if cls is not None and ps and not static and not (f and f.is_classmethod) else None
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        params = set(names)
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        loc = set()
        glob = {n for s in body for x in ast.walk(s) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for s in body:
            loc |= stored(s)
        names |= loc - glob
        types = self.infer(node, params, body)
        self.scopes.append((names, types))
        for s in body:
            self.visit(s)
        if isinstance(node.body, list):
            may(self, body, set(params), loc - glob - params)
        self.scopes.pop()
        self.fn, self.cls, self.selfname = outer

    # -- class inference
    def infer(self, node, params, body):
        types = {}
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s, ok = annot_classes(self.repo, self.m, x.annotation)
            if s and ok:
                types[x.arg] = s
        if self.selfname and self.cls is not None and not self.scopes:
            types[self.selfname] = {self.cls}
        assigns = {}
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            assigns.setdefault(t.id, []).append(n.value)
                        else:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                    assigns.setdefault(x.id, []).append(None)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    assigns.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                    assigns.setdefault(n.target.id, []).append(None)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            assigns.setdefault(x.id, []).append(None)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    for x in ast.walk(n.optional_vars):
                        if isinstance(x, ast.Name):
                            assigns.setdefault(x.id, []).append(None)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    for x in n.args.args + n.args.kwonlyargs:
                        assigns.setdefault(x.arg, []).append(None)
        self.scopes.append((set(params), types))
        for _ in range(2):
            for k, vs in assigns.items():
                if k in params and k not in types:
                    continue
                out, good = set(types.get(k, ())) if k in params else set(), True
                for v in vs:
                    t = self.typ(v) if v is not None else None
                    if t is None:
                        good = False
                        break
                    out |= t
                if good and out:
                    types[k] = out
                elif k in types:
                    del types[k]
        self.scopes.pop()
        return types

    def typ(self, e):
        """Set of package classes the expression is an instance of, None when unknown."""
        if isinstance(e, ast.Name):
            for names, types in reversed(self.scopes):
                if e.id in names or e.id in types:
                    return types.get(e.id)
            return None
        if isinstance(e, ast.Call):
            r = self.target(e.func)
            if r is None:
                return None
            kind, x = r[0], r[1]
            if kind == "class":
                return {x}
            if kind == "func" and isinstance(x, Func) and not (x.module.name not in self.repo.modules):
                s, ok = annot_classes(self.repo, x.module, x.node.returns)
                return s if s and ok else None
            return None
        if isinstance(e, ast.IfExp):
            p, q = self.typ(e.body), self.typ(e.orelse)
            return p | q if p and q else None
        if isinstance(e, ast.Attribute):
            t = self.typ(e.value)
            if t and all(isinstance(c, Cls) for c in t):
                out = set()
                for c in t:
                    f = self.repo.lookup(c, e.attr)
                    if f is not None and f.is_property:
                        s, ok = annot_classes(self.repo, f.module, f.node.returns)
                        if not (s and ok):
                            return None
                        out |= s
                    else:
                        s = self.field(c, e.attr)
                        if not s:
                            return None
                        out |= s
                return out or None
        return None

    def field(self, c, name):
        """Classes of a field whose every assignment in the class constructs a package object."""
        key = (c, name)
        if key in self.cl._field:
            return self.cl._field[key]
        self.cl._field[key] = None
        out = set()
        for k in self.repo.mro(c) + self.cl.subs(c):
            if not isinstance(k, Cls):
                continue
            for n in ast.walk(k.node):
                tgt = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tgt:
                    if isinstance(t, ast.Attribute) and t.attr == name:
                        v = n.value if not isinstance(n, ast.AugAssign) else None
                        r = None
                        if isinstance(v, ast.Call):
                            r = self.static(k.module, v.func)
                        if not r or r[0] != "class":
                            return None
                        out.add(r[1])
                    elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(t)):
                        return None
        self.cl._field[key] = out or None
        return self.cl._field[key]

    def static(self, module, e):
        """Resolve a dotted expression through module bindings only."""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        r = self.repo.resolve_in(module, e.id)
        for p in reversed(parts):
            if r is None:
                return None
            if r[0] == "module":
                r = self.repo.resolve_in(r[1], p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            elif r[0] == "class":
                f = self.repo.lookup(r[1], p)
                r = ("func", f, r[1]) if f else None
            else:
                return None
        return r

    def is_local(self, name):
        return any(name in names for names, _ in self.scopes)

    def local_import(self, name):
        return None

    def target(self, e):
        """What a callee expression denotes: ('class', Cls) / ('func', Func, bound class or None) / ('ext', dotted) / None."""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not self.is_local(root.id):
            return self.static(self.m, e)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and not e.value.args and self.cls is not None:
                for k in self.repo.mro(self.cls)[1:]:
                    if isinstance(k, Cls):
                        if e.attr in k.methods:
                            return ("func", k.methods[e.attr], "bound")
                    elif k not in ("object", "abc.ABC"):
                        r = EXT.resolve(k)
                        f = EXT.lookup(r[1], e.attr) if r and r[0] == "class" else None
                        return ("func", f, "bound") if f is not None else None
                return None
            t = self.typ(e.value)
            if t and len(t) >= 1:
                fs = {self.repo.lookup(c, e.attr) for c in t}
                if len(fs) == 1 and None not in fs:
                    return ("func", fs.pop(), "bound")
        return None

    # -- expressions
    def visit(self, n):
        m = getattr(self, "v_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def v_FunctionDef(self, n):
        for x in n.decorator_list:
            self.visit(x)
        self.func(n, None)

    v_AsyncFunctionDef = v_FunctionDef

    def v_Lambda(self, n):
        self.scopes.append((set(), {}))  # never a method
        self.func(n, None)
        self.scopes.pop()

    def v_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.scopes.append(({x for t in n.body for x in stored(t)}, {}))
                self.func(s, None)
                self.scopes.pop()
            else:
                self.visit(s)

    def comp(self, n):
        names = set()
        for g in n.generators:
            names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.scopes.append((names, {}))
        for c in ast.iter_child_nodes(n):
            self.visit(c)
        self.scopes.pop()

    v_ListComp = v_SetComp = v_DictComp = v_GeneratorExp = comp

    def v_AnnAssign(self, n):
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)

    def v_arguments(self, n):
        pass

    def v_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            return
        if self.is_local(n.id) or n.id in BUILTINS:
            self.ok("names")
            return
        d = self.m.defs.get(n.id)
        if d is not None or self.repo.resolve_in(self.m, n.id) is not None or module_stores(self.m, n.id):
            self.ok("names")
            return
        for v in self.m.defs.values():
            if v[0] == "import" and v[1].endswith(".*") and not v[1].startswith("dhg."):
                self.ok("names")
                return
        self.bad("R1", f"{self.m.name}:{self.fn}/name {n.id}", self.m, n, f"the name {n.id} is not bound in any enclosing scope, the module or the builtins: NameError when this line runs")

    def imp(self, n):
        for k, dotted in import_bindings(n, self.m):
            star = dotted.endswith(".*")
            t = dotted[:-2] if star else dotted
            if isinstance(n, ast.Import):
                t = next(a.name for a in n.names if (a.asname or a.name.split(".")[0]) == k)
            if t == "dhg" or t.startswith("dhg."):
                if self.repo.resolve_dotted(t) is None:
                    self.bad("R2", f"{self.m.name}:{self.fn}/import {t}", self.m, n, f"{t} does not exist in the package: ImportError")
                    continue
            else:
                head = t if isinstance(n, ast.Import) or star else t.rpartition(".")[0]
                if EXT.exists(head.split(".")[0]) is False and not guarded(self.m, n):
                    self.bad("R2", f"{self.m.name}:{self.fn}/import {t}", self.m, n, f"module {head} is not installed")
                    continue
                if not EXT.known(t):
                    self.bad("R2", f"{self.m.name}:{self.fn}/import {t}", self.m, n, f"no source of {t.split('.')[0]} mentions {t}")
                    continue
            self.ok("imports")

    v_Import = v_ImportFrom = imp

    def v_Attribute(self, n):
        self.visit(n.value)
        if not isinstance(n.ctx, ast.Load):
            return
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not self.is_local(root.id):
            r = self.static(self.m, n.value)
            if r is not None:
                if r[0] == "module":
                    if self.repo.resolve_in(r[1], n.attr) is None and not module_stores(r[1], n.attr) and n.attr not in BUILTINS and "__getattr__" not in r[1].defs:
                        self.bad("R3", f"{self.m.name}:{self.fn}/attribute {ast.unparse(n)}", self.m, n, f"module {r[1].name} has no {n.attr}: AttributeError when this line runs")
                        return
                    self.ok("attrs")
                    return
                if r[0] == "class":
                    if not self.cl.has(r[1], n.attr) and n.attr not in ("__name__", "__mro__", "__subclasses__", "__qualname__", "__bases__", "mro"):
                        self.bad("R3", f"{self.m.name}:{self.fn}/attribute {ast.unparse(n)}", self.m, n, f"class {r[1].name} has no {n.attr}")
                        return
                    self.ok("attrs")
                    return
                if r[0] == "ext":
                    if EXT.resolve(r[1]) is None and EXT.exists(r[1]) is not True and r[1].count(".") > 0 and not EXT.known(r[1]):
                        return  # reported at the prefix
                    if not EXT.known(r[1] + "." + n.attr):
                        self.bad("R3", f"{self.m.name}:{self.fn}/attribute {ast.unparse(n)}", self.m, n, f"no source of {r[1].split('.')[0]} mentions {n.attr}")
                        return
                    self.ok("attrs")
                    return
        t = self.typ(n.value)
        if t:
            lack = [c for c in t if not self.cl.has(c, n.attr)]
            if len(lack) == len(t):
                self.bad("R3", f"{self.m.name}:{self.fn}/attribute .{n.attr} of {'/'.join(sorted(c.name for c in t))}", self.m, n, f"neither {lack[0].name} nor any of its bases or subclasses defines {n.attr}: AttributeError when this line runs")
                return
            self.ok("attrs")
            return
        if not self.spelled(n.attr):
            self.bad("R3", f"{self.m.name}:{self.fn}/attribute .{n.attr}", self.m, n, f"nothing in the package or in the libraries it imports is called {n.attr}")
            return
        self.ok("attrs")

    def spelled(self, name):
        if self.dhg_names is None:
            s = set()
            for m in self.repo.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        s.add(x.name)
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        s.add(x.attr)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        s.add(x.id)
            for t in (str, list, dict, set, tuple, int, float, bytes, object, type(open), type(lambda: 0), BaseException, frozenset):
                s |= set(dir(t))
            self.dhg_names = s
            self.tops = sorted({v[1].split(".")[0] for m in self.repo.modules.values() for v in m.defs.values() if v[0] == "import" and not v[1].startswith("dhg")})
        if name in self.dhg_names or any(EXT.mentions(t, name) for t in self.tops):
            return True
        # a package of the same distribution (matplotlib ships mpl_toolkits) may define it
        return any(EXT.mentions(t, name) for t in EXT.siblings(self.tops))

    def v_Call(self, n):
        for c in ast.iter_child_nodes(n):
            self.visit(c)
        shape = call_shape(n)
        # self.method(...): once per concrete class
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == self.selfname and self.cls is not None and self.typ(n.func.value) == {self.cls}:
            ks = self.cl.concrete(self.cls) or [self.cls]
            done = set()
            for k in ks:
                if self.repo.lookup(k, self.method_name()) is not None and not self.reaches(k):
                    continue
                f = self.repo.lookup(k, n.func.attr)
                if f is None or f in done:
                    continue
                done.add(f)
                self.check_call(n, f, shape, "bound")
            return
        r = self.target(n.func)
        if r is None:
            t = self.typ(n.func)
            if t:
                for c in t:
                    f = self.repo.lookup(c, "__call__") or (self.repo.lookup(c, "forward") if any("Module" in str(b) for b in self.repo.ext_bases(c)) else None)
                    if f is not None:
                        self.check_call(n, f, shape, "bound")
            return
        if r[0] == "class":
            f = self.cl.init(r[1])
            if f is None:
                if shape[0] or shape[1]:
                    self.bad("R4", f"{self.m.name}:{self.fn}/call {r[1].name}", self.m, n, f"{r[1].name} takes no arguments")
                else:
                    self.ok("calls")
            elif f != "ext":
                self.check_call(n, f, shape, "bound", r[1].name)
        elif r[0] == "func":
            bound = r[2] if len(r) > 2 else None
            self.check_call(n, r[1], shape, bound)
        elif r[0] == "ext":
            x = EXT.resolve(r[1])
            if x and x[0] == "func" and not x[1].decos:
                self.check_call(n, x[1], shape, None)
            elif x and x[0] == "class" and not x[1].node.decorator_list and not x[1].node.keywords:
                cs, ok = EXT.mro(x[1])
                f = EXT.lookup(x[1], "__init__")
                if f is not None and ok and not any("__new__" in c.methods or c.node.keywords or c.node.decorator_list for c in cs) and not f.decos:
                    self.check_call(n, f, shape, "bound", x[1].name)

    def method_name(self):
        return self.fn.split(".")[-1]

    def reaches(self, k):
        """Does class k run the current method (own or inherited, or through super)?"""
        f = self.repo.lookup(k, self.method_name())
        if f is not None and f.cls is self.cls:
            return True
        for x in self.repo.mro(k):
            if isinstance(x, Cls) and x is not self.cls and self.method_name() in x.methods:
                if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for y in ast.walk(x.methods[self.method_name()].node)):
                    return True
        return False

    def check_call(self, n, f, shape, bound, name=None):
        if f is None or not isinstance(f, Func) or f.is_property or not plain_decos(f):
            return
        skip = 0
        if f.cls is not None and not f.is_static:
            if f.is_classmethod or bound == "bound" or f.name in ("__init__", "__new__"):
                skip = 1
                if f.name == "__init__" and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and bound != "bound":
                    skip = 0  # Base.__init__(self, ...)
        why = bind(f.node, *shape, skip)
        if why:
            what = name or (f"{f.cls.name}.{f.name}" if f.cls else f.name)
            self.bad("R4", f"{self.m.name}:{self.fn}/call {what}: {why}", self.m, n, f"the signature at {f.module.rel}:{f.node.lineno} does not accept this call: TypeError when this line runs")
        else:
            self.ok("calls")


def guarded(m, node):
    """Inside a try statement that catches ImportError (or anything)?"""
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(x is node for s in t.body for x in ast.walk(s)):
            return True
    return False


def module_stores(m, name):
    """Bound at module level by a statement the binding table does not list (for, with, augmented …) or by a global statement."""
    if not hasattr(m, "_all_stores"):
        s = set()
        for st in m.tree.body:
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                s |= stored(st)
        m._all_stores = s | {n for x in ast.walk(m.tree) if isinstance(x, ast.Global) for n in x.names}
    return name in m._all_stores


def stored(s):
    """Names a statement binds in the scope it stands in."""
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            go(c)
    go(s)
    return out


# ---- may-assigned dataflow ----------------------------------------------------------------
def may(w, body, cur, local):
    """Reports loads of a local that no assignment can reach on any path."""
    def loads(e, cur):
        if e is None:
            return
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                cur = cur | own
            if isinstance(n, ast.NamedExpr):
                cur.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in cur:
                w.bad("R1", f"{w.m.name}:{w.fn}/local {n.id}", w.m, n, f"no assignment to {n.id} reaches this use on any path: UnboundLocalError when this line runs")
            stack.extend(ast.iter_child_nodes(n))

    def block(stmts, cur):
        for s in stmts:
            cur = stmt(s, cur)
            if cur is None:
                return None
        return cur

    def join(*cs):
        cs = [c for c in cs if c is not None]
        return set().union(*cs) if cs else None

    def allst(stmts):
        out = set()
        for s in stmts:
            out |= stored(s)
        return out

    def stmt(s, cur):
        cur = set(cur)
        if isinstance(s, ast.If):
            loads(s.test, cur)
            return join(block(s.body, cur), block(s.orelse, cur))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            loads(s.iter, cur)
            inner = cur | allst(s.body) | stored_t(s.target)
            block(s.body, inner)
            r = block(s.orelse, inner) if s.orelse else inner
            return join(r, inner)
        if isinstance(s, ast.While):
            inner = cur | allst(s.body)
            loads(s.test, inner)
            block(s.body, inner)
            return join(block(s.orelse, inner) if s.orelse else inner, inner)
        if isinstance(s, ast.Try):
            b = block(s.body, cur)
            mid = cur | allst(s.body)
            outs = [block(s.orelse, b) if b is not None else None]
            for h in s.handlers:
                outs.append(block(h.body, mid | ({h.name} if h.name else set())))
            out = join(*outs)
            if s.finalbody:
                f = block(s.finalbody, mid | set().union(*[o for o in outs if o is not None]) if any(o is not None for o in outs) else mid)
                if out is not None and f is not None:
                    out |= f
                elif f is None:
                    out = None
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                loads(i.context_expr, cur)
                if i.optional_vars is not None:
                    cur |= stored_t(i.optional_vars)
            return block(s.body, cur)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                loads(c, cur)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Delete):
            loads(s, cur)
            return cur - {t.id for t in s.targets if isinstance(t, ast.Name)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            cur.add(s.name)
            return cur
        if isinstance(s, ast.Match):
            loads(s.subject, cur)
            outs = [cur]
            for c in s.cases:
                outs.append(block(c.body, cur | {x for x in stored(c)}))
            return join(*outs)
        if isinstance(s, ast.AnnAssign) and s.value is None:
            return cur
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            if s.target.id in local and s.target.id not in cur:
                loads(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), cur)
        for c in ast.iter_child_nodes(s):
            if isinstance(s, ast.AnnAssign) and c is s.annotation:
                continue
            loads(c, cur)
        return cur | stored(s)

    def stored_t(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    block(body, cur)


def w01(chk):
    repo = chk.repo
    chk.rule("R1", "every name that is read is bound: in an enclosing scope, in the module or as a builtin, and a local only after some assignment can have reached it")
    chk.rule("R2", "every import names a module and a definition that exist")
    chk.rule("R3", "every attribute of a module, class, self or an object of a known class exists there")
    chk.rule("R4", "every call whose target is known passes arguments the target's signature accepts, in every concrete class that runs it")
    cl = Classes(repo)
    w = Walker(chk, cl)
    for m in repo.modules.values():
        w.module(m)
        chk.analysed.add(m.name)
    for k, v in w.n.items():
        chk.count(k, v)
    chk.floor("names", 4000)
    chk.floor("imports", 200)
    chk.floor("attrs", 2500)
    chk.floor("calls", 500)


# ---- W02 -------------------------------------------------------------------------------------
def export_list(m):
    """Strings of __all__ (with +=, append, extend of literals); None without one."""
    out = None
    for s in m.tree.body:
        tgt = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
        if any(isinstance(t, ast.Name) and t.id == "__all__" for t in tgt) and s.value is not None:
            vals = [(x.value, x) for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            out = (out or []) + vals if isinstance(s, ast.AugAssign) else vals
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("__all__.append", "__all__.extend"):
            out = (out or []) + [(x.value, x) for a in s.value.args for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
    return out


def documented(root):
    """dhg.* names of the API pages: (name, file:line)."""
    base = os.path.join(root, "docs", "source", "api")
    out = []
    for dp, dn, fn in os.walk(base):
        for f in sorted(fn):
            if not f.endswith(".rst"):
                continue
            for i, line in enumerate(open(os.path.join(dp, f), encoding="utf8"), 1):
                mt = re.match(r"^(?:\.\. (?:autofunction|autoclass|automethod|autodata|autoattribute)::\s*|\s+~?)(dhg(?:\.\w+)+)\s*$", line)
                if mt:
                    out.append((mt.group(1), f"docs/source/api/{f}:{i}"))
    return out


def w02(chk):
    repo = chk.repo
    chk.rule("R1", "every string of an export list is bound in its package, once")
    chk.rule("R2", "an exported or documented name leads to the definition of that name")
    chk.rule("R3", "every documented name exists, and is in the export list of its package when there is one")
    lists = {}
    for m in repo.modules.values():
        ex = export_list(m)
        if ex is None:
            continue
        lists[m.name] = {n for n, _ in ex}
        chk.analysed.add(m.name)
        for n, node in ex:
            chk.count("exports")
            r = repo.resolve_in(m, n)
            loc = f"{m.rel}:{node.lineno}"
            if r is None and not module_stores(m, n):
                chk.finding("R1", f"{m.name}.__all__/{n}", loc, f"{n} is exported but not bound: `from {m.name} import *` raises AttributeError")
                continue
            if r is not None and r[0] in ("func", "class") and r[1].name != n:
                chk.finding("R2", f"{m.name}.{n}", loc, f"the exported name leads to {r[1].qual}")
                continue
            if r is not None and r[0] == "module" and r[1].name.split(".")[-1] != n:
                chk.finding("R2", f"{m.name}.{n}", loc, f"the exported name leads to module {r[1].name}")
                continue
            chk.discharge(f"{m.name}.{n}")
    for n, loc in documented(repo.root):
        chk.count("documented")
        head, _, tail = n.rpartition(".")
        r = repo.resolve_dotted(n)
        if r is None:
            chk.finding("R3", n, loc, f"{n} is documented but does not exist")
            continue
        if r[0] in ("func", "class") and r[1].name != tail:
            chk.finding("R2", n, loc, f"the documented name leads to {r[1].qual}")
            continue
        if head in lists and tail not in lists[head]:
            chk.finding("R3", n, loc, f"{n} is documented but missing from {head}.__all__")
            continue
        chk.discharge(n)
    chk.floor("exports", 120)
    chk.floor("documented", 90)


# ---- W04 -------------------------------------------------------------------------------------
ARG = re.compile(r"^\s*``(\*{0,2}\w+)``\s*(?:\((.*?)\)\s*)?:(.*)$")
DEF = [re.compile(r"[Dd]efaults?(?:\s+to|\s+is|:)\s*``([^`]*)``"), re.compile(r"[Dd]efaults?(?:\s+to|\s+is|:)\s*(None|True|False|-?[0-9.]+(?:e-?\d+)?|\"[^\"]*\"|'[^']*')(?=[.\s]|$)")]


def literal(text):
    try:
        return ("lit", ast.literal_eval(text.strip().rstrip(".") if not text.strip()[-1:].isdigit() else text.strip()))
    except (ValueError, SyntaxError):
        return ("text", text.strip())


def same_value(doc, node):
    try:
        v = ast.literal_eval(node)
    except (ValueError, SyntaxError, TypeError):
        return ast.unparse(node) == doc[1] if doc[0] == "text" else False
    if doc[0] == "lit":
        return type(v) is type(doc[1]) and v == doc[1] or (isinstance(v, (int, float)) and isinstance(doc[1], (int, float)) and not isinstance(v, bool) and not isinstance(doc[1], bool) and v == doc[1])
    return isinstance(v, str) and v == doc[1]


def replaced(f, k, doc):
    """The body turns the sentinel default into the documented value: `if k is None: k = …`, `k = … if k is None else k`, `k = k or …`."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) for t in n.targets):
            v = n.value
            alts = [v]
            if isinstance(v, ast.IfExp):
                alts = [v.body, v.orelse]
            elif isinstance(v, ast.BoolOp):
                alts = v.values
            mentions = any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(v)) or any(isinstance(t, ast.Name) and t.id == k for t in n.targets)
            if mentions and any(same_value(doc, a) for a in alts):
                return True
    return False


def module_const(repo, f, node):
    """A default given as a module constant, followed to its literal."""
    seen = 0
    m = f.module
    while isinstance(node, (ast.Name, ast.Attribute)) and seen < 5:
        r = None
        parts = ast.unparse(node).split(".")
        r = repo.resolve_in(m, parts[0])
        for p in parts[1:]:
            r = repo.resolve_in(r[1], p) if r and r[0] == "module" else None
        if r and r[0] == "var" and r[1][1] is not None:
            m, node = r[1]
        else:
            break
        seen += 1
    return node


def w04(chk):
    repo = chk.repo
    chk.rule("R1", "an argument named in the documentation of a function is accepted by the function")
    chk.rule("R2", "an argument whose documentation states a default is optional and has that default")
    for f in repo.all_funcs():
        if f.is_abstract or f.name.startswith("_") and f.name != "__init__" or f.cls is not None and f.cls.name.startswith("_"):
            continue
        doc = ast.get_docstring(f.node) or ""
        if f.name == "__init__" and f.cls:
            doc += "\n" + (ast.get_docstring(f.cls.node) or "")
        if not doc:
            continue
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        defs = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            ps.append(x.arg)
            if d is not None:
                defs[x.arg] = d
        for x in (a.vararg, a.kwarg):
            if x:
                ps.append(x.arg)
        who = f"{f.cls.name}.{f.name}" if f.cls else f.qual[4:]
        chk.analysed.add(f.qual)
        section = False
        for line in doc.split("\n"):
            if re.match(r"^\s*Args?:\s*$", line):
                section = True
                continue
            if re.match(r"^\s*(Returns?|Yields?|Raises|Examples?|Notes?|References?|Attributes|See Also|\.\. .*::).*$", line) and not ARG.match(line):
                section = False
                continue
            mt = ARG.match(line)
            if not mt or not section:
                continue
            k = mt.group(1).lstrip("*")
            chk.count("documented arguments")
            if k not in ps and not a.kwarg:
                chk.finding("R1", f"{who}/{k}", f.loc, f"the documentation names an argument {k}, the signature has {', '.join(ps) or 'none'}")
                continue
            chk.discharge()
            dm = next((m for m in (r.search(line) for r in DEF) if m), None)
            if not dm or k not in ps or a.kwarg and k == a.kwarg.arg:
                continue
            dv = literal(dm.group(1))
            if dv[0] == "text" and not re.match(r"^\w+$", dv[1]):
                continue
            chk.count("documented defaults")
            if k not in defs:
                chk.finding("R2", f"{who}/{k}", f.loc, f"documented to default to {dm.group(1)}, but the argument is required")
            elif same_value(dv, module_const(repo, f, defs[k])) or replaced(f, k, dv):
                chk.discharge(f"{who}({k}={dm.group(1)})")
            else:
                chk.finding("R2", f"{who}/{k}", f.loc, f"documented to default to {dm.group(1)}, the signature has {ast.unparse(defs[k])}")
    chk.floor("documented arguments", 800)
    chk.floor("documented defaults", 350)
