"""Source model of installed third-party packages and the standard library: files are parsed, never imported."""
import ast
import glob
import os
import re

from .repo import Module


def _sites():
    out = sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + sorted(glob.glob("/opt/*/lib/python3*/site-packages"))
    out.append(os.path.dirname(os.__file__))
    return [d for i, d in enumerate(out) if d not in out[:i]]


class Ext:
    def __init__(self):
        self.sites = _sites()
        self.cache = {}
        self.toks = {}
        self.full = {}

    def path(self, dotted):
        """(path, is package) of a module, None when it has no Python source here."""
        rel = dotted.replace(".", os.sep)
        for s in self.sites:
            p = os.path.join(s, rel)
            if os.path.isfile(os.path.join(p, "__init__.py")):
                return os.path.join(p, "__init__.py"), True
            if os.path.isfile(p + ".py"):
                return p + ".py", False
        return None

    def exists(self, dotted):
        """True / False / None (unknown): can this module be found?"""
        if self.path(dotted):
            return True
        rel = dotted.replace(".", os.sep)
        for s in self.sites:
            p = os.path.join(s, rel)
            if os.path.isdir(p) or glob.glob(p + ".*so") or glob.glob(p + ".pyi"):
                return True
        import sys
        top = dotted.split(".")[0]
        if top in sys.builtin_module_names or top in sys.stdlib_module_names:
            return True if "." not in dotted else None
        return False

    def module(self, dotted):
        if dotted not in self.cache:
            m = None
            p = self.path(dotted)
            if p:
                try:
                    src = open(p[0], encoding="utf8", errors="replace").read()
                    m = Module(dotted, p[0], src, p[1])
                except (SyntaxError, ValueError, OSError):
                    m = None
            self.cache[dotted] = m
        return self.cache[dotted]

    def resolve(self, dotted, seen=()):
        """('func', Func) / ('class', Cls) / ('module', dotted) / None when the source does not show it."""
        if dotted in seen or len(seen) > 40:
            return None
        seen += (dotted,)
        if self.path(dotted):
            return ("module", dotted)
        head, _, tail = dotted.rpartition(".")
        if not head:
            return None
        h = self.resolve(head, seen)
        if h is None:
            return None
        if h[0] == "class":
            f = self.lookup(h[1], tail)
            return ("func", f) if f else None
        if h[0] != "module":
            return None
        m = self.module(h[1])
        if m is None:
            return None
        d = m.defs.get(tail)
        if d is not None:
            if d[0] == "import":
                return self.resolve(d[1], seen) if d[1] != dotted else None
            return d if d[0] in ("func", "class") else None
        for k, v in m.defs.items():
            if v[0] == "import" and v[1].endswith(".*"):
                r = self.resolve(v[1][:-2] + "." + tail, seen)
                if r is not None:
                    return r
        return None

    def mro(self, c, depth=0):
        """(classes, complete?)"""
        out, ok = [c], True
        if depth > 12:
            return out, False
        for b in c.node.bases:
            t = ast.unparse(b.value if isinstance(b, ast.Subscript) else b)
            if t in ("object", "Protocol", "Generic"):
                continue
            r = self.in_module(c.module, t)
            if r and r[0] == "class":
                x, k = self.mro(r[1], depth + 1)
                out += x
                ok = ok and k
            else:
                ok = False
        return out, ok

    def in_module(self, module, text):
        parts = text.split(".")
        d = module.defs.get(parts[0])
        if d is None:
            for v in module.defs.values():
                if v[0] == "import" and v[1].endswith(".*"):
                    r = self.resolve(v[1][:-2] + "." + text)
                    if r is not None:
                        return r
            return None
        if d[0] == "import":
            return self.resolve(".".join([d[1]] + parts[1:]))
        return d if len(parts) == 1 else None

    def lookup(self, c, name):
        for k in self.mro(c)[0]:
            if name in k.methods:
                return k.methods[name]
        return None

    def attrs(self, c):
        """(names an instance of an external class has, complete?)"""
        cs, ok = self.mro(c)
        out = set(dir(object))
        for k in cs:
            out |= set(k.methods) | set(k.setters) | set(k.attrs)
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    out.add(n.value)
        return out, ok

    # ---- names that only exist at run time -----------------------------------------
    def tokens(self, top):
        """Identifiers in the stubs and package files of a top-level package."""
        if top not in self.toks:
            out = set()
            for s in self.sites:
                base = os.path.join(s, top)
                if os.path.isfile(base + ".py"):
                    out |= set(re.findall(r"\w+", open(base + ".py", encoding="utf8", errors="replace").read()))
                for dp, dn, fn in os.walk(base):
                    if dp.count(os.sep) - base.count(os.sep) > 3:
                        dn[:] = []
                        continue
                    for f in fn:
                        if f.endswith(".pyi") or f == "__init__.py":
                            out |= set(re.findall(r"\w+", open(os.path.join(dp, f), encoding="utf8", errors="replace").read()))
            self.toks[top] = out
        return self.toks[top]

    def mentions(self, top, name):
        """Does the identifier occur anywhere in the sources of the package?"""
        if name in self.tokens(top):
            return True
        if top not in self.full:
            out = set()
            for s in self.sites:
                base = os.path.join(s, top)
                if not os.path.isdir(base):
                    continue
                for dp, dn, fn in os.walk(base):
                    dn[:] = [d for d in dn if d not in ("tests", "test", "testing", "_inductor", "include")]
                    for f in fn:
                        if f.endswith((".py", ".pyi")):
                            try:
                                out |= set(re.findall(r"[A-Za-z_]\w+", open(os.path.join(dp, f), encoding="utf8", errors="replace").read()))
                            except OSError:
                                pass
            self.full[top] = out
        return name in self.full[top]

    def siblings(self, tops):
        """Top-level packages installed by the same distributions as the given ones."""
        k = tuple(sorted(tops))
        if k not in self.full:
            out = set()
            for s in self.sites:
                for rec in glob.glob(os.path.join(s, "*.dist-info", "RECORD")):
                    try:
                        ls = open(rec, encoding="utf8", errors="replace").read().split("\n")
                    except OSError:
                        continue
                    ts = {x.split("/")[0] for x in ls if "/" in x and x.split(",")[0].endswith(".py")}
                    if ts & set(tops):
                        out |= {t for t in ts if re.match(r"^\w+$", t)}
            self.full[k] = out - set(tops)
        return self.full[k]

    def known(self, dotted):
        """Can `package.…​.name` exist?  False only when no source of the package mentions the name."""
        if self.resolve(dotted) is not None or self.exists(dotted):
            return True
        top = dotted.split(".")[0]
        if self.exists(top) is not True:
            return True  # not installed here: unknown
        if not any(os.path.isdir(os.path.join(s, top)) or os.path.isfile(os.path.join(s, top + ".py")) for s in self.sites):
            return True  # built-in module without source
        return self.mentions(top, dotted.rsplit(".", 1)[1])
