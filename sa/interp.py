"""Path-sensitive interprocedural value-numbering dataflow over the syntax trees of /repo/dhg.

Nothing is executed: every Python value is replaced by a value number (a normalised term, see
terms.py), branches on unknown conditions split the dataflow fact set, loops are summarised by one
abstract pass over the body (accumulators become fold terms), and calls to functions of the package
are inlined through resolved callees.  Calls that leave the package become uninterpreted terms plus
an event in the path's effect log.
"""
import ast
import os
import traceback

from . import terms as tm
from .terms import EYE, FALSE, N, NONE, S, TRUE, const, is_const, mk, pyval
from .repo import AnalysisBroken, Cls, Func, Module

MAXSTATES = 400
MAXUNROLL = 40
MAXDEPTH = 40

SCALAR_METHODS = {"item", "tolist", "detach"}
IDENT_METHODS = {
    "clone", "contiguous", "cpu", "cuda", "coalesce", "detach", "float", "long", "int", "bool", "double",
    "numpy", "tolist", "item", "to", "requires_grad_", "type", "half", "astype", "copy",
}
ALIAS_METHODS = {"contiguous", "cpu", "detach", "numpy", "to", "view", "t", "squeeze", "unsqueeze", "coalesce",
                 "_values", "_indices", "values", "indices", "float", "long", "reshape", "keys", "items", "get"}
MUT_METHODS = {"append", "extend", "insert", "add", "update", "pop", "remove", "clear", "sort", "discard",
               "setdefault", "popitem", "reverse"}
CONTAINER_EXT = {"torch.nn.ModuleList", "collections.OrderedDict", "torch.nn.Sequential"}
RANDOM_EXT = {
    "random.random", "random.choice", "random.choices", "random.sample", "random.randrange", "random.randint",
    "random.uniform", "random.shuffle", "random.gauss", "torch.rand", "torch.randn", "torch.bernoulli", "torch.randint", "torch.randperm",
    "numpy.random.rand", "numpy.random.randn", "numpy.random.randint", "numpy.random.normal",
    "numpy.random.choice", "numpy.random.random", "numpy.random.shuffle", "numpy.random.permutation", "torch.normal",
    "numpy.random.uniform",
}


class Undecided(Exception):
    """The path/loop budget ran out or a construct outside the modelled language was met."""


class V:
    __slots__ = ("t", "items", "ty", "map", "base", "default", "org", "par", "py", "dev", "__weakref__")

    def __init__(self, t=None, ty=None, items=None, map=None, base=None, default=None, org=frozenset(), par=None, py=None, dev=None):
        self.dev = dev
        self.t, self.ty, self.items, self.map, self.base = t, ty, items, map, base
        self.default, self.org, self.par, self.py = default, org, par, py

    def clone(self, **kw):
        d = {k: getattr(self, k) for k in ("t", "ty", "items", "map", "base", "default", "org", "par", "py", "dev")}
        d.update(kw)
        return V(**d)

    def __repr__(self):
        return f"V({self.t or self.items or self.map},{self.ty})"


class Closure:
    def __init__(self, func, env, fid, selfv=None):
        self.func, self.env, self.fid, self.selfv = func, env, fid, selfv


class Bound:
    def __init__(self, selfv, func):
        self.selfv, self.func = selfv, func


class ClsRef:
    def __init__(self, cls):
        self.cls = cls


class ModRef:
    def __init__(self, mod):
        self.mod = mod


class Ext:
    def __init__(self, dotted):
        self.dotted = dotted


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Super:
    def __init__(self, selfv, cls):
        self.selfv, self.cls = selfv, cls


class MethodOf:
    """obj.name where obj is not a package object."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Obj:
    __slots__ = ("cls", "fields", "sym", "name")

    def __init__(self, cls, sym=False, name=None, fields=None):
        self.cls, self.sym, self.name, self.fields = cls, sym, name, fields or {}

    def copy(self):
        return Obj(self.cls, self.sym, self.name, dict(self.fields))


class St:
    __slots__ = ("frames", "objs", "fwd", "facts", "order", "events", "nobj", "rnd", "stack", "loops", "imprecise", "dead")

    def __init__(self):
        self.frames, self.objs, self.fwd, self.facts, self.order = [], {}, {}, {}, []
        self.events, self.nobj, self.rnd, self.stack, self.loops = [], 0, 0, [], []
        self.imprecise = False
        self.dead = {}      # frames that ended but whose variables a function defined in them still reads

    def copy(self):
        s = St()
        s.dead = dict(self.dead)
        s.frames = [dict(f) for f in self.frames]
        s.objs = {k: o.copy() for k, o in self.objs.items()}
        s.fwd = dict(self.fwd)
        s.facts = dict(self.facts)
        s.order = list(self.order)
        s.events = list(self.events)
        s.nobj, s.rnd, s.stack, s.loops = self.nobj, self.rnd, list(self.stack), list(self.loops)
        s.imprecise = self.imprecise
        return s

    # -- identity ---------------------------------------------------------
    def cur(self, v):
        n = 0
        while id(v) in self.fwd:
            v = self.fwd[id(v)][1]
            n += 1
            if n > 10000:
                raise Undecided("forwarding cycle")
        return v

    def forward(self, old, new):
        old = self.cur(old)
        if old is not new:
            self.fwd[id(old)] = (old, new)

    def term(self, v):
        v = self.cur(v)
        if v.items is not None:
            if v.ty == "set":
                return mkset(("list",) + tuple(self.term(x) for x in v.items))
            return ({"list": "list", "tuple": "tup", "ndarray": "list"}[v.ty],) + tuple(self.term(x) for x in v.items)
        if v.map is not None:
            base = v.base if v.base is not None else ("dict",)
            if v.base is None and all(is_const(k) for k, _ in v.map):
                return ("dict",) + tuple(sorted(((k, self.term(x)) for k, x in v.map), key=lambda z: repr(z[0])))
            t = base
            for k, x in v.map:
                t = mk("dset", t, k, self.term(x))
            return t
        return v.t

    def fact(self, c, b):
        while c[0] == "not":
            c, b = c[1], not b
        if c not in self.facts:
            self.order.append(c)
        self.facts[c] = b

    def ev(self, *e):
        self.events.append(e)


def orgs_sub(o):
    return frozenset((r, d - 1) for r, d in o)


def orgs_shallow(o):
    """Roots still reachable from a shallow copy: only below the copied level."""
    return frozenset((r, d + 1) for r, d in o if d < 3)


def nonnone(t):
    return t[0] in (
        "n", "s", "b", "list", "tup", "dict", "setlit", "add", "mul", "mm", "T", "diag", "vals", "inds", "coo", "rowsum",
        "obj", "fn", "cls", "cached", "ones", "zeros", "each", "deach", "dset", "pinv", "I", "shape", "len", "concat",
        "call", "arange", "tensor", "device_of", "relu", "inst", "ext", "col", "spsoftmax", "set", "sorted", "range", "red", "metric", "squeeze", "row", "mod", "mapp", "msg", "drop", "leaky_relu", "elu", "sigmoid", "tanh", "vprop", "prop", "stack",
    ) and not (t[0] == "call" and False)


def type_test(op, a, b, ta, tb, st):
    """type(x) is T, type(x) == T, type(x) in (T, ...) as an isinstance condition (the exact type is not told from its subclasses)."""
    for x, y, yv in ((ta, tb, b), (tb, ta, a)):
        tx = isinstance(x, tuple) and (x[0] == "type" and len(x) == 2 or x[0] == "ext" and str(x[1]).startswith("builtins.") and x[1][9:].islower())
        if not tx:
            continue
        if isinstance(op, (ast.In, ast.NotIn)):
            if x is not ta or yv.items is None:
                continue
            ys = [st.term(z) for z in yv.items]
        elif isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            ys = [y]
        else:
            continue
        if not ys or not all(z[0] == "ext" and str(z[1]).startswith("builtins.") for z in ys):
            continue
        names = tuple(sorted(z[1].split(".")[-1] for z in ys))
        if x[0] == "ext":
            c = ("b", x[1].split(".")[-1] in names)
        elif x[1][0] == "n":
            c = TRUE if {"int", "float"} <= set(names) else ("isinstance", x[1], names) if {"int", "float"} & set(names) else FALSE
        else:
            c = ("isinstance", x[1], names)
        return tm.not_(c) if isinstance(op, (ast.NotIn, ast.IsNot, ast.NotEq)) else c
    return None


class Interp:
    def __init__(self, repo, opaque=(), intercept=None, field_org=True, maxstates=MAXSTATES):
        self.repo = repo
        self.devs = None
        self.opaque = set(opaque)
        self.intercept = intercept or {}
        self.sinks = []
        self.maxstates = maxstates
        self.nstates = 0
        self.module_cache = {}
        self.inlined = set()
        self.sizes = {}     # sparse matrix term -> sizes it was created with
        self.paths = 0
        self.prop_atoms = set()  # property names to keep as atoms over the object's raw fields
        self.prop_atom_fields = None
        self.notes = []
        self.cache_mode = {}
        self.ext_calls = 0
        self.undecided_ops = set()
        self.hooks_ext = {}
        self.on_loop = None
        self.ints = set()
        self.hook_mcall = None
        self.hook_iter = None
        self.hook_apply = None
        self.atom_hook = None

    # ------------------------------------------------------------------ helpers
    def budget(self, n=1):
        self.nstates += n
        if self.nstates > self.maxstates * 60:
            raise Undecided("state budget exhausted")

    def v(self, t, ty=None, org=frozenset(), par=None, py=None):
        return V(t, ty, org=org, par=par, py=py)

    def display(self, vs, kind, s):
        """A list, tuple or set display; starred parts are spliced in."""
        if not any(x.items is None and x.t is not None and x.t[0] == "star" for x in vs):
            return self.lst(vs, kind)
        parts = ("list",)
        for x in vs:
            starred = x.items is None and x.t is not None and x.t[0] == "star"
            parts = seqcat(parts, aslist(x.t[1]) if starred else ("list", s.term(x)))
        return V(mkset(parts), "set") if kind == "set" else V(("tuple", parts), "tuple") if kind == "tuple" else V(parts, "list")

    def lst(self, items, ty="list"):
        return V(None, ty, items=list(items))

    def fork(self, st):
        self.budget()
        return st.copy()

    # ------------------------------------------------------------------ deciding conditions
    def known(self, c, st):
        """True/False/None."""
        if c[0] == "b":
            return c[1]
        if c[0] == "not":
            k = self.known(c[1], st)
            return None if k is None else not k
        if c in st.facts:
            return st.facts[c]
        if c[0] == "isinstance" and len(c[2]) > 1:
            ks = [st.facts.get(("isinstance", c[1], (n,))) for n in c[2]]
            if True in ks:
                return True
            if None not in ks:
                return False
        if c[0] in ("eq", "lt") and N(0) in c[1:]:
            z = self.sumzero(c, st)
            if z is not None:
                return self.known(z, st)
        if c[0] == "and":
            ks = [self.known(x, st) for x in c[1:]]
            if all(k is True for k in ks):
                return True
            if any(k is False for k in ks):
                return False
            return None
        if c[0] == "or":
            ks = [self.known(x, st) for x in c[1:]]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
            return None
        if c[0] == "eq":
            a, b = c[1], c[2]
            if st.facts.get(("lt", a, b)) is True or st.facts.get(("lt", b, a)) is True:
                return False
            if a[0] in ("tup", "list") and a[0] == b[0]:
                if len(a) != len(b):
                    return False
                ks = [True if x == y else self.known(tm.eq(x, y), st) for x, y in zip(a[1:], b[1:])]
                if False in ks:
                    return False
                return None if None in ks else True
            for x, k in ((a, b), (b, a)):
                if is_const(k):
                    if k == NONE and nonnone(x):
                        return False
                    for f, val in st.facts.items():
                        if f[0] == "eq" and val and x in f[1:]:
                            o = f[2] if f[1] == x else f[1]
                            if is_const(o) and o != k:
                                return False
                        if f[0] == "in" and f[1] == x and f[2][0] in ("list", "tup", "setlit"):
                            if val and all(is_const(z) for z in f[2][1:]) and k not in f[2][1:]:
                                return False
                            if not val and k in f[2][1:]:
                                return False
                        if val and k == NONE and f[0] in ("isinstance",) and f[1] == x:
                            return False
                        if k == NONE and val and f[0] == "truth" and f[1] == x:
                            return False
                        if k[0] == "n" and f[0] == "lt" and x in f[1:]:
                            o = f[2] if f[1] == x else f[1]
                            if o[0] == "n":
                                rel = self._interval(f, val, x, k)
                                if rel is not None:
                                    return rel
            return None
        if c[0] == "lt":
            a, b = c[1], c[2]
            for x, f in ((a, lambda y: ("lt", y, b)), (b, lambda y: ("lt", a, y))):
                if x[0] in ("max", "min"):
                    ks = [self.known(f(y), st) for y in x[1:]]
                    every = (x[0] == "max") == (x is a)
                    if (False if every else True) in ks:
                        return not every
                    return every if None not in ks else None
            if ("lt", b, a) in st.facts and st.facts[("lt", b, a)]:
                return False
            e = tm.eq(a, b)
            if st.facts.get(e) is True:
                return False
            for x, k, left in ((a, b, True), (b, a, False)):
                if k[0] == "n" and x[0] != "n":
                    lo, hi, los, his, ev = self._bounds(x, st)
                    kv = k[1]
                    if isinstance(kv, int) and self.intlike(x, st):
                        if his and isinstance(hi, int):
                            hi, his = hi - 1, False
                        if los and isinstance(lo, int):
                            lo, los = lo + 1, False
                    if ev is not None:
                        return (ev < kv) if left else (kv < ev)
                    if left:  # x < k ?
                        if hi is not None and (hi < kv or (hi == kv and his)):
                            return True
                        if lo is not None and lo >= kv:
                            return False
                    else:  # k < x ?
                        if lo is not None and (lo > kv or (lo == kv and los)):
                            return True
                        if hi is not None and hi <= kv:
                            return False
            return None
        if c[0] == "in" and c[2][0] in ("list", "tup", "setlit"):
            if any(st.facts.get(tm.eq(c[1], z)) is True or z == c[1] for z in c[2][1:]):
                return True
            ks = [self.known(tm.eq(c[1], z), st) for z in c[2][1:]]
            if all(k is False for k in ks):
                return False
            return None
        if c[0] == "in":
            return self.known_in(c[1], c[2], st)
        if c[0] == "truth":
            t = c[1]
            if st.facts.get(tm.eq(t, NONE)) is True:
                return False
            return None
        if c[0] == "isinstance":
            for f, val in st.facts.items():
                if f[0] == "isinstance" and f[1] == c[1] and val:
                    A, B = set(f[2]), set(c[2])
                    if A <= B:
                        return True
                    if not (A & B) and all(x in ("int", "float", "str", "list", "tuple", "dict", "set") for x in A | B):
                        return False
            return None
        return None

    def known_in(self, k, d, st):
        while d[0] in ("dset", "ddel"):
            e = tm.eq(k, d[2])
            ke = self.known(e, st)
            if ke is True:
                return d[0] == "dset"
            if ke is None:
                return None
            d = d[1]
        if d == ("dict",) or d == ("list",) or d == ("setlit",) or d == ("call", "builtins.set"):
            return False
        if d[0] == "dict":
            if is_const(k):
                return any(z[0] == k for z in d[1:])
            return None
        if k[0] == "elem" and k[1] == d or generic_member(k, d):
            return True
        c = ("in", k, d)
        return st.facts.get(c)

    def intlike(self, x, st):
        return x[0] in ("len", "idx") or x in self.ints or st.facts.get(("isinstance", x, ("int",))) is True

    def _bounds(self, x, st):
        lo = hi = None
        los = his = False
        ev = None
        if x[0] in ("len",):
            lo, los = 0, False
        for f, val in st.facts.items():
            if f[0] == "lt":
                if f[1] == x and f[2][0] == "n":
                    k = f[2][1]
                    if val and (hi is None or k <= hi):
                        hi, his = k, True
                    elif not val and (lo is None or k > lo):
                        lo, los = k, False
                elif f[2] == x and f[1][0] == "n":
                    k = f[1][1]
                    if val and (lo is None or k >= lo):
                        lo, los = k, True
                    elif not val and (hi is None or k < hi):
                        hi, his = k, False
            elif f[0] == "eq" and val and x in f[1:]:
                o = f[2] if f[1] == x else f[1]
                if o[0] == "n":
                    ev = o[1]
        return lo, hi, los, his, ev

    def _interval(self, f, val, x, k):
        kv = k[1]
        if f[1] == x:  # x < c
            c = f[2][1]
            if val and kv >= c:
                return False
            if not val and kv < c:
                return False
        else:  # c < x
            c = f[1][1]
            if val and kv <= c:
                return False
            if not val and kv > c:
                return False
        return None

    def sumzero(self, c, st):
        """A sum of non-negative terms is zero iff every term is: split such tests into their parts."""
        if c[0] == "eq" and N(0) in c[1:]:
            x = c[2] if c[1] == N(0) else c[1]
        elif c[0] == "lt" and c[1] == N(0):
            x = c[2]
        else:
            return None
        if x[0] == "mul" and x[1][0] == "n" and x[1][1] > 0 and len(x) == 3:
            x = ("add", x)
        if x[0] != "add":
            return None
        parts = []
        for y in x[1:]:
            if y[0] == "mul" and y[1][0] == "n" and y[1][1] > 0 and len(y) == 3:
                y = y[2]
            if y[0] == "len":
                parts.append(("not", self.truth_t(y)))
                continue
            lo, hi, los, his, ev = self._bounds(y, st) if y[0] != "n" else (y[1], 0, False, 0, None)
            if ev is not None:
                lo, los = ev, False
            if lo is None or lo < 0:
                return None
            if lo > 0 or los:
                return tm.FALSE if c[0] == "eq" else tm.TRUE
            parts.append(tm.eq(y, N(0)))
        r = ("and",) + tuple(parts)
        return r if c[0] == "eq" else ("not", r)

    def decide(self, c, st):
        """[(bool, state)] splitting the dataflow on an unknown condition."""
        if c[0] == "not":
            return [(not b, s) for b, s in self.decide(c[1], st)]
        z = self.sumzero(c, st)
        if z is not None:
            return self.decide(z, st)
        k = self.known(c, st)
        if k is not None:
            return [(k, st)]
        if c[0] == "and":
            out = []
            for b, s in self.decide(c[1], st):
                if not b:
                    out.append((False, s))
                else:
                    out += self.decide(("and",) + c[2:] if len(c) > 3 else c[2], s)
            return out
        if c[0] == "or":
            out = []
            for b, s in self.decide(c[1], st):
                if b:
                    out.append((True, s))
                else:
                    out += self.decide(("or",) + c[2:] if len(c) > 3 else c[2], s)
            return out
        s2 = self.fork(st)
        st.fact(c, True)
        s2.fact(c, False)
        return [(True, st), (False, s2)]

    def truth(self, v, st):
        v = st.cur(v)
        if v.items is not None:
            return ("b", len(v.items) > 0)
        if v.map is not None:
            if v.map:
                return TRUE
            return FALSE if v.base is None else ("truth", v.base)
        if v.py is not None or (v.t and v.t[0] in ("obj", "fn", "cls")):
            return TRUE
        if v.ty in ("int", "float") and v.t[0] in ("param", "init", "add", "mul"):
            return tm.not_(tm.eq(v.t, N(0)))
        return self.truth_t(v.t)

    def truth_t(self, t):
        if t[0] == "b":
            return t
        if t[0] == "none":
            return FALSE
        if t[0] in ("n", "s"):
            return ("b", bool(t[1]))
        if t[0] in ("list", "tup", "dict", "setlit"):
            return ("b", len(t) > 1)
        if t[0] in ("not", "lt", "eq", "and", "or", "in", "isinstance", "truth", "b", "any", "all"):
            return t
        if t[0] == "bitor":
            return ("or",) + tuple(self.truth_t(x) for x in t[1:])
        if t[0] == "len":
            return self.truth_t(t[1])
        if t[0] == "dset":
            return TRUE
        if t[0] == "const" and t[1][:2] in ("b'", 'b"'):
            return ("b", len(t[1]) > 3)
        return ("truth", t)

    # ------------------------------------------------------------------ name lookup
    def lookup(self, name, st, fr, func):
        d = st.frames[-1]
        if name in d:
            return [(st.cur(d[name]), st)]
        env = d.get("__closure__")
        while env is not None:
            e = env
            if e.fid is not None:
                for f in st.frames:
                    if f.get("__id__") == e.fid:
                        if name in f:
                            return [(st.cur(f[name]), st)]
                if name in st.dead.get(e.fid, ()):
                    return [(st.cur(st.dead[e.fid][name]), st)]
            if name in e.env:
                return [(st.cur(e.env[name]), st)]
            env = e.env.get("__closure__")
        if name in d.get("__locals__", ()):
            self.do_raise("UnboundLocalError", st, func)
            return []
        return self.lookup_global(name, st, d["__module__"])

    def lookup_global(self, name, st, module):
        extra = st.frames[-1].get("__extra__")
        if extra and name in extra:
            return [(extra[name], st)]
        r = self.repo.resolve_in(module, name)
        if r is None:
            return [(self.v(("ext", "builtins." + name), py=Ext("builtins." + name)), st)]
        return self.from_resolved(r, st, module, name)

    def from_resolved(self, r, st, module, name):
        if r[0] == "func":
            return [(self.fnv(r[1]), st)]
        if r[0] == "class":
            return [(V(("cls", r[1].qual), py=ClsRef(r[1])), st)]
        if r[0] == "module":
            return [(V(("ext", r[1].name), py=ModRef(r[1])), st)]
        if r[0] == "ext":
            return [(self.extv(r[1]), st)]
        m, expr = r[1]
        if name in m.mutable or name not in m.defs:
            for n2 in ([name] if name in m.mutable else []):
                k = ("glob", m.name)
                if k in st.objs and n2 in st.objs[k].fields:
                    return [(st.cur(st.objs[k].fields[n2]), st)]
                return [(self.v(("glob", m.name, n2)), st)]
        if expr is None:
            return [(self.v(("glob", m.name, name)), st)]
        k = (m.name, name)
        if k in self.module_cache:
            return [(self.module_cache[k], st)]
        self.module_cache[k] = self.v(("glob", m.name, name))
        s = St()
        s.frames.append({"__module__": m, "__id__": None, "__closure__": None})
        try:
            rs = self.eval(expr, s)
        except (Undecided, RecursionError):
            rs = []
        if len(rs) == 1 and not s.objs:
            v = rs[0][1].cur(rs[0][0])
            t = rs[0][1].term(v)
            if v.items is not None and all(is_const(x) for x in t[1:]):
                self.module_cache[k] = v
            elif v.map is not None or (v.t is not None and v.t[0] in ("n", "s", "b", "none", "tup")):
                self.module_cache[k] = v
            elif v.py is not None:
                self.module_cache[k] = v
        return [(self.module_cache[k], st)]

    def fnv(self, f):
        return V(("fn", f.qual), py=f)

    CANON = {"np": "numpy"}

    def extv(self, dotted):
        consts = {"numpy.inf": N(float("inf")), "math.inf": N(float("inf")), "torch.inf": N(float("inf")), "numpy.pi": N(3.141592653589793), "math.pi": N(3.141592653589793)}
        if dotted in consts:
            return V(consts[dotted])
        if dotted.startswith("torch.nn.functional"):
            dotted = dotted.replace("torch.nn.functional", "F", 1)
        return V(("ext", dotted), py=Ext(dotted))

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e, st)

    def evals(self, es, st):
        outs = [([], st)]
        for e in es:
            nxt = []
            for vs, s in outs:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.eval(e.value, s):
                        v = s2.cur(v)
                        if v.items is not None:
                            nxt.append((vs + list(v.items), s2))
                        elif s2.term(v)[0] in ("list", "tup"):
                            nxt.append((vs + [V(x) for x in s2.term(v)[1:]], s2))
                        elif v.map is not None and v.base is None:
                            nxt.append((vs + [V(k) for k, _ in v.map], s2))
                        else:
                            nxt.append((vs + [V(("star", s2.term(v)))], s2))
                else:
                    for v, s2 in self.eval(e, s):
                        nxt.append((vs + [v], s2))
            outs = nxt
        return outs

    def e_Constant(self, e, st):
        return [(self.v(const(e.value)), st)]

    def e_Name(self, e, st):
        return self.lookup(e.id, st, None, e)

    def e_Tuple(self, e, st):
        return [(self.display(vs, "tuple", s), s) for vs, s in self.evals(e.elts, st)]

    def e_List(self, e, st):
        return [(self.display(vs, "list", s), s) for vs, s in self.evals(e.elts, st)]

    def e_Set(self, e, st):
        return [(self.display(vs, "set", s), s) for vs, s in self.evals(e.elts, st)]

    def e_Dict(self, e, st):
        outs = [(V(None, "dict", map=[]), st)]
        for k, x in zip(e.keys, e.values):
            nxt = []
            for d, s in outs:
                if k is None:
                    for o, s2 in self.eval(x, s):
                        o = s2.cur(o)
                        if o.map is not None and o.base is None:
                            nxt.append((V(None, "dict", map=d.map + list(o.map), base=d.base), s2))
                        elif not d.map and d.base is None:
                            nxt.append((V(s2.term(o), "dict", org=orgs_shallow(o.org)), s2))
                        else:
                            nxt.append((V(mk("dupd", s2.term(d), s2.term(o)), "dict"), s2))
                    continue
                for kv, s2 in self.eval(k, s):
                    for xv, s3 in self.eval(x, s2):
                        nxt.append((V(None, "dict", map=d.map + [(s3.term(kv), xv)], base=d.base), s3))
            outs = nxt
        return outs

    def e_JoinedStr(self, e, st):
        outs = [([], st)]
        for p in e.values:
            nxt = []
            for acc, s in outs:
                if isinstance(p, ast.Constant):
                    nxt.append((acc + [S(p.value)], s))
                else:
                    for v, s2 in self.eval(p.value, s):
                        v = s2.cur(v)
                        if p.format_spec is not None and p.conversion == -1 and (v.items is not None or v.map is not None or v.t == NONE) and ast.unparse(p.format_spec).rstrip("'\"")[-1:] in tuple("dfegxn%"):
                            self.do_raise("TypeError", s2, p)
                            continue
                        t = s2.term(v)
                        if p.format_spec is None and t[0] in ("s", "n", "b"):
                            t = S(str(t[1]))
                        elif t[0] in ("s", "n") and len(p.format_spec.values) == 1 and isinstance(p.format_spec.values[0], ast.Constant):
                            try:
                                t = S(format(t[1], p.format_spec.values[0].value))
                            except (ValueError, TypeError):
                                t = ("str", t, ast.unparse(p.format_spec))
                        else:
                            t = ("str", t) if p.format_spec is None else ("str", t, ast.unparse(p.format_spec))
                        nxt.append((acc + [t], s2))
            outs = nxt
        return [(self.v(tm.add(*a) if a else S(""), "str"), s) for a, s in outs]

    def e_Lambda(self, e, st):
        f = Func(st.frames[-1]["__module__"], e)
        fr = st.frames[-1]
        fr["__captured__"] = True
        return [(V(("lambda", ast.dump(e)), py=Closure(f, dict(fr), fr.get("__id__"))), st)]

    def e_IfExp(self, e, st):
        out = []
        for c, s in self.cond(e.test, st):
            out += self.eval(e.body if c else e.orelse, s)
        return out

    def cond(self, e, st):
        """[(bool, state)]"""
        if isinstance(e, ast.BoolOp):
            out = []
            outs = [(None, st)]
            isand = isinstance(e.op, ast.And)
            pend = [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in pend:
                    for b, s2 in self.cond(x, s):
                        if b != isand:
                            out.append((b, s2))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(isand, s) for s in pend]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.cond(e.operand, st)]
        out = []
        for v, s in self.eval(e, st):
            out += self.decide(self.truth(v, s), s)
        return out

    def e_BoolOp(self, e, st):
        # value context; keep boolean connectives as terms when operands are pure conditions
        isand = isinstance(e.op, ast.And)
        out = []
        pend = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in pend:
                for v, s2 in self.eval(x, s):
                    if i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    for b, s3 in self.decide(self.truth(v, s2), s2):
                        if b != isand:
                            out.append((v, s3))
                        else:
                            nxt.append(s3)
            pend = nxt
        return out

    def e_UnaryOp(self, e, st):
        out = []
        for v, s in self.eval(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((self.v(tm.not_(self.truth(v, s))), s))
            elif isinstance(e.op, ast.USub):
                r = self.v(tm.neg(s.term(v)))
                if self.devs is not None:
                    r.dev = self.devs.of(self, s, v)
                out.append((r, s))
            elif isinstance(e.op, ast.Invert):
                t = s.term(v)
                out.append((self.v(tm.not_(t)), s))
            else:
                out.append((v, s))
        return out

    def e_BinOp(self, e, st):
        out = []
        for a, s in self.eval(e.left, st):
            for b, s2 in self.eval(e.right, s):
                r = self.binop(e.op, a, b, s2)
                if self.devs is not None:
                    d = self.devs.binop(self, a, b, s2, e)
                    r = self.devs.mark([(r, s2)], d, [a, b], s2)[0][0]
                out.append((r, s2))
        return out

    def binop(self, op, a, b, st):
        a, b = st.cur(a), st.cur(b)
        if isinstance(op, ast.Add):
            if a.items is not None and b.items is not None and a.ty == b.ty:
                return V(None, a.ty, items=list(a.items) + list(b.items))
            ta, tb = st.term(a), st.term(b)
            if a.ty in ("list",) or b.ty in ("list",) or ta[0] in ("each", "list", "concat", "repeat") or tb[0] in ("each", "list", "concat", "repeat"):
                return V(seqcat(ta, tb), "list", org=orgs_shallow(a.org | b.org))
            return self.v(tm.add(ta, tb))
        ta, tb = st.term(a), st.term(b)
        if "set" in (a.ty, b.ty) or "setlit" in (ta[0], tb[0]):
            name = {ast.BitAnd: "intersection", ast.BitOr: "union", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}.get(type(op))
            from . import ops
            r = ops.set_op(self, name, a, b, st) if name else None
            if r is not None:
                return r
        if isinstance(op, ast.Sub):
            return self.v(tm.sub_(ta, tb))
        if isinstance(op, ast.Mult):
            if a.items is not None and tb[0] == "n" and isinstance(tb[1], int) and 0 <= tb[1] * len(a.items) <= MAXUNROLL:
                return V(None, a.ty, items=list(a.items) * tb[1])
            if b.items is not None and ta[0] == "n" and isinstance(ta[1], int) and 0 <= ta[1] * len(b.items) <= MAXUNROLL:
                return V(None, b.ty, items=list(b.items) * ta[1])
            if a.items is not None or b.items is not None:
                lt, n = (ta, tb) if a.items is not None else (tb, ta)
                return V(("repeat", lt, n), "list")
            return self.v(tm.mul(ta, tb))
        if isinstance(op, ast.Div):
            if "path" in (a.ty, b.ty) or tb[0] in ("s", "concat") or ta[0] in ("s", "path", "join"):
                parts = (ta[1:] if ta[0] == "join" else (ta,)) + (tb[1:] if tb[0] == "join" else (tb,))
                return V(("join",) + parts, "path")
            return self.v(tm.div(ta, tb))
        if isinstance(op, ast.Pow):
            return self.v(tm.pow_(ta, tb))
        if isinstance(op, ast.MatMult):
            return self.v(tm.mm(ta, tb))
        if isinstance(op, ast.FloorDiv):
            if ta[0] == "n" and tb[0] == "n" and tb[1]:
                return self.v(N(ta[1] // tb[1]))
            return self.v(("fdiv", ta, tb))
        if isinstance(op, ast.Mod):
            if ta[0] == "n" and tb[0] == "n" and tb[1]:
                return self.v(N(ta[1] % tb[1]))
            return self.v(("mod", ta, tb))
        if isinstance(op, ast.LShift):
            return self.v(tm.mul(ta, tm.pow_(N(2), tb)))
        if isinstance(op, ast.BitOr) and ("set" in (a.ty, b.ty) or ta[0] in ("set", "setlit") or tb[0] in ("set", "setlit")):
            return V(mkset(seqcat(("list_of", ta), ("list_of", tb))), "set")
        if isinstance(op, ast.BitOr):
            return self.v(("bitor",) + tuple(sorted((ta, tb), key=repr)))
        if isinstance(op, ast.BitAnd):
            return self.v(("bitand",) + tuple(sorted((ta, tb), key=repr)))
        return self.v((type(op).__name__.lower(), ta, tb))

    def e_Compare(self, e, st):
        out = []
        for vs, s in self.evals([e.left] + e.comparators, st):
            conds = [self.cmp(op, vs[i], vs[i + 1], s) for i, op in enumerate(e.ops)]
            if len(conds) == 1:
                out.append((self.v(conds[0]), s))
            else:
                cs = [c for c in conds if c != TRUE]
                if any(c == FALSE for c in cs):
                    t = FALSE
                elif not cs:
                    t = TRUE
                else:
                    t = cs[0] if len(cs) == 1 else ("and",) + tuple(cs)
                out.append((self.v(t), s))
        return out

    def cmp(self, op, a, b, st):
        a, b = st.cur(a), st.cur(b)
        ta, tb = st.term(a), st.term(b)
        c = type_test(op, a, b, ta, tb, st)
        if c is not None:
            return c
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if ta[0] == "obj" and tb[0] == "obj":
                c = ("b", ta == tb)
            elif isinstance(op, (ast.Is, ast.IsNot)) and NONE not in (ta, tb) and (ta[0] not in ("b", "n", "s") and tb[0] not in ("b", "n", "s")):
                c = TRUE if a is b else ("is",) + tuple(sorted((ta, tb), key=repr))
            elif NONE in (ta, tb) and any(x.t is not None and x.t[0] == "acc" and x.ty in ("list", "set", "dict") for x in (a, b)):
                c = FALSE  # a container built up in a loop
            else:
                c = self.eqt(ta, tb)
            return tm.not_(c) if isinstance(op, (ast.IsNot, ast.NotEq)) else c
        if isinstance(op, ast.Lt):
            return self.ltt(ta, tb)
        if isinstance(op, ast.Gt):
            return self.ltt(tb, ta)
        if isinstance(op, ast.LtE):
            return tm.not_(self.ltt(tb, ta))
        if isinstance(op, ast.GtE):
            return tm.not_(self.ltt(ta, tb))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.incond(ta, b, st)
            return tm.not_(c) if isinstance(op, ast.NotIn) else c
        raise Undecided("comparison")

    def eqt(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "len" and y == N(0):
                return tm.not_(self.truth_t(x[1]))
            if y in (("list",), ("dict",), ("tup",)):
                return tm.not_(self.truth_t(x)) if x[0] not in ("n", "s", "b", "none") else FALSE
            if y == NONE and nonnone(x):
                return FALSE
            if y[0] == "b" and x[0] in ("not", "lt", "eq", "in", "and", "or", "isinstance"):
                return x if y[1] else tm.not_(x)
        # move constants of sums to one side:  a + c == b + d
        return tm.eq(a, b)

    def ltt(self, a, b):
        if a == N(0) and b[0] == "len":
            return self.truth_t(b[1])
        if a[0] == "len" and b == N(1):
            return tm.not_(self.truth_t(a[1]))
        # integer-safe shift: x + c < d  ->  x < d - c
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[0] == "add" and x[-1][0] == "n" and y[0] == "n":
                rest = x[1:-1]
                r = rest[0] if len(rest) == 1 else ("add",) + rest
                k = N(y[1] - x[-1][1])
                return self.ltt(r, k) if not flip else self.ltt(k, r)
        # -x < -y  ->  y < x
        minus = [x[0] == "mul" and x[1] == N(-1) for x in (a, b)]
        if all(minus) or any(minus) and all(m or x[0] == "n" for m, x in zip(minus, (a, b))):
            return self.ltt(tm.neg(b), tm.neg(a))
        return tm.lt(a, b)

    def incond(self, k, dv, st):
        if dv.ty in ("cachehit", "gcachehit"):
            return TRUE
        d = st.term(dv)
        if dv.map is not None and dv.base is None or d[0] == "dict":
            ks = [x for x, _ in dv.map] if dv.map is not None else [z[0] for z in d[1:]]
            if not ks:
                return FALSE
            if k in ks:
                return TRUE
            if is_const(k) and all(is_const(x) for x in ks):
                return FALSE
            return ("in", k, ("tup",) + tuple(sorted(ks, key=repr)))
        if d[0] in ("list", "tup", "setlit"):
            if k in d[1:]:
                return TRUE
            if is_const(k) and all(is_const(x) for x in d[1:]):
                return FALSE
            if len(d) == 1:
                return FALSE
            if len(d) == 2:
                return self.eqt(k, d[1])
            return ("in", k, ("tup",) + tuple(sorted(set(d[1:]), key=repr)))
        if dv.map is not None:
            if k in [x for x, _ in dv.map]:
                return TRUE
        while d[0] in ("keys", "list_of", "set", "sorted", "tuple") and len(d) == 2:
            d = d[1]
        kn = self.known_in(k, d, st)
        if kn is not None:
            return ("b", kn)
        return ("in", k, d)

    def e_Attribute(self, e, st):
        out = []
        for v, s in self.eval(e.value, st):
            r = self.getattr_(v, e.attr, s, e)
            if self.devs is not None:
                d = self.devs.of(self, s, v)
                if d is not None and e.attr == "device":
                    r = [(V(d), s)]
                elif d is not None and e.attr in ("T", "data", "mT"):
                    r = self.devs.mark(r, d, [v], s)
            out += r
        return out

    def e_Subscript(self, e, st):
        out = []
        for v, s in self.eval(e.value, st):
            for k, s2 in self.index(e.slice, s):
                r = self.getitem(v, k, s2, e)
                if self.devs is not None and s2.cur(v).items is None and s2.cur(v).map is None:
                    r = self.devs.mark(r, self.devs.item(self, s2, v, k), [v, k], s2)
                out += r
        return out

    def index(self, sl, st):
        if isinstance(sl, ast.Slice):
            outs = []
            for vs, s in self.evals([x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)], st):
                ts = [s.term(v) for v in vs]
                if ts[0] == N(0):
                    ts[0] = NONE
                outs.append((V(("slice",) + tuple(ts)), s))
            return outs
        if isinstance(sl, ast.Tuple):
            outs = [([], st)]
            for x in sl.elts:
                nxt = []
                for acc, s in outs:
                    for v, s2 in self.index(x, s):
                        nxt.append((acc + [v], s2))
                outs = nxt
            return [(V(None, "tuple", items=a), s) for a, s in outs]
        return self.eval(sl, st)

    def e_Slice(self, e, st):
        return self.index(e, st)

    def e_NamedExpr(self, e, st):
        out = []
        for v, s in self.eval(e.value, st):
            s.frames[-1][e.target.id] = v
            out.append((v, s))
        return out

    def e_Starred(self, e, st):
        return [(V(("star", s.term(v))), s) for v, s in self.eval(e.value, st)]

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_ListComp(self, e, st):
        return self.comp(e.generators, e.elt, None, st, "list")

    def e_SetComp(self, e, st):
        out = []
        for v, s in self.comp(e.generators, e.elt, None, st, "list"):
            t = mkset(s.term(v))
            if t[0] == "setlit" and all(tm.is_const(x) for x in t[1:]):
                out.append((V(None, "set", items=[V(x) for x in t[1:]]), s))
            else:
                out.append((V(t, "set"), s))
        return out

    def e_GeneratorExp(self, e, st):
        return self.comp(e.generators, e.elt, None, st, "list")

    def e_DictComp(self, e, st):
        return self.comp(e.generators, e.key, e.value, st, "dict")

    def comp(self, gens, key, val, st, kind):
        """Desugar a comprehension to the loop it denotes."""
        acc = "__comp%d__" % len(st.frames[-1])
        body = None
        if kind == "dict":
            body = ast.Assign(targets=[ast.Subscript(value=ast.Name(acc, ast.Load()), slice=key, ctx=ast.Store())], value=val)
        else:
            body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(acc, ast.Load()), attr="append", ctx=ast.Load()), args=[key], keywords=[]))
        ast.fix_missing_locations(ast.copy_location(body, key))
        for g in reversed(gens):
            inner = [body]
            for c in reversed(g.ifs):
                b = ast.If(test=c, body=inner, orelse=[])
                inner = [ast.copy_location(b, key)]
            body = ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])
            ast.copy_location(body, key)
        saved = dict(st.frames[-1])
        st.frames[-1][acc] = V(None, "dict", map=[]) if kind == "dict" else self.lst([])
        out = []
        names = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for k, v, s in self.s_For(body, st):
            r = s.cur(s.frames[-1].pop(acc))
            for n in names:
                if n in saved:
                    s.frames[-1][n] = saved[n]
                else:
                    s.frames[-1].pop(n, None)
            out.append((r, s))
        return out

    # ------------------------------------------------------------------ attribute access
    def getattr_(self, v, name, st, node=None):
        v = st.cur(v)
        p = v.py
        if v.t is not None and v.t[0] == "obj":
            return self.obj_attr(v, name, st, node)
        if isinstance(p, Super):
            f = self.repo.lookup(st.objs[p.selfv.t[1]].cls if p.selfv.t[0] == "obj" else p.selfv.py.cls, name, after=p.cls)
            if f is None:
                return [(V(("superext", name), py=Ext("super." + name)), st)]
            if f.is_property:
                return self.call_func(f, [p.selfv], {}, st, node)
            return [(V(("fn", f.qual), py=Bound(p.selfv, f)), st)]
        if isinstance(p, ClsRef):
            f = self.repo.lookup(p.cls, name)
            if f is not None:
                if f.is_classmethod:
                    return [(V(("fn", f.qual), py=Bound(v, f)), st)]
                return [(self.fnv(f), st)]
            a = self.repo.class_attr(p.cls, name)
            if a:
                return self.eval_in_module(a[1], a[0].module, st)
            return [(V(("attr", v.t, name), py=Ext(p.cls.qual + "." + name)), st)]
        if isinstance(p, ModRef):
            r = self.repo.resolve_in(p.mod, name)
            if r is None:
                return [(V(("ext", p.mod.name + "." + name), py=Ext(p.mod.name + "." + name)), st)]
            return self.from_resolved(r, st, p.mod, name)
        if isinstance(p, Ext):
            return [(self.extv(p.dotted + "." + name), st)]
        if isinstance(v.ty, Cls):
            o = self.materialise(v, st)
            return self.obj_attr(o, name, st, node)
        t = st.term(v)
        if name == "T":
            return [(V(tm.T(t), org=v.org), st)]
        if name == "device":
            return [(V(device_of(t)), st)]
        if name in ("data",):
            return [(V(t, v.ty, org=v.org), st)]
        if name == "shape":
            return [(V(("shape", t)), st)]
        if name in ("values", "indices") and t[0] == "red" and t[1] in ("max", "min") and len(t) > 3 and t[3] != NONE:
            return [(V(sub(t, N(0 if name == "values" else 1))), st)]
        if name in ("values", "indices") and t[0] == "mcall" and t[2] in ("topk", "sort", "max", "min", "kthvalue", "median", "mode"):
            return [(V(sub(t, N(0 if name == "values" else 1))), st)]
        if name in ("dtype", "ndim", "requires_grad", "is_sparse", "layout"):
            return [(V(("attr", t, name)), st)]
        return [(V(("attr", t, name), org=v.org, par=None, py=MethodOf(v, name)), st)]

    def eval_in_module(self, expr, module, st):
        st.frames.append({"__module__": module, "__id__": None, "__closure__": None})
        out = []
        for v, s in self.eval(expr, st):
            s.frames.pop()
            out.append((v, s))
        return out

    def materialise(self, v, st):
        """An opaque value known to be an instance of a package class becomes a symbolic object."""
        key = ("in", v.t)
        if key not in st.objs:
            st.objs[key] = Obj(v.ty, True, v.t)
        o = V(("obj", key), v.ty, org=v.org)
        st.forward(v, o)
        return o

    def obj_attr(self, v, name, st, node=None):
        key = v.t[1]
        o = st.objs[key]
        if name in o.fields:
            return [(st.cur(o.fields[name]), st)]
        if name == "__class__":
            return [(V(("cls", o.cls.qual), py=ClsRef(o.cls)), st)]
        f = self.repo.lookup(o.cls, name)
        if f is not None:
            if f.is_property:
                if name in self.prop_atoms:
                    a = self.prop_atom(v, name, st)
                    if a is not None:
                        return [(a, st)]
                return self.call_func(f, [v], {}, st, node)
            if f.is_static:
                return [(self.fnv(f), st)]
            return [(V(("fn", f.qual), py=Bound(v, f)), st)]
        a = self.repo.class_attr(o.cls, name)
        if a:
            return self.eval_in_module(a[1], a[0].module, st)
        if o.sym or self.repo.ext_bases(o.cls) not in ([], ["abc.ABC"], ["object"]):
            r = self.init_field(v, o, name, st)
            o.fields[name] = r
            return [(r, st)]
        st.ev("missing_attr", o.cls.qual, name, self.loc(node, st))
        return [(V(("missing", o.cls.qual, name)), st)]

    def init_field(self, v, o, name, st):
        t = ("init", o.name if o.name is not None else v.t[1], name)
        d = self.field_depth(o, name)
        r = V(t, org=frozenset([(("field", v.t[1], name), 0)]) if d else frozenset())
        h = self.field_hook(o, name, r, st)
        return h if h is not None else r

    def field_depth(self, o, name):
        return 1

    def field_hook(self, o, name, r, st):
        return None

    def prop_atom(self, v, name, st):
        o = st.objs[v.t[1]]
        fields = self.prop_atom_fields(o.cls) if self.prop_atom_fields else []
        parts = []
        for f in fields:
            for x, s in self.obj_attr(v, f, st):
                parts.append(s.term(x))
        t = ("prop", name) + tuple(parts)
        return V(t)

    def loc(self, node, st):
        fr = st.frames[-1] if st.frames else {}
        m = fr.get("__module__")
        return f"{m.rel if m else '?'}:{getattr(node, 'lineno', 0)}"

    # ------------------------------------------------------------------ subscripts
    def getitem(self, v, k, st, node=None):
        v, k = st.cur(v), st.cur(k)
        kt = st.term(k)
        if v.items is not None:
            n = len(v.items)
            if kt[0] == "n" and isinstance(kt[1], int):
                if -n <= kt[1] < n:
                    return [(st.cur(v.items[kt[1]]), st)]
                self.do_raise("IndexError", st, node)
                return []
            if kt[0] == "slice" and all(x == NONE or (x[0] == "n") for x in kt[1:]):
                sl = slice(*[pyval(x) for x in kt[1:]])
                return [(V(None, v.ty, items=v.items[sl]), st)]
            if kt[0] == "elem" and st.term(v)[0] == "list":
                pass
        if v.map is not None:
            return self.map_get(v, kt, st, node, None, True)
        if v.ty == "cachehit":
            return [(V(("cached",) + v.t[1:] + (kt,)), st)]
        if v.ty == "gcachehit":
            return [(V(("cache",) + v.t[1:] + (kt,), "cachehit"), st)]
        t = st.term(v)
        if t[0] == "s" and isinstance(t[1], str):
            if kt[0] == "n" and isinstance(kt[1], int):
                if -len(t[1]) <= kt[1] < len(t[1]):
                    return [(V(S(t[1][kt[1]])), st)]
                self.do_raise("IndexError", st, node)
                return []
            if kt[0] == "slice" and all(x == NONE or x[0] == "n" and isinstance(x[1], int) for x in kt[1:]):
                return [(V(S(t[1][slice(*[pyval(x) for x in kt[1:]])])), st)]
        if v.t is not None and v.t[0] == "obj":
            f = self.repo.lookup(st.objs[v.t[1]].cls, "__getitem__")
            if f:
                return self.call_func(f, [v, k], {}, st, node)
        if t[0] == "dict" or t[0] == "dset":
            r = self.dict_lookup(t, kt, st)
            if r is not None:
                return [(V(r, par=(v, kt), org=orgs_sub(v.org)), st)]
        if t[0] == "tup" and kt[0] == "n" and isinstance(kt[1], int) and -len(t) + 1 <= kt[1] < len(t) - 1:
            return [(V(t[1:][kt[1]], org=orgs_sub(v.org)), st)]
        if t[0] == "attr" and isinstance(v.py, MethodOf):
            pass
        rt = sub(t, kt)
        return [(V(rt, self.elem_type(v), org=orgs_sub(v.org), par=(v, kt)), st)]

    def elem_type(self, v):
        if isinstance(v.ty, tuple) and v.ty[0] in ("list", "listof"):
            return v.ty[1]
        return None

    def dict_lookup(self, t, k, st):
        while t[0] in ("dset", "ddel"):
            ke = self.known(tm.eq(k, t[2]), st)
            if ke is True:
                return t[3] if t[0] == "dset" else None
            if ke is None:
                return None
            t = t[1]
        if t[0] == "dict":
            for z in t[1:]:
                if z[0] == k:
                    return z[1]
            return None
        return sub(t, k)

    def map_get(self, v, kt, st, node, default, strict):
        """Lookup in a dict with known entries; splits on aliasing of symbolic keys."""
        v = st.cur(v)
        for ek, ev in reversed(v.map):
            kn = self.known(tm.eq(ek, kt), st)
            if kn is True:
                return [(st.cur(ev), st)]
            if kn is None and v.ty == "memo":
                continue  # memo tables of provably-not-equal-unless-same keys: kept apart
            if kn is None:
                out = []
                for b, s in self.decide(tm.eq(ek, kt), st):
                    if b:
                        out.append((s.cur(ev), s))
                    else:
                        out += self.map_get(v, kt, s, node, default, strict)
                return out
        if v.base is not None:
            return [(V(sub(v.base, kt) if strict else ("get", v.base, kt, st.term(default)), org=orgs_sub(v.org), par=(v, kt)), st)]
        if v.default is not None and strict:
            nv = V(None, "memo" if v.ty == "memo" else "dict", map=[], org=orgs_sub(v.org) if v.ty == "memo" else frozenset()) if v.default == "dict" else (self.lst([]) if v.default == "list" else V(("defaultval", v.default)))
            nm = v.clone(map=v.map + [(kt, nv)])
            st.forward(v, nm)
            return [(nv, st)]
        if strict:
            st.ev("keyerror", kt, self.loc(node, st))
            self.do_raise("KeyError", st, node)
            return []
        return [(default, st)]

    def mutate(self, v, new, op, st, node, detail=()):
        """Rebind the identity of v to its new value; log the in-place effect."""
        v = st.cur(v)
        path, pp = [], v.par
        while pp is not None and len(path) < 6:
            path.append(pp[1])
            pp = st.cur(pp[0]).par
        if new.dev is None:
            new.dev = v.dev
        st.ev("mut", v.org, op, self.loc(node, st), v.t if v.t is not None else ("fresh",), tuple(detail), tuple(reversed(path)))
        new.org = v.org if not new.org else new.org
        new.par = v.par
        if new.ty is None:
            new.ty = v.ty
        st.forward(v, new)
        par = v.par
        child = new
        depth = 0
        while par is not None and depth < 6:
            pv, key = par
            pv = st.cur(pv)
            par = pv.par
            if pv.ty == "tuple_iter":
                break
            if pv.items is not None:
                # the element itself is shared by identity
                break
            if pv.map is not None:
                nm = pv.clone(map=[(a, b) for a, b in pv.map if a != key] + [(key, child)])
                st.forward(pv, nm)
                child = nm
            else:
                np_ = pv.clone(t=mk("dset", st.term(pv), key, st.term(child)))
                st.forward(pv, np_)
                child = np_
            depth += 1

    def setitem(self, v, k, x, st, node):
        v, k, x = st.cur(v), st.cur(k), st.cur(x)
        kt = st.term(k)
        if v.ty == "cachehit":
            st.ev("cache_store", v.t, kt, st.term(x), self.loc(node, st))
            if v.map is not None:
                st.forward(v, v.clone(map=[(a, b) for a, b in v.map if a != kt] + [(kt, x)]))
            return
        if v.t is not None and v.t[0] == "obj":
            f = self.repo.lookup(st.objs[v.t[1]].cls, "__setitem__")
            if f:
                self.call_func(f, [v, k, x], {}, st, node)
                return
        if v.items is not None and kt[0] == "n" and isinstance(kt[1], int) and -len(v.items) <= kt[1] < len(v.items):
            items = list(v.items)
            items[kt[1]] = x
            self.mutate(v, V(None, v.ty, items=items), "setitem", st, node, (kt,))
            return
        if v.map is not None:
            if v.ty == "memo":
                x = self.memo_mark(v, x, st, kt)
            m = [(a, b) for a, b in v.map if a != kt] + [(kt, x)]
            self.mutate(v, v.clone(map=m), "setitem", st, node, (kt,))
            return
        t = st.term(v)
        xt = st.term(x)
        if is_cond(kt) or kt[0] in ("not", "bitor", "isinf", "isnan") :
            nt = tm.guard(t, kt, xt)
        elif kt[0] == "isfinite":
            nt = ("maskset", t, kt, xt)
        else:
            nt = mk("dset", t, kt, xt)
        self.mutate(v, V(nt, v.ty), "setitem", st, node, (kt,))

    def memo_mark(self, table, x, st, kt, d=0):
        """What is stored in a memo table stays reachable from it: later in-place changes hit the memoised value."""
        x = st.cur(x)
        if x.ty == "memo" or x.py is not None or d > 3 or (x.t is not None and (x.t[0] == "obj" or is_const(x.t))):
            return x
        roots = frozenset((("memo", r[1], r[2], kt), 0) for r, _ in table.org if r[0] == "field")
        n = x.clone(org=x.org | roots)
        if x.items is not None:
            n.items = [self.memo_mark(table, y, st, kt, d + 1) for y in x.items]
        st.forward(x, n)
        return n

    def do_raise(self, name, st, node):
        st.ev("raise", name, self.loc(node, st))
        self.sinks[-1].append((name, st))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.frames[-1]:
            fr = st.frames[-1]
            if e.args:
                out = []
                for vs, s in self.evals(e.args, st):
                    c = vs[0].py.cls if isinstance(vs[0].py, ClsRef) else None
                    out.append((V(("super",), py=Super(s.cur(vs[1]), c)), s))
                return out
            c = fr.get("__cls__")
            selfname = fr.get("__self__")
            clo = fr.get("__closure__")
            if c is None and clo is not None:
                c, selfname = clo.env.get("__cls__"), clo.env.get("__self__")
                return [(V(("super",), py=Super(st.cur(clo.env[selfname]), c)), st)]
            if c is None:
                raise Undecided("super() outside a method")
            return [(V(("super",), py=Super(st.cur(fr[selfname]), c)), st)]
        out = []
        for f, s in self.eval(e.func, st):
            for args, s2 in self.evals(e.args, s):
                outs = [({}, s2)]
                for kw in e.keywords:
                    nxt = []
                    for kws, s3 in outs:
                        for x, s4 in self.eval(kw.value, s3):
                            d = dict(kws)
                            if kw.arg is None:
                                x = s4.cur(x)
                                if x.map is not None and x.base is None and all(k[0] == "s" for k, _ in x.map):
                                    for k, y in x.map:
                                        d[k[1]] = y
                                else:
                                    d["**"] = x
                            else:
                                d[kw.arg] = x
                            nxt.append((d, s4))
                    outs = nxt
                for kws, s3 in outs:
                    out += self.call(f, args, kws, s3, e)
        return out

    def call(self, f, args, kw, st, node):
        f = st.cur(f)
        p = f.py
        self.budget()
        if isinstance(p, Func):
            return self.call_func(p, args, kw, st, node)
        if isinstance(p, Bound):
            if p.func.is_static:
                return self.call_func(p.func, args, kw, st, node)
            return self.call_func(p.func, [p.selfv] + args, kw, st, node)
        if isinstance(p, Closure):
            a = ([p.selfv] if p.selfv else []) + args
            return self.call_func(p.func, a, kw, st, node, closure=p)
        if isinstance(p, Partial):
            k = dict(p.kw)
            k.update(kw)
            return self.call(p.fn, list(p.args) + args, k, st, node)
        if isinstance(p, ClsRef):
            return self.construct(p.cls, args, kw, st, node)
        if isinstance(p, Ext):
            return self.call_ext(p.dotted, args, kw, st, node)
        if isinstance(p, MethodOf):
            return self.call_method(p.recv, p.name, args, kw, st, node)
        if self.hook_apply is not None:
            r = self.hook_apply(self, f, args, kw, st, node)
            if r is not None:
                return r
        if f.t is not None and f.t[0] == "obj":
            c = st.objs[f.t[1]].cls
            for nm in ("__call__", "forward"):
                m = self.repo.lookup(c, nm)
                if m:
                    return self.call_func(m, [f] + args, kw, st, node)
        t = ("apply", st.term(f)) + self.argterms(args, kw, st)
        st.ev("apply", st.term(f), self.argterms(args, kw, st), self.loc(node, st))
        return [(V(t), st)]

    def argterms(self, args, kw, st):
        out = tuple(st.term(a) for a in args)
        if kw:
            out += (("kw",) + tuple((k, st.term(x)) for k, x in sorted(kw.items())),)
        return out

    def construct(self, cls, args, kw, st, node):
        if cls.qual in self.intercept:
            r = self.intercept[cls.qual](self, None, args, kw, st, node)
            if r is not None:
                return r
        if cls.qual in self.opaque:
            st.ev("call", cls.qual, self.argterms(args, kw, st), self.loc(node, st))
            return [(V(("call", cls.qual) + self.argterms(args, kw, st), cls), st)]
        st.nobj += 1
        key = ("new", cls.name, st.nobj)
        st.objs[key] = Obj(cls)
        v = V(("obj", key), cls)
        st.ev("new", key, cls.qual, self.loc(node, st))
        init = self.repo.lookup(cls, "__init__")
        if init is None:
            if self.repo.lookup(cls, "__init__") is None and any("dataclass" in d for d in []):
                pass
            return [(v, st)]
        out = []
        for _, s in self.call_func(init, [v] + args, kw, st, node):
            out.append((v, s))
        return out

    def bind(self, func, args, kw, st, node):
        """[(env, st)] or raises a TypeError event when the call does not bind."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        kw = dict(kw)
        starkw = kw.pop("**", None)
        star = None
        for i, x in enumerate(args):
            if x.t is not None and x.t[0] == "star":
                star = x
                break
            if i < len(names):
                env[names[i]] = x
            else:
                rest.append(x)
        if star is not None:
            # unknown-length expansion: remaining positionals are projections of the tuple
            for j, n in enumerate(names[len(env):]):
                if n not in kw:
                    env[n] = V(sub(star.t[1], N(j)))
        if a.vararg:
            env[a.vararg.arg] = self.lst(rest, "tuple") if star is None else V(star.t[1])
        elif rest:
            self.do_raise("TypeError", st, node)
            st.ev("bind_error", func.qual, "too many positional arguments", self.loc(node, st))
            return None
        extra = {}
        allk = set(names) | {x.arg for x in a.kwonlyargs}
        for k, x in kw.items():
            if k in allk:
                if k in env:
                    st.ev("bind_error", func.qual, f"duplicate argument {k}", self.loc(node, st))
                    self.do_raise("TypeError", st, node)
                    return None
                env[k] = x
            else:
                extra[k] = x
        if a.kwarg:
            if starkw is not None:
                env[a.kwarg.arg] = starkw
            else:
                env[a.kwarg.arg] = V(None, "dict", map=[(S(k), x) for k, x in extra.items()])
        elif extra:
            st.ev("bind_error", func.qual, f"unexpected keyword argument {sorted(extra)[0]}", self.loc(node, st))
            self.do_raise("TypeError", st, node)
            return None
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if starkw is not None:
                    env[n] = V(("kwget", st.term(starkw), n))
                elif n in defaults:
                    env[n] = ("default", defaults[n])
                else:
                    st.ev("bind_error", func.qual, f"missing argument {n}", self.loc(node, st))
                    self.do_raise("TypeError", st, node)
                    return None
        return env

    def call_func(self, func, args, kw, st, node, closure=None):
        q = func.qual
        if q in self.intercept:
            r = self.intercept[q](self, func, args, kw, st, node)
            if r is not None:
                return r
        if q in self.opaque or st.stack.count(q) >= 3 or len(st.stack) > MAXDEPTH:
            st.ev("call", q, self.argterms(args, kw, st), self.loc(node, st))
            return [(V(("call", q) + self.argterms(args, kw, st)), st)]
        env = self.bind(func, args, kw, st, node)
        if env is None:
            return []
        self.inlined.add(q)
        fid = object()
        frame = {"__module__": func.module, "__id__": fid, "__closure__": closure, "__cls__": func.cls,
                 "__self__": (func.params()[0] if func.cls and func.params() and not func.is_static else None)}
        frame["__locals__"], g = func.scope()
        if g:
            frame["__globals__"] = g
        if closure is not None and "__extra__" in closure.env:
            frame["__extra__"] = closure.env["__extra__"]
        if getattr(func, "extra", None):
            frame["__extra__"] = func.extra
        todo = [(k, x) for k, x in env.items() if isinstance(x, tuple)]
        for k, x in env.items():
            if not isinstance(x, tuple):
                frame[k] = x
        st.frames.append({"__module__": func.module, "__id__": None, "__closure__": closure})
        for k, x in todo:
            rs = self.eval(x[1], st)
            frame[k] = rs[0][0]
            st = rs[0][1]
        st.frames.pop()
        st.frames.append(frame)
        st.stack.append(q)
        st.ev("enter", q, self.loc(node, st) if node is not None else func.loc)
        depth = len(st.frames)
        nograd = any(d.endswith("no_grad") or d.endswith("inference_mode") for d in func.decos)
        if nograd:
            st.ev("with", "torch.no_grad", "enter", func.loc)
        out = []
        if isinstance(func.node, ast.Lambda):
            res = [("ret", v, s) for v, s in self.eval(func.node.body, st)]
        else:
            gen = is_generator(func.node)
            if gen:
                st.frames[-1]["__yield__"] = self.lst([])
            res = self.block(func.node.body, st)
        for kind, v, s in res:
            if len(s.frames) != depth:
                raise Undecided(f"frame imbalance in {q} {kind} {len(s.frames)} {depth} {s.stack}")
            if not isinstance(func.node, ast.Lambda) and "__yield__" in s.frames[-1]:
                v = s.cur(s.frames[-1]["__yield__"])
            fr = s.frames.pop()
            if "__captured__" in fr:
                s.dead[fid] = fr
            s.stack.pop()
            if nograd:
                s.ev("with", "torch.no_grad", "exit", func.loc)
            s.ev("leave", q)
            out.append((v if kind == "ret" or v is not None else V(NONE), s))
        if len(out) > self.maxstates:
            raise Undecided(f"too many paths through {q}")
        return [(v if v is not None else V(NONE), s) for v, s in out]

    # external functions / methods live in ops.py
    def call_ext(self, dotted, args, kw, st, node):
        from . import ops
        if self.devs is None:
            return ops.call_ext(self, dotted, args, kw, st, node)
        d = self.devs.ext(self, dotted, args, kw, st, node)
        return self.devs.mark(ops.call_ext(self, dotted, args, kw, st, node), d, args, st)

    def call_method(self, recv, name, args, kw, st, node):
        from . import ops
        if self.devs is None:
            return ops.call_method(self, recv, name, args, kw, st, node)
        d = self.devs.method(self, recv, name, args, kw, st, node)
        outs = self.devs.mark(ops.call_method(self, recv, name, args, kw, st, node), d, [recv] + args, st)
        if name in ("append", "extend", "add", "insert") and args:
            for _, s in outs:
                c = s.cur(recv)
                if c.items is None and c.map is None and c.py is None:
                    c.dev = self.devs.join(self, s, [c, args[-1]], node, name)
        return outs

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        pend = [st]
        done = []
        for s in body:
            nxt = []
            for x in pend:
                for kind, v, s2 in self.stmt(s, x):
                    if kind == "next":
                        nxt.append(s2)
                    else:
                        done.append((kind, v, s2))
            pend = nxt
            if len(pend) > self.maxstates:
                raise Undecided("too many live paths")
            if not pend:
                break
        return done + [("next", None, s) for s in pend]

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}")
        self.budget()
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", None, st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            out = []
            for v, s2 in (self.eval(s.value.value, st) if s.value.value else [(V(NONE), st)]):
                y = s2.cur(s2.frames[-1]["__yield__"])
                if isinstance(s.value, ast.YieldFrom):
                    nv = V(seqcat(s2.term(y), s2.term(v)), "list")
                elif y.items is not None:
                    nv = V(None, "list", items=y.items + [v])
                else:
                    nv = V(seqcat(s2.term(y), ("list", s2.term(v))), "list")
                s2.forward(y, nv)
                out.append(("next", None, s2))
            return out
        return [("next", None, s2) for _, s2 in self.eval(s.value, st)]

    def s_Pass(self, s, st):
        return [("next", None, st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        from .repo import import_bindings
        for k, d in import_bindings(s, st.frames[-1]["__module__"]):
            r = self.repo.resolve_dotted(d)
            if r is None:
                st.frames[-1][k] = self.extv(d)
            else:
                st.frames[-1][k] = self.from_resolved(r, st, st.frames[-1]["__module__"], k)[0][0]
        return [("next", None, st)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        fr = st.frames[-1]
        f = Func(fr["__module__"], s)
        env = dict(fr)
        fr["__captured__"] = True
        v = V(("fn", "local." + s.name), py=Closure(f, env, fr.get("__id__")))
        env[s.name] = v
        fr[s.name] = v
        return [("next", None, st)]

    def s_ClassDef(self, s, st):
        raise Undecided("local class")

    def s_Return(self, s, st):
        if s.value is None:
            return [("ret", V(NONE), st)]
        return [("ret", v, s2) for v, s2 in self.eval(s.value, st)]

    def s_Raise(self, s, st):
        name = "Exception"
        if s.exc is not None:
            f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(f).split(".")[-1]
        self.do_raise(name, st, s)
        return []

    def s_Assert(self, s, st):
        out = []
        for b, s2 in self.cond(s.test, st):
            if b:
                out.append(("next", None, s2))
            else:
                self.do_raise("AssertionError", s2, s)
        return out

    def s_If(self, s, st):
        out = []
        for b, s2 in self.cond(s.test, st):
            out += self.block(s.body if b else s.orelse, s2)
        return out

    def s_Delete(self, s, st):
        outs = [st]
        for t in s.targets:
            nxt = []
            for st in outs:
                if isinstance(t, ast.Name):
                    st.frames[-1].pop(t.id, None)
                    nxt.append(st)
                elif isinstance(t, ast.Subscript):
                    for v, s1 in self.eval(t.value, st):
                        for k, s2 in self.index(t.slice, s1):
                            self.delitem(v, k, s2, s)
                            nxt.append(s2)
                else:
                    nxt.append(st)
            outs = nxt
        return [("next", None, x) for x in outs]

    def delitem(self, v, k, st, node):
        v = st.cur(v)
        kt = st.term(k)
        if v.map is not None:
            self.mutate(v, v.clone(map=[(a, b) for a, b in v.map if a != kt]), "delitem", st, node, (kt,))
            return
        self.mutate(v, V(mk("ddel", st.term(v), kt), v.ty), "delitem", st, node, (kt,))

    def s_Assign(self, s, st):
        outs = []
        for v, s2 in self.eval(s.value, st):
            pend = [s2]
            for t in s.targets:
                pend = [y for x in pend for y in self.assign(t, v, x, s)]
            outs += [("next", None, x) for x in pend]
        return outs

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", None, st)]
        return [("next", None, x) for v, s2 in self.eval(s.value, st) for x in self.assign(s.target, v, s2, s)]

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        outs = []
        for a, s1 in self.eval(load, st):
            for b, s2 in self.eval(s.value, s1):
                a2 = s2.cur(a)
                if isinstance(s.op, ast.Add) and (a2.items is not None and a2.ty == "list" or a2.ty == "list"):
                    from . import ops
                    ops.list_extend(self, a2, b, s2, s)
                    outs.append(("next", None, s2))
                    continue
                r = self.binop(s.op, a2, b, s2)
                if isinstance(s.target, ast.Name) and a2.org:
                    # tensors update in place
                    s2.ev("mut?", a2.org, "aug", self.loc(s, s2), a2.t)
                for x in self.assign(s.target, r, s2, s):
                    outs.append(("next", None, x))
        return outs

    def assign(self, t, v, st, node):
        """[state]"""
        if isinstance(t, ast.Name):
            fr = st.frames[-1]
            if t.id in fr.get("__globals__", ()):
                k = ("glob", fr["__module__"].name)
                if t.id in fr["__module__"].mutable:
                    if k not in st.objs:
                        st.objs[k] = Obj(None, True, k, {})
                    st.objs[k].fields[t.id] = v
                    st.ev("write", k, t.id, self.loc(node, st))
                    return [st]
            fr[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = st.cur(v)
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = None
            if star:
                i0 = star[0]
                if v.items is not None:
                    items = v.items
                    tail = n - i0 - 1
                    vals = items[:i0] + [self.lst(items[i0:len(items) - tail])] + (items[len(items) - tail:] if tail else [])
                else:
                    tt = st.term(v)
                    vals = [V(sub(tt, N(i))) for i in range(i0)] + [V(sub(tt, ("slice", N(i0) if i0 else NONE, N(-(n - i0 - 1)) if n - i0 - 1 else NONE, NONE)), "list")] + \
                        [V(sub(tt, N(-(n - i)))) for i in range(i0 + 1, n)]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
                if v.items is not None:
                    if len(v.items) != n:
                        self.do_raise("ValueError", st, node)
                        return []
                    vals = list(v.items)
                else:
                    tt = st.term(v)
                    if tt[0] == "tup" and len(tt) == n + 1:
                        vals = [V(x) for x in tt[1:]]
                    else:
                        vals = [V(sub(tt, N(i)), self.elem_type(v), org=orgs_sub(v.org), par=(v, N(i))) for i in range(n)]
            pend = [st]
            for x, y in zip(elts, vals):
                pend = [z for p in pend for z in self.assign(x, y, p, node)]
            return pend
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.eval(t.value, st):
                out += self.setattr_(o, t.attr, v, s, node)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o, s in self.eval(t.value, st):
                for k, s2 in self.index(t.slice, s):
                    self.setitem(o, k, v, s2, node)
                    out.append(s2)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        raise Undecided("assignment target")

    def setattr_(self, o, name, v, st, node):
        o = st.cur(o)
        if o.t is not None and o.t[0] != "obj" and isinstance(o.ty, Cls):
            o = self.materialise(o, st)
        if o.t is not None and o.t[0] == "obj":
            ob = st.objs[o.t[1]]
            f = self.repo.lookup(ob.cls, name, setter=True)
            if f is not None:
                return [s for _, s in self.call_func(f, [o, v], {}, st, node)]
            g = self.repo.lookup(ob.cls, name)
            if g is not None and g.is_property:
                st.ev("set_readonly", ob.cls.qual, name, self.loc(node, st))
                self.do_raise("AttributeError", st, node)
                return []
            st.ev("write", o.t[1], name, st.term(v) if st.cur(v).py is None else ("py",), self.loc(node, st), v)
            if name in ("cache", "group_cache") and st.cur(v).map is not None:
                c = st.cur(v)
                nm = c.clone(ty="memo", org=frozenset([(("field", o.t[1], name), 0)]))
                st.forward(c, nm)
                v = nm
            ob.fields[name] = v
            return [st]
        st.ev("mut", o.org, "setattr", self.loc(node, st), o.t if o.t is not None else ("fresh",), (S(name),))
        return [st]

    def s_With(self, s, st):
        pend = [st]
        ents = []
        for it in s.items:
            nxt = []
            for x in pend:
                for v, s2 in self.eval(it.context_expr, x):
                    t = s2.term(v)
                    s2.ev("with", with_name(t), "enter", self.loc(s, s2))
                    ents.append(with_name(t))
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, s2, s)
                    else:
                        nxt.append(s2)
            pend = nxt
        out = []
        for x in pend:
            for kind, v, s2 in self.block(s.body, x):
                s2.ev("with", ents[0] if ents else "?", "exit", self.loc(s, s2))
                out.append((kind, v, s2))
        return out

    def s_Try(self, s, st):
        self.sinks.append([])
        snapshot = st.copy()
        depth = len(st.frames)
        res = self.block(s.body, st)
        raised = self.sinks.pop()
        out = []
        for kind, v, s2 in res:
            if kind == "next" and s.orelse:
                out += self.block(s.orelse, s2)
            else:
                out.append((kind, v, s2))
        ext = True
        for h in s.handlers:
            names = [] if h.type is None else [self.exc_name(x, snapshot) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            entries = []
            for name, rs in list(raised):
                if not names or name in names or "Exception" in names:
                    raised.remove((name, rs))
                    while len(rs.frames) > depth:
                        rs.frames.pop()
                        rs.stack.pop()
                    entries.append(rs)
            # an external callee may raise: one abstract exceptional entry per handler
            s3 = snapshot.copy()
            self.budget()
            s3.fact(("exc", tuple(names), sum(1 for c in s3.order if c[0] == "exc")), True)
            s3.ev("except", tuple(names), self.loc(h, s3))
            entries.append(s3)
            for x in entries:
                if h.name:
                    x.frames[-1][h.name] = V(("excval", tuple(names)))
                out += self.block(h.body, x)
        for r in raised:
            self.sinks[-1].append(r)
        if s.finalbody:
            o2 = []
            for kind, v, x in out:
                for k2, v2, y in self.block(s.finalbody, x):
                    o2.append((kind, v, y) if k2 == "next" else (k2, v2, y))
            out = o2
        return out

    def exc_name(self, x, st):
        if isinstance(x, ast.Name) and x.id in st.frames[-1]:
            t = st.term(st.frames[-1][x.id])
            if t and t[0] in ("ext", "fn", "cls", "glob", "builtin") and isinstance(t[-1], str):
                return t[-1].split(".")[-1]
        return ast.unparse(x).split(".")[-1]

    def s_Break(self, s, st):
        return [("break", None, st)]

    def s_Continue(self, s, st):
        return [("cont", None, st)]

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        out = []
        for it, s1 in self.eval(s.iter, st):
            out += self.for_iter(s, it, s1)
        return out

    def for_iter(self, s, it, st):
        it = st.cur(it)
        if self.hook_iter is not None:
            it = self.hook_iter(self, it, st) or it
        conc = self.concrete_iter(it, st)
        if conc is not None and len(conc) <= MAXUNROLL:
            pend = [st]
            out = []
            brk = []
            for x in conc:
                nxt = []
                for p in pend:
                    for q in self.assign(s.target, x, p, s):
                        for kind, v, r in self.block(s.body, q):
                            if kind in ("next", "cont"):
                                nxt.append(r)
                            elif kind == "break":
                                brk.append(r)
                            else:
                                out.append((kind, v, r))
                pend = nxt
                if len(pend) > self.maxstates:
                    raise Undecided("too many paths in an unrolled loop")
            for p in pend:
                if s.orelse:
                    out += self.block(s.orelse, p)
                else:
                    out.append(("next", None, p))
            return out + [("next", None, b) for b in brk]
        iterterm, elem, preconds, setup = self.abstract_iter(it, st)
        return self.abstract_loop(s, iterterm, elem, st, preconds, setup)

    def concrete_iter(self, it, st):
        if it.items is not None:
            return [st.cur(x) for x in it.items]
        if it.map is not None and it.base is None:
            return [V(k) for k, _ in it.map]
        t = st.term(it)
        if t[0] in ("list", "tup"):
            return [V(x) for x in t[1:]]
        if t[0] == "items" and t[1][0] == "dict":
            return [self.lst([V(z[0]), V(z[1])], "tuple") for z in t[1][1:]]
        if t[0] == "range" and all(x[0] == "n" for x in t[1:]):
            return [V(N(i)) for i in range(*[x[1] for x in t[1:]])][: MAXUNROLL + 1]
        if t[0] == "s":
            return [V(S(c)) for c in t[1]]
        return None

    def loopdepth(self, term, st):
        return sum(1 for x in st.loops if x == term)

    def abstract_iter(self, it, st):
        """(canonical iteration domain, element value, extra path conditions, None)"""
        t = st.term(it)
        dom, el = self.iter_term(t, st)
        def tov(x):
            if isinstance(x, list):
                return self.lst([tov(y) for y in x], "tuple")
            return V(x, self.elem_type(it) if x[0] in ("elem",) else None, org=orgs_sub(it.org), dev=it.dev if x[0] in ("elem", "sub") else None)
        conds = ()
        if dom[0] == "each" and len(dom) == 3 and dom[2][1][0] == "list" and len(dom[2][1]) == 2 and not isinstance(el, list) and el[0] == "elem":
            # fuse: iterate the underlying domain
            inner, conds, item = dom[1], dom[2][0], dom[2][1][1]
            if self.loopdepth(inner, st) == 0:
                return inner, V(item), conds, None
        return dom, tov(el), conds, None

    def iter_term(self, t, st):
        if t[0] in ("keys", "list_of", "seq", "tuple", "iter", "sh"):
            return self.iter_term(t[1], st)
        if t[0] == "items":
            d = t[1]
            n = self.loopdepth(d, st)
            k = ("elem", d, n)
            return d, [k, sub(d, k)]
        if t[0] == "values":
            d = t[1]
            return d, sub(d, ("elem", d, self.loopdepth(d, st)))
        if t[0] == "enumerate":
            dom, el = self.iter_term(t[1], st)
            start = t[2] if len(t) > 2 else N(0)
            return dom, [tm.add(("idx", dom, self.loopdepth(dom, st)), start), el]
        if t[0] == "range":
            a = t[1:]
            if len(a) == 1:
                a = (N(0), a[0])
            if len(a) == 2 and a[0] == N(0) and a[1][0] == "len":
                dom, _ = self.iter_term(a[1][1], st)
                return dom, ("idx", dom, self.loopdepth(dom, st))
            dom = ("range",) + a
            return dom, ("elem", dom, self.loopdepth(dom, st))
        if t[0] == "zip":
            # dict keys/values travel together
            if len(t) == 3 and t[1][0] == "keys" and t[2] == ("values", t[1][1]):
                return self.iter_term(("items", t[1][1]), st)
            doms = [self.iter_term(x, st) for x in t[1:]]
            d0 = doms[0][0]
            n = self.loopdepth(d0, st)
            els = []
            for x, (d, el) in zip(t[1:], doms):
                if d == d0:
                    els.append(el)
                else:
                    els.append(sub(x, ("idx", d0, n)))
            return d0, els
        if t[0] == "tqdm":
            return self.iter_term(t[1], st)
        return t, ("elem", t, self.loopdepth(t, st))

    def abstract_loop(self, s, dom, elem, st, preconds, setup, iswhile=False):
        entry = st
        entry.loops.append(dom)
        havoc_names, havoc_vs, havoc_fields = set(), {}, set()
        depth = len(entry.loops)
        for attempt in range(6):
            s1 = entry.copy()
            accs = {}
            n = 0
            fr = s1.frames[-1]
            for nm in sorted(havoc_names):
                old = s1.cur(fr[nm])
                a = V(("acc", depth, n), old.ty if old.items is None or old.ty in ("list", "set") else None, org=old.org, dev=self.devs.of(self, s1, old) if self.devs else None)
                if old.map is not None:
                    a.ty = "dict"
                accs[("name", nm)] = (a, old)
                fr[nm] = a
                n += 1
            for vid, (ov, label) in sorted(havoc_vs.items(), key=lambda z: z[1][1]):
                old = s1.cur(ov)
                a = V(("acc", depth, n), old.ty, org=old.org, par=old.par, dev=self.devs.of(self, s1, old) if self.devs else None)
                if old.map is not None:
                    a.ty = "dict"
                    if old.ty in ("cachehit", "gcachehit"):
                        a = old
                if a is not old:
                    s1.fwd[id(old)] = (old, a)
                accs[("v", vid)] = (a, old)
                n += 1
            for k, f in sorted(havoc_fields, key=repr):
                old = s1.cur(s1.objs[k].fields[f]) if f in s1.objs[k].fields else V(("init", s1.objs[k].name or k, f))
                a = V(("acc", depth, n), old.ty, org=old.org)
                accs[("f", k, f)] = (a, old)
                s1.objs[k].fields[f] = a
                n += 1
            base_names = dict(s1.frames[-1])
            base_objs = {k: dict(o.fields) for k, o in s1.objs.items()}
            base_fwd = set(s1.fwd)
            nfacts = len(s1.order)
            nev = len(s1.events)
            self.sinks.append([])
            starts = [s1]
            if not iswhile:
                for c, b in preconds:
                    s1.fact(c, b)
                starts = self.assign(s.target, elem, s1, s)
                res = []
                for q in starts:
                    res += self.block(s.body, q)
            else:
                res = []
                for b, q in self.cond(s.test, s1):
                    if b:
                        res += self.block(s.body, q)
                    else:
                        res.append(("exit", None, q))
            raised = self.sinks.pop()
            # what changed?
            nn, nv, nf = set(), {}, set()
            alls = [(k, v, q) for k, v, q in res if k in ("next", "cont", "break")]
            targets = set() if iswhile else {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            for k, v, q in alls:
                for nm, ov in base_names.items():
                    if nm.startswith("__") and not nm.startswith("__comp") and nm != "__yield__" or nm in targets:
                        continue
                    nw = q.frames[-1].get(nm)
                    if nw is None:
                        continue
                    if nw is not ov and q.cur(nw) is not q.cur(ov) and nm not in havoc_names:
                        if q.cur(nw).ty != "memo" and q.term(nw) != s1_term(entry, base_names[nm], q):
                            nn.add(nm)
                for fid in q.fwd:
                    if fid not in base_fwd:
                        ov = q.fwd[fid][0]
                        if self.reachable_before(ov, entry, base_names, base_objs) and not (ov.t and ov.t[0] == "acc" and ov.t[1] == depth):
                            lab = self.label_of(ov, base_names, base_objs)
                            if ov.ty == "memo":
                                continue
                            if fid not in havoc_vs and not ov.ty in ("cachehit", "gcachehit"):
                                # ignore lazily materialised objects
                                if q.cur(ov).t and q.cur(ov).t[0] == "obj":
                                    continue
                                nv[fid] = (ov, lab)
                for ok, flds in base_objs.items():
                    for fn, fv in flds.items():
                        nw = q.objs[ok].fields.get(fn)
                        if nw is not None and q.cur(nw).ty == "memo":
                            continue
                        if nw is not None and nw is not fv and q.cur(nw) is not q.cur(fv) and (ok, fn) not in havoc_fields:
                            nf.add((ok, fn))
                    for fn in q.objs[ok].fields:
                        if q.cur(q.objs[ok].fields[fn]).ty == "memo":
                            continue
                        if fn not in flds and any(e[0] == "write" and e[1] == ok and e[2] == fn for e in q.events[nev:]):
                            if (ok, fn) not in havoc_fields:
                                nf.add((ok, fn))
            if not (nn or nv or nf):
                break
            havoc_names |= nn
            havoc_vs.update(nv)
            havoc_fields |= nf
        else:
            raise Undecided("loop accumulators did not stabilise")
        # ---- summarise
        def delta(q):
            return tuple((c, q.facts[c]) for c in q.order[nfacts:])
        loopalts = []
        out = []
        ex_facts = []
        for kind, v, q in res:
            loopalts.append((delta(q), tuple(q.events[nev:]), kind))
        for nm, q in raised:
            loopalts.append((delta(q), tuple(q.events[nev:]), "raise"))
            f = ("exists", dom, delta(q))
            q.fact(f, True)
            ex_facts.append(f)
            q.loops = q.loops[: depth - 1]
            self.sinks[-1].append((nm, q))
        for kind, v, q in res:
            if kind == "ret":
                f = ("exists", dom, delta(q))
                q.fact(f, True)
                ex_facts.append(f)
                q.loops = q.loops[: depth - 1]
                out.append((kind, v, q))
        norm = [(k, q) for k, v, q in res if k in ("next", "cont", "break", "exit")]
        hasbreak = any(k == "break" for k, q in norm)
        fin = entry
        fin.loops.pop()
        fin.events = fin.events + [("loop", dom, tuple(loopalts), self.loc(s, entry), iswhile)]
        # objects created in the body stay reachable
        for k, q in norm:
            for ok, o in q.objs.items():
                if ok not in fin.objs:
                    fin.objs[ok] = o.copy()
                else:
                    for fn, fv in o.fields.items():
                        if fn not in fin.objs[ok].fields and (ok, fn) not in havoc_fields:
                            fin.objs[ok].fields[fn] = fv
            fin.nobj = max(fin.nobj, q.nobj)
            for fid, x in q.fwd.items():
                if x[0].ty == "memo":
                    c, n = fin.cur(x[0]), q.cur(x[0])
                    if n.map is not None and c.map is not None and c is not n:
                        have = {a for a, _ in c.map}
                        fin.forward(c, c.clone(map=list(c.map) + [(a, b) for a, b in n.map if a not in have]))
            fin.rnd = max(fin.rnd, q.rnd)
            for fid, x in q.fwd.items():
                if fid not in fin.fwd and q.cur(x[0]).t and q.cur(x[0]).t[0] == "obj":
                    fin.fwd[fid] = x
        norm = [(k, q) for k, q in norm if k != "exit"] if iswhile else norm
        accset = {a.t for a, _ in accs.values() if a.t}
        rec = []
        table = {}
        for key, (a, old) in accs.items():
            alts = []
            for k, q in norm:
                if key[0] == "name":
                    nv = q.cur(q.frames[-1][key[1]]) if key[1] in q.frames[-1] else None
                elif key[0] == "v":
                    nv = q.cur(old)
                else:
                    nv = q.cur(q.objs[key[1]].fields[key[2]])
                if nv is None:
                    continue
                alts.append((delta(q), q.term(nv), k))
            if a is not old:
                table[a.t] = (key, a, old, fin.term(old), alts)
        for key, a, old, init, alts in table.values():
            tt = self.summarise(dom, a.t, init, alts, accset, iswhile, hasbreak, table)
            rec.append((key, a.t, init, alts, tt))
            org = frozenset().union(*[q.cur(q.frames[-1][key[1]]).org for k, q in norm if key[0] == "name" and key[1] in q.frames[-1]] or [frozenset()]) | (old.org if old.items is None and old.map is None else frozenset())
            nvv = V(tt, "dict" if (old.map is not None or old.ty == "dict") else (old.ty if old.items is None or old.ty in ("list", "set") else None), org=org, par=old.par)
            if self.devs is not None:
                ds = {self.devs.of(self, fin, old)} if old.items != [] else set()
                for k, q in norm:
                    x = q.frames[-1].get(key[1]) if key[0] == "name" else (old if key[0] == "v" else q.objs[key[1]].fields[key[2]])
                    if x is not None:
                        ds.add(self.devs.of(self, q, x))
                if len(ds) == 1:
                    nvv.dev = ds.pop()
            if key[0] == "name":
                fin.frames[-1][key[1]] = nvv
            elif key[0] == "v":
                fin.fwd[id(fin.cur(old))] = (fin.cur(old), nvv)
            else:
                fin.objs[key[1]].fields[key[2]] = nvv
        if self.on_loop is not None:
            self.on_loop(s, dom, rec, [(k, q, delta(q)) for k, q in norm], [(delta(q), q) for k, v, q in res if k == "exit"], fin, depth)
        # loop-local names: the value depends on which path the last iteration took
        local = {}
        for k, q in norm:
            for nm, nv in q.frames[-1].items():
                if nm not in fin.frames[-1] and not nm.startswith("__comp"):
                    local.setdefault(nm, []).append((k, q, q.cur(nv)))
        for nm, alts in local.items():
            c = alts[0][2]
            if any(x.py is not None or (x.t and x.t[0] == "obj") for k, q, x in alts):
                fin.frames[-1][nm] = c
                continue
            terms_ = {q.term(x) for k, q, x in alts}
            if len(terms_) == 1 and len(alts) == len(norm) and not hasbreak:
                t = ("last", dom) + self.loop_system(terms_.pop(), table)
            else:
                full = tuple(sorted({(tuple(sorted(delta(q), key=repr)), q.term(x), k) for k, q, x in alts}, key=repr))
                t = ("last", dom) + self.loop_system(full, table)
            fin.frames[-1][nm] = V(t, c.ty, org=frozenset().union(*[x.org for k, q, x in alts]), dev=c.dev)
        for f in ex_facts:
            fin.fact(f, False)
        if hasbreak or not iswhile or any(k == "exit" for k, v, q in res):
            if s.orelse:
                out += self.block(s.orelse, fin)
            else:
                out.append(("next", None, fin))
        return out

    def label_of(self, v, names, objs):
        for n in sorted(names):
            if names[n] is v:
                return "n:" + n
        for k in sorted(objs, key=repr):
            for f in sorted(objs[k]):
                if objs[k][f] is v:
                    return f"f:{k}:{f}"
        return "z%d" % id(v)

    def reachable_before(self, v, entry, names, objs):
        """Was this identity visible before the loop body ran?"""
        seen = set()
        def visit(x, d=0):
            if not isinstance(x, V) or id(x) in seen or d > 4:
                return False
            seen.add(id(x))
            if x is v:
                return True
            if x.items is not None:
                if any(visit(y, d + 1) for y in x.items):
                    return True
            if x.map is not None:
                if any(visit(y, d + 1) for _, y in x.map):
                    return True
            c = entry.cur(x)
            if c is not x and visit(c, d):
                return True
            return False
        for fr in entry.frames[:-1] + [names]:
            for x in fr.values():
                if visit(x):
                    return True
            c = fr.get("__closure__")
            while c is not None:
                for x in c.env.values():
                    if visit(x):
                        return True
                c = c.env.get("__closure__")
        for k, o in objs.items():
            for x in o.values():
                if visit(x):
                    return True
        return False

    def loop_system(self, t, table):
        """A term over loop accumulators made self-contained: the accumulators it depends on are renamed
        canonically and their start values and updates are attached."""
        need, todo = [], [t]
        while todo:
            x = todo.pop()
            for a in table:
                if a not in need and tm.contains(x, lambda z: z == a):
                    need.append(a)
                    todo.append(tuple((c, u) for c, u, k in table[a][4]))
        if not need:
            return (t,)
        if len(need) == 1:
            order = need
        else:
            color = {a: ("acc", a[1], repr(table[a][3])) for a in need}
            for _ in range(len(need)):
                m = dict(color)
                color = {a: ("acc", a[1], repr((table[a][3], sorted(repr(tm.subst((c, u), lambda z: ("self",) if z == a else m.get(z))) for c, u, k in table[a][4])))) for a in need}
                ranks = {c: i for i, c in enumerate(sorted(set(color.values())))}
                color = {a: ("acc", a[1], ranks[color[a]]) for a in need}
            order = sorted(need, key=lambda a: (color[a], a))
        ren = {a: ("bacc", a[1], i) for i, a in enumerate(order)}
        go = lambda y: tm.subst(y, lambda z: ren.get(z))  # noqa: E731
        system = []
        for a in order:
            k_, a_, o_, init, alts = table[a]
            system.append((ren[a], init, tuple(sorted(((tuple(sorted(go(c), key=repr)), go(u), k) for c, u, k in alts), key=repr))))
        return (go(t), tuple(system))

    def summarise(self, dom, acc, init, alts, accset, iswhile, hasbreak, table):
        """Fold one accumulator over the domain."""
        if iswhile or hasbreak:
            return ("fold", dom, "while" if iswhile else "break") + self.loop_system(acc, table)
        alts = [(c, t) for c, t, k in alts]
        others = accset - {acc}

        def clean(x, allow=False):
            return not tm.contains(x, lambda y: y in accset)

        # sequence building
        seqs, ok = [], True
        for c, t in alts:
            if t == acc:
                seqs.append((c, ("list",)))
            elif t[0] == "concat" and t[1] == acc and clean(t[2:]) and clean(c):
                seqs.append((c, t[2] if len(t) == 3 else ("concat",) + t[2:]))
            else:
                ok = False
        if ok:
            return seqcat(init, each(dom, seqs))
        # set building
        seqs, ok = [], init[0] in ("set", "setlit") or bool(alts)
        for c, t in alts:
            if t == acc:
                seqs.append((c, ("list",)))
            elif t[0] == "set" and t[1][0] == "concat" and clean(c):
                rest = [x for x in t[1][1:] if x not in (acc, ("list_of", acc))]
                if len(rest) == len(t[1]) - 1 or not clean(tuple(rest)):
                    ok = False
                else:
                    rest = [aslist(x) for x in rest]
                    seqs.append((c, seqcat(("list",), rest[0] if len(rest) == 1 else ("concat",) + tuple(rest))))
            else:
                ok = False
        if ok and any(x != ("list",) for c, x in seqs):
            return mkset(seqcat(("list_of", init), each(dom, seqs)))
        # dict building
        ds, ok = [], True
        for c, t in alts:
            if t == acc:
                ds.append((c, ()))
            else:
                ops = []
                x = t
                while x[0] in ("dset",) and x != acc:
                    ops.append((x[2], x[3]))
                    x = x[1]
                if x == acc and clean(tuple(ops)) and clean(c):
                    ds.append((c, tuple(reversed(ops))))
                else:
                    ok = False
        if ok:
            d = deach(dom, ds)
            return d if init == ("dict",) else mk("dupd", init, d)
        # additive folds
        ss, ok = [], True
        for c, t in alts:
            d = tm.sub_(t, acc) if t[0] in ("add",) or t == acc else None
            if d is not None and clean(d) and clean(c):
                ss.append((c, d))
            else:
                ok = False
        if ok and init[0] != "s":
            return tm.add(init, sumeach(dom, ss))
        return ("fold", dom, "for") + self.loop_system(acc, table)

    def s_While(self, s, st):
        # a loop whose test is decided false on entry does not run
        s0 = st.copy()
        bs = self.cond(s.test, s0)
        if len(bs) == 1 and bs[0][0] is False:
            return self.block(s.orelse, bs[0][1]) if s.orelse else [("next", None, bs[0][1])]
        if len(bs) == 1 and bs[0][0] is True:
            r = self.unroll_while(s, st)
            if r is not None:
                return r
        dom = ("while", getattr(s, "lineno", 0) * 0)
        return self.abstract_loop(s, dom, None, st, (), None, iswhile=True)

    def unroll_while(self, s, st):
        """Execute a loop whose every test is decided, None when one is not (the loop is then summarised)."""
        mark = [len(x) for x in self.sinks]
        pend, out, brk, done = [st.copy()], [], [], []
        for _ in range(12):
            live = []
            for p in pend:
                bs = self.cond(s.test, p)
                if len(bs) != 1 or bs[0][0] not in (True, False):
                    live = None
                    break
                (live if bs[0][0] else done).append(bs[0][1])
            if live is None or len(live) > 32:
                break
            if not live:
                for q in done:
                    out += self.block(s.orelse, q) if s.orelse else [("next", None, q)]
                return out + [("next", None, b) for b in brk]
            pend = []
            for q in live:
                for kind, v, r in self.block(s.body, q):
                    if kind in ("next", "cont"):
                        pend.append(r)
                    elif kind == "break":
                        brk.append(r)
                    else:
                        out.append((kind, v, r))
            if not pend:
                for q in done:
                    out += self.block(s.orelse, q) if s.orelse else [("next", None, q)]
                return out + [("next", None, b) for b in brk]
        for x, n in zip(self.sinks, mark):
            del x[n:]
        return None

    # ------------------------------------------------------------------ entry points
    def run(self, func, args, kw=None, st=None):
        """All outcomes of a call: [('ret'|'raise', value-or-name, state)]"""
        st = st or St()
        if not st.frames:
            st.frames.append({"__module__": func.module, "__id__": None, "__closure__": None})
        self.sinks = [[]]
        self.nstates = 0
        try:
            res = self.call_func(func, args, kw or {}, st, func.node)
        except (Undecided, AnalysisBroken, RecursionError):
            raise
        except Exception as e:
            # a construct the interpreter was not written for: nothing is claimed about this obligation
            if os.environ.get("DHG_DEBUG"):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Undecided(f"not modelled: {type(e).__name__} {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        out = [("ret", s.cur(v), s) for v, s in res]
        out += [("raise", n, s) for n, s in self.sinks[0]]
        self.paths += len(out)
        return out

    def new_obj(self, cls, name, st, sym=True, fields=None):
        key = ("in", name)
        st.objs[key] = Obj(cls, sym, name, dict(fields or {}))
        return V(("obj", key), cls)

    def param(self, name, ty=None, depth=0):
        t = ("param", name)
        if ty == "int":
            self.ints.add(t)
        return V(t, ty, org=frozenset([(("param", name), 0)]))


def generic_member(k, d):
    """The collection is built by putting this very term in for every element of a domain."""
    while True:
        if d[0] in ("sorted", "set", "list_of", "tuple", "keys") and len(d) == 2:
            d = d[1]
        elif d[0] == "deach" and len(d) == 3 and not d[2][0] and len(d[2][1]) == 1:
            return d[2][1][0][0] == k or d[2][1][0][0][:2] == ("elem", d[1]) and generic_member(k, d[1])
        elif d[0] == "each" and len(d) == 3 and not d[2][0]:
            d = d[2][1]
        elif d[0] == "list":
            return k in d[1:]
        elif d[0] == "concat":
            return any(generic_member(k, x) for x in d[1:])
        else:
            return False


def s1_term(entry, v, q):
    return entry.term(v) if isinstance(v, V) else None


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # not inside a nested function
            return True
    return False


def is_cond(t):
    return t[0] in ("eq", "lt", "not", "in", "isinf", "isnan", "isfinite", "bitor", "bitand", "and", "or")


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    raise Undecided("augmented target")


def with_name(t):
    if t[0] == "call":
        return t[1]
    return t[0]


def device_of(t):
    return ("device_of", t)


def sub(t, k):
    """Element access on value numbers."""
    if t[0] in ("list", "tup") and k[0] == "n" and isinstance(k[1], int) and -len(t) + 1 <= k[1] < len(t) - 1:
        return t[1:][k[1]]
    if t[0] in ("list", "tup") and k[0] == "slice" and all(x == NONE or x[0] == "n" for x in k[1:]):
        return (t[0],) + tuple(t[1:][slice(*[pyval(x) for x in k[1:]])])
    if k[0] == "idx" and (k[1] == t or t[0] == "list_of" and k[1] == t[1]):
        return ("elem", k[1], k[2])
    if k[0] == "idx" and t[0] == "each" and len(t) == 3 and t[1] == k[1] and not t[2][0] and t[2][1][0] == "list" and len(t[2][1]) == 2:
        return t[2][1][1]
    if t[0] in ("range", "list_of") and k[0] == "idx":
        r = t[1] if t[0] == "list_of" else t
        if r[0] == "range" and len(r) in (2, 3):
            return k if len(r) == 2 else tm.add(r[1], k)
    if k == ("slice", NONE, NONE, N(-1)):
        return ("list_of", ("reversed", t))
    if k == ("slice", NONE, NONE, NONE):
        return t
    if k[0] == "tup" and any(x[0] == "tup" for x in k[1:]) and any(x[0] == "slice" for x in k[1:]):
        k = ("tup",) + tuple(("list",) + x[1:] if x[0] == "tup" else x for x in k[1:])
    if k[0] == "tup" and k[-1] == ("slice", NONE, NONE, NONE) and len(k) == 3:
        return sub(t, k[1])
    if t[0] == "dset" and t[2] == k:
        return t[3]
    if t[0] == "dset" and is_const(k) and is_const(t[2]) and k != t[2]:
        return sub(t[1], k)
    if t[0] == "dict" and is_const(k):
        for z in t[1:]:
            if z[0] == k:
                return z[1]
    if t[0] == "deach" and len(t) == 3 and k[0] == "elem":
        # {f(k): v} looked up at its own key
        conds, ops = t[2]
        if len(ops) == 1 and ops[0][0] == k and not conds:
            return ops[0][1]
    return ("sub", t, k)


LISTY = ("list", "each", "concat", "list_of", "sorted", "repeat", "tolist")


def aslist(t, ty=None):
    if t[0] in ("keys", "seq", "iter"):
        return aslist(t[1])
    if t[0] == "tup":
        return ("list",) + t[1:]
    if t[0] in LISTY or ty == "list" or (isinstance(ty, tuple) and ty[0] == "list"):
        return t
    return ("list_of", t)


def seqcat(a, b):
    parts = []
    for x in (a, b):
        for y in (x[1:] if x[0] == "concat" else (x,)):
            if y[0] == "list" and parts and parts[-1][0] == "list":
                parts[-1] = parts[-1] + y[1:]
            else:
                parts.append(y)
    parts = [p for i, p in enumerate(parts) if p != ("list",)] or [("list",)]
    if len(parts) == 1:
        return parts[0]
    return ("concat",) + tuple(parts)


def mkset(t):
    """The set of the elements of a sequence term; sets know neither order nor repetition."""
    while t[0] in ("list_of", "tuple", "sorted", "set", "keys") and len(t) == 2:
        t = t[1]
    if t[0] in ("list", "tup", "setlit"):
        return ("setlit",) + tuple(sorted(set(t[1:]), key=repr))
    if t[0] == "concat":
        lits, rest = [], []
        for x in t[1:]:
            y = mkset(x) if x[0] in ("list", "tup", "list_of", "sorted", "tuple") else ("set", x)
            if y[0] == "setlit":
                lits += y[1:]
            elif y[0] == "set" and y[1][0] == "concat":
                for z in y[1][1:]:
                    if z[0] == "list":
                        lits += z[1:]
                    else:
                        rest.append(z)
            else:
                rest.append(aslist(y[1] if y[0] == "set" else y))
        parts = sorted(set(rest), key=repr)
        if lits:
            parts.append(("list",) + tuple(sorted(set(lits), key=repr)))
        if len(parts) == 1:
            return mkset(parts[0]) if parts[0][0] == "list" else ("set", parts[0])
        return ("set", ("concat",) + tuple(parts))
    return ("set", t)


def condset(c):
    return tuple(sorted(c, key=repr))


def each(dom, alts):
    """Concatenation over the domain of the items each path yields."""
    m = {}
    for c, t in alts:
        if t == ("list",):
            continue
        m.setdefault(t, []).append(condset(c))
    out = []
    skip = [condset(c) for c, t in alts if t == ("list",)]
    if not m:
        return ("list",)
    if not skip and len(m) == 1:
        (t, cs), = m.items()
        # all paths yield the same items
        return _each1(dom, ((), t))
    for t, cs in m.items():
        for c in cs:
            out.append((c, t))
    return ("each", dom) + tuple(sorted(out, key=repr)) if len(out) > 1 else _each1(dom, out[0])


def _each1(dom, alt):
    c, t = alt
    # [x for x in X] is X
    if not c and t[0] == "list" and len(t) == 2 and t[1] == ("elem", dom, 0) and dom[0] not in ("dict", "dset", "deach"):
        return aslist(dom)
    return ("each", dom, alt)


def deach(dom, alts):
    out = []
    allsame = len({o for c, o in alts}) == 1
    if allsame and alts:
        o = alts[0][1]
        if not o:
            return ("dict",)
        if len(o) == 1 and o[0] == (("elem", dom, 0), sub(dom, ("elem", dom, 0))):
            return dom
        return ("deach", dom, ((), o))
    for c, o in alts:
        if o:
            out.append((condset(c), o))
    return ("deach", dom) + tuple(sorted(out, key=repr))


def sumeach(dom, alts):
    if len({d for c, d in alts}) == 1 and alts:
        d = alts[0][1]
        if d == N(0):
            return N(0)
        if not tm.contains(d, lambda y: y[0] in ("elem", "idx") and y[1] == dom):
            return tm.mul(d, ("len", dom))
        return ("sumeach", dom, ((), d))
    out = [(condset(c), d) for c, d in alts if d != N(0)]
    return ("sumeach", dom) + tuple(sorted(out, key=repr))


tm._RULES["sub"] = sub
tm._RULES["concat"] = lambda *a: seqcat(a[0], ("concat",) + a[1:]) if len(a) > 1 and not any(x[0] in ("s", "str") for x in a) else ("concat",) + a
tm._RULES["not"] = tm.not_
