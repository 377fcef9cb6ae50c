"""R01-R03: random generators."""
import ast

import math

from .. import terms as tm
from ..interp import Undecided, V
from ..spec import Comparer, observe, ref_func
from ..structs import RAW, SInterp, state, sym_args
from ..terms import N, NONE, S
from .convert import observed, pairs, record

# ------------------------------------------------------------------ R01: random sources
PRIVATE = {
    "random.Random", "random.SystemRandom", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence",
    "numpy.random.PCG64", "numpy.random.PCG64DXSM", "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64", "torch.Generator",
    "os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4", "secrets",
}
AMBIENT = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "os.getpid", "datetime.datetime.now", "builtins.id", "builtins.hash"}
SEEDERS = {"random.seed": "random", "numpy.random.seed": "numpy", "torch.manual_seed": "torch"}
RESEED = set(SEEDERS) | {
    "random.setstate", "numpy.random.set_state", "torch.set_rng_state", "torch.seed", "torch.random.manual_seed", "torch.random.seed", "torch.random.fork_rng",
    "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.cuda.seed", "torch.cuda.seed_all", "torch.default_generator",
}
PY_DRAWS = {"random", "uniform", "triangular", "randint", "choice", "choices", "randrange", "sample", "shuffle", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate",
            "gammavariate", "gauss", "betavariate", "paretovariate", "weibullvariate", "getrandbits", "randbytes", "binomialvariate"}
TORCH_DRAWS = {"rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "bernoulli", "multinomial", "normal", "poisson", "binomial"}
TORCH_METHODS = {"uniform_", "normal_", "random_", "bernoulli_", "exponential_", "cauchy_", "geometric_", "log_normal_", "bernoulli", "multinomial"}
NP_NOT = {"seed", "default_rng", "RandomState", "Generator", "SeedSequence", "set_state", "get_state", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"}
THIRD = {"optuna.samplers.TPESampler": "seed", "optuna.samplers.RandomSampler": "seed", "optuna.samplers.CmaEsSampler": "seed", "optuna.samplers.NSGAIISampler": "seed"}


def draw_source(d):
    if d.startswith("random.") and d[7:] in PY_DRAWS:
        return "random"
    if d.startswith("numpy.random.") and d.count(".") == 2 and d[13:] not in NP_NOT:
        return "numpy"
    if d.startswith("torch.") and d.count(".") == 1 and d[6:] in TORCH_DRAWS:
        return "torch"
    return None


class Refs:
    """Resolved dotted references of every module, with the enclosing function."""

    def __init__(self, repo):
        self.repo = repo
        self.out = []  # (module, enclosing Func or None, node, dotted, parents)
        for m in repo.modules.values():
            extra = {}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    from ..repo import import_bindings
                    for k, v in import_bindings(n, m):
                        extra.setdefault(k, v)
            self.visit(m, m.tree, None, None, extra, ())

    def dotted(self, m, n, extra, shadow):
        parts = []
        x = n
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name) or x.id in shadow:
            return None
        base = x.id
        r = self.repo.resolve_in(m, base)
        if r is None:
            d = extra.get(base)
            if d is None:
                d = "builtins." + base if not parts else None
            elif d.startswith("dhg"):
                r = self.repo.resolve_dotted(".".join([d] + parts[::-1]))
                return r
            if d is None:
                return None
            return ("ext", ".".join([d] + parts[::-1]))
        if r[0] == "ext":
            return ("ext", ".".join([r[1]] + parts[::-1]))
        if r[0] == "module":
            return self.repo.resolve_dotted(".".join([r[1].name] + parts[::-1])) if parts else r
        return r if not parts else None

    def visit(self, m, n, func, cls, extra, shadow):
        from ..repo import Func
        for c in ast.iter_child_nodes(n):
            f2, cls2, sh = func, cls, shadow
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # decorators and defaults belong to the outside
                for x in c.decorator_list + c.args.defaults + [d for d in c.args.kw_defaults if d]:
                    self.visit(m, ast.Expr(x), func, cls, extra, shadow)
                f2 = func or Func(m, c, cls)
                a = c.args
                sh = shadow + tuple(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
                for x in c.body:
                    self.visit(m, ast.Module([x], []), f2, None, extra, sh)
                continue
            if isinstance(c, ast.ClassDef):
                from ..repo import Cls
                cls2 = Cls(m, c) if func is None else cls
            if isinstance(c, (ast.Attribute, ast.Name)) and isinstance(getattr(c, "ctx", None), ast.Load):
                d = self.dotted(m, c, extra, sh)
                if d is not None:
                    self.out.append((m, func, c, d, n))
                    if isinstance(c, ast.Attribute):
                        if d[0] != "ext" or True:
                            # inner part of the chain needs no separate record, but call arguments inside do
                            x = c
                            while isinstance(x, ast.Attribute):
                                x = x.value
                            if not isinstance(x, ast.Name):
                                self.visit(m, c, f2, cls2, extra, sh)
                            continue
            self.visit(m, c, f2, cls2, extra, sh)


def where(m, node):
    return f"{m.rel}:{getattr(node, 'lineno', 0)}"


def r01(chk):
    repo = chk.repo
    chk.rule("R1", "no private or unseeded random source is used (generators of their own, the operating system, uuid, clock, id or hash values next to draws)")
    chk.rule("R2", "the global generators are re-seeded or replaced only by the library's seed function")
    chk.rule("R3", "set_seed seeds every generator the package draws from with its argument, on every path, and seed() reports it")
    chk.rule("R4", "no draw happens at import time")
    chk.rule("R5", "a function that draws keeps no memory between calls (memoising decorator, module-level variable or container)")
    refs = Refs(repo)
    seedf = repo.func("dhg.random._seed.seed")
    setf = repo.func("dhg.random._seed.set_seed")
    used, draws, drawing = {}, 0, {}
    calls = {}
    for m, f, n, d, par in refs.out:
        if isinstance(par, ast.Call) and par.func is n:
            calls[id(n)] = par

    def lib_seeded(call):
        for x in [a for a in call.args] + [k.value for k in call.keywords]:
            for m2, f2, n2, d2, p2 in refs.out:
                if d2[0] == "func" and d2[1].qual == seedf.qual and any(n2 is y for y in ast.walk(x)):
                    return True
        return False
    for m, f, n, d, par in refs.out:
        if d[0] != "ext":
            continue
        name = d[1]
        fq = f.qual if f is not None else m.name
        src = draw_source(name)
        if src:
            draws += 1
            used.setdefault(src, []).append((fq, where(m, n)))
            if f is None:
                chk.finding("R4", f"{m.name}: {name}", where(m, n), f"{name} is drawn when the module is imported, before any seed can be set")
            else:
                drawing[f.qual] = f
            call = calls.get(id(n))
            for k in (call.keywords if call is not None else ()):
                if k.arg == "generator" and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                    chk.finding("R1", f"{fq}: {name} generator", where(m, n), f"{name} draws from a generator of its own, not from the seeded one")
        if name in PRIVATE or name.split(".")[0] == "secrets":
            call = calls.get(id(n))
            if call is not None and lib_seeded(call):
                continue
            if f is None and call is None and isinstance(par, (ast.arg, ast.AnnAssign)):
                continue
            if call is None and not name.startswith(("os.", "uuid.", "secrets")):
                # a bare reference (annotation, isinstance) creates nothing unless it is called
                continue
            chk.finding("R1", f"{fq}: {name}", where(m, n), f"{name} is not seeded by dhg.random.set_seed")
        if name in THIRD:
            call = calls.get(id(n))
            kw = {k.arg: k.value for k in call.keywords} if call is not None else {}
            if call is not None and THIRD[name] in kw and lib_seeded(call):
                chk.discharge(f"{fq}: {name} is seeded with dhg.random.seed()")
            elif call is not None:
                chk.finding("R1", f"{fq}: {name}", where(m, n), f"{name} is created without the library seed")
        if name in RESEED and not (f is not None and f.qual == setf.qual):
            chk.finding("R2", f"{fq}: {name}", where(m, n), f"{name} outside dhg.random.set_seed changes the state the seed function set up")
    # in-place tensor draws and method draws
    for m in repo.modules.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in TORCH_METHODS:
                for k in c.keywords:
                    if k.arg == "generator" and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                        chk.finding("R1", f"{m.name}: {c.func.attr} generator", where(m, c), "draws from a generator of its own")
                used.setdefault("torch", []).append((m.name, where(m, c)))
    for m, f, n, d, par in refs.out:
        if d[0] == "ext" and (d[1].startswith("torch.nn.init.") or d[1] in ("torch.nn.Dropout", "torch.nn.functional.dropout")):
            used.setdefault("torch", []).append((m.name, where(m, n)))
    for m, f, n, d, par in refs.out:
        if d[0] == "ext" and d[1] in AMBIENT and f is not None and f.qual in drawing and f.qual != seedf.qual:
            chk.finding("R1", f"{f.qual}: {d[1]}", where(m, n), f"a function that draws also reads {d[1]}")
    # functions that draw: no memory
    for q, f in sorted(drawing.items()):
        bad = None
        for dn in f.node.decorator_list:
            t = dn.func if isinstance(dn, ast.Call) else dn
            nm = ast.unparse(t)
            if nm.split(".")[-1] in ("lru_cache", "cache", "cached_property"):
                bad = f"results are memoised by @{nm}: a later call with the same arguments draws nothing"
        loc, glob = f.scope()
        if glob & set(x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)):
            bad = "a module-level variable is rebound: the outcome depends on earlier calls"
        params = set(f.params()) | {a.arg for a in f.node.args.kwonlyargs}
        for x in ast.walk(f.node):
            tgt = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                tgt = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "add", "update", "setdefault", "pop", "clear", "insert", "remove", "discard", "popitem"):
                tgt = x.func.value
            if isinstance(tgt, ast.Name) and tgt.id not in loc and tgt.id not in params:
                r = f.module.defs.get(tgt.id)
                if r is not None and r[0] == "var":
                    bad = f"the module-level container {tgt.id} is changed: the outcome depends on earlier calls"
        # mutable default used as memory
        for p, dv in zip(f.params()[::-1], f.node.args.defaults[::-1]):
            if isinstance(dv, (ast.List, ast.Dict, ast.Set)) or isinstance(dv, ast.Call) and ast.unparse(dv.func) in ("dict", "list", "set", "defaultdict"):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == p or \
                            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == p and x.func.attr in ("append", "add", "update", "setdefault", "extend"):
                        bad = f"the default value of {p} is changed in place and shared by all calls"
        if bad:
            chk.finding("R5", f"{q}: memory", f.loc, bad)
        else:
            chk.discharge(f"{q}: draws, keeps no memory")
    # set_seed
    I = SInterp(repo, "miss")
    st = state(setf.module)
    kw = sym_args(I, setf, st, skip_self=False)
    p0 = setf.params()[0]
    try:
        outs = [(v, s) for k, v, s in I.run(setf, [], kw, st) if k == "ret"]
    except (Undecided, RecursionError) as e:
        chk.und("set_seed", str(e))
        outs = []
    chk.analysed |= I.inlined
    for src in sorted(used):
        for v, s in outs:
            ok = False
            for e in s.events:
                if e[0] == "call" and SEEDERS.get(e[1]) == src:
                    ok = bool(e[2]) and tm.contains(e[2], lambda z: z == ("param", p0))
            if ok:
                chk.discharge(f"set_seed seeds {src} ({len(used[src])} draw sites)")
            else:
                chk.finding("R3", f"set_seed: {src}", setf.loc, f"{src} is drawn from ({used[src][0][1]} and {len(used[src]) - 1} more) but not seeded with the argument on every path")
    for v, s in outs:
        # the value seed() reports afterwards
        try:
            s2 = s.copy()
            r = I.run(seedf, [], {}, s2)
        except (Undecided, RecursionError) as e:
            chk.und("seed", str(e))
            continue
        for k2, v2, s3 in r:
            if k2 == "ret" and any(c[0] == "eq" and NONE in c and b for c, b in s3.facts.items()):
                continue
            t = s3.term(v2) if k2 == "ret" else None
            if t is not None and tm.contains(t, lambda z: z == ("param", p0)):
                chk.discharge("seed() returns the seed that was set")
            else:
                chk.finding("R3", "seed()", seedf.loc, f"after set_seed, seed() {'raises' if t is None else 'returns ' + tm.show(t, 80)}")
    chk.count("draw_sites", draws)
    chk.count("references", len(refs.out))
    chk.floor("draw_sites", 20)


# ------------------------------------------------------------------ R02 / R03: generators
def as_range(t):
    while t[0] in ("list_of", "tuple", "sorted", "seq") and len(t) == 2:
        t = t[1]
    if t[0] == "range":
        a = t[1:]
        if len(a) == 1:
            return (N(0), a[0])
        if len(a) == 2:
            return (a[0], a[1])
    if t[0] == "call" and t[1] == "numpy.arange" and len(t) == 3:
        return (N(0), t[2])
    return None


def strip(t):
    while t[0] in ("list_of", "tuple", "seq", "list_", "iter", "keys") and len(t) == 2:
        t = t[1]
    return t


ITER = {"itertools.permutations", "itertools.combinations", "itertools.product", "itertools.combinations_with_replacement"}


def domain(t):
    """(kind, [range per component], size) of an iterator of candidate edges."""
    t = strip(t)
    if t[0] == "product":
        t = ("call", "itertools.product") + t[1:]
    if t[0] == "call" and t[1] in ITER:
        kind = t[1].split(".")[1]
        if kind == "product":
            kw = [x for x in t[2:] if x[0] == "kw"]
            parts = [x for x in t[2:] if x[0] != "kw"]
            if kw:
                rep = dict(kw[0][1:]).get("repeat")
                if rep and rep[0] == "n":
                    parts = parts * rep[1]
            return kind, [as_range(x) for x in parts], N(len(parts))
        if len(t) == 4:
            r = as_range(t[2])
            if t[3][0] == "n":
                return kind, [r] * t[3][1], t[3]
            return kind, [r], t[3]
    return None


def int_range(t):
    """Half-open range an integer-valued term is drawn from."""
    if t[0] == "rnd":
        name, a = t[2], [x for x in t[3:] if x[0] != "kw"]
        if name == "random.choice" and a:
            return as_range(a[0])
        if name == "random.randrange" or name == "numpy.random.randint":
            return (N(0), a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else None
        if name == "random.randint" and len(a) == 2:
            return (a[0], tm.add(a[1], N(1)))
    if t[0] == "elem" and len(t) == 3:
        return as_range(t[1])
    if t[0] == "sub" and t[2][0] == "n":
        x = t[1]
        if x[0] == "elem":
            d = domain(x[1])
            if d and 0 <= t[2][1] < len(d[1]):
                return d[1][t[2][1]]
        if x[0] == "rnd" and x[2] in ("random.sample", "random.choices") and len(x) > 3:
            return as_range(x[3])
        if x[0] == "sorted":
            return int_range(("sub", x[1], t[2]))
    if t[0] == "int" and len(t) == 2:
        return int_range(t[1])
    return None


def comps(t):
    """Endpoints of an edge term."""
    if t[0] in ("tup", "list") and len(t) == 3:
        return t[1], t[2]
    if t[0] in ("tuple", "list_of", "sorted") and len(t) == 2:
        return comps(t[1])
    if t[0] == "elem":
        d = domain(t[1])
        if d and len(d[1]) == 2:
            return ("sub", t, N(0)), ("sub", t, N(1))
    if t[0] == "rnd" and t[2] == "random.sample":
        return ("sub", t, N(0)), ("sub", t, N(1))
    return None


def same_draw(a, b):
    """Both ends come from one draw or candidate that never repeats an item."""
    if a[0] == "sub" and b[0] == "sub" and a[1] == b[1] and a[2] != b[2]:
        x = a[1]
        if x[0] == "elem":
            d = domain(x[1])
            return d is not None and d[0] in ("permutations", "combinations")
        return x[0] == "rnd" and x[2] == "random.sample"
    return False


def fact(facts, c):
    for k, b in facts:
        if k == c:
            return b
    return None


def differ(a, b, facts):
    if a == b:
        return False
    return same_draw(a, b) or fact(facts, tm.eq(a, b)) is False or fact(facts, ("lt", a, b)) is True or fact(facts, ("lt", b, a)) is True


def less(a, b, facts):
    if fact(facts, ("lt", a, b)) is True:
        return True
    if fact(facts, ("lt", b, a)) is False and differ(a, b, facts):
        return True
    if a[0] == "sub" and b[0] == "sub" and a[1] == b[1] and a[1][0] == "elem" and a[2][0] == b[2][0] == "n":
        d = domain(a[1][1])
        if d and d[0] == "combinations":
            return a[2][1] < b[2][1]
    return False


def valid_edge(kind, t, facts, num, dedup):
    """(problems, undecided, orientation) for one emitted edge."""
    if kind == "Hypergraph":
        return valid_hyperedge(t, num, dedup) + (None,)
    c = comps(t)
    if c is None:
        return [], "edge term " + tm.show(t, 100), None
    a, b = c
    srt = t[0] in ("tuple", "list_of") and t[1][0] == "sorted" or t[0] == "sorted"
    out, und = [], None
    for x, n, side in ((a, num[0], "first"), (b, num[1], "second")):
        r = int_range(x)
        if r is None:
            und = f"range of the {side} endpoint {tm.show(x, 80)}"
            continue
        if r[0] != N(0):
            out.append(f"the {side} endpoint is drawn from {tm.show(r[0], 40)} on, not from 0")
        if r[1] != n:
            out.append(f"the {side} endpoint is drawn below {tm.show(r[1], 60)}, not below {tm.show(n, 60)}")
    ori = None
    if kind != "BiGraph":
        if not differ(a, b, facts) and und is None:
            out.append("both endpoints can be the same vertex (self-loop)")
    if kind == "Graph" and dedup:
        ori = "<" if less(a, b, facts) else ">" if less(b, a, facts) else "sorted" if srt else None
        if ori is None and und is None:
            out.append("the pair is stored without a fixed orientation, so both orders of one edge can be counted")
    return out, und, ori


def valid_hyperedge(t, num, dedup):
    x, canon = t, False
    while x[0] in ("tuple", "sorted", "list_of", "frozenset", "set") and len(x) == 2 or x[0] == "call" and x[1] == "builtins.frozenset":
        if x[0] in ("sorted", "frozenset") or x[0] == "call":
            canon = True
        x = x[2] if x[0] == "call" else x[1]
    if x[0] == "rnd" and x[2] in ("random.sample", "random.choices", "numpy.random.choice", "numpy.random.randint"):
        out = []
        if x[2] in ("random.choices", "numpy.random.randint"):
            out.append("vertices of one hyperedge are drawn with replacement, so a hyperedge can have fewer distinct vertices")
        r = as_range(x[3])
        if r is None:
            return out, "vertex population " + tm.show(x[3], 80)
        if r[0] != N(0) or r[1] != num[0]:
            out.append(f"vertices are drawn from range({tm.show(r[0], 30)}, {tm.show(r[1], 60)}), not from all {tm.show(num[0], 40)} vertices")
        if dedup and not canon:
            out.append("the vertices are stored in draw order, so one hyperedge can be counted several times")
        return out, None
    if x[0] == "elem":
        d = domain(x[1])
        if d and d[0] == "combinations":
            r = d[1][0]
            if r is None:
                return [], "vertex population"
            if r != (N(0), num[0]):
                return [f"vertices are taken from range({tm.show(r[0], 30)}, {tm.show(r[1], 60)})"], None
            return [], None
        if d:
            return [f"hyperedge candidates are enumerated with itertools.{d[0]}"], None
    return [], "hyperedge term " + tm.show(t, 100)


def size_of(t):
    """Number of vertices requested for a hyperedge term."""
    x = t
    while x[0] in ("tuple", "sorted", "list_of", "frozenset", "set") and len(x) == 2 or x[0] == "call" and x[1] == "builtins.frozenset":
        x = x[2] if x[0] == "call" else x[1]
    if x[0] == "rnd" and x[2] in ("random.sample", "random.choices"):
        if len(x) > 4 and x[4][0] != "kw":
            return x[4]
        for k in x[3:]:
            if k[0] == "kw":
                return dict(k[1:]).get("k")
    if x[0] == "elem":
        d = domain(x[1])
        if d:
            return d[2]
    return None


C_QUAL = "dhg.utils.math.C"


class Gen:
    """One generator function evaluated with its loops and constructor request recorded."""

    def __init__(self, chk, qual):
        self.func = chk.repo.func(qual)
        self.loops = {}
        I = self.I = SInterp(chk.repo, "miss", maxstates=600, opaque=[C_QUAL])
        for n in RAW:
            k = chk.repo.cls(n)
            I.intercept[chk.repo.method(k, "__init__").qual] = record("")
        I.on_loop = self.on_loop
        st = state(self.func.module)
        kw = sym_args(I, self.func, st, skip_self=False)
        self.outs = I.run(self.func, [], kw, st)
        chk.analysed |= I.inlined

    def on_loop(self, s, dom, rec, norm, ex, fin, depth):
        for r in rec:
            self.loops[r[4]] = {"acc": r, "all": rec, "exits": [d for d, q in ex], "breaks": [d for k, q, d in norm if k == "break"], "line": getattr(s, "lineno", 0), "dom": dom, "depth": depth}

    def requests(self):
        """(kind, fields, state) of every returning path."""
        out = []
        for k, v, s in self.outs:
            if k != "ret":
                continue
            v = s.cur(v)
            if v.t is None or v.t[0] != "obj" or not self.I.is_struct(s.objs[v.t[1]].cls):
                out.append((None, None, s))
                continue
            o = s.objs[v.t[1]]
            out.append((o.cls.name, {f[4:]: (observe(self.I, s, x) if f == "arg:e_list" else s.term(s.cur(x))) for f, x in o.fields.items() if f.startswith("arg:")}, s))
        return out


GNM = {
    "dhg.random.graphs.graph.graph_Gnm": "Graph",
    "dhg.random.graphs.directed_graph.digraph_Gnm": "DiGraph",
    "dhg.random.graphs.bipartite_graph.bigraph_Gnm": "BiGraph",
    "dhg.random.hypergraphs.hypergraph.uniform_hypergraph_Gnm": "Hypergraph",
    "dhg.random.hypergraphs.hypergraph.hypergraph_Gnm": "Hypergraph",
}
GNP = {
    "dhg.random.graphs.graph.graph_Gnp": "Graph",
    "dhg.random.graphs.directed_graph.digraph_Gnp": "DiGraph",
    "dhg.random.graphs.bipartite_graph.bigraph_Gnp": "BiGraph",
    "dhg.random.hypergraphs.hypergraph.uniform_hypergraph_Gnp": "Hypergraph",
}
V_, U_, E_, K_, P_ = (("param", x) for x in ("num_v", "num_u", "num_e", "k", "prob"))
EDGES = ("num_e",)


def added(acc, t):
    """Items one path adds to a collection: list of terms, or None when not understood."""
    if t == acc:
        return []
    if t[0] == "set" and len(t) == 2:
        t = t[1]
    if t[0] == "concat":
        if strip(t[1]) != acc or any(x[0] != "list" for x in t[2:]):
            return None
        return [y for x in t[2:] for y in x[1:]]
    return None


def gens(chk, table):
    for q, kind in table.items():
        try:
            g = Gen(chk, q)
        except (Undecided, RecursionError) as e:
            chk.und(q.split(".")[-1], str(e) or type(e).__name__)
            continue
        yield q.split(".")[-1], kind, g


def nums(kind, f):
    return (f.get("num_u"), f.get("num_v")) if kind == "BiGraph" else (f.get("num_v"), f.get("num_v"))


def want_nums(kind):
    return (U_, V_) if kind == "BiGraph" else (V_, V_)


def max_edges(kind, name, arith):
    nn = tm.mul(V_, tm.add(V_, N(-1)))
    C = lambda n, k: [("call", C_QUAL, n, k), ("call", "math.comb", n, k), ("call", "scipy.special.comb", n, k)]  # noqa: E731
    if kind == "Graph":
        return [("fdiv", nn, N(2)), tm.mul(nn, ("pow", N(2), N(-1))), tm.mul(nn, N(0.5))] + C(V_, N(2))
    if kind == "DiGraph":
        return [nn] + C(V_, N(2))[:0]
    if kind == "BiGraph":
        return [tm.mul(U_, V_)]
    if name.startswith("uniform"):
        return C(V_, K_)
    return None


def r02(chk):
    chk.rule("R1", "the rejection loop counts an edge exactly when a new valid one is stored and stops at exactly the requested number")
    chk.rule("R2", "every returning path has checked that the requested number is feasible, and no feasible request is refused")
    for name, kind, g in gens(chk, GNM):
        loc = g.func.loc
        for i, (k, f, s) in enumerate(g.requests()):
            tag = name
            if k != kind:
                chk.finding("R1", tag, loc, f"returns {k}, not a {kind} built from the drawn edges") if k else chk.und(tag, "returned value is not a structure built here")
                continue
            if kind == "Hypergraph" and name.startswith("hypergraph"):
                tag += "/" + "".join(str(c[2][1] if c[2][0] == "s" else c[1][1]) for c, b in s.facts.items() if b and c[0] == "eq" and ("param", "method") in c)
            n = want_nums(kind)
            if nums(kind, f) != n:
                chk.finding("R1", tag + ": vertices", loc, f"the structure is built with {[tm.show(x, 40) for x in nums(kind, f)]} vertices")
            count(chk, tag, kind, g, f, s, loc)
            feasible(chk, tag, name, kind, g, s, loc)
        accepted(chk, "R2", name, kind, g, limit=max_edges(kind, name, None), must=())
    chk.floor("loops", 4)
    binomial(chk)


FLOATING = {"math." + n for n in ("exp", "log", "log2", "log10", "exp2", "expm1", "log1p", "lgamma", "gamma", "sqrt", "pow")} | \
    {"numpy." + n for n in ("exp", "log", "log2", "power")} | {"scipy.special." + n for n in ("binom", "gammaln", "gamma")}


def binomial(chk):
    """The helper that counts the subsets of a size is what the feasibility bounds are made of."""
    chk.rule("R3", "the number of possible hyperedges is computed exactly: the binomial coefficient in integer arithmetic, for every size")
    d = chk.repo.modules["dhg.utils.math"].defs.get("C") if "dhg.utils.math" in chk.repo.modules else None
    if d is None or d[0] != "func":
        return
    f = d[1]
    C = Comparer(chk)
    C.norm = lambda t: tm.subst(t, lambda z: z[1] if z[0] == "int" and len(z) == 2 and z[1][0] == "call" and z[1][1] == "math.comb" else None)
    try:
        I, _, outs = C.outcomes(f, None, {}, ())
    except Undecided as e:
        chk.und("C", str(e))
        return
    for k, v, s in outs:
        t = s.term(v) if k == "ret" else ("none",)
        bad = [z[1] for z in tm.walk(t) if z[0] == "call" and z[1] in FLOATING]
        if bad:
            chk.finding("R3", "C", f.loc, f"the count goes through {bad[0]}: rounded for moderate sizes and an overflow for large ones")
            return
    C.compare("R3", "C", None, f, "import math\ndef ref(n, m):\n    return math.comb(n, m)\n")


def count(chk, tag, kind, g, f, s, loc):
    el = strip(f["e_list"])
    n = want_nums(kind)
    if el[0] == "rnd" and el[2] == "random.sample" and domain(el[3]):
        d = domain(el[3])
        size = size_of(el)
        ok = {"Graph": "combinations", "DiGraph": "permutations", "BiGraph": "product", "Hypergraph": "combinations"}[kind]
        if d[0] != ok or size != E_:
            chk.finding("R1", tag, loc, f"samples {tm.show(size, 40) if size else '?'} of itertools.{d[0]}")
        else:
            chk.discharge(tag + ": sampled without replacement")
        chk.count("loops")
        return
    if el[0] == "each" and len(el) == 3 and not el[2][0] and as_range(el[1]) is not None and tm.contains(el[2], lambda z: z[0] == "rnd"):
        chk.finding("R1", tag, loc, "edges are drawn independently without looking for repetitions, so fewer distinct edges can result")
        return
    lp = g.loops.get(el)
    if lp is None or lp["dom"][0] != "while":
        chk.und(tag, "edge list is " + tm.show(el, 120))
        return
    chk.count("loops")
    key, acc, init, alts, tt = lp["acc"]
    bad, und = [], None
    isset = init in (("setlit",), ("set", ("list",)))
    if init not in (("setlit",), ("list",), ("set", ("list",))):
        und = "the collection does not start empty: " + tm.show(init, 80)
    # exits
    counters = {("len", acc)}
    cnt = {}
    for r in lp["all"]:
        if r[1] != acc:
            cnt[r[1]] = r
    exits = list(lp["exits"]) + list(lp["breaks"])
    if lp["breaks"]:
        und = "the loop is left by break"
    used = None
    for d in exits:
        hit = None
        for c, b in d:
            if c[0] not in ("lt", "eq") or not any(tm.contains(x, lambda z: z == E_) for x in c[1:]):
                continue
            x, y = c[1], c[2]
            for X, Y, flip in ((x, y, False), (y, x, True)):
                if X in counters or X in cnt:
                    used = X
                    if Y != E_:
                        hit = f"the loop stops when {tm.show(c, 80)} is {b}, not at the requested number"
                    elif c[0] == "eq":
                        hit = "" if b else "the loop stops on the wrong side of the equality"
                    elif not flip:
                        hit = "" if not b else "the loop stops while fewer edges than requested are stored"
                    else:
                        hit = "the loop stops only after more edges than requested" if b else "the loop stops at the first draw" if not b else ""
        if hit is None:
            und = und or "exit condition of the loop is not a count: " + "; ".join(tm.show(c, 60) for c, b in d)
        elif hit:
            bad.append(hit)
    ori = set()
    stored = {y for c, t, kk in alts for y in added(acc, t) or []}
    for c, t, kk in alts:
        new = added(acc, t)
        if new is None:
            und = und or "collection update " + tm.show(t, 100)
            continue
        if not new and stored:
            why = refused(kind, c, acc, stored)
            if why:
                bad.append(why)
        dc = N(0)
        recount = False
        if used in cnt:
            for c2, t2, k2 in cnt[used][3]:
                if c2 == c and t2 == ("len", t):
                    recount = True
                elif c2 == c:
                    dc = tm.sub_(t2, used)
                    dc = N(0) if dc is None and t2 == used else dc
                    if dc is None:
                        dc = tm.add(t2, tm.mul(N(-1), used))
        if not new:
            if used in cnt and dc != N(0) and not recount:
                bad.append(f"the counter changes by {tm.show(dc, 30)} although no edge is stored")
            continue
        if len(new) > 1:
            bad.append("one draw stores several edges, so the loop can overshoot")
            continue
        x = new[0]
        notin = any(cc[0] == "in" and cc[1] == x and cc[2] == acc and b is False for cc, b in c)
        if not isset and not notin:
            bad.append("an edge is appended without looking whether it is already there")
        if used in cnt and not recount:
            if not notin:
                bad.append("a repeated edge is counted as a new one")
            if dc != N(1):
                bad.append(f"storing one edge changes the counter by {tm.show(dc, 30)}")
        p, u, o = valid_edge(kind, x, c, want_nums(kind), True)
        bad += p
        und = und or u
        ori.add(o)
        if kind == "Hypergraph":
            size = size_of(x)
            if size is None:
                und = und or "hyperedge size"
            elif tag.startswith("uniform"):
                if size != K_:
                    bad.append(f"hyperedges have {tm.show(size, 60)} vertices, not k")
            else:
                pop = size[1][3] if size[0] == "sub" and size[1][0] == "rnd" and size[1][2] == "random.choices" else None
                r = as_range(pop) if pop is not None else None
                if r is None:
                    und = und or "hyperedge size population"
                elif r != (N(2), tm.add(V_, N(1))):
                    bad.append(f"hyperedge sizes are drawn from range({tm.show(r[0], 30)}, {tm.show(r[1], 40)}), not from 2..num_v")
    if kind == "Graph" and len({o for o in ori if o}) > 1:
        bad.append("different paths store the pair in different orders, so both orders of one edge can be counted")
    if used in cnt and cnt[used][2] != N(0):
        bad.append(f"the counter starts at {tm.show(cnt[used][2], 30)}")
    if bad:
        chk.finding("R1", tag, loc, "; ".join(dict.fromkeys(bad)))
    elif und:
        chk.und(tag, und)
    else:
        chk.discharge(f"{tag}: every path of the rejection loop stores at most one new valid edge, exit at exactly num_e")


def refused(kind, conds, acc, stored):
    """Why a draw that stores nothing was a valid new edge, None if it was a repetition, invalid, or not understood."""
    def draw(t):
        return t[0] == "rnd"

    same = set(stored)
    if kind == "Graph":
        same |= {("tup", y[2], y[1]) for y in stored if y[0] == "tup" and len(y) == 3}
    why = None
    for c, b in conds:
        if c[0] == "in" and c[2] == acc:
            if b and c[1] in same:
                return None
            if b and not (c[1][0] == "tup" and len(c[1]) == 3 and draw(c[1][1]) and draw(c[1][2])):
                return None
            if b:
                why = f"{tm.show(c[1], 60)} being stored already"
        elif c[0] in ("eq", "lt") and all(draw(x) for x in c[1:3]):
            if kind == "Hypergraph" or c[0] == "eq" and b and kind in ("Graph", "DiGraph") or c[0] == "lt" and kind != "BiGraph":
                return None
            if c[0] == "lt" or b:
                why = why or f"{tm.show(c, 60)} being {b}"
        elif tm.contains(c, draw):
            return None
    return why and f"a valid edge that is not stored yet is refused because of {why}, so some edges never appear and a full request never ends"


def scaled(c, b, want):
    """A comparison of a multiple of num_e with the same multiple of the number of possible edges."""
    x, y = c[1], c[2]
    for a, o, left in ((x, y, True), (y, x, False)):
        if a[0] == "mul" and len(a) == 3 and a[1][0] == "n" and a[2] == E_:
            k = a[1][1]
            for w in want:
                kw = w[1] if w[0] == "fdiv" and w[2] == N(k) else tm.mul(N(k), w)
                if o == kw:
                    if left and b:
                        return w, True
                    if not left and not b:
                        return w, False
                    return ("refused", left, b), c
    return None


def number_at(t, env):
    """The value of an arithmetic term under an assignment of its parameters, None when it has other operators."""
    if t[0] == "n":
        return t[1]
    if t in env:
        return env[t]
    xs = [number_at(x, env) if isinstance(x, tuple) else None for x in t[1:]]
    if not xs or any(x is None for x in xs):
        return None
    try:
        if t[0] == "add":
            return sum(xs)
        if t[0] == "mul":
            return math.prod(xs)
        if t[0] in ("min", "max"):
            return (min if t[0] == "min" else max)(xs)
        if t[0] == "pow" and len(xs) == 2:
            return xs[0] ** xs[1]
        if t[0] == "fdiv" and len(xs) == 2:
            return xs[0] // xs[1]
        if t[0] in ("int", "abs") and len(xs) == 1:
            return (int if t[0] == "int" else abs)(xs[0])
    except (ZeroDivisionError, OverflowError):
        return None
    return None


def differs(m, want):
    """An assignment of small numbers of vertices under which two bounds differ."""
    for u in range(2, 9):
        for v in range(2, 9):
            env = {U_: u, V_: v, ("param", "k"): 2}
            a, b = number_at(m, env), number_at(want, env)
            if a is not None and b is not None and a != b:
                return (f"num_u={u}, num_v={v}" if tm.contains(want, lambda z: z == U_) else f"num_v={v}"), a, b
    return None


def feasible(chk, tag, name, kind, g, s, loc):
    bounds = []
    for c, b in s.facts.items():
        if c[0] == "lt" and E_ in (c[1], c[2]):
            if c[1] == E_ and b:
                bounds.append((c[2], True))
            elif c[2] == E_ and not b:
                bounds.append((c[1], False))
        elif c[0] == "lt" and tm.contains(c, lambda z: z == E_):
            m = scaled(c, b, max_edges(kind, name, None) or ())
            bounds.append(m if m is not None else (None, c))
    want = max_edges(kind, name, None)
    loopguard = [c for c in s.facts if c[0] == "lt" and tm.contains(c, lambda z: z[0] == "acc")]
    if not bounds:
        chk.finding("R2", tag + ": feasibility", loc, "no returning path has compared the requested number with the number of possible edges: an infeasible request never terminates")
        return
    for m, strict in bounds:
        if m is None:
            chk.und(tag + ": feasibility", "bound " + tm.show(strict, 100))
            return
        if want is not None and m in want:
            if strict:
                chk.finding("R2", tag + ": feasibility", loc, "the largest feasible number of edges is refused")
            else:
                chk.discharge(f"{tag}: num_e <= {tm.show(m, 60)}")
            return
        if want is not None and strict and any(m == tm.add(w, N(1)) for w in want):
            chk.discharge(f"{tag}: num_e < {tm.show(m, 60)}")
            return
    if want is None:
        # all sizes that can be drawn: the bound must sum over the sizes with positive weight
        m, strict = bounds[0]
        ok = tm.contains(m, lambda z: z[0] == "sumeach") and tm.contains(m, lambda z: z[0] == "call" and z[1] in (C_QUAL, "math.comb")) or \
            m in (tm.add(("pow", N(2), V_), tm.mul(N(-1), V_), N(-1)),)
        if ok and not strict:
            chk.discharge(f"{tag}: num_e <= {tm.show(m, 80)}")
        else:
            chk.und(tag + ": feasibility", "bound " + tm.show(m, 100))
        return
    m, strict = bounds[0]
    ops = {x[0] for x in tm.walk(m)} - {"add", "mul", "n", "param", "fdiv", "pow"}
    at = differs(m, want[0]) if ops else None
    if at is not None:
        chk.finding("R2", tag + ": feasibility", loc, f"the number of edges is compared with {tm.show(m, 80)}, which is {at[1]} where {at[2]} edges are possible ({at[0]})")
    elif ops:
        chk.und(tag + ": feasibility", "bound " + tm.show(m, 100))
    else:
        chk.finding("R2", tag + ": feasibility", loc, f"the number of edges is compared with {tm.show(m, 80)}, not with the number of possible edges {tm.show(want[0], 60)}")


# ------------------------------------------------------------------ accepted arguments
VALID = {"num_v": (2, None, int), "num_u": (2, None, int), "num_e": (1, None, int), "k": (2, None, int), "prob": (0, 1, float)}


def interval(facts, p, isint):
    """Bounds the facts put on one parameter: (low, low_open, high, high_open, excluded)."""
    lo = hi = None
    lo_o = hi_o = False
    exc = set()
    for c, b in facts.items():
        if c[0] == "lt" and tm.is_const(c[1]) and c[2] == p and c[1][0] == "n":
            n = c[1][1]
            if b and (lo is None or n >= lo):
                lo, lo_o = n, True
            elif not b and (hi is None or n < hi):
                hi, hi_o = n, False
        elif c[0] == "lt" and tm.is_const(c[2]) and c[1] == p and c[2][0] == "n":
            n = c[2][1]
            if b and (hi is None or n <= hi):
                hi, hi_o = n, True
            elif not b and (lo is None or n > lo):
                lo, lo_o = n, False
        elif c[0] == "eq" and p in c[1:] and any(x[0] == "n" for x in c[1:]):
            n = [x for x in c[1:] if x[0] == "n"][0][1]
            if b:
                lo, lo_o, hi, hi_o = n, False, n, False
            else:
                exc.add(n)
    return lo, lo_o, hi, hi_o, exc


def touches(iv, a, b, isint):
    """Does the interval share a point with [a, b]?"""
    lo, lo_o, hi, hi_o, exc = iv
    if isint:
        lo = None if lo is None else lo + 1 if lo_o else lo
        hi = None if hi is None else hi - 1 if hi_o else hi
        l = a if lo is None else max(a, lo)  # noqa: E741
        h = b if hi is None else hi if b is None else min(b, hi)
        if h is None:
            return True
        return any(x not in exc for x in range(int(l), int(h) + 1)) if h - l < 50 else l <= h
    l, lop = (a, False) if lo is None or lo < a else (lo, lo_o)  # noqa: E741
    h, hop = (b, False) if hi is None or hi > b else (hi, hi_o)
    if l > h or l == h and (lop or hop):
        return False
    return not (l == h and l in exc)


def inside(iv, a, b):
    lo, lo_o, hi, hi_o, exc = iv
    return lo is not None and hi is not None and lo >= a and hi <= b


SIMPLE = {"n", "param", "add", "mul", "fdiv", "pow", "lt", "eq", "b", "none", "s", "call", "len"}


def accepted(chk, rule, name, kind, g, limit=None, must=("prob",)):
    """Requests within the documented domain are not refused; those outside are."""
    loc = g.func.loc
    names = [p for p in g.func.params() if p in VALID]
    for k, v, s in g.outs:
        ivs = {p: interval(s.facts, ("param", p), VALID[p][2] is int) for p in names}
        if k == "raise":
            if any(not touches(ivs[p], VALID[p][0], VALID[p][1], VALID[p][2] is int) for p in names):
                continue
            rel = [(c, b) for c, b in s.facts.items() if not (c[0] in ("lt", "eq") and any(tm.is_const(x) for x in c[1:]) and any(x[0] == "param" for x in c[1:]))]
            why = None
            ok = False
            for c, b in rel:
                if c[0] == "lt" and ((c[1] == V_ and c[2] == K_ and b) or (limit and c[1] in limit and c[2] == E_ and b) or (limit and c[1] == E_ and c[2] in [tm.add(x, N(1)) for x in limit] and not b)):
                    ok = True
                elif c[0] == "lt" and E_ not in c[1:] and tm.contains(c, lambda z: z == E_):
                    m = scaled(c, b, limit or ())
                    if m is not None and m[0][0] == "refused" and not m[0][1] and b:
                        ok = True
                    elif m is None:
                        why = tm.show(c, 80)
                elif any(z[0] == "param" and z[1] not in VALID for z in tm.walk(c)):
                    ok = True  # another argument is what is refused
                elif c[0] == "lt" and limit is None and c[2] == E_ and b:
                    ok = True
                elif any(x[0] not in SIMPLE for x in tm.walk(c)):
                    why = tm.show(c, 80)
            if ok:
                continue
            if why:
                chk.und(name + ": refusal", "refused under " + why)
                continue
            chk.finding(rule, name + ": refusal", loc, "a valid request is refused: " + "; ".join(("" if b else "not ") + tm.show(c, 60) for c, b in s.facts.items()))
            return
        for p in must:
            if p in names and not inside(ivs[p], VALID[p][0], VALID[p][1]):
                chk.finding(rule, f"{name}: {p}", loc, f"a value of {p} outside {list(VALID[p][:2])} is accepted")
                return
    chk.discharge(f"{name}: accepts exactly the valid {', '.join(names)}")


def r03(chk):
    repo = chk.repo
    chk.rule("R1", "every enumerated candidate is a valid edge of the requested kind, every candidate is enumerated once and kept exactly when its own draw is below prob")
    chk.rule("R2", "the skipping generators follow the published algorithm; the size distribution follows the documented weights")
    chk.rule("R3", "every probability in [0, 1] is accepted and every other one refused")
    for name, kind, g in gens(chk, GNP):
        loc = g.func.loc
        accepted(chk, "R3", name, kind, g)
        for k, f, s in g.requests():
            if k != kind:
                chk.und(name, "returned value is not a structure built here")
                continue
            if nums(kind, f) != want_nums(kind):
                chk.finding("R1", name + ": vertices", loc, f"the structure is built with {[tm.show(x, 40) for x in nums(kind, f)]} vertices")
            el = strip(f["e_list"])
            if el[0] != "each":
                if el[0] in ("list_of", "call") and domain(el) or domain(el):
                    chk.finding("R1", name, loc, "every candidate is kept: no draw decides about the edges")
                else:
                    chk.und(name, "edge list is " + tm.show(el, 120))
                continue
            dom = domain(el[1])
            if dom is None:
                chk.und(name, "candidates are " + tm.show(el[1], 120))
                continue
            chk.count("generators")
            cand = ("elem", el[1], 0)
            bad, und = [], None
            oris = []
            for c, items in el[2:]:
                if items[0] != "list" or len(items) != 2:
                    und = "one candidate yields " + tm.show(items, 80)
                    continue
                x = items[1]
                p, u, o = valid_edge(kind, x, c, want_nums(kind), False)
                bad += p
                und = und or u
                a, b2 = ("sub", cand, N(0)), ("sub", cand, N(1))
                nd = 0
                for cc, b in c:
                    if cc[0] == "lt" and any(z[0] == "rnd" for z in cc[1:]):
                        r = [z for z in cc[1:] if z[0] == "rnd"]
                        if cc[1][0] == "rnd" and cc[1][2] in ("random.random", "numpy.random.rand", "numpy.random.random") and len(cc[1]) == 3:
                            nd += 1
                            if not (cc[2] == P_ and b):
                                bad.append(f"an edge is kept when {'' if b else 'not '}{tm.show(cc, 80)}")
                        elif cc[2][0] == "rnd" and cc[2][2] in ("random.random", "numpy.random.rand", "numpy.random.random") and len(cc[2]) == 3:
                            nd += 1
                            bad.append(f"an edge is kept when {'' if b else 'not '}{tm.show(cc, 80)}, not when its draw is below prob")
                        else:
                            und = und or "draw " + tm.show(r[0], 60)
                    elif cc == ("lt", a, b2) and b or cc == ("lt", b2, a) and not b:
                        oris.append("<")
                    elif cc == ("lt", b2, a) and b or cc == ("lt", a, b2) and not b:
                        oris.append(">")
                    elif cc[0] == "eq" and set(cc[1:]) == {a, b2} and not b and dom[0] == "product":
                        pass
                    else:
                        und = und or "candidate filter " + tm.show(cc, 80)
                if nd == 0 and und is None:
                    bad.append("a candidate is kept without a draw of its own")
                if nd > 1:
                    bad.append("a candidate needs several draws below prob")
            if not und:
                want = {"Graph": None, "DiGraph": "permutations", "BiGraph": "product", "Hypergraph": "combinations"}[kind]
                if kind == "Graph":
                    if dom[0] == "combinations":
                        if oris and ">" in oris:
                            bad.append("the orientation filter removes every candidate")
                    elif dom[0] in ("permutations", "product"):
                        if not oris:
                            bad.append("each unordered pair is enumerated twice and has two chances to be kept")
                        elif len(oris) != len(el) - 2:
                            bad.append("orientation is filtered on some paths only")
                elif dom[0] != want:
                    if not (kind == "DiGraph" and dom[0] == "product"):
                        bad.append(f"candidates are enumerated with itertools.{dom[0]}")
                elif oris:
                    bad.append("candidates are filtered by orientation, so half of them are never produced")
                if kind == "Hypergraph" and dom[2] != K_:
                    bad.append(f"hyperedges have {tm.show(dom[2], 40)} vertices, not k")
                if kind in ("Graph", "DiGraph") and dom[2] != N(2):
                    bad.append(f"candidates have {tm.show(dom[2], 40)} endpoints")
            if bad:
                chk.finding("R1", name, loc, "; ".join(dict.fromkeys(bad)))
            elif und:
                chk.und(name, und)
            else:
                chk.discharge(f"{name}: candidates {dom[0]} of the vertices, kept iff draw < prob")
    chk.floor("generators", 3)
    # skipping generators and size distribution: against the published algorithm
    body = """
    {v}, {w} = 1, -1
    while {v} < num_v:
        lr = math.log(1.0 - random.random())
        {w} = {w} + 1 + int(lr / lp)
        while {w} >= {v} and {v} < num_v:
            {w} = {w} - {v}
            {v} = {v} + 1
        if {v} < num_v:
            e_list.append(({a}, {b}))
"""
    head = """
    assert num_v > 1
    assert prob >= 0 and prob <= 1
    if prob == 0 or prob == 1:
        return {slow}(num_v, prob)
    e_list = []
    lp = math.log(1.0 - prob)
"""
    one = body.format(v="v", w="w", a="v", b="w")
    two = body.format(v="v", w="w", a="w", b="v")
    compare(chk, "dhg.random.graphs.graph.graph_Gnp_fast", "def ref(num_v, prob):" + head.format(slow="graph_Gnp") + one + "    return Graph(num_v, e_list)\n")
    compare(chk, "dhg.random.graphs.directed_graph.digraph_Gnp_fast", "def ref(num_v, prob):" + head.format(slow="digraph_Gnp") + two + one + "    return DiGraph(num_v, e_list)\n")
    for m, w in (("uniform", "[C(num_v, k) / (2 ** num_v - 1) for k in sizes]"), ("low_order_first", "norm([3 ** (-k) for k in range(len(sizes))])"),
                 ("high_order_first", "norm(list(reversed([3 ** (-k) for k in range(len(sizes))])))"), ("custom", "norm(prob_k_list)")):
        compare(chk, "dhg.random.hypergraphs.hypergraph.hypergraph_Gnm", f"""
def norm(x):
    total = sum(x)
    return [p / total for p in x]

def ref(num_v, num_e, method, prob_k_list):
    assert num_v > 1
    assert num_e > 0
    sizes = list(range(2, num_v + 1))
    if {m == 'custom'}:
        assert prob_k_list is not None
        assert len(prob_k_list) == num_v - 1
    weights = {w}
    assert num_e <= sum(C(num_v, k) for k, p in zip(sizes, weights) if p > 0)
    edges = set()
    while len(edges) < num_e:
        k = random.choices(sizes, weights=weights)[0]
        e = tuple(sorted(random.sample(range(num_v), k)))
        if e not in edges:
            edges.add(e)
    return Hypergraph(num_v, list(edges))
""", given={"method": S(m)}, tag=m)


EXTRA = "import math, random, itertools\nfrom dhg.utils.math import C\nfrom dhg.random.graphs.graph import graph_Gnp\nfrom dhg.random.graphs.directed_graph import digraph_Gnp\n"


def compare(chk, qual, src, given=None, tag=""):
    repo = chk.repo
    impl = repo.func(qual)
    construct = qual.split(".")[-1] + (f"/{tag}" if tag else "")

    def go(func):
        I = SInterp(repo, "miss", maxstates=600, opaque=[C_QUAL])
        for n in RAW:
            I.intercept[repo.method(repo.cls(n), "__init__").qual] = record("")
        st = state(func.module)
        kw = sym_args(I, func, st, skip_self=False, given={k: V(v) for k, v in (given or {}).items()})
        outs = I.run(func, [], kw, st)
        chk.analysed |= I.inlined
        return I, [], outs
    try:
        ref = ref_func(repo, src, None, like=impl, extra=EXTRA)
        ri, rr = go(impl), go(ref)
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return

    lg = ("call", "math.log", tm.add(N(1), tm.mul(N(-1), P_)))
    for k, v, s in ri[2]:
        iv = interval(s.facts, P_, False)
        if k == "ret" and "prob" in impl.params() and (touches(iv, 0, 0, False) or touches(iv, 1, 1, False)):
            v = s.cur(v)
            f = observed(ri[0], s, v)
            if tm.contains(f, lambda z: z == lg):
                chk.finding("R3", construct + ": boundary", impl.loc, "log(1 - prob) is computed for prob = " + ("1" if touches(iv, 1, 1, False) else "0 and used as a divisor") + ", which raises")

    def post(Ii, ai, v1, s1, Ir, ar, v2, s2):
        return [("the request", observed(Ii, s1, v1), observed(Ir, s2, v2))]
    Comparer(chk).match("R2", construct, impl.loc, ri, rr, what="", post=post)


ASSUME = ["Python's random, numpy and torch module-level generators are deterministic functions of their seed"]
INFO = {
    "R01": {"technique": "whole-package reference resolution of random sources plus effect analysis of the seed function",
            "explanation": "Every dotted reference of every module is resolved through imports and aliases and classified (draw from a global generator, private generator, ambient entropy, re-seeding); set_seed is evaluated path by path and must seed every generator that is drawn from with its argument; functions that draw must not keep memory between calls.",
            "assumptions": ASSUME, "note": "All references of the package; third-party code that draws internally (sklearn, scipy) is covered only through the numpy generator it defaults to; iteration order of sets of strings is outside the rule."},
    "R02": {"technique": "loop-invariant typestate of the rejection loops (abstract interpretation of one arbitrary iteration)",
            "explanation": "The body of each rejection loop is evaluated from an arbitrary loop state; on each path the collection grows by at most one edge, only by a new valid edge, in step with the counter, and the exit condition is exactly the requested number; every returning path must have compared that number with the number of possible edges.",
            "assumptions": ASSUME, "note": "Termination with probability one of a feasible rejection loop is assumed, not decided; the feasibility bound is also evaluated for small vertex counts."},
    "R03": {"technique": "value numbering of candidate enumeration and acceptance conditions",
            "explanation": "The summary of the edge comprehension gives the candidate iterator, the filter and the acceptance condition; they must enumerate each edge of the requested kind once and keep it exactly when its own draw is below prob. The skipping generators and the hyperedge-size distribution are compared with reference definitions.",
            "assumptions": ASSUME, "note": "Endpoint ranges, distinctness and orientation follow from the iterator or from the conditions on the path; the skipping generators are decided against one formulation of the published algorithm, other loop shapes are reported as undecided."},
}
