"""E01-E03: training steps, model selection and data splits of the experiment tasks; training of the cascaded models."""
import fnmatch

from .. import terms as tm
from ..interp import Undecided, V
from ..ops import _EXT
from ..repo import AnalysisBroken
from ..spec import Comparer, observe, ref_func
from ..terms import N, NONE, S
from .nn import EXTRA, Nets, mod_kind, number

ASSUME = ["torch, autograd and optuna behave as modelled in sa/checks/exp.py: backward adds the gradient of its operand to every module applied with gradients enabled and not detached, step replaces the parameters of the modules given to the optimiser, state_dict shares storage with the live parameters, deepcopy and torch.save take snapshots",
          "Study.optimize runs the objective for one trial, which is then the best one"]

T, F_ = ("b", True), ("b", False)
OFF = ("torch.no_grad", "torch.inference_mode", "no_grad", "inference_mode")


class Lab(Nets):
    """Adds the mutable world of training to the module values: parameters, gradients, modes, optimisers, files and the evaluator, as a history of events."""

    def __init__(self, devices=False):
        super().__init__()
        self.devices = devices

    def install(self, I):
        super().install(I)
        lab = self

        def ext(name, f):
            dict.__setitem__(I.hooks_ext, name, f)
        ext("copy.deepcopy", self.deepcopy)
        ext("torch.save", self.save)
        ext("torch.load", self.load)
        ext("builtins.open", self.open)
        ext("optuna.create_study", lambda I, a, kw, st, node: [(V(("study", st.term(kw["direction"]) if "direction" in kw else S("minimize"))), st)])
        for d in ("os.remove", "os.unlink"):
            ext(d, lambda I, a, kw, st, node: self.unlink(I, a[0] if a else kw["path"], st))
        for d in ("os.listdir", "os.path.exists", "os.path.isfile"):
            ext(d, lambda I, a, kw, st, node, d=d: [(I.lst([V(S(n)) for n in self.names(st, st.term(a[0]))]), st)] if d == "os.listdir" else self.exists(I, a[0], st))
        ga = I.getattr_

        def getattr_(v, name, st, node=None):
            t = st.cur(v).t
            if t is not None:
                if t == TRIAL and name == "number":
                    return [(V(N(BEST)), st)]
                if t[0] == "study" and name == "best_trial":
                    return [(V(TRIAL), st)]
                if t[0] == "study" and name == "trials":
                    return [(I.lst([V(("param", "trial0")), V(TRIAL), V(("param", "trial9"))]), st)]
                if name in ("stem", "name", "suffix") and st.cur(v).ty == "path":
                    k = path_key(t)
                    if isinstance(k[-1], str) and "/" in k[-1]:
                        n = k[-1].rsplit("/", 1)[1]
                        i = n.rfind(".")
                        i = i if 0 < i < len(n) - 1 else len(n)
                        return [(V(S({"name": n, "stem": n[:i], "suffix": n[i:]}[name])), st)]
            return ga(v, name, st, node)
        I.getattr_ = getattr_
        ext("torch.set_grad_enabled", lambda I, a, kw, st, node: [(V(("call", "torch.enable_grad" if st.term(a[0]) == T else "torch.no_grad")), st)] if st.term(a[0])[0] == "b" else None)
        fh = I.hooks_ext
        contains, getitem = type(fh).__contains__, type(fh).__getitem__

        class H(type(fh)):
            def __contains__(s, d):
                return contains(s, d) or opt_kind(d) is not None

            def __getitem__(s, d):
                if opt_kind(d) and not dict.__contains__(s, d):
                    return lambda I, a, kw, st, node: lab.optimiser(I, opt_kind(d), a, kw, st, node)
                return getitem(s, d)
        fh.__class__ = H
        kn = I.known

        def known(c, st):
            if SCHED in c[1:]:
                other = tm.eq(SCHED, NONE) if c[0] == "truth" else ("truth", SCHED) if c == tm.eq(SCHED, NONE) else None
                if other in st.facts:
                    return not st.facts[other]
            if c[0] in ("lt", "le") and any(is_inf(x) for x in c[1:3]) and any(x[0] == "evres" for x in c[1:3]):
                lo = c[1]
                return (is_inf(lo) < 0) if is_inf(lo) else is_inf(c[2]) > 0
            if c[0] in ("is", "eq") and NONE in c[1:] and any(x[0] in ("mod", "evres", "study", "sd") or x in PRESENT for x in c[1:]):
                return False
            return kn(c, st)
        I.known = known
        for q in [f.qual for f in I.repo.all_funcs() if f.cls is None and f.node.name == "load_structure"]:
            I.intercept[q] = self.load_structure

    # ------------------------------------------------------------------ the world
    def last(self, st, what, key, dflt):
        for e in reversed(st.events):
            if e[0] == "lab" and e[1] == what and e[2] == key:
                return e[3]
        return dflt

    def put(self, st, what, key, val):
        st.ev("lab", what, key, val)

    def params(self, st, m):
        return self.last(st, "P", m, ("ver", m, N(0)))

    def grads(self, st, m):
        return self.last(st, "G", m, ("G0", m))

    def mode(self, st, m):
        return self.last(st, "M", m, ("M0",))

    def gradmode(self, st):
        stack = []
        for e in st.events:
            if e[0] == "with":
                if e[2] == "enter":
                    stack.append(e[1])
                elif stack:
                    stack.pop()
        on = True
        for x in stack:
            if x in OFF:
                on = False
            elif x == "torch.enable_grad":
                on = True
        return on

    def mods(self, I, st, v, seen=None):
        """Module values reachable from a value (fields of module objects, containers)."""
        seen = set() if seen is None else seen
        v = st.cur(v)
        out = []
        if v.t is not None and v.t[0] == "obj":
            if v.t[1] in seen:
                return out
            seen.add(v.t[1])
            for k, x in st.objs[v.t[1]].fields.items():
                out += self.mods(I, st, x, seen)
        elif v.items is not None:
            for x in v.items:
                out += self.mods(I, st, x, seen)
        elif v.map is not None:
            for _, x in v.map:
                out += self.mods(I, st, x, seen)
        elif v.t is not None and v.t[0] == "mod" and v.t[-1][0] == "id":
            out.append(v.t)
        return out

    # ------------------------------------------------------------------ modules
    def apply(self, I, f, a, kw, st, node):
        t = f.t
        if t is not None and t[0] == "mod" and t[-1][0] == "id":
            if a and t[1] in ("Linear", "BatchNorm1d") and len(a) + len(kw) != 1:
                return None
            return [(V(("out", t, self.params(st, t), self.mode(st, t), ("b", self.gradmode(st))) + I.argterms(a, kw, st), "tensor"), st)]
        return super().apply(I, f, a, kw, st, node)

    def func(self, I, name, x, d, st, node, training):
        return super().func(I, name, x, d, st, node, True if name == "dropout" else training)

    def set_mode(self, I, st, v, on):
        for m in self.mods(I, st, v):
            self.put(st, "M", m, ("b", on))

    def method(self, I, v, name, a, kw, st, node):
        """Methods every module has, on module values, containers and module objects."""
        ms = self.mods(I, st, v)
        if name in ("train", "eval"):
            on = name == "train"
            if a or kw:
                x = st.term(a[0] if a else list(kw.values())[0])
                if x[0] != "b":
                    raise Undecided("training mode set to a computed value")
                on = on and x[1]
            for m in ms:
                self.put(st, "M", m, ("b", on))
            return [(v, st)]
        if name in ("to", "cpu", "cuda", "float", "double"):
            return [(v, st)]
        if name == "requires_grad_":
            raise Undecided("requires_grad_")
        if name == "zero_grad":
            for m in ms:
                self.put(st, "G", m, N(0))
            return [(V(NONE), st)]
        if name == "parameters":
            return [(I.lst([V(("params", m)) for m in ms]), st)]
        if name == "state_dict":
            return [(V(("sdref",) + tuple(ms)), st)]
        if name == "load_state_dict":
            x = self.resolve(st, st.term(a[0] if a else kw["state_dict"]))
            if x[0] == "sd" and len(x) == len(ms) + 1:
                for m, p in zip(ms, x[1:]):
                    self.put(st, "P", m, p)
            else:
                for m in ms:
                    self.put(st, "P", m, ("loaded", x))
            return [(V(NONE), st)]
        return None

    def module_method(self, I, name, a, kw, st, node):
        me = st.cur(a[0])
        r = self.method(I, me, name, a[1:], kw, st, node)
        return r if r is not None else super().module_method(I, name, a, kw, st, node)

    def resolve(self, st, t):
        """A live state dictionary as its present content."""
        return tm.subst(t, lambda z: ("sd",) + tuple(self.params(st, m) for m in z[1:]) if z[0] == "sdref" else None)

    def mcall(self, I, v, name, a, kw, st, node):
        t = v.t
        if t is not None and t[0] == "mod" or v.items is not None and any(o[0][0] == "modlist" for o in v.org):
            r = self.method(I, v, name, a, kw, st, node)
            if r is not None:
                return r
        if t is not None and t[0] == "opt":
            ms = t[2]
            if name == "zero_grad":
                for m in ms:
                    self.put(st, "G", m, N(0))
                return [(V(NONE), st)]
            if name == "step" and not a and not kw:
                for m in ms:
                    self.put(st, "U", m, ("upd", self.params(st, m), t[:2] + t[3:], self.grads(st, m)))
                    self.put(st, "P", m, ("ver", m, N(sum(1 for e in st.events if e[0] == "lab" and e[1] == "U" and e[2] == m))))
                return [(V(NONE), st)]
        if name == "backward" and not a and not kw:
            x = st.term(v)
            hit = set()
            live(x, hit)
            for m in sorted(hit, key=repr):
                g = self.grads(st, m)
                new = ("grad", x)
                self.put(st, "G", m, new if g == N(0) else tm.add(g, new))
            return [(V(NONE), st)]
        if t == ("param", "ev"):
            n = sum(1 for e in st.events if e[0] == "lab" and e[1] == "E")
            if name in ("test", "test_epoch_res"):
                # a number and a metric that is not a single number
                self.put(st, "E", name, ("evcall", name) + I.argterms(a, kw, st))
                return [(V(None, "dict", map=[(S("acc"), V(("evres", name, N(n)))), (S("table"), I.lst([V(("evres", name, N(n), N(0))), V(("evres", name, N(n), N(1)))]))]), st)]
            args = I.argterms(a, kw, st)
            self.put(st, "E", name, ("evcall", name) + args)
            return [(V(("evres", name, N(n))), st)]
        if v.ty == "path" and name in ("glob", "iterdir") and not kw:
            pat = st.term(a[0]) if a else S("*")
            if pat[0] != "s":
                raise Undecided("files of a computed pattern")
            return [(I.lst([V(("join", t, S(n)), "path") for n in self.names(st, t) if fnmatch.fnmatchcase(n, pat[1])]), st)]
        if v.ty == "path" and name == "unlink":
            return self.unlink(I, v, st)
        if v.ty == "path" and name in ("exists", "is_file") and not a and not kw:
            r = self.exists(I, v, st)
            if r is not None:
                return r
        if t is not None and t[0] == "study" and name == "optimize":
            n = a[1] if len(a) > 1 else kw.get("n_trials")
            self.put(st, "value", "study", ("study", t[1], st.term(n) if n is not None else NONE))
            out = []
            for r, s in I.call(a[0] if a else kw["func"], [V(("param", "trial"))], {}, st, node):
                self.put(s, "value", "trial", s.term(r))
                out.append((V(NONE), s))
            return out
        if name == "save" and t is not None and t[0] == "param" and len(a) + len(kw) == 1:
            self.put(st, "file", path_key(st.term(a[0] if a else list(kw.values())[0])), ("saved", t))
            return [(V(NONE), st)]
        if name == "step" and t is not None and t[0] == "param" and not a and not kw:
            self.put(st, "tick", t, NONE)
            return [(V(NONE), st)]
        if self.devices and name in ("to", "cuda", "cpu") and t is not None and (t in LEAVES or t[0] == "on"):
            x = t[1] if t[0] == "on" else t
            d = st.term(a[0] if a else list(kw.values())[0]) if a or kw else S(name)
            return [(V(("on", x, d), "tensor"), st)]
        if name == "open" and v.ty == "path":
            return self.open(I, [v] + list(a), kw, st, node)
        return super().mcall(I, v, name, a, kw, st, node)

    # ------------------------------------------------------------------ copies, files
    def deepcopy(self, I, a, kw, st, node):
        v = st.cur(a[0])
        if v.t == NONE:
            return [(v, st)]
        if v.t is not None and v.t[0] == "mod" and v.t[-1][0] == "id":
            st.nobj += 1
            t = v.t[:-1] + (("id", st.nobj),)
            self.put(st, "P", t, self.params(st, v.t))
            self.put(st, "G", t, self.grads(st, v.t))
            self.put(st, "M", t, self.mode(st, v.t))
            return [(V(t), st)]
        if v.t is not None and v.t[0] in ("sdref", "sd"):
            return [(V(self.resolve(st, v.t)), st)]
        return _EXT["copy.deepcopy"](I, a, kw, st, node)

    def open(self, I, a, kw, st, node):
        return [(V(("file", path_key(st.term(a[0])))), st)]

    def save(self, I, a, kw, st, node):
        x, f = st.term(a[0] if a else kw["obj"]), st.term(a[1] if len(a) > 1 else kw["f"])
        v = st.cur(a[0] if a else kw["obj"])
        if v.t is not None and v.t[0] == "mod":
            x = ("model", v.t, self.params(st, v.t))
        self.put(st, "file", path_key(f), self.resolve(st, x))
        return [(V(NONE), st)]

    def find(self, st, f):
        k = path_key(f)
        return self.last(st, "file", k, ("otherfile", k) if isinstance(k[-1], str) and k[-1].rsplit("/", 1)[-1] in OTHERS else ("nofile", k))

    def names(self, st, d):
        """File names below a directory: the ones written in the run and the ones the other trials left."""
        k = path_key(d)
        out = {n: True for n in OTHERS}
        for e in st.events:
            if e[0] == "lab" and e[1] == "file":
                f = e[2]
                n = len(k) - 1
                if len(f) == len(k) and f[:n] == k[:n] and isinstance(k[-1], str) and isinstance(f[-1], str) and f[-1].startswith(k[-1] + "/"):
                    out[f[-1][len(k[-1]) + 1:]] = e[3][0] != "nofile"
        return sorted(n for n, x in out.items() if x)

    def unlink(self, I, v, st):
        k = path_key(st.term(v))
        self.put(st, "file", k, ("nofile", k))
        return [(V(NONE), st)]

    def exists(self, I, v, st):
        k = path_key(st.term(v))
        x = self.find(st, st.term(v))
        return [(V(("b", x[0] != "nofile")), st)] if x[0] != "nofile" or any(e[0] == "lab" and e[1] == "file" and e[2] == k for e in st.events) else None

    def load(self, I, a, kw, st, node):
        x = self.find(st, st.term(a[0] if a else kw["f"]))
        if x[0] == "nofile":
            I.do_raise("FileNotFoundError", st, node)
            return []
        return [(V(x), st)]

    def load_structure(self, I, f, args, kw, st, node):
        if self.find(st, st.term(args[0] if args else list(kw.values())[0]))[0] == "nofile":
            I.do_raise("FileNotFoundError", st, node)
            return []
        x = self.find(st, st.term(args[0] if args else list(kw.values())[0]))
        return [(V(x[1] if x[0] == "saved" else x), st)]

    # ------------------------------------------------------------------ optimisers
    def optimiser(self, I, kind, a, kw, st, node):
        if not a and "params" not in kw:
            return None
        ps = st.cur(a[0] if a else kw["params"])
        items = ps.items if ps.items is not None else [V(x) for x in st.term(ps)[1:]] if st.term(ps)[0] in ("list", "tup") else None
        if items is None or any(st.term(x)[0] != "params" for x in items):
            raise Undecided("optimiser over unknown parameters")
        ms = tuple(st.term(x)[1] for x in items)
        st.nobj += 1
        return [(V(("opt", kind, ms) + I.argterms(a[1:], {k: x for k, x in kw.items() if k != "params"}, st)), st)]


# the run is modelled by its best trial; the files of other trials are there as well
SCHED = ("param", "sched")
TRIAL, BEST = ("param", "trial"), 12
OTHERS = [f"{n}_{x}" for n in (0, 1, 2, 120) for x in ("model.pth", "structure.dhg")]
PRESENT = [("param", x) for x in "root X S L tr va te ev dev crit trial u1 u2 p1 p2 n1 n2 m1 m2 y1 y2".split()]


LEAVES = [("param", x) for x in "X L tr va te u1 u2 p1 p2 n1 n2 m1 m2 y1 y2".split()]


def opt_kind(d):
    k = d.split(".")[-1]
    return k if d.startswith("torch.optim.") and k[:1].isupper() and "lr_scheduler" not in d else None


def is_inf(t):
    """-1, 1 for infinite numbers, else 0."""
    r = repr(t)
    if "evres" in r:
        return 0
    return -1 if r.startswith("('n', -inf") or "-1" in r and "inf" in r else 1 if "inf" in r else 0


def path_key(t):
    """A path term as the tuple of its text pieces."""
    out = []

    def go(z):
        if z[0] == "file":
            out.extend(z[1])
        elif z[0] in ("path", "str", "fmt1"):
            go(z[1])
        elif z[0] == "join":
            for i, x in enumerate(z[1:]):
                if i:
                    out.append("/")
                go(x)
        elif z[0] in ("fstr", "concat", "cat"):
            for x in z[1:]:
                go(x)
        elif z[0] == "s":
            out.append(z[1])
        elif z[0] == "n" and isinstance(z[1], int):
            out.append(str(z[1]))
        else:
            out.append(z)
    go(fold_study(t))
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return tuple(r)


def live(t, out):
    """Modules the gradient of t reaches."""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "detach":
        return
    if t[0] == "out":
        if t[4] != T:
            return
        out.add(t[1])
        for x in t[5:]:
            live(x, out)
        return
    for x in t:
        if isinstance(x, tuple):
            live(x, out)


# ------------------------------------------------------------------------------------------------------------ observation
def fold_study(t):
    """The best trial of a study with one trial is that trial."""
    def f(z):
        if z[0] == "attr" and z[1][0] == "study" and z[2] == "best_trial":
            return ("param", "trial")
        return None
    return tm.subst(t, f)


def world(lab, I, v, st):
    """What a client program leaves behind: its result with the parameters of every module in it, the parameter updates and evaluator calls in order, and the objective value."""
    r = tm.subst(observe(I, st, v), lambda z: ("model", z, lab.params(st, z)) if z[0] == "mod" and z[-1][0] == "id" else None)
    ev = [e for e in st.events if e[0] == "lab"]
    ups = tuple(e[3] if e[1] == "U" else ("tick", e[2]) for e in ev if e[1] in ("U", "tick"))
    calls = tuple(e[3] for e in ev if e[1] == "E")
    val = tuple(e[3] for e in ev if e[1] == "value")
    return ("world", r, ("list",) + ups, ("list",) + calls, ("list",) + val)


SPLITS = {"tr": "split", "va": "split", "te": "split"}


def no_split(z):
    return ("param", SPLITS[z[1]]) if z[0] == "param" and z[1] in SPLITS else None


def steps_view(t):
    """E01: everything but which samples are used and which snapshot is kept."""
    return tm.subst(t, no_split)


def split_view(t):
    """E03: which samples reach which loss and metric."""
    def f(z):
        if z[0] == "out":
            return ("out",) + tuple(tm.subst(x, f) for x in z[5:])
        if z[0] == "upd":
            g = set()
            for x in tm.walk(z[3]):
                if x[0] == "grad":
                    g.add(tm.subst(x, f))
            return ("loss",) + tuple(sorted(g, key=repr))
        if z[0] == "model":
            return ("model",)
        return None
    return ("world",) + tuple(tm.subst(x, f) for x in t[2:4])


def best_view(t):
    """E02: the kept parameters, the reported value and what the final test is run on."""
    def f(z):
        if z[0] == "out":
            return ("out", z[2]) + tuple(tm.subst(x, f) for x in z[5:])
        if z[0] == "model":
            return ("model", ("built",) + z[1][1:-1], tm.subst(z[2], f))
        return None
    calls = [c for c in t[3][1:] if c[1].startswith("test")]
    return tm.subst(("world", t[1], ("list",) + tuple(calls), t[4]), lambda z: f(z) or no_split(z))


# ------------------------------------------------------------------------------------------------------------ client programs
X_EXTRA = EXTRA + """
import optuna
from copy import deepcopy
from dhg.experiments import BaseTask, VertexClassificationTask, GraphVertexClassificationTask, HypergraphVertexClassificationTask, UserItemRecommenderTask
"""
ARGS = "root, X, S, L, tr, va, te, ev, dev, crit, sched, trial, u1, u2, p1, p2, n1, n2, m1, m2, y1, y2"
VC_DATA = '{"features": X, "structure": S, "labels": L, "train_mask": tr, "val_mask": va, "test_mask": te}'
RC_DATA = '{"structure": S, "train_loader": [(u1, p1, n1), (u2, p2, n2)], "test_loader": [(u1, m1, y1), (u2, m2, y2)]}'
BUILD = "lambda trial: nn.Bilinear(trial.h, 4, 5)"
SETUP = 'lambda trial, model: {"optimizer": optim.Adam(model.parameters(), lr=0.1), "criterion": crit, "scheduler": sched}'
VC_STEP = """
def step(model, opt, crit, X, S, L, tr):
    model.train()
    opt.zero_grad()
    crit(model(X, S)[tr], L[tr]).backward()
    opt.step()
"""
RC_STEP = """
def step(model, opt, crit, S, batches):
    model.train()
    for u, p, n in batches:
        opt.zero_grad()
        eu, ei = model({S})
        crit(eu, ei, u, p, n, model=model).backward()
        opt.step()

def score(model, ev, S, batches):
    model.eval()
    out = []
    with torch.no_grad():
        for u, m, y in batches:
            eu, ei = model({S})
            out.append((y, eu[u] @ ei.t() + m))
    return out

def validate(model, ev, S, batches):
    for y, r in score(model, ev, S, batches):
        ev.validate_add_batch(y, r)
    return ev.validate_epoch_res()

def test(model, ev, S, batches):
    for y, r in score(model, ev, S, batches):
        ev.test_add_batch(y, r)
    return ev.test_epoch_res()
"""
TASKS = ("VertexClassificationTask", "GraphVertexClassificationTask", "HypergraphVertexClassificationTask")


def task_src(cls, data, body, builders=("None", "None")):
    return f"""
def ref({ARGS}):
    task = {cls}(root, {data}, {builders[0]}, {builders[1]}, ev, dev, study_name="s", overwrite=False)
    model = nn.Bilinear(3, 4, 5)
    opt = optim.Adam(model.parameters(), lr=0.1)
    opt.zero_grad()
{body}
"""


def def_src(body, pre=""):
    return pre + f"""
def ref({ARGS}):
    model = nn.Bilinear(3, 4, 5)
    opt = optim.Adam(model.parameters(), lr=0.1)
    opt.zero_grad()
{body}
"""


def vc_programs(cls):
    yield f"{cls}.train", task_src(cls, VC_DATA, """
    model.eval()
    task.train(task.data, model, opt, crit)
    model.eval()
    task.train(task.data, model, opt, crit)
    return model
"""), def_src("""
    step(model, opt, crit, X, S, L, tr)
    step(model, opt, crit, X, S, L, tr)
    return model
""", VC_STEP)
    yield f"{cls}.validate", task_src(cls, VC_DATA, """
    model.train()
    return task.validate(task.data, model), model
"""), def_src("""
    model.eval()
    with torch.no_grad():
        return ev.validate(L[va], model(X, S)[va]), model
""")
    yield f"{cls}.test", task_src(cls, VC_DATA, """
    model.train()
    return task.test(task.data, model), model
"""), def_src("""
    model.eval()
    with torch.no_grad():
        return ev.test(L[te], model(X, S)[te]), model
""")
    for what, call in (("its own data", "task.test()"), ("its own data and a given model", "task.test(model=model)"), ("given data and its best model", f"task.test({VC_DATA})")):
        yield f"{cls}.test {what}", task_src(cls, VC_DATA, f"""
    task.best_model, task.best_structure = model, S
    model.train()
    return {call}, model
"""), def_src("""
    model.eval()
    with torch.no_grad():
        return ev.test(L[te], model(X, S)[te]), model
""")


def rc_programs():
    cls = "UserItemRecommenderTask"
    for S, data in (("S", RC_DATA), ("", RC_DATA.replace('"structure": S, ', ""))):
        pre = RC_STEP.replace("{S}", S)
        nm = "" if S else " without a structure"
        yield f"{cls}.train{nm}", task_src(cls, data, """
    model.eval()
    task.train(task.data, model, opt, crit)
    model.eval()
    task.train(task.data, model, opt, crit)
    return model
"""), def_src("""
    step(model, opt, crit, S, [(u1, p1, n1), (u2, p2, n2)])
    step(model, opt, crit, S, [(u1, p1, n1), (u2, p2, n2)])
    return model
""", pre)
        for ph in ("validate", "test"):
            yield f"{cls}.{ph}{nm}", task_src(cls, data, f"""
    model.train()
    return task.{ph}(task.data, model), model
"""), def_src(f"""
    return {ph}(model, ev, S, [(u1, m1, y1), (u2, m2, y2)]), model
""", pre)
        for what, call in (("its own data", "task.test()"), ("its own data and a given model", "task.test(model=model)"), ("given data and its best model", f"task.test({data})")):
            yield f"{cls}.test {what}{nm}", task_src(cls, data, f"""
    task.best_model, task.best_structure = model, {S or "None"}
    model.train()
    return {call}, model
"""), def_src(f"""
    return test(model, ev, S, [(u1, m1, y1), (u2, m2, y2)]), model
""", pre)


def run_programs(n):
    for cls in TASKS + ("UserItemRecommenderTask",):
        rc = cls == "UserItemRecommenderTask"
        for direction, better, worst in (("maximize", "v > score", "-float('inf')"), ("minimize", "v < score", "float('inf')")):
            pre = RC_STEP.replace("{S}", "S") if rc else VC_STEP
            train = "step(model, opt, crit, S, [(u1, p1, n1), (u2, p2, n2)])" if rc else "step(model, opt, crit, X, S, L, tr)"
            val = "v = validate(model, ev, S, [(u1, m1, y1), (u2, m2, y2)])" if rc else "v = ev.validate(L[va], model(X, S)[va])"
            test = "test(m, ev, S, [(u1, m1, y1), (u2, m2, y2)])" if rc else "ev.test(L[te], m(X, S)[te])"

            def body(better):
                return f"""
def ref({ARGS}):
    model = nn.Bilinear(trial.h, 4, 5)
    opt = optim.Adam(model.parameters(), lr=0.1)
    best, score = None, {worst}
    for epoch in range({n}):
        {train}
        model.eval()
        with torch.no_grad():
            {val}
        trial.report(v, epoch)
        if trial.should_prune():
            raise ValueError("pruned")
        if sched is not None:
            sched.step()
        if {better}:
            best, score = deepcopy(model.state_dict()), v
    optuna.create_study(direction="{direction}").optimize(lambda t: score, n_trials=7)
    m = nn.Bilinear(trial.h, 4, 5)
    m.load_state_dict(best)
    m.eval()
    with torch.no_grad():
        {test}
    return m, S
"""
            yield f"{cls}.run/{direction}", f"""
def ref({ARGS}):
    task = {cls}(root, {RC_DATA if rc else VC_DATA}, {BUILD}, {SETUP}, ev, dev, study_name="s", overwrite=False)
    task.run({n}, 7, "{direction}")
    return task.best_model, task.best_structure
""", pre + body(better), pre + body(better.replace("<", "<=").replace(">", ">="))


class Probe:
    """Collects a comparison's verdict without reporting it."""

    def __init__(self, chk):
        self.repo, self.pid, self.analysed = chk.repo, chk.pid, chk.analysed
        self.bad, self.open, self.done = [], [], []

    def finding(self, rule, construct, loc, msg):
        self.bad.append((rule, construct, loc, msg))

    def und(self, construct, msg):
        self.open.append((construct, msg))

    def discharge(self, msg):
        self.done.append(msg)

    def count(self, *a):
        pass


def drive(chk, rule, name, loc, impl, refs, view):
    lab = Lab()
    best = None
    for ref in refs:
        p = Probe(chk)
        C = Comparer(p, maxstates=3000)
        C.tweak = lambda I: lab.install(I)
        C.norm = lambda t: number(view(fold_study(t)))
        try:
            f = [C.outcomes(ref_func(chk.repo, src, None, extra=X_EXTRA), None, {}, ()) for src in (impl, ref)]
        except (Undecided, RecursionError) as e:
            p.und(name, str(e) or type(e).__name__)
        else:
            I, a, outs = f[0]
            # a task that rejects its construction (missing work directory) trains nothing
            outs = [o for o in outs if not (o[0] == "raise" and not any(e[0] == "lab" and e[1] in ("M", "E", "U") for e in o[2].events))]
            for k, v, s in outs:
                # the file system and the seed are the environment's choice
                for c in [c for c in s.order if not tm.contains(c, lambda z: z[0] == "evres" or z[0] == "param" and z[1] != "root")]:
                    s.order = [x for x in s.order if x != c]
                    s.facts.pop(c, None)
            if not any(k == "ret" for k, v, s in f[1][2]):
                raise AnalysisBroken(f"{chk.pid}: the definition of '{name}' never returns")
            C.match(rule, name, loc, (I, a, outs), f[1], what="", post=lambda Ii, ai, v1, s1, Ir, ar, v2, s2: [("outcome", world(lab, Ii, v1, s1), world(lab, Ir, v2, s2))])
        if best is None or not p.bad and best.bad:
            best = p
        if not p.bad and not p.open:
            break
    chk.analysed |= best.analysed
    for b in best.bad:
        chk.finding(*b)
    for b in best.open:
        chk.und(*b)
    for b in best.done:
        chk.discharge(b)
    chk.count("programs")


def loc_of(chk, name):
    cls, m = name.split(" ")[0].split("/")[0].split(".")
    f = chk.repo.lookup(chk.repo.cls(cls), m)
    if f is None:
        raise AnalysisBroken(f"{cls}.{m} not found")
    return f.loc


def e01(chk):
    for cls in TASKS:
        for name, impl, ref in vc_programs(cls):
            drive(chk, "R1", name, loc_of(chk, name), impl, [ref], steps_view)
    for name, impl, ref in rc_programs():
        drive(chk, "R1", name, loc_of(chk, name), impl, [ref], steps_view)
    chk.floor("programs", 15)


def e02(chk):
    for name, impl, *refs in run_programs(4):
        drive(chk, "R1", name, loc_of(chk, name), impl, refs, best_view)
    chk.floor("programs", 8)


def e03(chk):
    for cls in TASKS:
        for name, impl, ref in vc_programs(cls):
            drive(chk, "R1", name, loc_of(chk, name), impl, [ref], split_view)
    for name, impl, ref in rc_programs():
        drive(chk, "R1", name, loc_of(chk, name), impl, [ref], split_view)
    chk.floor("programs", 15)


CASC_HEAD = "def ref(Xu, Xv, g, lr, wd, drop):\n"
ADV_REF = """
def adversarial(layer, X_true, X_other, mp, lr, wd, n, drop):
    disc = Discriminator(X_true.shape[1], 16, 1, drop_rate=drop)
    opt_g = optim.Adam(layer.parameters(), lr=lr, weight_decay=wd)
    opt_d = optim.Adam(disc.parameters(), lr=lr, weight_decay=wd)
    X_true, X_other = X_true.detach(), X_other.detach()
    real, fake = torch.ones(X_true.shape[0], 1), torch.zeros(X_true.shape[0], 1)
    layer.train()
    disc.train()
    for _ in range(n):
        X_fake = torch.tanh(mp(layer(X_other)))
        opt_d.zero_grad()
        (F.binary_cross_entropy(disc(X_true), real) + F.binary_cross_entropy(disc(X_fake.detach()), fake)).backward()
        opt_d.step()
        opt_g.zero_grad()
        F.binary_cross_entropy(disc(X_fake), real).backward()
        opt_g.step()

"""
MSE_REF = """
def reconstruct(layer, decoder, X_true, X_other, mp, lr, wd, n):
    opt = optim.Adam(list(layer.parameters()) + list(decoder.parameters()), lr=lr, weight_decay=wd)
    X_true, X_other = X_true.detach(), X_other.detach()
    layer.train()
    decoder.train()
    for _ in range(n):
        X_fake = decoder(torch.tanh(mp(layer(X_other))))
        opt.zero_grad()
        F.mse_loss(X_fake, X_true).backward()
        opt.step()

"""


def cascades():
    for depth in (1, 2, 3, 4):
        for n in (1, 2):
            yield f"BGNN_Adv.train_with_cascaded/{depth} layers, {n} epochs", CASC_HEAD + f"""
    m = BGNN_Adv(4, 5, layer_depth={depth})
    r = m.train_with_cascaded(Xu, Xv, g, lr, wd, {n}, drop, "cpu")
    return r, m.layers
""", ADV_REF + CASC_HEAD + f"""
    m = BGNN_Adv(4, 5, layer_depth={depth})
    u, v = Xu, Xv
    for k in range({depth}):
        if k % 2 == 0:
            adversarial(m.layers[k], u, v, lambda x: g.v2u(x, aggr="sum"), lr, wd, {n}, drop)
            with torch.no_grad():
                u = torch.tanh(g.v2u(m.layers[k](v), aggr="sum"))
        else:
            adversarial(m.layers[k], v, u, lambda x: g.u2v(x, aggr="sum"), lr, wd, {n}, drop)
            with torch.no_grad():
                v = torch.tanh(g.u2v(m.layers[k](u), aggr="sum"))
    return u, m.layers
"""
            yield f"BGNN_MLP.train_with_cascaded/{depth} layers, {n} epochs", CASC_HEAD + f"""
    m = BGNN_MLP(4, 5, 6, 7, drop_rate=drop, layer_depth={depth})
    r = m.train_with_cascaded(Xu, Xv, g, lr, wd, {n}, "cpu")
    return r, m.layers, m.decoders
""", MSE_REF + CASC_HEAD + f"""
    m = BGNN_MLP(4, 5, 6, 7, drop_rate=drop, layer_depth={depth})
    u, v = Xu, Xv
    for k in range({depth}):
        layer, dec = m.layers[k], m.decoders[k]
        if k % 2 == 0:
            reconstruct(layer, dec, u, v, lambda x: g.v2u(x, aggr="sum"), lr, wd, {n})
            dec.eval()
            with torch.no_grad():
                u = dec(torch.tanh(g.v2u(layer(v), aggr="sum")))
        else:
            reconstruct(layer, dec, v, u, lambda x: g.u2v(x, aggr="sum"), lr, wd, {n})
            dec.eval()
            with torch.no_grad():
                v = dec(torch.tanh(g.u2v(layer(u), aggr="sum")))
    return u, m.layers, m.decoders
"""


def n07(chk):
    for name, impl, ref in cascades():
        drive(chk, "R1", name, loc_of(chk, name), impl, [ref], lambda t: t)
    chk.floor("programs", 12)


def left_behind(t, out):
    """Data leaves that take part in a computation without having been moved to the task's device (an index may stay on the CPU, but not on another accelerator)."""
    if not isinstance(t, tuple) or not t:
        return
    if t in LEAVES:
        out.add(t[1])
        return
    if t[0] == "on":
        if t[2] != ("param", "dev"):
            out.add(t[1][1] + " on " + tm.show(t[2], 60))
        return
    for x in t:
        if isinstance(x, tuple):
            left_behind(x, out)


NAMES = {"X": "features", "L": "labels", "tr": "train mask", "va": "validation mask", "te": "test mask", "u": "users of a batch", "p": "positive items of a batch", "n": "negative items of a batch", "m": "training mask of a batch", "y": "true ratings of a batch"}


def e04(chk):
    for cls in TASKS + ("UserItemRecommenderTask",):
        rc = cls == "UserItemRecommenderTask"
        data = RC_DATA if rc else VC_DATA
        for name, body in (("train", "task.train(task.data, model, opt, crit)"), ("validate", "task.validate(task.data, model)"), ("test", f"task.test({data}, model)"), ("test/its own data", None)):
            nm = f"{cls}.{name}"
            if body is None:
                src = f"""
def ref({ARGS}):
    task = {cls}(root, {data}, {BUILD}, {SETUP}, ev, dev, study_name="s", overwrite=False)
    task.run(1, 1, "maximize")
"""
            else:
                src = task_src(cls, data, "    " + body)
            lab = Lab(devices=True)
            C = Comparer(chk, maxstates=3000)
            C.tweak = lambda I: lab.install(I)
            try:
                I, a, outs = C.outcomes(ref_func(chk.repo, src, None, extra=X_EXTRA), None, {}, ())
            except (Undecided, RecursionError) as e:
                chk.und(nm, str(e) or type(e).__name__)
                continue
            bad, n = set(), 0
            for k, v, s in outs:
                w = [e[3] for e in s.events if e[0] == "lab" and e[1] in ("U", "E")]
                n += len(w)
                for t in w:
                    left_behind(t[3] if t[0] == "upd" else t, bad)
            if not n:
                chk.und(nm, "no loss or metric is computed on any path")
            elif bad:
                b = sorted(bad)
                chk.finding("R2", nm, loc_of(chk, nm), f"{', '.join(NAMES.get(x, NAMES.get(x[0], x)) for x in b)} reaches the loss or the metric without having been moved to the device of the task")
            else:
                chk.discharge(f"{nm}: every operand is on the device of the task ({n} loss/metric operands)")
            chk.count("programs")
    # completion: every run reaches its end unless the trial is pruned
    for cls in TASKS + ("UserItemRecommenderTask",):
        rc = cls == "UserItemRecommenderTask"
        for direction in ("maximize", "minimize"):
            for S in (True, False) if rc else (True,):
                data = (RC_DATA if S else RC_DATA.replace('"structure": S, ', "")) if rc else VC_DATA
                nm = f"{cls}.run/{direction}{'' if S else ' without a structure'}"
                src = f"""
def ref({ARGS}):
    task = {cls}(root, {data}, {BUILD}, {SETUP}, ev, dev, study_name="s", overwrite=False)
    task.run(2, 1, "{direction}")
    return task.best_structure
"""
                lab = Lab()
                C = Comparer(chk, maxstates=3000)
                C.tweak = lambda I: lab.install(I)
                try:
                    I, a, outs = C.outcomes(ref_func(chk.repo, src, None, extra=X_EXTRA), None, {}, ())
                except (Undecided, RecursionError) as e:
                    chk.und(nm, str(e) or type(e).__name__)
                    continue
                outs = [o for o in outs if any(e[0] == "lab" and e[1] in ("M", "E", "U") for e in o[2].events)]
                crash = [(v, s) for k, v, s in outs if k == "raise" and v != "TrialPruned"]
                wrong = [v for k, v, s in outs if k == "ret" and observe(I, s, v) not in ((("param", "S"),) if S else (NONE,))]
                if not any(k == "ret" for k, v, s in outs) and not crash:
                    chk.und(nm, "no path completes")
                elif crash:
                    v, s = crash[0]
                    at = [e for e in s.events if e[0] == "raise"]
                    chk.finding("R1", nm, loc_of(chk, nm), f"ends in {v}" + (f" at {at[-1][2]}" if at else ""))
                elif wrong:
                    chk.finding("R1", nm, loc_of(chk, nm), "the best structure of the finished experiment is not the one it was run on")
                else:
                    chk.discharge(f"{nm}: {len(outs)} paths complete")
                chk.count("programs")
    chk.floor("programs", 26)


VN = "abstract interpretation of whole training/experiment programs over a symbolic state of parameters, gradients, modes and files, compared by value numbering with the definition"
INFO = {
    "N07": {"technique": VN, "assumptions": ASSUME[:1],
            "explanation": "train_with_cascaded of both BGNN models is evaluated on symbolic features and a symbolic bipartite graph for one to four layers and one or two epochs; every parameter update (layer, decoder, discriminator), the final parameters and the returned representations must have the value number of the definition.",
            "note": "Up to four layers and two epochs; device moves are not modelled."},
    "E01": {"technique": VN, "assumptions": ASSUME,
            "explanation": "train (twice), validate and test of every task class run on symbolic data; every parameter update must be optimiser(parameters, gradient of exactly this step's loss computed in training mode with gradients enabled), every evaluator operand must come from evaluation mode without gradient tracking, and validation and testing must leave no update behind.",
            "note": "Two batches per loader; batches, criterion and evaluator are symbolic."},
    "E02": {"technique": VN, "assumptions": ASSUME,
            "explanation": "run() of every task class with both directions and two epochs: on every outcome of the score comparison, the parameters of the kept model, the reported value and the model given to the final test must be the snapshot of the best validated epoch; the model is built with the arguments the trial drew, the cache keeps the files of the best trial (whatever its number), and the study's direction and number of trials are the documented ones.",
            "note": "Two epochs per trial, one trial evaluated in a study with other trials' files on disk; ties may keep either epoch."},
    "E03": {"technique": VN, "assumptions": ASSUME,
            "explanation": "The operands of the criterion in every update and of every evaluator call are traced to the data split they index.",
            "note": "Two batches per loader."},
    "E04": {"technique": "abstract interpretation of experiment programs with exceptional paths and device provenance of the data leaves", "assumptions": ASSUME,
            "explanation": "run() of every task class is evaluated for both directions, with and without a structure and with a test metric that is a list; no path may end in an exception other than pruning. Every operand of a loss or metric is traced back to data leaves, which must have passed a move to the task's device.",
            "note": "Positions of an indexing may stay on another device; file operations succeed on files that exist, and a missing file is an error."},
}
