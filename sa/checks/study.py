"""E05, E06: the files of a study and the search it runs."""
from .. import terms as tm
from ..interp import Undecided, V
from ..repo import AnalysisBroken
from ..spec import Comparer, observe, ref_func
from ..terms import N, NONE, S
from .exp import ARGS, ASSUME, BUILD, RC_DATA, RC_STEP, SETUP, TASKS, VC_DATA, VC_STEP, X_EXTRA, Lab, Probe, fold_study, loc_of, path_key
from .nn import number

CLASSES = TASKS + ("UserItemRecommenderTask",)
BESTP, OTHERP = ("param", "trial"), ("param", "other")
NUMBER = {BESTP: 12, OTHERP: 5}
GRAPHS = [("attr", p, "g") for p in NUMBER]
# the study and its neighbours: other studies, files of the user, the caches of earlier runs
DISK = {"/w": "dir", "/w/readme.txt": "old", "/w/other": "dir", "/w/other/log.txt": "old", "/w/other/cache": "dir", "/w/other/cache/3_model.pth": "old",
        "/w/s": "dir", "/w/s/log.txt": "old", "/w/s/notes.txt": "old", "/w/s/cache": "dir", "/w/s/cache/3_model.pth": "old", "/w/s/cache/120_structure.dhg": "old",
        "/w/ss": "dir", "/w/ss/log.txt": "old", "/p": "dir", "/p/keep.txt": "old", "rel": "dir", "rel/keep.txt": "old"}


def keytext(k):
    return "".join(x if isinstance(x, str) else "{" + tm.show(x, 60) + "}" for x in k)


def parent(k):
    if not k:
        return k
    if not isinstance(k[-1], str):
        if len(k) > 1 and isinstance(k[-2], str) and k[-2].endswith("/"):
            return tidy(k[:-1])
        raise Undecided("parent of a computed path")
    i = k[-1].rfind("/")
    if i < 0:
        return parent(k[:-1])
    return tidy(k[:-1] + (k[-1][:i],))


def tidy(k):
    out = []
    for x in k:
        if isinstance(x, str):
            while "//" in x:
                x = x.replace("//", "/")
        out.append(x)
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip("/")
        if not out[-1]:
            out.pop()
    return tuple(out)


def below(k, d):
    """Is the path k strictly inside the directory d?"""
    if not k or not d:
        return bool(k)
    return len(k) >= len(d) and k != d and k[:len(d) - 1] == d[:-1] and (k[len(d) - 1] == d[-1] and len(k) > len(d) or isinstance(d[-1], str) and isinstance(k[len(d) - 1], str) and k[len(d) - 1].startswith(d[-1] + "/") or
                                                                   not isinstance(d[-1], str) and k[len(d) - 1] == d[-1])


def name_of(k):
    x = k[-1]
    return x.rsplit("/", 1)[-1] if isinstance(x, str) and "/" in x else None


class Disk(Lab):
    """A concrete directory tree, and a search of several trials."""

    def __init__(self, disk=None, order=(OTHERP, BESTP), prune=None):
        super().__init__()
        self.disk, self.order, self.prune = dict(disk or DISK), order, prune

    def install(self, I):
        super().install(I)
        lab = self

        def ext(name, f):
            dict.__setitem__(I.hooks_ext, name, f)
        ext("shutil.rmtree", self.rmtree)
        ext("logging.FileHandler", self.handler)
        for d in ("os.path.exists", "os.path.isdir", "os.path.isfile"):
            ext(d, lambda I, a, kw, st, node, d=d: lab.test(I, a[0], st, d[8:] if d[8:] != "exists" else "exists"))
        ext("os.makedirs", lambda I, a, kw, st, node: lab.mkdir(I, lab.key(st, a[0]), st, node, True, st.term(kw["exist_ok"]) == ("b", True) if "exist_ok" in kw else False))
        ext("os.mkdir", lambda I, a, kw, st, node: lab.mkdir(I, lab.key(st, a[0]), st, node, False, False))
        ext("optuna.create_study", self.create_study)
        ga = I.getattr_

        def getattr_(v, name, st, node=None):
            v = st.cur(v)
            t = v.t
            if t in NUMBER and name == "number":
                return [(V(N(NUMBER[t])), st)]
            if v.ty == "path" and name == "parent":
                return [(lab.path(parent(lab.key(st, v))), st)]
            if v.ty == "path" and name in ("stem", "name", "suffix"):
                n = name_of(lab.key(st, v))
                if n is not None:
                    i = n.rfind(".")
                    i = i if 0 < i < len(n) - 1 else len(n)
                    return [(V(S({"name": n, "stem": n[:i], "suffix": n[i:]}[name])), st)]
            return ga(v, name, st, node)
        I.getattr_ = getattr_
        kn = I.known

        def known(c, st):
            if c[0] in ("is", "eq") and NONE in c[1:] and any(x in GRAPHS or x[0] in ("lambda", "fn", "on") for x in c[1:]):
                return False
            return kn(c, st)
        I.known = known

    # ------------------------------------------------------------------ the tree
    def key(self, st, v):
        t = st.term(v) if not isinstance(v, tuple) else v
        k = tidy(path_key(t))
        if k and not isinstance(k[0], str):
            raise Undecided("a path that does not start at the work root")
        return k

    def path(self, k):
        if len(k) == 1:
            return V(("path", S(k[0])), "path")
        return V(("path", ("fstr",) + tuple(S(x) if isinstance(x, str) else x for x in k)), "path")

    def tree(self, st):
        out = {(p,): c for p, c in self.disk.items()}
        out[()] = "dir"
        for e in st.events:
            if e[0] == "lab" and e[1] == "fs":
                if e[3] is None:
                    out.pop(e[2], None)
                else:
                    out[e[2]] = e[3]
        return out

    def write(self, I, st, k, what, node=None):
        if self.tree(st).get(parent(k)) != "dir":
            I.do_raise("FileNotFoundError", st, node)
            return False
        self.put(st, "fs", k, what)
        return True

    def put(self, st, what, key, val):
        super().put(st, what, key, val)
        if what == "file":
            k = tidy(key)
            super().put(st, "fs", k, None if val[0] == "nofile" else "new")

    def find(self, st, f):
        k = self.key(st, f)
        for e in reversed(st.events):
            if e[0] == "lab" and e[1] == "file" and tidy(e[2]) == k:
                return e[3]
        return ("nofile", k) if k not in self.tree(st) else ("otherfile", k)

    def names(self, st, d):
        k = self.key(st, d)
        return sorted({name_of(x) for x in self.tree(st) if below(x, k) and parent(x) == k})

    def test(self, I, v, st, what):
        x = self.tree(st).get(self.key(st, v))
        return [(V(("b", x is not None if what == "exists" else x == "dir" if what in ("isdir", "is_dir") else x not in (None, "dir"))), st)]

    def exists(self, I, v, st):
        return self.test(I, v, st, "exists")

    def mkdir(self, I, k, st, node, parents, exist_ok):
        tr = self.tree(st)
        if k in tr:
            if not exist_ok or tr[k] != "dir":
                I.do_raise("FileExistsError", st, node)
                return []
            return [(V(NONE), st)]
        if parents:
            up = parent(k)
            if up and up not in tr:
                self.mkdir(I, up, st, node, True, True)
        elif tr.get(parent(k)) != "dir":
            I.do_raise("FileNotFoundError", st, node)
            return []
        self.put(st, "fs", k, "dir")
        return [(V(NONE), st)]

    def rmtree(self, I, a, kw, st, node):
        k = self.key(st, a[0] if a else kw["path"])
        tr = self.tree(st)
        if k not in tr:
            if "ignore_errors" in kw and st.term(kw["ignore_errors"]) == ("b", True) or len(a) > 1 and st.term(a[1]) == ("b", True):
                return [(V(NONE), st)]
            I.do_raise("FileNotFoundError", st, node)
            return []
        for x in tr:
            if x == k or below(x, k):
                self.put(st, "fs", x, None)
        return [(V(NONE), st)]

    def handler(self, I, a, kw, st, node):
        k = self.key(st, a[0] if a else kw["filename"])
        m = st.term(a[1] if len(a) > 1 else kw["mode"]) if len(a) > 1 or "mode" in kw else S("a")
        if m[0] != "s":
            raise Undecided("a log file opened in a computed mode")
        old = self.tree(st).get(k)
        if not self.write(I, st, k, "new" if old is None or m[1][:1] != "a" else old, node):
            return []
        return [(V(("loghandler", ("key",) + tuple(S(x) if isinstance(x, str) else x for x in k))), st)]

    def open(self, I, a, kw, st, node):
        k = self.key(st, a[0])
        m = st.term(a[1] if len(a) > 1 else kw["mode"]) if len(a) > 1 or "mode" in kw else S("r")
        if m[0] != "s":
            raise Undecided("a file opened in a computed mode")
        old = self.tree(st).get(k)
        if m[1][:1] == "r":
            if old is None:
                I.do_raise("FileNotFoundError", st, node)
                return []
        elif not self.write(I, st, k, old if m[1][:1] == "a" and old else "new", node):
            return []
        return [(V(("file", k)), st)]

    def unlink(self, I, v, st):
        k = self.key(st, v)
        if k not in self.tree(st):
            I.do_raise("FileNotFoundError", st, None)
            return []
        self.put(st, "file", k, ("nofile", k))
        return [(V(NONE), st)]

    def create_study(self, I, a, kw, st, node):
        d = st.term(kw["direction"]) if "direction" in kw else S("minimize")
        self.put(st, "search", "study", ("list", d) + tuple(("pair", S(k), st.term(x)) for k, x in sorted(kw.items()) if k in ("sampler", "pruner")))
        return [(V(("study", d)), st)]

    # ------------------------------------------------------------------ devices
    def device(self, st, name, a, kw):
        x = st.term(a[0] if a else list(kw.values())[0]) if name == "to" and (a or kw) else S(name)
        return S(str(x[1])) if x[0] in ("path",) else x

    def method(self, I, v, name, a, kw, st, node):
        if name in ("to", "cpu", "cuda"):
            d = self.device(st, name, a, kw)
            for m in self.mods(I, st, v):
                self.put(st, "device", m, d)
        return super().method(I, v, name, a, kw, st, node)

    def apply(self, I, f, a, kw, st, node):
        r = super().apply(I, f, a, kw, st, node)
        if r is not None and f.t is not None and f.t[0] == "mod" and f.t[-1][0] == "id":
            for _, s in r:
                self.put(s, "at", f.t, self.last(s, "device", f.t, S("cpu")))
        return r

    def deepcopy(self, I, a, kw, st, node):
        r = super().deepcopy(I, a, kw, st, node)
        t = st.cur(a[0]).t
        if t is not None and t[0] == "mod":
            for v, s in r:
                if v.t is not None and v.t[0] == "mod":
                    self.put(s, "device", v.t, self.last(s, "device", t, S("cpu")))
        return r

    # ------------------------------------------------------------------ the search
    def mcall(self, I, v, name, a, kw, st, node):
        t = v.t
        if t is not None and t[0] == "study" and name == "optimize":
            n = a[1] if len(a) > 1 else kw.get("n_trials")
            self.put(st, "search", "trials", st.term(n) if n is not None else NONE)
            f = a[0] if a else kw["func"]
            pend = [st]
            for p in self.order:
                nxt = []
                for s in pend:
                    depth = len(s.frames)
                    I.sinks.append([])
                    res = I.call(f, [V(p)], {}, s, node)
                    raised = I.sinks.pop()
                    for r, s2 in res:
                        self.put(s2, "value", p, s2.term(r))
                        nxt.append(s2)
                    for e, rs in raised:
                        if e == "TrialPruned":
                            while len(rs.frames) > depth:
                                rs.frames.pop()
                                rs.stack.pop()
                            self.put(rs, "value", p, S("pruned"))
                            nxt.append(rs)
                        else:
                            I.sinks[-1].append((e, rs))
                pend = nxt
            return [(V(NONE), s) for s in pend]
        if t in NUMBER:
            if name == "report":
                self.put(st, "report", t, ("list",) + tuple(st.term(x) for x in list(a) + [kw[k] for k in ("value", "step")[len(a):] if k in kw]))
                return [(V(NONE), st)]
            if name == "should_prune":
                k = sum(1 for e in st.events if e[0] == "lab" and e[1] == "report" and e[2] == t)
                return [(V(("b", t == OTHERP and self.prune is not None and k >= self.prune)), st)]
        if t is not None and (t in GRAPHS or t[0] == "on" and t[1] in GRAPHS):
            t = t[1] if t[0] == "on" else t
            if name in ("to", "cpu", "cuda"):
                return [(V(("on", t, self.device(st, name, a, kw))), st)]
            if name == "save":
                k = self.key(st, a[0] if a else list(kw.values())[0])
                if not self.write(I, st, k, "new", node):
                    return []
                self.put(st, "file", k, ("saved", t))
                return [(V(NONE), st)]
        if name == "addHandler" and a and st.cur(a[0]).t is not None and st.cur(a[0]).t[0] == "loghandler":
            self.put(st, "log", st.cur(a[0]).t, NONE)
            return [(V(NONE), st)]
        if v.ty == "path":
            if name in ("exists", "is_file", "is_dir"):
                return self.test(I, v, st, {"is_file": "isfile", "is_dir": "isdir"}.get(name, name))
            if name == "mkdir":
                flag = lambda n: n in kw and st.term(kw[n]) == ("b", True)
                return self.mkdir(I, self.key(st, v), st, node, flag("parents"), flag("exist_ok"))
            if name == "is_absolute":
                return [(V(("b", self.key(st, v)[0].startswith("/"))), st)]
            if name in ("absolute", "resolve", "expanduser", "as_posix"):
                return [(v, st)]
            if name == "joinpath":
                out = st.term(v)
                return [(V(("join", out) + tuple(st.term(x) for x in a), "path"), st)]
            if name == "rmdir":
                raise Undecided("rmdir")
        return super().mcall(I, v, name, a, kw, st, node)


# ------------------------------------------------------------------------------------------------------------ E05
def begin(cls, root, name, overwrite, body, data=None, build=BUILD):
    rc = cls == "UserItemRecommenderTask"
    data = data or (RC_DATA if rc else VC_DATA)
    return f"""
def ref({ARGS}):
    task = {cls}({root}, {data}, {build}, {SETUP}, ev, dev, study_name={name}, overwrite={overwrite})
    {body}
    return None
"""


def outcomes(chk, nm, src, lab):
    C = Comparer(chk, maxstates=3000)
    C.tweak = lambda I: lab.install(I)
    try:
        I, a, outs = C.outcomes(ref_func(chk.repo, src, None, extra=X_EXTRA), None, {}, ())
    except (Undecided, RecursionError) as e:
        chk.und(nm, str(e) or type(e).__name__)
        return None
    return I, outs


def unknown_files(s):
    """A path condition that depends neither on the parameters nor on a score: about the file system, and not decided by the model."""
    for c in s.order:
        if not tm.contains(c, lambda z: z[0] == "evres" or z[0] == "param" and z[1] != "root" or z[0] == "glob"):
            return c
    return None


def describe(got, want):
    out = []
    for k in sorted(set(got) | set(want), key=keytext):
        if k not in want:
            out.append(f"leaves {keytext(k)} behind")
        elif k not in got:
            out.append(f"{'loses' if want[k] == 'old' else 'lacks'} {keytext(k)}")
        elif got[k] != want[k]:
            out.append(f"{keytext(k)} is {got[k]}, expected {want[k]}")
    return "; ".join(out[:4])


def expected(disk, root, study, overwrite, run, structure=True):
    """The tree after a task was created (and run)."""
    want = {(p,): c for p, c in disk.items()}
    if overwrite:
        want = {k: c for k, c in want.items() if k != study and not below(k, study)}
    sub = lambda x: tidy(study[:-1] + (study[-1] + x,) if isinstance(study[-1], str) else study + (x,))
    for k in ((root,), study, sub("/cache")):
        want[k] = "dir"
    want.setdefault(sub("/log.txt"), "new")
    if run:
        for k in [k for k in want if below(k, sub("/cache"))]:
            want.pop(k)
        want[sub("/cache/12_model.pth")] = "new"
        if structure:
            want[sub("/cache/12_structure.dhg")] = "new"
    return want, sub("/log.txt")


def is_time(t):
    return tm.contains(t, lambda z: isinstance(z, tuple) and any(isinstance(x, str) and ("time" in x or "now" in x) for x in z))


def e05(chk):
    for cls in CLASSES:
        loc = loc_of(chk, cls + ".run")
        cases = []
        for root in ('"/w"', 'Path("/w")', '"/p/w"', '"/p/q/w"', '"rel"', '"rel/w"', '"rel/q/w"', '"new"'):
            for name in ('"s"', '"n"', "None"):
                for ow in (True, False):
                    if root == 'Path("/w")' and (name != '"s"' or ow):
                        continue
                    cases.append((root, name, ow, False))
        # (root, name, overwrite, run)
        cases += [('"/w"', '"s"', True, True), ('"/w"', '"s"', False, True), ('"/p/w"', '"n"', True, True)]
        for root, name, ow, run in cases:
            text = root.split('"')[1]
            nm = f"{cls} at {root}, study {name}, overwrite={ow}{', run' if run else ''}"
            lab = Disk()
            r = outcomes(chk, nm, "from pathlib import Path\n" + begin(cls, root, name, ow, 'task.run(1, 2, "maximize")' if run else ""), lab)
            chk.count("histories")
            if r is None:
                continue
            I, outs = r
            bad = open_ = None
            outs = [o for o in outs if not any(c[0] == "exc" for c in o[2].order)]  # exceptions of the model only
            for k, v, s in outs:
                c = unknown_files(s)
                if c is not None:
                    open_ = "the file system is asked in a way that is not modelled: " + tm.show(c, 120)
                    break
                got = {x: c for x, c in lab.tree(s).items() if x}
                if "/q/" in text:
                    if k != "raise":
                        bad = "is created below a directory that does not exist"
                    elif v != "ValueError":
                        bad = f"fails with {v} for a work root whose parent does not exist, expected ValueError"
                    elif got != {(p,): c for p, c in lab.disk.items()}:
                        bad = "changes the file system although the work root is rejected: " + describe(got, {(p,): c for p, c in lab.disk.items()})
                    if bad:
                        break
                    continue
                if k == "raise":
                    at = [e for e in s.events if e[0] == "raise"]
                    bad = f"ends in {v}" + (f" at {at[-1][2]}" if at else "")
                    break
                if name == "None":
                    new = [x for x, c in got.items() if x not in {(p,) for p in lab.disk} and len(x) > 1]
                    dirs = {x for x in new if got[x] == "dir" and parent(x) == (text,)}
                    if len(dirs) != 1 or not is_time(next(iter(dirs))[1]):
                        bad = f"without a name the study is stored in {sorted(map(keytext, dirs)) or 'no directory'}, expected one directory named by the time"
                        break
                    study = next(iter(dirs))
                else:
                    study = (text + "/" + name.strip('"'),)
                want, log = expected(lab.disk, text, study, ow, run)
                if got != want:
                    bad = describe(got, want)
                    break
                logs = [e[2] for e in s.events if e[0] == "lab" and e[1] == "log"]
                want_log = ("loghandler", ("key",) + tuple(S(x) if isinstance(x, str) else x for x in log))
                if any(x != want_log for x in logs) or not logs:
                    bad = f"the log of the run goes to {[tm.show(x, 60) for x in logs] or 'no file'}"
                    break
            if open_:
                chk.und(nm, open_)
            elif not outs:
                chk.und(nm, "no path")
            elif bad:
                chk.finding("R1", nm, loc, bad)
            else:
                chk.discharge(f"{nm}: {len(outs)} paths leave exactly the expected tree")
    chk.floor("histories", 170)


# ------------------------------------------------------------------------------------------------------------ E06
def search_view(lab, I, v, st):
    ev = [e for e in st.events if e[0] == "lab"]
    r = tm.subst(observe(I, st, v), lambda z: ("model", ("built",) + z[1:-1], lab.params(st, z), lab.last(st, "device", z, S("cpu"))) if z[0] == "mod" and z[-1][0] == "id" else None)
    reports = tuple(("pair", e[2], e[3]) for e in ev if e[1] == "report")
    ups = tuple(e[3] if e[1] == "U" else ("tick", e[2]) for e in ev if e[1] in ("U", "tick"))
    tests = tuple(e[3] for e in ev if e[1] == "E" and e[3][1].startswith("test"))
    vals = tuple(("pair", e[2], e[3]) for e in ev if e[1] == "value")
    search = tuple(e[3] for e in ev if e[1] == "search")
    where = tuple(sorted({e[3] for e in ev if e[1] == "at"}, key=repr))
    return ("search", r, ("set",) + where, ("list",) + search, ("list",) + reports, ("list",) + ups, ("list",) + tests, ("list",) + vals)


def searches():
    for cls in CLASSES:
        rc = cls == "UserItemRecommenderTask"
        for built in ((False,) if cls == "GraphVertexClassificationTask" else (True, False)):
            for direction, better, worst in (("maximize", "v > score", "-float('inf')"), ("minimize", "v < score", "float('inf')")):
                data = RC_DATA if rc else VC_DATA
                if built:
                    data = data.replace('"structure": S, ', "")
                pre = RC_STEP.replace("{S}", "S") if rc else VC_STEP
                train = "step(model, opt, crit, s, [(u1, p1, n1), (u2, p2, n2)])" if rc else "step(model, opt, crit, X, s, L, tr)"
                val = "v = validate(model, ev, s, [(u1, m1, y1), (u2, m2, y2)])" if rc else "v = ev.validate(L[va], model(X, s)[va])"
                test = "test(m, ev, s, [(u1, m1, y1), (u2, m2, y2)])" if rc else "ev.test(L[te], m(X, s)[te])"
                get = "t.g.to(dev)" if built else "S"

                def body(better):
                    return f"""
def ref({ARGS}):
    kept = []
    def objective(t):
        s = {get}
        model = nn.Bilinear(t.h, 4, 5).to(dev)
        opt = optim.Adam(model.parameters(), lr=0.1)
        best, score = None, {worst}
        for epoch in range(NEPOCH):
            {train}
            model.eval()
            with torch.no_grad():
                {val}
            t.report(v, epoch)
            if t.should_prune():
                raise optuna.exceptions.TrialPruned()
            if sched is not None:
                sched.step()
            if {better}:
                best, score = deepcopy(model.state_dict()), v
        if t.number == 12:
            kept.append(best)
        return score
    study = optuna.create_study(direction="{direction}", sampler=optuna.samplers.TPESampler(seed=dhg.random.seed()))
    study.optimize(objective, n_trials=7)
    t = study.best_trial
    s = {get}
    m = nn.Bilinear(t.h, 4, 5).to(dev)
    m.load_state_dict(kept[0])
    m.eval()
    with torch.no_grad():
        {test}
    return m, s
"""
                setup = f', structure_builder=lambda t: t.g' if built else ''
                impl = f"""
def ref({ARGS}):
    task = {cls}("/w", {data}, {BUILD}, {SETUP}, ev, dev, study_name="s", overwrite=False{setup})
    task.run(NEPOCH, 7, "{direction}")
    return task.best_model, task.best_structure
"""
                yield f"{cls}.run/{direction}{', structures built per trial' if built else ''}", impl, pre + body(better), pre + body(better.replace("<", "<=").replace(">", ">="))


def e06(chk):
    for name, impl, *refs in searches():
        for what, order, prune, n in (("the last trial is best", (OTHERP, BESTP), None, 1), ("the first trial is best", (BESTP, OTHERP), None, 1),
                                      ("another trial is pruned", (OTHERP, BESTP), 1, 2), ("the next trial is pruned", (BESTP, OTHERP), 2, 2)):
            compare(chk, f"{name}, {what}", loc_of(chk, name.split(",")[0]), impl.replace("NEPOCH", str(n)), [r.replace("NEPOCH", str(n)) for r in refs], lambda: Disk(order=order, prune=prune))
    chk.floor("histories", 50)


def compare(chk, name, loc, impl, refs, make):
    best = None
    for ref in refs:
        p = Probe(chk)
        labs = [make(), make()]
        C = Comparer(p, maxstates=3000)
        C.norm = lambda t: number(fold_study(tm.subst(t, lambda z: ("kw",) + tuple((k, x[1] if k == "seed" and x[0] == "int" else x) for k, x in z[1:]) if z and z[0] == "kw" else None)))
        try:
            f = []
            for src, lab in zip((impl, ref), labs):
                C.tweak = lambda I, lab=lab: lab.install(I)
                f.append(C.outcomes(ref_func(chk.repo, src, None, extra=X_EXTRA), None, {}, ()))
        except (Undecided, RecursionError) as e:
            p.und(name, str(e) or type(e).__name__)
        else:
            if not any(k == "ret" for k, v, s in f[1][2]):
                raise AnalysisBroken(f"{chk.pid}: the definition of '{name}' never returns")
            C.match("R1", name, loc, f[0], f[1], what="", post=lambda Ii, ai, v1, s1, Ir, ar, v2, s2: [("search", search_view(labs[0], Ii, v1, s1), search_view(labs[1], Ir, v2, s2))])
        if best is None or not p.bad and best.bad:
            best = p
        if not p.bad and not p.open:
            break
    chk.analysed |= best.analysed
    for b in best.bad:
        chk.finding(*b)
    for b in best.open:
        chk.und(*b)
    for b in best.done:
        chk.discharge(b)
    chk.count("histories")


VN = "abstract interpretation of whole experiment programs over a symbolic state of parameters, files and trials"
INFO = {
    "E05": {"technique": VN + " with a concrete directory tree", "assumptions": ASSUME[:1] + ["pathlib, os, shutil and logging act on the directory tree as documented"],
            "explanation": "Every task class is constructed (and run) over a modelled directory tree holding the study, other studies and files of the user, for an existing, a missing and an unreachable work root, a given, a new and an absent study name, with and without overwriting; the tree every path leaves must be exactly the expected one.",
            "note": "Literal paths; log contents are modelled as kept or replaced only."},
    "E06": {"technique": VN + ", compared by value numbering with the definition", "assumptions": ASSUME[:1] + ["Study.optimize calls the objective once per trial, goes on after a pruned trial, and best_trial is the best finished one"],
            "explanation": "run() of every task class is evaluated on searches of two trials, the better one first or last, the other one completed or pruned, with a structure that is fixed or built per trial; sampler, direction, trials, every report, scheduler step and parameter update, the value of every trial, the kept model and structure and the final test must have the value numbers of the definition.",
            "note": "Two trials of one or two epochs; which trial is best is given."},
}
