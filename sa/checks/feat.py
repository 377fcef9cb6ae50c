"""W06, R04: pictures of embeddings and generated features."""
from .. import terms as tm
from ..interp import Undecided, V
from ..repo import AnalysisBroken
from ..spec import Comparer, observe, ref_func
from ..terms import N, NONE, S

ASSUME = ["numpy, scikit-learn and matplotlib operations mean what sa/checks/feat.py and sa/ops.py say; operations they do not list are compared by name and arguments"]
FIG = V(("fig",))
EXTRA = """
import numpy as np
import matplotlib.pyplot as plt
import torch
from sklearn.manifold import TSNE
from sklearn.decomposition import PCA
from sklearn.preprocessing import MinMaxScaler
"""


class Plot:
    """The canvas: points, limits, views; everything else about a figure is cosmetic."""

    def install(self, I):
        ext, mc = I.hooks_ext, I.hook_mcall
        P = "matplotlib.pyplot."
        for n in ("figure", "clf", "tight_layout", "show", "close", "title", "axis", "savefig", "colorbar"):
            ext[P + n] = lambda I, a, kw, st, node: [(FIG, st)]
        for n in ("axes", "subplot", "gca", "subplots"):
            def axes(I, a, kw, st, node, n=n):
                sub = kw.get("subplot_kw")
                p = st.term(kw["projection"]) if "projection" in kw else NONE
                if sub is not None:
                    m = st.cur(sub).map
                    if m is None:
                        raise Undecided("axes of a computed kind")
                    p = next((st.term(x) for k, x in m if k == S("projection")), NONE)
                ax = V(("axes", p))
                return [(V(None, "tuple", items=[FIG, ax]) if n == "subplots" else ax, st)]
            ext[P + n] = axes
        for n in ("scatter", "xlim", "ylim"):
            ext[P + n] = lambda I, a, kw, st, node, n=n: self.on(("axes", NONE), n, a, kw, st, I)
        ext["matplotlib.animation.FuncAnimation"] = self.animate
        for n in ("clip", "maximum", "minimum"):
            ext["numpy." + n] = lambda I, a, kw, st, node, n=n: self.clip(n, a, kw, st)
        ext["numpy.linalg.norm"] = self.norm
        ext["numpy.where"] = lambda I, a, kw, st, node: [(V(("where", st.term(a[0]), st.term(a[1]), st.term(a[2]))), st)] if len(a) == 3 else None
        for n in ("min", "max", "amin", "amax"):
            ext["numpy." + n] = lambda I, a, kw, st, node, n=n: self.reduce(n[-3:], a, kw, st)
        for n in ("sklearn.preprocessing.MinMaxScaler",):
            ext[n] = lambda I, a, kw, st, node: [(V(("scaler", st.term(a[0] if a else kw["feature_range"]) if a or kw else ("tup", N(0), N(1)))), st)]
        for n, d, m in (("TSNE", "sklearn.manifold.TSNE", ("n_components", "perplexity")), ("PCA", "sklearn.decomposition.PCA", ("n_components",))):
            def reducer(I, a, kw, st, node, n=n, m=m):
                k = {q: st.term(x) for q, x in kw.items()} | {m[i]: st.term(x) for i, x in enumerate(a)}
                return [(V((n,) + tuple((("s", q), k[q]) for q in sorted(k))), st)]
            ext[d] = reducer
        for n in ("numpy.arctanh", "numpy.tanh"):
            ext[n] = lambda I, a, kw, st, node, n=n: [(V((n.split(".")[1], st.term(a[0]))), st)] if len(a) == 1 and not kw else None

        def mcall(I, v, name, a, kw, st, node):
            v = st.cur(v)
            if v.t is not None and v.t[0] == "fig":
                if name in ("add_subplot", "gca", "add_axes", "subplots"):
                    return [(V(("axes", st.term(kw["projection"]) if "projection" in kw else NONE)), st)]
                return [(FIG, st)]
            if v.t is not None and v.t[0] == "axes":
                return self.on(v.t, name, a, kw, st, I)
            if v.t is not None and v.t[0] not in ("call", "fig", "obj") and name in ("min", "max"):
                return self.reduce(name, [v] + list(a), kw, st)
            if v.t is not None and name == "clip" and v.t[0] != "obj":
                return self.clip("clip", [v] + list(a), kw, st)
            return mc(I, v, name, a, kw, st, node) if mc else None
        I.hook_mcall = mcall

    def on(self, ax, name, a, kw, st, I):
        if name == "scatter":
            xs = [st.term(x) for x in a]
            kws = {k: st.term(x) for k, x in kw.items()}
            for i, k in enumerate(("x", "y", "z" if ax[1] != NONE else "s")):
                if k in kws:
                    xs.append(kws.pop(k))
            n = 3 if ax[1] != NONE else 2
            if "zs" in kws:
                xs.append(kws.pop("zs"))
            col = kws.get("c", kws.get("color", NONE))
            if len(xs) < n:
                raise Undecided("points given in an unknown way")
            st.ev("plot", "points", ax, tuple(xs[:n]), col, kws.get("cmap", NONE) if col != NONE else NONE)
        elif name in ("set_xlim", "set_ylim", "set_zlim", "set_xlim3d", "set_ylim3d", "set_zlim3d", "xlim", "ylim", "axis"):
            if name == "axis":
                return [(V(NONE), st)]
            xs = [st.term(x) for x in a] + [st.term(x) for x in kw.values()]
            if len(xs) == 1 and xs[0][0] in ("tup", "list"):
                xs = list(xs[0][1:])
            st.ev("plot", "limits", ax, name.replace("set_", "")[0], tuple(xs), NONE)
        elif name == "view_init":
            xs = [st.term(x) for x in a]
            kws = {k: st.term(x) for k, x in kw.items()}
            st.ev("plot", "view", ax, kws.get("elev", xs[0] if xs else NONE), kws.get("azim", xs[1] if len(xs) > 1 else NONE), NONE)
        return [(V(NONE), st)]

    def animate(self, I, a, kw, st, node):
        names = ("fig", "func", "frames", "init_func")
        kw = dict(zip(names, a)) | kw
        sts = [st]
        if "init_func" in kw:
            sts = [s for s0 in sts for _, s in I.call(kw["init_func"], [], {}, s0, node)]
        out = []
        for s0 in sts:
            for _, s in I.call(kw["func"], [V(("param", "frame"), "int")], {}, s0, node):
                out.append((V(("anim", s.term(kw["frames"]) if "frames" in kw else NONE)), s))
        return out

    def clip(self, n, a, kw, st):
        x = [st.term(z) for z in a]
        k = {q: st.term(z) for q, z in kw.items()}
        if n == "clip":
            lo = k.get("a_min", k.get("min", x[1] if len(x) > 1 else NONE))
            hi = k.get("a_max", k.get("max", x[2] if len(x) > 2 else NONE))
            t = x[0] if x else k.get("a")
        else:
            if len(x) != 2 or k:
                return None
            t, b = (x[0], x[1]) if x[0][0] != "n" else (x[1], x[0])
            lo, hi = (b, NONE) if n == "maximum" else (NONE, b)
        if t is None:
            return None
        # one clipping inside another at the other end is one clipping
        if t[0] == "clip" and t[2] == NONE and hi == NONE:
            t, hi = t[1], t[3]
        elif t[0] == "clip" and t[3] == NONE and lo == NONE:
            t, lo = t[1], t[2]
        return [(V(("clip", t, lo, hi), "ndarray"), st)]

    def norm(self, I, a, kw, st, node):
        x = [st.term(z) for z in a]
        k = {q: st.term(z) for q, z in kw.items()}
        p = k.get("ord", x[1] if len(x) > 1 else NONE)
        ax = k.get("axis", x[2] if len(x) > 2 else NONE)
        return [(V(("norm", x[0] if x else k["x"], N(2) if p == NONE else p, self.axis(ax), k.get("keepdims", ("b", False))), "ndarray"), st)]

    def axis(self, ax):
        # embeddings are matrices: the last axis is axis 1
        return N(1) if ax == N(-1) else N(0) if ax == N(-2) else ax

    def reduce(self, n, a, kw, st):
        x = [st.term(z) for z in a]
        k = {q: st.term(z) for q, z in kw.items()}
        ax = self.axis(k.get("axis", x[1] if len(x) > 1 else NONE))
        # a kept first axis of length one broadcasts like no axis
        return [(V((n + "of", x[0], ax) + (() if ax == N(0) else (k.get("keepdims", ("b", False)),)), "ndarray"), st)]


def canon(t):
    """Numeric factors spread over sums, negated conditions turned; shared parts are visited once."""
    memo = {}

    def go(z):
        if not isinstance(z, tuple) or not z:
            return z
        r = memo.get(id(z))
        if r is not None:
            return r[0]
        if isinstance(z[0], str):
            if z[0] in ("n", "s", "b", "none", "param", "init", "I"):
                x = z
            else:
                x = (z[0],) + tuple(go(y) for y in z[1:])
                x = rule(x)
        else:
            x = tuple(go(y) for y in z)
        memo[id(z)] = (x, z)
        return x

    def rule(x):
        if x[0] == "where" and len(x) == 4 and x[1][0] == "not":
            return ("where", x[1][1], x[3], x[2])
        if x[0] == "sub" and len(x) == 3 and x[2][0] == "n" and x[1][0] == "T":
            y = x[1][1]
            if y[0] == "sub" and y[2][0] == "tup" and len(y[2]) == 3 and y[2][1] == FULL and y[2][2][0] == "slice" and y[2][2][1] in (NONE, N(0)) and y[2][2][3] == NONE:
                y = y[1]
            return ("sub", y, ("tup", FULL, x[2]))
        if x[0] == "mul":
            nums = [y for y in x[1:] if y[0] == "n"]
            sums = [y for y in x[1:] if y[0] == "add"]
            if nums and sums:
                rest = [y for y in x[1:] if y is not nums[0] and y is not sums[0]]
                return tm.mul(tm.add(*[tm.mul(nums[0], y) for y in sums[0][1:]]), *rest)
            return tm.mul(*x[1:])
        if x[0] == "add":
            return tm.add(*x[1:])
        return x
    return go(t)


def both(a, b):
    return (a, b) if a == b else (canon(a), canon(b))


FULL = ("slice", NONE, NONE, NONE)


def plots(st):
    out = []
    for e in st.events:
        if e[0] == "plot":
            out.append(e[1:])
    # limits may be set in any order, before or after the points
    pts = [e for e in out if e[0] in ("points", "view")]
    return ("list",) + tuple(pts) + tuple(sorted({e for e in out if e[0] == "limits"}, key=repr))


def drive(chk, rule, name, loc, impl, ref, given=None, facts=(), extra="", tweak=None):
    C = Comparer(chk, maxstates=2000)
    C.tweak = tweak or (lambda I: Plot().install(I))
    chk.count("programs")
    try:
        res = [C.outcomes(ref_func(chk.repo, src, None, extra=EXTRA + extra), None, dict(given or {}), facts) for src in (impl, ref)]
    except (Undecided, RecursionError) as e:
        chk.und(name, str(e) or type(e).__name__)
        return
    if not res[1][2]:
        raise AnalysisBroken(f"{chk.pid}: the definition of '{name}' has no outcome")
    C.match(rule, name, loc, res[0], res[1], what="", post=lambda Ii, ai, v1, s1, Ir, ar, v2, s2: [("value",) + both(observe(Ii, s1, v1), observe(Ir, s2, v2)), ("picture",) + both(plots(s1), plots(s2))])


BALL = """
def size(x):
    return np.clip(np.linalg.norm(x, axis=1, keepdims=True), 1e-15, None)

def inside(x, c):
    n = size(x)
    edge = (1 - 1e-5) / c ** 0.5
    return np.where(n > edge, x / n * edge, x)

def exp_map(u, c):
    r = c ** 0.5
    n = size(u)
    return np.tanh(np.clip(r * n, -15, 15)) * u / (r * n)

def log_map(p, c):
    r = c ** 0.5
    n = size(p)
    return 1.0 / r * np.arctanh(r * n) / n * p

def to_ball(X, dim, method):
    assert dim in [2, 3]
    assert method in ["pca", "tsne"]
    c = 2.0
    X = X / np.linalg.norm(X, axis=1, keepdims=True)
    o = np.zeros_like(X)
    X = np.concatenate([o[:, 0:1], X], axis=1)
    T = log_map(inside(exp_map(X, c), c), c)
    if method == "tsne":
        Y = TSNE(n_components=dim, init="pca").fit_transform(T)
    else:
        Y = PCA(n_components=dim).fit_transform(T)
    lo, hi = np.min(Y, 0), np.max(Y, 0)
    Y = (Y - lo) / (hi - lo)
    Y = MinMaxScaler(feature_range=(-2, 2)).fit_transform(Y)
    return inside(exp_map(Y, c), c)
"""
PLAIN = """
def flat(X, dim):
    assert dim in [2, 3]
    return TSNE(n_components=dim, init="pca").fit_transform(X)
"""
SHOW = """
def scale(X):
    return (X - X.min(0)) / (X.max(0) - X.min(0)) * 0.8 + 0.1

def show(X, label, dim, cmap):
    X = scale(X)
    if dim == 2:
        ax = plt.figure().add_subplot(111)
        if label is None:
            ax.scatter(X[:, 0], X[:, 1])
        else:
            ax.scatter(X[:, 0], X[:, 1], c=label, cmap=cmap)
    else:
        ax = plt.figure().add_subplot(111, projection="3d")
        if label is None:
            ax.scatter(X[:, 0], X[:, 1], X[:, 2])
        else:
            ax.scatter(X[:, 0], X[:, 1], X[:, 2], c=label, cmap=cmap)
        ax.set_zlim(0, 1)
    ax.set_xlim(0, 1)
    ax.set_ylim(0, 1)

def turn(X, colors, cmap):
    X = scale(X)
    ax = plt.figure().add_subplot(111, projection="3d")

    def init():
        ax.scatter(X[:, 0], X[:, 1], X[:, 2], c=colors, cmap=cmap)

    def frame(i):
        ax.view_init(elev=20, azim=i % 360)
    return FuncAnimation(None, frame, init_func=init, frames=360)
"""


def w06(chk):
    chk.rule("R1", "the points handed to the canvas are the projected embeddings, every coordinate rescaled over its own axis into the shown range, each with its own label's colour; unknown dimensions and methods are refused")
    chk.rule("R2", "the projection into the ball is the composition of the exponential and logarithmic maps of curvature 2 with the clipping just inside the ball")
    repo = chk.repo
    F = "dhg.visualization.feature."
    X = V(("param", "X"), "ndarray")
    imp = "from dhg.visualization.feature.visualization import draw_in_euclidean_space, draw_in_poincare_ball, animation_of_3d_poincare_ball, animation_of_3d_euclidean_space\nfrom dhg.visualization.feature.utils import project_to_poincare_ball\nfrom matplotlib.animation import FuncAnimation\n"
    L = V(("param", "label"), "ndarray")
    has = [(tm.eq(("param", "label"), NONE), False)]

    def cases(dims, methods):
        for dim in dims:
            for m in methods:
                for lab, facts in ((L, has), (V(NONE), [])):
                    yield dim, m, lab, facts
    loc = lambda f: repo.func(F + f).loc  # noqa: E731
    A = "X, label, cmap"
    for dim, m, lab, facts in cases((2, 3, 4), (None,)):
        nm = f"draw_in_euclidean_space: {dim} dimensions, {'no ' if lab.t == NONE else ''}labels"
        drive(chk, "R1", nm, loc("visualization.draw_in_euclidean_space"), f"def ref({A}):\n    draw_in_euclidean_space(X, label, {dim}, cmap)\n", PLAIN + SHOW + f"def ref({A}):\n    show(flat(X, {dim}), label, {dim}, cmap)\n", {"X": X, "label": lab}, facts, imp)
        drive(chk, "R1", nm + ", by name", loc("visualization.draw_in_euclidean_space"), f"def ref({A}):\n    draw_in_euclidean_space(X, label=label, cmap=cmap, dim={dim})\n", PLAIN + SHOW + f"def ref({A}):\n    show(flat(X, {dim}), label, {dim}, cmap)\n", {"X": X, "label": lab}, facts, imp)
    for dim, m, lab, facts in cases((2, 3, 4), ("pca", "tsne", "umap")):
        nm = f"draw_in_poincare_ball: {dim} dimensions, {m}, {'no ' if lab.t == NONE else ''}labels"
        drive(chk, "R1", nm, loc("visualization.draw_in_poincare_ball"), f"def ref({A}):\n    draw_in_poincare_ball(X, label, {dim}, '{m}', cmap)\n", BALL + SHOW + f"def ref({A}):\n    show(to_ball(X, {dim}, '{m}'), label, {dim}, cmap)\n", {"X": X, "label": lab}, facts, imp)
        if dim == 3:
            nm = f"animation_of_3d_poincare_ball: {m}, {'no ' if lab.t == NONE else ''}labels"
            drive(chk, "R1", nm, loc("visualization.animation_of_3d_poincare_ball"), f"def ref({A}):\n    return animation_of_3d_poincare_ball(X, label, '{m}', cmap)\n", BALL + SHOW + f"def ref({A}):\n    return turn(to_ball(X, 3, '{m}'), 'r' if label is None else label, cmap)\n", {"X": X, "label": lab}, facts, imp)
        if lab.t == NONE:
            nm = f"project_to_poincare_ball: {dim} dimensions, {m}"
            drive(chk, "R2", nm, loc("utils.project_to_poincare_ball"), f"def ref(X):\n    return project_to_poincare_ball(X, {dim}, '{m}')\n", BALL + f"def ref(X):\n    return to_ball(X, {dim}, '{m}')\n", {"X": X}, (), imp)
    for lab, facts in ((L, has), (V(NONE), [])):
        nm = f"animation_of_3d_euclidean_space: {'no ' if lab.t == NONE else ''}labels"
        drive(chk, "R1", nm, loc("visualization.animation_of_3d_euclidean_space"), f"def ref({A}):\n    return animation_of_3d_euclidean_space(X, label, cmap)\n", PLAIN + SHOW + f"def ref({A}):\n    return turn(flat(X, 3), 'r' if label is None else label, cmap)\n", {"X": X, "label": lab}, facts, imp)
    for f, r in (("draw_in_euclidean_space", PLAIN + SHOW + "def ref(X):\n    show(flat(X, 2), None, 2, 'viridis')\n"), ("draw_in_poincare_ball", BALL + SHOW + "def ref(X):\n    show(to_ball(X, 2, 'pca'), None, 2, 'viridis')\n"),
                 ("animation_of_3d_poincare_ball", BALL + SHOW + "def ref(X):\n    return turn(to_ball(X, 3, 'pca'), 'r', 'viridis')\n"), ("animation_of_3d_euclidean_space", PLAIN + SHOW + "def ref(X):\n    return turn(flat(X, 3), 'r', 'viridis')\n")):
        drive(chk, "R1", f"{f}: defaults", loc("visualization." + f), f"def ref(X):\n    return {f}(X)\n", r.replace("def ref(X):\n    show", "def ref(X):\n    return show"), {"X": X}, (), imp)
    chk.floor("programs", 40)


class Arrays:
    """Literal label arrays: distinct values, positions and one-hot rows are computed."""

    def install(self, I):
        ext, mc, ga, gi, si, ci = I.hooks_ext, I.hook_mcall, I.getattr_, I.getitem, I.setitem, I.concrete_iter

        def lit(v, st):
            v = st.cur(v)
            if v.t is not None and v.t[0] in ("labels", "list", "tup"):
                xs = list(v.t[1:])
            elif v.items is not None:
                xs = [st.term(x) for x in v.items]
            else:
                return None
            return xs if all(x[0] in ("n", "s") for x in xs) else None

        def arr(xs):
            return V(("labels",) + tuple(xs), "ndarray")

        def is_arr(v, st):
            return st.cur(v).t is not None and st.cur(v).t[0] == "labels"

        def mat(v, st):
            t = st.cur(v).t if v is not None else None
            return t[1:] if t is not None and t[0] == "mat" else None

        def flag(kw, n, st):
            return n in kw and st.term(kw[n]) == ("b", True)

        def array(I, a, kw, st, node):
            xs = lit(a[0], st) if a else None
            return None if xs is None else [(arr(xs), st)]

        def unique(I, a, kw, st, node):
            xs = lit(a[0], st)
            if xs is None:
                return None
            u = sorted(set(xs), key=lambda x: x[1])
            out = [arr(u)]
            if flag(kw, "return_index", st):
                out.append(arr([N(xs.index(x)) for x in u]))
            if flag(kw, "return_inverse", st):
                out.append(arr([N(u.index(x)) for x in xs]))
            if flag(kw, "return_counts", st):
                out.append(arr([N(xs.count(x)) for x in u]))
            return [(out[0] if len(out) == 1 else V(None, "tuple", items=out), st)]

        def filled(c):
            def f(I, a, kw, st, node):
                s = st.cur(a[0] if a else kw["shape"])
                d = [st.term(x) for x in s.items] if s.items is not None else list(st.term(s)[1:]) if st.term(s)[0] in ("tup", "list") else None
                if d is None or len(d) != 2 or any(x[0] != "n" for x in d):
                    return None
                return [(V(("mat",) + ((N(c),) * int(d[1][1]),) * int(d[0][1]), "ndarray"), st)]
            return f

        def eye(I, a, kw, st, node):
            n = st.term(a[0])
            if n[0] != "n" or len(a) > 1:
                return None
            return [(V(("mat",) + tuple(tuple(N(int(i == j)) for j in range(int(n[1]))) for i in range(int(n[1]))), "ndarray"), st)]

        def arange(I, a, kw, st, node):
            n = [st.term(x) for x in a]
            if any(x[0] != "n" for x in n) or kw:
                return None
            return [(arr([N(i) for i in range(*[int(x[1]) for x in n])]), st)]

        def normal(I, a, kw, st, node):
            k = dict(zip(("loc", "scale", "size"), a)) | kw
            loc = st.term(k["loc"]) if "loc" in k else N(0)
            scale = st.term(k["scale"]) if "scale" in k else N(1)
            size = st.cur(k["size"]) if "size" in k else None
            size = NONE if size is None else ("tup",) + tuple(st.term(x) for x in size.items) if size.items is not None else st.term(size)
            size = ("tup",) + size[1:] if size[0] == "list" else size
            if loc[0] == "mat" and size == NONE:
                size = ("tup", N(len(loc) - 1), N(len(loc[1])))
            st.ev("plot", "points", "draw")
            return [(V(tm.add(loc, tm.mul(scale, ("stdnormal", size))), "ndarray"), st)]

        def std(I, a, kw, st, node):
            st.ev("plot", "points", "draw")
            s = [st.cur(x) for x in list(a) + list(kw.values())]
            if len(s) == 1 and s[0].items is not None:
                s = s[0].items
            return [(V(("stdnormal", ("tup",) + tuple(st.term(x) for x in s)), "ndarray"), st)]
        for n in ("array", "asarray"):
            ext["numpy." + n] = array
        for n, f in (("unique", unique), ("zeros", filled(0)), ("ones", filled(1)), ("eye", eye), ("identity", eye), ("arange", arange), ("random.normal", normal), ("random.randn", std), ("random.standard_normal", std)):
            ext["numpy." + n] = f
        ext["torch.from_numpy"] = ext["torch.tensor"] = ext["torch.FloatTensor"] = ext["torch.as_tensor"] = lambda I, a, kw, st, node: [(V(st.term(a[0]), "tensor"), st)]

        def getattr_(v, name, st, node=None):
            if is_arr(v, st) and name in ("shape", "ndim", "size"):
                n = len(lit(v, st))
                return [(V(None, "tuple", items=[V(N(n))]) if name == "shape" else V(N(1 if name == "ndim" else n)), st)]
            m = mat(v, st)
            if m is not None and name == "shape":
                return [(V(None, "tuple", items=[V(N(len(m))), V(N(len(m[0])))]), st)]
            return ga(v, name, st, node)

        def getitem(v, i, st, node):
            t = st.term(i)
            if is_arr(v, st) and t[0] == "n" and -len(lit(v, st)) <= t[1] < len(lit(v, st)):
                return [(V(lit(v, st)[int(t[1])]), st)]
            m = mat(v, st)
            if m is not None:
                rows = lit(i, st)
                if rows is not None and t[0] != "tup" and all(x[0] == "n" for x in rows):
                    return [(V(("mat",) + tuple(m[int(x[1])] for x in rows), "ndarray"), st)]
            return gi(v, i, st, node)

        def setitem(v, k, x, st, node):
            m = mat(v, st)
            c, val = st.cur(k), st.term(x)
            if m is not None and c.items is not None and len(c.items) == 2 and val[0] == "n":
                ij = []
                for z in c.items:
                    xs = lit(z, st)
                    if xs is None and st.term(z)[0] == "n":
                        xs = [st.term(z)]
                    ij.append(xs)
                if None not in ij and len(ij[0]) == len(ij[1]) and all(z[0] == "n" for q in ij for z in q):
                    rows = [list(r) for r in m]
                    for a, b in zip(*ij):
                        rows[int(a[1])][int(b[1])] = val
                    return I.mutate(v, V(("mat",) + tuple(tuple(r) for r in rows), "ndarray"), "setitem", st, node, ())
            if m is not None:
                raise Undecided("assignment into a matrix at computed places")
            return si(v, k, x, st, node)

        def mcall(I, v, name, a, kw, st, node):
            w = st.cur(v)
            xs = lit(v, st) if is_arr(v, st) else None
            if xs is not None and name == "tolist":
                return [(I.lst([V(x) for x in xs]), st)]
            if xs is not None and name in ("numpy", "cpu", "detach", "copy"):
                return [(arr(xs), st)]
            if w.items is not None and name == "index" and len(a) == 1 and lit(w, st) is not None and st.term(a[0]) in lit(w, st):
                return [(V(N(lit(w, st).index(st.term(a[0])))), st)]
            if name in ("float", "numpy", "to", "type") and w.t is not None and any(x[0] in ("stdnormal", "mat") for x in tm.walk(w.t)):
                return [(V(w.t, "tensor"), st)]
            return mc(I, v, name, a, kw, st, node) if mc else None

        def concrete(v, st):
            if is_arr(v, st):
                return [V(x) for x in lit(v, st)]
            return ci(v, st)
        I.getattr_, I.getitem, I.setitem, I.hook_mcall, I.concrete_iter = getattr_, getitem, setitem, mcall, concrete


FEATURES = """
def ref(noise):
    return torch.from_numpy(np.random.normal(np.eye({n})[np.array({rows})], noise, size=({m}, {n}))).float()
"""


def r04(chk):
    chk.rule("R1", "the features of a vertex are drawn around the unit vector of its own class with the given standard deviation, one column per class in sorted order; labels of another type or shape are refused")
    f = chk.repo.func("dhg.random.feature.normal_features")
    imp = "from dhg.random import normal_features\n"
    tweak = lambda I: Arrays().install(I)  # noqa: E731
    for labels in ([0, 1, 0, 1], [5, 2, 9, 2, 5], [7], [3, 3, 3], [2, 1, 0], [-1, 0, 1, -1], [2, -3, 2], ["b", "a", "b", "c"]):
        names = sorted(set(labels))
        rows = [names.index(x) for x in labels]
        ref = FEATURES.format(n=len(names), m=len(labels), rows=rows)
        for kind in ("list", "tensor", "ndarray"):
            ts = [S(x) if isinstance(x, str) else N(x) for x in labels]
            given = {"labels": V(None, "list", items=[V(t) for t in ts]) if kind == "list" else V(("labels",) + tuple(ts), kind), "noise": V(("param", "noise"), "float")}
            drive(chk, "R1", f"normal_features: {kind} {labels}", f.loc, "def ref(labels, noise):\n    return normal_features(labels, noise)\n", ref.replace("(noise)", "(labels, noise)"), given, (), imp, tweak)
        drive(chk, "R1", f"normal_features: {labels}, default noise", f.loc, f"def ref():\n    return normal_features({labels})\n", ref.replace("def ref(noise)", "def ref()").replace(", noise, ", ", 1.0, "), {}, (), imp, tweak)
    none = [(("isinstance", ("param", "labels"), (k,)), False) for k in ("list", "Tensor", "ndarray")]
    drive(chk, "R1", "normal_features: other labels", f.loc, "def ref(labels, noise):\n    return normal_features(labels, noise)\n", "def ref(labels, noise):\n    raise TypeError()\n", {}, none, imp, tweak)
    drive(chk, "R1", "normal_features: labels of another shape", f.loc, "def ref(labels, noise):\n    return normal_features(labels, noise)\n", "def ref(labels, noise):\n    assert False\n", {"labels": V(("grid",), "ndarray")}, [(tm.eq(("len", ("shape", ("grid",))), N(1)), False)], imp, tweak)
    chk.floor("programs", 34)


INFO = {
    "W06": {"technique": "value numbering of the drawing programs over symbolic embeddings (abstract interpretation; every canvas call compared with the defining program)", "assumptions": ASSUME,
            "explanation": "The four feature-drawing functions and the ball projection are evaluated path by path for every dimension, method and presence of labels; the points, colours, limits and views handed to matplotlib and the projected coordinates must have the value number of the definition.",
            "note": "t-SNE, PCA and the min-max scaler are atoms; cosmetic figure options are not compared; rounding is not modelled."},
    "R04": {"technique": "value numbering against the defining program (abstract interpretation)", "assumptions": ASSUME,
            "explanation": "normal_features is evaluated for lists, tensors and arrays of literal labels (repeated, unsorted, single, names) with given and default noise; on every path the mean, the deviation and the shape of the draw must have the value number of the definition, and labels of another type or shape must be refused.",
            "note": "Six label lists; the noise level is symbolic, the draw itself is an atom."},
}
