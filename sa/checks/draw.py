"""W03 drawing options reach the element they name; W05 feature plots."""
import ast
import math

from .. import terms as tm
from ..interp import Undecided, V
from ..spec import Comparer, observe, ref_func
from ..terms import N, NONE, S, TRUE
from .edges import lit

INFO = {
    "W05": dict(
        technique="abstract interpretation of the drawing functions over literal structures with symbolic positions; the logged canvas calls are matched to the structure's vertices and edges",
        note="each drawing function is evaluated on a small literal structure; obligations are its vertices, edges, outlines, the simulated incidence matrix and the range of the normalised positions",
        explanation="Positions are opaque rows of an array; the shapes drawn are recognised by the rows they depend on. Radii are numbers computed from the literal sizes, so that enclosure and nesting of outlines is decided; the range of positions follows from the min-max normalisation term.",
        assumptions=["structures are literal with three to five vertices", "three points are their own convex hull", "positions differ in both coordinates, so that the normalisation does not divide by nought"],
    ),
    "W03": dict(
        technique="abstract interpretation of the drawing functions over symbolic styling arguments, with an effect log of the canvas calls; relational dependence check per drawn element",
        note="each drawing entry point is evaluated once per styling argument on a small literal structure with one symbol per list element; obligations are (entry, argument, element) triples in the logged canvas calls",
        explanation="The coordinates are opaque rows; every canvas call is logged with the symbolic values of its arguments. The value at an element must be the element's own entry of the argument, times the value the same element gets when the argument is omitted; no other element may depend on it.",
        assumptions=["structures are literal with three vertices and two edges (four and two for bipartite graphs); the drawing code treats elements uniformly", "hull geometry (angles, tangents) is opaque"],
    ),
}

ROLE = {"color": "colour", "facecolor": "fill", "fc": "fill", "facecolors": "fill", "edgecolor": "edge", "ec": "edge", "edgecolors": "edge", "colors": "colour", "c": "colour",
        "linewidth": "width", "lw": "width", "linewidths": "width", "fontsize": "font", "size": "font", "fontfamily": "family", "family": "family", "fontname": "family"}


def leaf(name, ty=None):
    return V(("p", name), ty)


def row_of(t, i):
    """Index of the vertex behind row i of a coordinate array, None when the term is not one."""
    if t == ("c", "P"):
        return i
    if t[0] == "sub" and isinstance(t[2], tuple) and t[2][0] == "slice":
        a = t[2][1]
        off = 0 if a == NONE else a[1] if a[0] == "n" else None
        return None if off is None else row_of(t[1], i + off)
    if t[0] in ("add", "mul", "pow"):
        for x in t[1:]:
            if isinstance(x, tuple) and has_rows(x):
                return row_of(x, i)
    return None


def has_rows(t):
    if t == ("c", "P"):
        return True
    if t[0] == "sub" and isinstance(t[2], tuple) and t[2][0] == "slice":
        return has_rows(t[1])
    if t[0] in ("add", "mul", "pow"):
        return any(isinstance(x, tuple) and x and isinstance(x[0], str) and has_rows(x) for x in t[1:])
    return False


def nrows(t, n):
    """Number of rows of a coordinate array, None when unknown."""
    if t == ("c", "P"):
        return n
    if t[0] == "sub" and isinstance(t[2], tuple) and t[2][0] == "slice":
        b = nrows(t[1], n)
        lo, hi = t[2][1], t[2][2]
        if b is None or any(x != NONE and x[0] != "n" for x in (lo, hi)):
            return None
        return len(range(b)[slice(None if lo == NONE else lo[1], None if hi == NONE else hi[1])])
    if t[0] in ("add", "mul", "pow"):
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and has_rows(x):
                return nrows(x, n)
    return None


class Canvas:
    """Hooks that turn the plotting libraries into an effect log."""

    def __init__(self, repo, n):
        self.repo, self.n = repo, n
        self.bases = set()

    def rows(self, v, st):
        if v is None or v.t is None or v.items is not None:
            return None
        k = nrows(v.t, self.n) if has_rows(v.t) else None
        if k is None:
            return None
        self.bases.add(v.t)
        return [V(("row", N(row_of(v.t, i)))) for i in range(k)]

    def install(self, I):
        def subplots(I, args, kw, st, node):
            return [(V(None, "tuple", items=[V(("c", "fig")), V(("c", "ax"))]), st)]
        I.hooks_ext["matplotlib.pyplot.subplots"] = subplots
        for lim in ("xlim", "ylim"):
            def limits(I, args, kw, st, node, lim=lim):
                st.ev("limits", lim, tuple(self.val(I, a, st) for a in args), tuple((k, self.val(I, x, st)) for k, x in sorted(kw.items())))
                return [(V(NONE), st)]
            I.hooks_ext["matplotlib.pyplot." + lim] = limits

        def mcall(I, v, name, args, kw, st, node):
            t = v.t
            if t in (("c", "ax"), ("c", "fig")):
                st.ev("canvas", name, tuple(self.val(I, a, st) for a in args), tuple((k, self.val(I, x, st)) for k, x in sorted(kw.items())), I.loc(node, st))
                return [(V(NONE), st)]
            if name == "tolist" and v.items is not None and v.ty == "ndarray":
                return [(V(None, "list", items=list(v.items)), st)]
            if name == "copy" and v.items is not None and v.ty == "ndarray":
                return [(V(None, "ndarray", items=list(v.items)), st)]
            if name == "tolist":
                r = self.rows(v, st)
                if r is not None:
                    return [(V(None, "list", items=r), st)]
                if t is not None and t[0] == "row":
                    return [(v, st)]
            if name == "copy" and t is not None and t[0] == "row":
                return [(v, st)]
            return None
        I.hook_mcall = mcall
        ci, gi, ga = I.concrete_iter, I.getitem, I.getattr_

        def citer(v, st):
            r = ci(v, st)
            return r if r is not None else self.rows(st.cur(v), st)

        def ints(i, st):
            """A list of literal integers used as an index, None when it is not one."""
            j = st.cur(i)
            t = st.term(j)
            if j.items is None and t[0] not in ("list", "tup"):
                return None
            xs = ci(j, st)
            ts = [st.term(x) for x in xs] if xs is not None else [NONE]
            return [int(x[1]) for x in ts] if all(x[0] == "n" for x in ts) else None

        def getitem(v, i, st, node):
            w = st.cur(v)
            if w.items is not None and w.ty == "ndarray":
                j = ints(i, st)
                if j is not None and all(-len(w.items) <= x < len(w.items) for x in j):
                    return [(V(None, "ndarray", items=[w.items[x] for x in j]), st)]
            if w.t is not None and w.items is None:
                it = st.term(i)
                r = self.rows(w, st)
                if r is not None and it[0] == "n" and -len(r) <= it[1] < len(r):
                    return [(r[int(it[1])], st)]
                if r is not None:
                    j = ints(i, st)
                    if j is not None and all(-len(r) <= x < len(r) for x in j):
                        return [(V(None, "list", items=[r[x] for x in j]), st)]
            return gi(v, i, st, node)

        def getattr_(v, name, st, node=None):
            w = st.cur(v)
            if w.t is not None and w.t[0] == "chull" and name == "vertices":
                return [(V(None, "ndarray", items=[V(N(i)) for i in range(w.t[1][1])]), st)]
            if name == "shape" and w.items is not None and w.ty == "ndarray":
                return [(V(None, "tuple", items=[V(N(len(w.items)))]), st)]
            if name == "shape":
                r = self.rows(w, st)
                if r is not None:
                    return [(V(None, "tuple", items=[V(N(len(r))), V(N(2))]), st)]
            return ga(v, name, st, node)
        I.concrete_iter, I.getitem, I.getattr_ = citer, getitem, getattr_

        def vstack(I, args, kw, st, node):
            if args:
                ps = I.concrete_iter(st.cur(args[0]), st)
                rs = [I.concrete_iter(st.cur(p), st) for p in ps] if ps is not None else [None]
                if all(r is not None for r in rs):
                    return [(V(None, "ndarray", items=[x for r in rs for x in r]), st)]
            return None
        for n in ("vstack", "concatenate", "row_stack"):
            I.hooks_ext["numpy." + n] = vstack

        def array(I, args, kw, st, node):
            xs = I.concrete_iter(st.cur(args[0]), st) if args else None
            if xs is None or any(x.items is not None or x.t is not None and x.t[0] in ("list", "tup") for x in xs):
                return None
            return [(V(None, "ndarray", items=list(xs)), st)]
        for n in ("array", "asarray"):
            I.hooks_ext["numpy." + n] = array

        def append(I, args, kw, st, node):
            if len(args) == 2:
                a, b = st.cur(args[0]), st.cur(args[1])
                xs = I.concrete_iter(a, st)
                ys = I.concrete_iter(b, st)
                if xs is not None:
                    return [(V(None, "ndarray", items=list(xs) + (list(ys) if ys is not None else [b])), st)]
            return None
        I.hooks_ext["numpy.append"] = append
        bo, si = I.binop, I.setitem

        def binop(op, a, b, st):
            a, b = st.cur(a), st.cur(b)
            if "ndarray" in (a.ty if a.items is not None else None, b.ty if b.items is not None else None):
                n = len((a if a.items is not None else b).items)
                xs = a.items if a.items is not None else [a] * n
                ys = b.items if b.items is not None else [b] * n
                if len(xs) == len(ys):
                    return V(None, "ndarray", items=[bo(op, x, y, st) for x, y in zip(xs, ys)])
            return bo(op, a, b, st)

        def setitem(v, k, x, st, node):
            w, y = st.cur(v), st.cur(x)
            idx = ints(k, st) if w.items is not None and w.ty == "ndarray" else None
            if idx is not None:
                vals = y.items if y.items is not None else [y] * len(idx)
                if len(vals) == len(idx) and all(-len(w.items) <= i < len(w.items) for i in idx):
                    items = list(w.items)
                    for i, z in zip(idx, vals):
                        items[i] = z
                    I.mutate(w, V(None, "ndarray", items=items), "setitem", st, node, (st.term(st.cur(k)),))
                    return
            return si(v, k, x, st, node)
        I.binop, I.setitem = binop, setitem

        def hull(I, args, kw, st, node):
            xs = I.concrete_iter(st.cur(args[0]), st) if args else None
            # three points in general position are their own hull
            return [(V(("chull", N(len(xs)))), st)] if xs is not None and len(xs) == 3 else None
        I.hooks_ext["scipy.spatial.ConvexHull"] = hull

        def argsort(I, args, kw, st, node):
            t = st.term(args[0])
            xs = numbers(t) if t[0] != "each" else None
            if xs is None:
                return None
            return [(V(None, "list", items=[V(N(i)) for i in sorted(range(len(xs)), key=lambda i: xs[i])]), st)]
        I.hooks_ext["numpy.argsort"] = argsort

        def simulate(I, func, args, kw, st, node):
            o = st.objs[args[0].t[1]]
            st.ev("forces", tuple((k, st.term(x)) for k, x in sorted(o.fields.items())), I.loc(node, st))
            st.ev("incidence", tuple(st.term(x) for x in list(args[1:]) + [x for _, x in sorted(kw.items())]), I.loc(node, st))
            return [(V(("c", "P")), st)]
        I.intercept["dhg.visualization.structure.simulator.Simulator.simulate"] = simulate
        for q in ("radian_from_atan", "common_tangent_radian"):
            I.intercept["dhg.visualization.structure.geometry." + q] = lambda I, func, args, kw, st, node, q=q: [(V(("app", q) + tuple(st.term(a) for a in args)), st)]

    def val(self, I, v, st):
        v = st.cur(v)
        if v.items is not None:
            return ("list",) + tuple(self.val(I, x, st) for x in v.items)
        return st.term(v)


def numbers(t):
    if t[0] in ("list", "tup") and all(x[0] == "n" for x in t[1:]):
        return [x[1] for x in t[1:]]
    if t[0] == "call" and len(t) >= 3 and "array" in str(t[1]):
        return numbers(t[2]) if isinstance(t[2], tuple) else None
    return None


# ---------------------------------------------------------------- what is drawn
VERTEX = {"Circle", "scatter", "RegularPolygon", "Ellipse"}
LABEL = {"text", "annotate"}
EDGE = {"arrow", "PathPatch", "Arc", "FancyArrowPatch", "FancyArrow", "plot", "Polygon", "Line2D", "Wedge", "Arrow", "ConnectionPatch", "quiver", "fill"}
QUIET = {"tight_layout", "set_xlim", "set_ylim", "axis", "set_axis_off", "set_aspect", "set_title", "subplots_adjust", "autoscale_view", "autoscale", "margins", "set_xticks", "set_yticks"}


def rows_in(t):
    return {x[1][1] for x in tm.walk(t) if x[0] == "row" and x[1][0] == "n"}


def leaves_in(t):
    return {x[1] for x in tm.walk(t) if x[0] in ("p", "param") and isinstance(x[1], str)}


class Mark:
    """One drawn shape: what it stands for, its geometry and its style."""

    def __init__(self, kind, ctor, geo, style, loc):
        self.kind, self.ctor, self.geo, self.style, self.loc = kind, ctor, geo, style, loc
        self.rows = frozenset(rows_in(("list",) + tuple(geo.values())))

    def all(self):
        return ("list",) + tuple(v for _, v in sorted(self.geo.items())) + tuple(v for _, v in sorted(self.style.items()))


STYLE = set(ROLE) | {"head_width", "head_length", "ha", "va", "alpha", "zorder", "length_includes_head", "overhang", "shape", "fill", "ls", "linestyle", "marker", "s", "cmap", "antialiased",
                     "horizontalalignment", "verticalalignment", "width", "joinstyle", "capstyle", "fontweight", "fontstyle", "clip_on"}


def shape(t):
    """(constructor, {parameter: value}, {style: value}) of a patch term."""
    if t[0] != "call":
        return None
    kw = {}
    pos = []
    for x in t[2:]:
        if x[0] == "kw":
            kw.update({k: v for k, v in x[1:]})
        else:
            pos.append(x)
    name = t[1].rsplit(".", 1)[-1]
    return name, dict([(f"#{i}", x) for i, x in enumerate(pos)] + [(k, v) for k, v in kw.items() if k not in STYLE]), {k: v for k, v in kw.items() if k in STYLE}


def kind_of(name):
    return "vertex" if name in VERTEX else "label" if name in LABEL else "edge" if name in EDGE else None


def marks(st):
    """The shapes drawn on a path; raises Undecided for canvas calls this model does not know."""
    out = []
    for e in st.events:
        if e[0] != "canvas":
            continue
        _, name, args, kw, loc = e
        if name in QUIET:
            continue
        if name in ("add_patch", "add_artist", "add_line"):
            sh = shape(args[0]) if args else None
            if sh is None or kind_of(sh[0]) is None:
                raise Undecided(f"a patch of unknown shape is drawn at {loc}")
            out.append(Mark(kind_of(sh[0]), sh[0], sh[1], sh[2], loc))
        elif name == "add_collection":
            t = args[0] if args else NONE
            sh = shape(t)
            if sh is None or sh[0] != "PatchCollection" or "#0" not in sh[1] or sh[1]["#0"][0] not in ("list", "tup"):
                raise Undecided(f"a collection of unknown shapes is drawn at {loc}")
            ps = sh[1]["#0"][1:]
            own = any(sh[2].get("match_original", NONE) == ("true",) for _ in (0,)) or "match_original" in sh[1]
            for k, x in enumerate(ps):
                ish = shape(x)
                if ish is None or kind_of(ish[0]) is None:
                    raise Undecided(f"a patch of unknown shape is drawn at {loc}")
                style = dict(ish[2]) if own else {}
                for key, v in sh[2].items():
                    if v[0] in ("list", "tup") and len(v) > 1:
                        # matplotlib cycles through the properties of a collection
                        style[key] = v[1 + k % (len(v) - 1)]
                    else:
                        style[key] = v
                out.append(Mark(kind_of(ish[0]), ish[0], ish[1], style, loc))
        elif kind_of(name):
            kwd = dict(kw)
            geo = dict([(f"#{i}", x) for i, x in enumerate(args)] + [(k, v) for k, v in kwd.items() if k not in STYLE])
            out.append(Mark(kind_of(name), name, geo, {k: v for k, v in kwd.items() if k in STYLE}, loc))
        else:
            raise Undecided(f"unknown canvas call {name} at {loc}")
    return out


class Scene:
    """A literal structure, its elements, and an entry point drawing it."""

    def __init__(self, name, build, entry, nrows, sides, edges, circle=False):
        self.name, self.build, self.entry, self.n, self.edges, self.circle = name, build, entry, nrows, edges, circle
        self.sides = sides  # letter -> rows

    def method(self):
        return self.name


SCENES = [
    Scene("graph", "dhg.Graph(3, [(0, 1), (1, 2)])", "line", 3, {"v": [0, 1, 2]}, [{0, 1}, {1, 2}]),
    Scene("graph", "dhg.Graph(3, [(0, 1), (1, 2)])", "circle", 3, {"v": [0, 1, 2]}, [{0, 1}, {1, 2}], True),
    Scene("digraph", "dhg.DiGraph(3, [(0, 1), (2, 1)])", "line", 3, {"v": [0, 1, 2]}, [{0, 1}, {1, 2}]),
    Scene("bigraph", "dhg.BiGraph(2, 3, [(0, 1), (1, 2)])", "line", 5, {"u": [0, 1], "v": [2, 3, 4]}, [{0, 3}, {1, 4}]),
    Scene("bigraph", "dhg.BiGraph(2, 2, [(0, 1), (1, 0)])", "line", 4, {"u": [0, 1], "v": [2, 3]}, [{0, 3}, {1, 2}]),
    Scene("hypergraph", "dhg.Hypergraph(3, [(0, 1), (2,), (1, 2)])", "circle", 3, {"v": [0, 1, 2]}, [{0, 1}, {2}, {1, 2}], True),
    Scene("hypergraph of a triple", "dhg.Hypergraph(4, [(2, 0, 3), (1, 3)])", "circle", 4, {"v": [0, 1, 2, 3]}, [{0, 2, 3}, {1, 3}], True),
]


class Stage:
    """Runs of one drawing scenario, one per keyword list."""

    def __init__(self, chk, scene, mode="method"):
        self.chk, self.sc, self.mode = chk, scene, mode
        self.C = Comparer(chk)
        self.cv = Canvas(chk.repo, scene.n)
        self.C.tweak = self.cv.install
        self.fname = "draw_" + scene.name.split()[0]
        self.func = chk.repo.func("dhg.visualization.structure.draw." + self.fname)
        self.cache = {}

    def outcomes(self, kws, params=(), ty=None):
        key = (kws, params, ty)
        if key not in self.cache:
            args = ([f'e_style="{self.sc.entry}"'] if self.sc.name == "graph" else []) + ([kws] if kws else [])
            if self.mode == "method":
                call, extra = f"g.draw({', '.join(args)})", ""
            else:
                call, extra = f"{self.fname}({', '.join(['g'] + args)})", f"from dhg.visualization.structure.draw import {self.fname}\n"
            src = f"def ref({', '.join(params)}):\n    g = {self.sc.build}\n    {call}\n"
            f = ref_func(self.chk.repo, src, None, extra=extra)
            self.cache[key] = self.C.outcomes(f, None, {p: V(("param", p), ty) for p in params}, ())
        return self.cache[key]

    def draw(self, kws="", params=(), ty=None):
        """(list of mark lists, one per distinct completed path, events of the first path)"""
        I, _, o = self.outcomes(kws, params, ty)
        seen, out = set(), []
        bad = None
        for k, v, st in o:
            if any(f[0] == "eq" and (NONE in f or S("") in f) and b and any(x[0] == "param" for x in f[1:]) for f, b in st.facts.items()):
                continue  # the symbols stand for given values
            if k == "ret":
                ms = marks(st)
                key = tuple((m.kind, m.ctor, m.all()) for m in ms)
                if key not in seen:
                    seen.add(key)
                    out.append((ms, st))
            elif k == "raise" and not any(data_fact(c) for c in st.facts):
                bad = (v, st)
        if bad is not None:
            raise Fails(bad[0])
        if not out:
            rs = [v for k, v, _ in o if k == "raise"]
            if rs and len(rs) == len(o):
                raise Fails(rs[0])
            raise Undecided("no path draws anything")
        return out


class Fails(Exception):
    pass


def data_fact(c):
    """Does a path condition depend on the coordinates (or on random numbers, or on how a literal number is spelled)?"""
    return c[0] == "isinstance" and c[1][0] == "n" or any(x[0] in ("row", "rnd", "chull", "app", "zip", "unzip") or x == ("c", "P") for x in tm.walk(c))


def leaf_index(x, opt):
    return int(x[len(opt) + 1:]) if x.startswith(opt + "_") and x[len(opt) + 1:].isdigit() else None


def element(sc, m):
    """('vertex', row) / ('edge', index) of a mark, None when it stands for no single element."""
    if m.kind in ("vertex", "label"):
        return ("vertex", next(iter(m.rows))) if len(m.rows) == 1 else None
    k = [i for i, e in enumerate(sc.edges) if set(m.rows) == e]
    return ("edge", k[0]) if len(k) == 1 else None


ELEMENT = ("size", "line_width", "color", "fill_color")


def options(f):
    """{argument: default literal} of a drawing function."""
    a = f.node.args
    ps = [x.arg for x in a.args]
    out = {}
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        try:
            out[p] = ast.literal_eval(d)
        except ValueError:
            out[p] = None
    return out


def w03(chk):
    chk.rule("R1", "entry i of a per-element styling argument reaches element i, and no other element")
    chk.rule("R2", "passing the default of an argument explicitly draws what omitting it draws; sizes and widths are relative to that")
    chk.rule("R3", "a single value styles every element as a list repeating it does")
    chk.rule("R4", "size and width lists of the wrong length, unknown edge styles, foreign objects and empty structures are refused")
    chk.rule("R5", "labels, font sizes and font family reach the label of the vertex they name")
    chk.rule("R6", "each force strength reaches its own force only, in proportion")
    for sc in SCENES:
        if sc.name != "hypergraph of a triple":
            for mode in ("method", "function"):
                scene(chk, Stage(chk, sc, mode))
    chk.floor("option entries", 60)
    chk.floor("refusals", 10)


def scene(chk, S):
    sc = S.sc
    opts = options(S.func)
    who = S.fname if S.mode == "function" else S.func.node.args.args[0].arg and {"graph": "Graph", "digraph": "DiGraph", "bigraph": "BiGraph", "hypergraph": "Hypergraph"}[sc.name] + ".draw"
    who += f" [{sc.entry}]" if sc.name == "graph" else ""
    loc = S.func.loc

    def guarded(what, f):
        try:
            f()
        except Undecided as e:
            chk.und(f"{who}/{what}", str(e))
        except Fails as e:
            chk.finding("R1", f"{who}/{what}", loc, f"drawing with {what} fails: {e}")

    base = None
    try:
        base = S.draw()
    except Undecided as e:
        chk.und(who, str(e))
        return
    except Fails as e:
        chk.finding("R1", f"{who}", loc, f"drawing with default options fails: {e}")
        return
    if len(base) != 1:
        chk.und(who, f"{len(base)} different drawings for the default options")
        return
    base = base[0][0]
    for m in base:
        if element(sc, m) is None:
            chk.und(who, f"a {m.ctor} stands for no single element ({m.loc})")
            return

    def targets(opt):
        """Elements an argument names, in order, and the rows of vertices for geometry."""
        side, what = opt.split("_", 1)
        if side == "e":
            return [("edge", i) for i in range(len(sc.edges))]
        return [("vertex", r) for r in sc.sides[side]]

    def same(a, b):
        return [(m.kind, m.ctor, m.all()) for m in a] == [(m.kind, m.ctor, m.all()) for m in b]

    def check(opt, default):
        side, what = opt.split("_", 1)
        tg = targets(opt)
        ps = tuple(f"{opt}_{i}" for i in range(len(tg)))
        ty = "str" if "color" in what else "float"
        runs = S.draw(f"{opt}=[{', '.join(ps)}]", ps, ty)
        for ms, st in runs:
            if len(ms) != len(base) or any(a.kind != b.kind or element(sc, a) != element(sc, b) for a, b in zip(ms, base)):
                raise Undecided("the argument changes which shapes are drawn")
            reached = {}
            for m, b in zip(ms, base):
                el = element(sc, m)
                for x in sorted(leaves_in(m.all())):
                    i = leaf_index(x, opt)
                    if i is None:
                        continue
                    mine = tg[i] == el or what == "size" and el[0] == "edge" and tg[i][1] in sc.edges[el[1]]
                    if not mine:
                        chk.finding("R1", f"{who}/{opt}", m.loc, f"entry {i} of {opt} changes the drawing of {el[0]} {el[1]}, it names {tg[i][0]} {tg[i][1]}")
                        return
                    if tg[i] == el and m.kind != "label":
                        reached.setdefault(i, []).append((m, b))
            for i, el in enumerate(tg):
                chk.count("option entries")
                if what == "fill_color" and not sc.circle:
                    continue
                got = reached.get(i, [])
                x = ("param", ps[i])
                if not got:
                    chk.finding("R1", f"{who}/{opt}", loc, f"entry {i} of {opt} changes nothing in the drawing of {el[0]} {el[1]}")
                    return
                for m, b in got:
                    vals = [(k, v, b.style.get(k, NONE)) for k, v in m.style.items() if x in tm.walk(v)] + [(k, v, b.geo.get(k, NONE)) for k, v in m.geo.items() if what == "size" and m.kind == "vertex" and x in tm.walk(v)]
                    for k, v, d in vals:
                        if "color" in what:
                            if v != x:
                                chk.finding("R1", f"{who}/{opt}", m.loc, f"{k} of {el[0]} {el[1]} is {tm.show(v, 80)}, not entry {i} of {opt}")
                                return
                        elif v != tm.mul(d, x):
                            chk.finding("R2", f"{who}/{opt}", m.loc, f"{k} of {el[0]} {el[1]} is {tm.show(v, 80)}; with {opt} omitted it is {tm.show(d, 60)}")
                            return
                chk.discharge(f"{who}({opt}[{i}]) -> {el[0]} {el[1]}")
            # an edge drawn by several shapes is styled throughout
            for i, el in enumerate(tg):
                if what in ("line_width", "color") or what == "fill_color" and sc.circle:
                    part = [m for m in ms if element(sc, m) == el and m.kind == tg[i][0]]
                    miss = [m for m in part if ("param", ps[i]) not in list(tm.walk(m.all()))]
                    if miss:
                        chk.finding("R1", f"{who}/{opt}", miss[0].loc, f"a {miss[0].ctor} of {el[0]} {el[1]} ignores entry {i} of {opt}")
                        return
        # explicit default
        if default is not None:
            d = S.draw(f"{opt}={[default] * len(tg)!r}")
            if not any(same(x, base) for x, _ in d):
                chk.finding("R2", f"{who}/{opt}", loc, f"{opt}={[default] * len(tg)!r} draws something else than omitting {opt}")
                return
            chk.discharge()
            d = S.draw(f"{opt}={default!r}")
            if not any(same(x, base) for x, _ in d):
                chk.finding("R2", f"{who}/{opt}", loc, f"{opt}={default!r} draws something else than omitting {opt}")
                return
            chk.discharge()
        # a single value
        one = S.draw(f"{opt}=x", ("x",), ty)
        rep = S.draw(f"{opt}=[{', '.join(['x'] * len(tg))}]", ("x",), ty)
        if not any(same(a, b) for a, _ in one for b, _ in rep):
            chk.finding("R3", f"{who}/{opt}", loc, f"a single value for {opt} draws something else than a list of that value")
            return
        chk.discharge()
        if "color" not in what:
            a, b = S.draw(f"{opt}=2"), S.draw(f"{opt}=[{', '.join(['2'] * len(tg))}]")
            if not any(same(x, y) for x, _ in a for y, _ in b):
                chk.finding("R3", f"{who}/{opt}", loc, f"{opt}=2 draws something else than a list of twos")
                return
            chk.discharge()
            for n in (len(tg) - 1, len(tg) + 1):
                refuse(f"{opt} of length {n} for {len(tg)} elements", f"{opt}=[{', '.join(['1.5'] * n)}]")

    def refuse(what, kws, call=None):
        chk.count("refusals")
        I, _, o = S.outcomes(kws) if call is None else call()
        if any(k == "ret" for k, _, _ in o):
            chk.finding("R4", f"{who}/{what}", loc, f"{what} is drawn, not refused")
            return
        chk.discharge(f"{who} refuses {what}")

    for opt, d in opts.items():
        side, _, what = opt.partition("_")
        if side in ("u", "v", "e") and what in ELEMENT and (side == "e" or side in sc.sides):
            guarded(opt, lambda: check(opt, d))

    # ---- labels and fonts
    def labels():
        rows = [(side, i, r) for side, rs in sorted(sc.sides.items()) for i, r in enumerate(rs)]
        ps = {side: tuple(f"{side}_label_{i}" for i in range(len(rs))) for side, rs in sc.sides.items()}
        for with_ in [(s,) for s in sorted(sc.sides)] + ([tuple(sorted(sc.sides))] if len(sc.sides) > 1 else []):
            kws = ", ".join(f"{x}_label=[{', '.join(ps[x])}]" for x in with_)
            for ms, st in S.draw(kws, tuple(p for x in with_ for p in ps[x]), "str"):
                ls = [m for m in ms if m.kind == "label"]
                for side, i, r in rows:
                    here = [m for m in ls if m.rows == {r}]
                    want = side in with_
                    if want and len(here) != 1 or not want and here:
                        chk.finding("R5", f"{who}/{side}_label", loc, f"{len(here)} label(s) drawn at vertex {r} when {' and '.join(x + '_label' for x in with_)} given")
                        return
                    if want and sum(v == ("param", ps[side][i]) for v in here[0].geo.values()) != 1:
                        chk.finding("R5", f"{who}/{side}_label", here[0].loc, f"the text at vertex {r} is not entry {i} of {side}_label")
                        return
                    chk.discharge(f"{who}: {side}_label[{i}] at vertex {r}" if want else None)
        allk = ", ".join(f"{x}_label={['L%d' % i for i in range(len(sc.sides[x]))]!r}" for x in sorted(sc.sides))
        om = S.draw(allk)
        if len(om) != 1:
            raise Undecided("several drawings with labels")
        om = [m for m in om[0][0] if m.kind == "label"]
        for opt, d in opts.items():
            if opt != "font_family" and not opt.endswith("font_size"):
                continue
            side = opt[0] if opt[1] == "_" else None
            fam = opt == "font_family"
            for ms, st in S.draw(f"{allk}, {opt}=x", ("x",), "str" if fam else "float"):
                ls = [m for m in ms if m.kind == "label"]
                if len(ls) != len(om):
                    raise Undecided("fonts change the labels drawn")
                for m, b in zip(ls, om):
                    r = next(iter(m.rows))
                    mine = side is None or r in sc.sides[side]
                    role = "family" if fam else "font"
                    ks = [k for k in m.style if ROLE.get(k) == role]
                    x = ("param", "x")
                    vals = [(m.style[k], b.style.get(k, NONE)) for k in ks]
                    if not mine:
                        if x in list(tm.walk(m.all())):
                            chk.finding("R5", f"{who}/{opt}", m.loc, f"{opt} changes the label of vertex {r}")
                            return
                    elif not vals:
                        chk.finding("R5", f"{who}/{opt}", m.loc, f"the label of vertex {r} is drawn without {opt}")
                        return
                    elif any(v != (x if fam else tm.mul(dv, x)) for v, dv in vals):
                        chk.finding("R5", f"{who}/{opt}", m.loc, f"the label of vertex {r} is drawn with {role} {tm.show(vals[0][0], 80)} where {opt} is given")
                        return
                    chk.discharge(f"{who}: {opt} at vertex {r}")
    guarded("labels", labels)

    # ---- forces
    def forces():
        def fields(run):
            ev = [e for e in run[0][1].events if e[0] == "forces"]
            if len(ev) != 1:
                raise Undecided("the layout is not computed by one simulation")
            return dict(ev[0][1]), ev[0][2]
        om, l0 = fields(S.draw())
        need = {"node_attraction", "node_repulsion", "edge_repulsion", "center_gravity"}
        if not need <= set(om):
            raise Undecided("the simulator has no fields named after its forces")
        for opt in opts:
            if not opt.endswith("_strength"):
                continue
            own = {"pull_e_strength": "node_attraction", "push_v_strength": "node_repulsion", "push_u_strength": "node_repulsion", "push_e_strength": "edge_repulsion",
                   "pull_center_strength": "center_gravity", "pull_u_center_strength": "center_gravity", "pull_v_center_strength": "center_gravity"}.get(opt)
            if own is None:
                raise Undecided(f"{opt} names no force of the simulator")
            got, l1 = fields(S.draw(f"{opt}=x", ("x",), "float"))
            x = ("param", "x")
            dep = sorted(k for k, v in got.items() if x in list(tm.walk(v)))
            chk.count("strengths")
            if dep not in ([own], []) or not dep and own != "edge_repulsion":
                chk.finding("R6", f"{who}/{opt}", l1, f"{opt} reaches {', '.join(dep) or 'no force'} of the simulator, it names {own}")
                return
            if not dep:
                continue
            v, d = got[own], om[own]
            if d[0] == "list" and len(d) == 2 and v[0] != "list":
                d = d[1]  # a float is wrapped for the one centre; the product of symbols is not known to be a float
            if v[0] == "list" and d[0] == "list" and len(v) == len(d) == 3 and opt[5] in "uv" and "u" in sc.sides:
                at = 1 if opt[5] == "u" else 2
                ok = v == d[:at] + (tm.mul(d[at], x),) + d[at + 1:]
            elif v[0] == "list" and d[0] == "list" and len(v) == len(d):
                ok = v[1:] == tuple(tm.mul(y, x) for y in d[1:])
            else:
                ok = v == tm.mul(d, x)
            if not ok:
                chk.finding("R6", f"{who}/{opt}", l1, f"{own} is {tm.show(v, 80)} where {opt} is given and {tm.show(d, 80)} where it is omitted")
                return
            chk.discharge(f"{who}: {opt} -> {own}")
    guarded("forces", forces)

    # ---- refusals
    def bad():
        if S.mode == "function":
            for other in ("dhg.Graph(3, [(0, 1)])", "dhg.DiGraph(3, [(0, 1)])", "dhg.BiGraph(2, 2, [(0, 1)])", "dhg.Hypergraph(3, [(0, 1)])"):
                if other.split("(")[0] == sc.build.split("(")[0]:
                    continue
                S2 = Stage(chk, Scene(sc.name, other, sc.entry, sc.n, sc.sides, sc.edges), "function")
                refuse(f"a {other.split('(')[0][4:]}", "", lambda: S2.outcomes(""))
        empty = {"graph": "dhg.Graph(3)", "digraph": "dhg.DiGraph(3)", "bigraph": "dhg.BiGraph(2, 3)", "hypergraph": "dhg.Hypergraph(3)"}[sc.name]
        S3 = Stage(chk, Scene(sc.name, empty, sc.entry, sc.n, sc.sides, sc.edges), S.mode)
        refuse("a structure without edges", "", lambda: S3.outcomes(""))
        S4 = Stage(chk, Scene(sc.name, sc.build, "dotted", sc.n, sc.sides, sc.edges), S.mode)
        refuse("an unknown e_style", "", lambda: S4.outcomes("" if sc.name == "graph" else 'e_style="dotted"'))
    guarded("refusals", bad)


# ---------------------------------------------------------------- W05
def interval(t, base):
    """(low, high) of a coordinate term over min-max normalised positions, None when unknown."""
    if t[0] == "n":
        return t[1], t[1]
    u = tm.add(base, tm.neg(("red", S("min"), base, N(0))))
    for mn, mx in reds(t, base):
        u = tm.add(base, tm.neg(mn))
        d = tm.pow_(tm.add(mx, tm.neg(mn)), N(-1))
        if t[0] == "mul" and u in t[1:] and d in t[1:]:
            rest = [x for x in t[1:] if x not in (u, d)]
            if len(rest) == len(t) - 3 and all(x[0] == "n" for x in rest):
                k = 1
                for x in rest:
                    k *= x[1]
                return (0, k) if k >= 0 else (k, 0)
    if t[0] == "add":
        lo = hi = 0
        for x in t[1:]:
            r = interval(x, base)
            if r is None:
                return None
            lo, hi = lo + r[0], hi + r[1]
        return lo, hi
    return None


def shift(t, base):
    """How much a linear term over the coordinates and their extremes moves when all coordinates move by one, None when it is not linear."""
    if t == base or t[0] == "red" and ("min" in str(t[1]) or "max" in str(t[1])) and t[2] == base and t[3:] in ((N(0),), (), (NONE,)):
        return 1
    if t[0] == "n":
        return 0
    if t[0] == "add":
        xs = [shift(x, base) for x in t[1:]]
        return None if None in xs else sum(xs)
    if t[0] == "mul" and sum(1 for x in t[1:] if x[0] != "n") == 1:
        k = 1
        for x in t[1:]:
            k *= x[1] if x[0] == "n" else 1
        r = shift(next(x for x in t[1:] if x[0] != "n"), base)
        return None if r is None else k * r
    return None


def unbounded(t, base):
    """Does a quotient of linear terms grow without bound as all coordinates move together?"""
    if t[0] == "add":
        xs = [x for x in t[1:] if x[0] != "n"]
        return len(xs) == 1 and unbounded(xs[0], base) or shift(t, base) not in (0, None)
    if t[0] == "mul":
        xs = [x for x in t[1:] if x[0] != "n"]
        num = [x for x in xs if x[0] != "pow"]
        den = [x[1] for x in xs if x[0] == "pow" and x[2] == N(-1)]
        if len(xs) == 2 and len(num) == len(den) == 1 and num[0] != den[0]:
            a, b = shift(num[0], base), shift(den[0], base)
            return a is not None and b is not None and (a != 0 or b != 0)
    return shift(t, base) not in (0, None)


def reds(t, base):
    """The (column minimum, column maximum) terms of the base occurring in a term."""
    mn = [x for x in tm.walk(t) if x[0] == "red" and "min" in str(x[1]) and x[2] == base and x[3:] in ((N(0),), (), (NONE,))]
    mx = [x for x in tm.walk(t) if x[0] == "red" and "max" in str(x[1]) and x[2] == base and x[3:] in ((N(0),), (), (NONE,))]
    return [(a, b) for a in dict.fromkeys(mn) for b in dict.fromkeys(mx)]


def unsliced(t):
    while t[0] == "sub" and isinstance(t[2], tuple) and t[2][0] == "slice":
        t = t[1]
    return t


def literal_incidence(t):
    """{(vertex, edge)} of a 0/1 matrix written by one indexed store, with its shape; None when it is something else."""
    if t[0] == "dset" and t[1][0] == "call" and "zeros" in str(t[1][1]) and t[3][0] == "n" and t[3][1] != 0 and t[2][0] in ("tup", "list") and len(t[2]) == 3:
        a, b = numbers(t[2][1]), numbers(t[2][2])
        dims = numbers(t[1][2])
        if a is not None and b is not None and len(a) == len(b) and dims is not None:
            return set(zip(a, b)), tuple(dims)
    return None


def w05(chk):
    chk.rule("R1", "every vertex is drawn exactly once, as a closed shape centred at its own position")
    chk.rule("R2", "every edge is drawn, and touches exactly its own vertices")
    chk.rule("R3", "an edge of a directed graph starts at its source, ends at its target and has a visible head; undirected edges have none")
    chk.rule("R4", "the outline of a hyperedge passes outside the circles of its vertices, and the outlines at one vertex are nested")
    chk.rule("R5", "the layout is simulated over exactly the edges drawn")
    chk.rule("R6", "every position lies within the limits of the axes")
    chk.rule("R7", "a straight edge runs from the circle of one end point to the circle of the other")
    for sc in SCENES:
        try:
            picture(chk, Stage(chk, sc))
        except Undecided as e:
            chk.und(f"{sc.name} [{sc.entry}]", str(e))
        except Fails as e:
            chk.finding("R1", f"{sc.name} [{sc.entry}]", chk.repo.func("dhg.visualization.structure.draw.draw_" + sc.name.split()[0]).loc, f"drawing it fails: {e}")
    chk.floor("vertices", 15)
    chk.floor("edges", 8)


def picture(chk, S):
    sc = S.sc
    who = f"{S.fname}/{sc.build[4:]}" + (f" [{sc.entry}]" if sc.name == "graph" else "")
    loc = S.func.loc
    k = 0
    sizes = []
    for s, r in sorted(sc.sides.items()):
        sizes.append(f"{s}_size={[0.5 * (1 + k + i) for i in range(len(r))]!r}")
        k += len(r)
    for ms, st in S.draw() + S.draw(", ".join(sizes)):
        for m in ms:
            if not m.rows:
                raise Undecided(f"a {m.ctor} at no vertex")
        vs = [m for m in ms if m.kind == "vertex"]
        for r in range(sc.n):
            here = [m for m in vs if m.rows == {r}]
            chk.count("vertices")
            if len(here) != 1:
                chk.finding("R1", f"{who}/vertex {r}", loc, f"vertex {r} is drawn {len(here)} times")
                return
            c = here[0].geo.get("#0", here[0].geo.get("xy", NONE))
            if c != ("row", N(r)) and c not in ((k, ("sub", ("row", N(r)), N(0)), ("sub", ("row", N(r)), N(1))) for k in ("tup", "list")):
                if numbers(c) is None and c[0] not in ("tup", "list"):
                    raise Undecided(f"the centre of vertex {r} is {tm.show(c, 60)}")
                chk.finding("R1", f"{who}/vertex {r}", here[0].loc, f"vertex {r} is centred at {tm.show(c, 80)}")
                return
            chk.discharge(f"{who}: vertex {r}")
        if any(len(m.rows) != 1 for m in vs):
            chk.finding("R1", who, vs[0].loc, "a vertex shape depends on several positions")
            return
        es = [m for m in ms if m.kind == "edge"]
        for m in es:
            if not any(set(m.rows) <= e for e in sc.edges):
                chk.finding("R2", f"{who}/{m.ctor}", m.loc, f"a {m.ctor} joins vertices {sorted(m.rows)}, no edge has these")
                return
        for k, e in enumerate(sc.edges):
            mine = [m for m in es if set(m.rows) == e]
            chk.count("edges")
            if not mine:
                chk.finding("R2", f"{who}/edge {k}", loc, f"edge {sorted(e)} is not drawn, or not through all its vertices")
                return
            chk.discharge(f"{who}: edge {k} joins {sorted(e)}")
        stray = [m for m in es if not any(set(m.rows) == e for e in sc.edges)]
        if stray:
            chk.finding("R2", f"{who}/{stray[0].ctor}", stray[0].loc, f"a {stray[0].ctor} touches {sorted(stray[0].rows)}, which is no edge")
            return
        rad = {next(iter(m.rows)): radius(m, 1) for m in vs}
        for m in es:
            if m.ctor != "arrow" or any(f"#{i}" not in m.geo for i in range(4)) or len(m.rows) != 2:
                continue
            a, b = sorted(m.rows)
            if rad.get(a) is None or rad.get(b) is None:
                continue
            got = tuple(m.geo[f"#{i}"] for i in range(4))
            if not any(got == boundary(x, y, rad) for x, y in ((a, b), (b, a))):
                odd = [x for g in got for x in tm.walk(g) if x[0] == "call" and x[1] != "numpy.linalg.norm" or x[0] in ("app", "mcall", "ext", "sqrt") or x[0] == "pow" and x[2] not in (N(-1), N(1), N(2))]
                if odd:
                    chk.und(f"{who}/edge {sorted(m.rows)}", "the end points of the line are computed in another way")
                else:
                    chk.finding("R7", f"{who}/edge {sorted(m.rows)}", m.loc, f"the line between vertices {a} and {b} does not run from the circle of one to the circle of the other: it starts at x = {tm.show(got[0], 120)}")
                    return
            else:
                chk.discharge(f"{who}: the line {a} - {b} meets both circles")
        # hull geometry
        if sc.circle:
            at = {}
            for m in es:
                if m.ctor != "Arc":
                    continue
                c = m.geo.get("#0", m.geo.get("xy", NONE))
                r = rows_in(c)
                w, h = m.geo.get("#1", m.geo.get("width", NONE)), m.geo.get("#2", m.geo.get("height", NONE))
                if len(r) != 1 or w[0] != "n" or h[0] != "n":
                    raise Undecided("an arc of unknown shape")
                v = next(iter(r))
                if w != h:
                    chk.finding("R4", f"{who}/vertex {v}", m.loc, f"the outline around vertex {v} is {float(w[1]):.4g} wide and {float(h[1]):.4g} high, the vertex is a circle")
                    return
                if c[0] in ("tup", "list") and c[1:] != (at_row(v, 0), at_row(v, 1)):
                    chk.finding("R4", f"{who}/vertex {v}", m.loc, f"the outline around vertex {v} is centred at {tm.show(c, 80)}")
                    return
                at.setdefault(next(iter(r)), []).append((w[1] / 2, m))
            for r, xs in sorted(at.items()):
                if rad.get(r) is None:
                    raise Undecided("a vertex of unknown radius")
                for k, e in enumerate(sc.edges):
                    if r not in e or len(e) < 2:
                        continue
                    ends = [v for m in es if m.rows == e for t in paths_of(m) for v in t[1:] if foot(v) == r]
                    if any(foot(v) is None for m in es if m.rows == e for t in paths_of(m) for v in t[1:]) or not any(True for m in es if m.rows == e for t in paths_of(m)) and any(m.ctor != "Arc" for m in es if m.rows == e):
                        raise Undecided("the straight parts of an outline are not recognised")
                    arcs_ = [m for m in es if m.rows == e and m.ctor == "Arc" and rows_in(m.geo.get("#0", m.geo.get("xy", NONE))) == {r}]
                    if len(arcs_) != 1 and any(m.ctor == "Arc" for m in es):
                        chk.finding("R4", f"{who}/edge {sorted(e)}", loc, f"the outline of edge {sorted(e)} goes around vertex {r} with {len(arcs_)} arcs")
                        return
                    if len(ends) != 2:
                        chk.finding("R4", f"{who}/edge {sorted(e)}", loc, f"{len(ends)} straight parts of the outline of edge {sorted(e)} end at vertex {r}, a closed outline has 2")
                        return
                    first, last = [[polar(t[i]) for m in es if m.rows == e for t in paths_of(m) for i in range(1, len(t)) if i % 2 == odd and foot(t[i]) == r] for odd in (1, 0)]
                    if len(first) != 1 or len(last) != 1 or not arcs_ or None in first + last:
                        chk.und(f"{who}/edge {sorted(e)}", "the ends of the straight parts are not polar offsets from their vertices")
                        continue
                    a = arcs_[0]
                    for nm, (rho, th) in (("theta1", last[0]), ("theta2", first[0])):
                        deg = a.geo.get(nm)
                        if deg is None:
                            chk.und(f"{who}/edge {sorted(e)}", f"an arc without {nm}")
                        elif not near(lin(deg), lin(th), 180 / math.pi) or abs(rho - a.geo["#1"][1] / 2) > 1e-9:
                            chk.finding("R4", f"{who}/edge {sorted(e)}", a.loc, f"the arc around vertex {r} does not join the straight parts of the outline: its {nm} is {tm.show(deg, 120)} at distance {float(a.geo['#1'][1] / 2):.4g}, the straight part ends at angle {tm.show(th, 120)} at distance {float(rho):.4g}")
                            return
                    chk.discharge(f"{who}: the outline of {sorted(e)} is closed at vertex {r}")
                for x, m in xs:
                    if not x > rad[r] * (1 + 1e-9):
                        chk.finding("R4", f"{who}/vertex {r}", m.loc, f"the outline of edge {sorted(m.rows)} passes at distance {float(x):.4g} from the centre of vertex {r}, whose circle has radius {float(rad[r]):.4g}")
                        return
                if len({round(float(x), 12) for x, _ in xs}) != len({m.rows for _, m in xs}):
                    chk.finding("R4", f"{who}/vertex {r}", xs[0][1].loc, f"the outlines of {len({m.rows for _, m in xs})} edges meet vertex {r} at {len({round(float(x), 12) for x, _ in xs})} distance(s)")
                    return
                chk.discharge(f"{who}: outlines around vertex {r}")
        for m in es:
            for t in [x for v in m.geo.values() for x in tm.walk(v) if x[0] == "call" and x[1].endswith("path.Path")]:
                if len(t) > 2 and t[2][0] in ("tup", "list") and any(x[0] == "ext" for x in t[2][1:]):
                    chk.finding("R2", f"{who}/edge {sorted(m.rows)}", m.loc, "the outline is given path codes where its positions belong")
                    return
        # simulated edges
        inc = [x for e in st.events if e[0] == "incidence" for x in e[1] if literal_incidence(x) is not None]
        if not inc:
            chk.und(f"{who}/layout", "the incidence matrix handed to the simulation is not a literal one")
        for x in inc:
            got, dims = literal_incidence(x)
            cols = {}
            for v, k in got:
                cols.setdefault(k, set()).add(int(v))
            want = sorted(sorted(e) for e in sc.edges)
            if sorted(sorted(c) for c in cols.values()) != want or tuple(dims) != (sc.n, len(sc.edges)):
                chk.finding("R5", f"{who}/layout", loc, f"the layout is simulated with edges {sorted(sorted(c) for c in cols.values())} over {dims[0]} vertices, the structure has {want} over {sc.n}")
                return
            chk.discharge(f"{who}: layout edges")
        # limits
        lims = {e[1]: e[2] + tuple(v for _, v in e[3]) for e in st.events if e[0] == "limits"}
        lim = []
        for k in ("xlim", "ylim"):
            v = lims.get(k, ())
            ns = numbers(v[0]) if len(v) == 1 and v[0][0] in ("list", "tup") else [y[1] for y in v] if len(v) == 2 and all(y[0] == "n" for y in v) else None
            if ns is not None and len(ns) == 2:
                lim.append(ns)
        bases = {unsliced(x) for x in S.cv.bases}
        for b in bases:
            if b == ("c", "P"):
                if len(bases) == 1 and len(lim) == 2:
                    chk.finding("R6", f"{who}/limits", loc, f"the positions are drawn as the simulation left them, the axes show [{float(lim[0][0]):.3g}, {float(lim[0][1]):.3g}]")
                    return
                continue
            iv = interval(b, ("c", "P"))
            if iv is None and len(lim) == 2 and unbounded(b, ("c", "P")):
                chk.finding("R6", f"{who}/limits", loc, f"where the positions lie depends on where the simulation left them, the axes show [{float(lim[0][0]):.3g}, {float(lim[0][1]):.3g}]")
                return
            if iv is None or len(lim) != 2:
                chk.und(f"{who}/limits", "the range of the positions is not known")
                continue
            for lo, hi in lim:
                if not (lo <= iv[0] and iv[1] <= hi and iv[1] > iv[0]):
                    chk.finding("R6", f"{who}/limits", loc, f"positions lie in [{float(iv[0]):.3g}, {float(iv[1]):.3g}], the axes show [{float(lo):.3g}, {float(hi):.3g}]")
                    return
            chk.discharge(f"{who}: positions within the axes")
    # direction: with vertices of size nought an arrow starts and ends at the centres
    kws = ", ".join(f"{s}_size={[0.0] * len(r)!r}" for s, r in sorted(sc.sides.items()))
    if sc.circle:
        return
    arcs = {"digraph": [(0, 1), (2, 1)], "graph": None, "bigraph": None}[sc.name]
    for ms, st in S.draw(kws):
        got = []
        for m in ms:
            if m.kind != "edge":
                continue
            if m.ctor != "arrow" or any(f"#{i}" not in m.geo for i in range(4)):
                raise Undecided("edges are not drawn by arrow(x, y, dx, dy)")
            x, y, dx, dy = (m.geo[f"#{i}"] for i in range(4))
            ends = [(a, b) for a in m.rows for b in m.rows if a != b
                    and x == at_row(a, 0) and y == at_row(a, 1) and dx == tm.sub_(at_row(b, 0), at_row(a, 0)) and dy == tm.sub_(at_row(b, 1), at_row(a, 1))]
            if len(ends) != 1:
                chk.finding("R3", f"{who}/edge {sorted(m.rows)}", m.loc, f"with vertices of size nought the edge between {sorted(m.rows)} is drawn from ({tm.show(x, 60)}, {tm.show(y, 60)}) by ({tm.show(dx, 60)}, {tm.show(dy, 60)}), not from one vertex to the other")
                return
            got.append(ends[0])
            hw = m.style.get("head_width", NONE)
            head = True if hw == NONE or positive(hw) else False if hw == N(0) else None
            if head is None:
                chk.und(f"{who}/edge {sorted(m.rows)}", f"the width of the head is {tm.show(hw, 60)}")
            elif head and arcs is not None and m.style.get("length_includes_head") != TRUE:
                chk.finding("R3", f"{who}/edge {sorted(m.rows)}", m.loc, "the head of the edge is drawn beyond its end point")
                return
            elif head != (arcs is not None):
                chk.finding("R3", f"{who}/edge {sorted(m.rows)}", m.loc, f"the edge is drawn with{'' if head else 'out'} a head: its width is {tm.show(hw, 40)}")
                return
            chk.discharge(f"{who}: edge {ends[0][0]} -> {ends[0][1]}")
        if arcs is not None and sorted(got) != sorted(arcs):
            chk.finding("R3", who, loc, f"the arrows run {sorted(got)}, the edges of the graph are {sorted(arcs)}")
            return


def paths_of(m):
    """Position sequences of the paths in a shape."""
    return [x[2] for v in m.geo.values() for x in tm.walk(v) if x[0] == "call" and x[1].endswith("path.Path") and len(x) > 2 and x[2][0] in ("tup", "list")]


def polar(v):
    """(distance, angle) of a position written as an offset from one vertex, None when it is something else."""
    if v[0] not in ("list", "tup") or len(v) != 3:
        return None
    got = []
    for x, fn in ((v[1], "math.cos"), (v[2], "math.sin")):
        rest = [y for y in (x[1:] if x[0] == "add" else ()) if y[0] != "row"]
        if len(rest) != 1 or rest[0][0] != "mul":
            return None
        c = [y for y in rest[0][1:] if y[0] == "call" and y[1].rsplit(".", 1)[-1] == fn[5:]]
        k = [y for y in rest[0][1:] if y[0] == "n"]
        if len(c) != 1 or len(k) != 1 or len(rest[0]) != 3:
            return None
        got.append((k[0][1], c[0][2]))
    return got[0] if got[0] == got[1] else None


def lin(t):
    """Coefficients of a linear combination."""
    out = {}
    for x in (t[1:] if t[0] == "add" else (t,)):
        if x[0] == "n":
            k, y = x[1], None
        elif x[0] == "mul":
            k = 1
            ys = [y for y in x[1:] if y[0] != "n"]
            for y in x[1:]:
                if y[0] == "n":
                    k *= y[1]
            y = tm.mul(*ys) if ys else None
        else:
            k, y = 1, x
        out[y] = out.get(y, 0) + k
    return out


def near(a, b, scale):
    return all(abs(a.get(k, 0) - scale * b.get(k, 0)) < 1e-6 for k in set(a) | set(b))


def foot(v):
    """The vertex a position is an offset from, None when it is something else."""
    if v[0] in ("list", "tup"):
        fs = {foot(x) for x in v[1:]}
        return fs.pop() if len(fs) == 1 else None
    if v[0] == "add":
        rs = [x[1][1] for x in v[1:] if x[0] == "row"]
        return rs[0] if len(rs) == 1 else None
    return v[1][1] if v[0] == "row" else None


def positive(t):
    return t[0] == "n" and t[1] > 0 or t[0] == "exp" or t[0] in ("mul", "pow", "add") and all(positive(x) or t[0] == "pow" and x is t[2] for x in t[1:])


def boundary(a, b, rad):
    """(x, y, dx, dy) of the line from the circle around row a to the circle around row b."""
    p, q = ("row", N(a)), ("row", N(b))
    d = tm.sub_(q, p)
    u = tm.mul(d, tm.pow_(("call", "numpy.linalg.norm", d), N(-1)))
    s, e = tm.add(p, tm.mul(u, N(rad[a]))), tm.add(q, tm.neg(tm.mul(u, N(rad[b]))))
    at = lambda t, k: ("sub", t, N(k))
    return at(s, 0), at(s, 1), tm.sub_(at(e, 0), at(s, 0)), tm.sub_(at(e, 1), at(s, 1))


def at_row(i, k):
    return ("sub", ("row", N(i)), N(k))


def radius(m, pos):
    t = m.geo.get(f"#{pos}", m.geo.get("radius", NONE))
    return t[1] if t[0] == "n" else None
