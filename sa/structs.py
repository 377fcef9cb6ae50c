"""Adapter for the structure classes: abstract objects, raw-state table, cache modes."""
from . import terms as tm
from .interp import Interp, St, V, Undecided
from .repo import AnalysisBroken
from .terms import N, NONE, S

# container nesting depth of the mutable raw state (0 = immutable scalar)
RAW = {
    "Graph": ["_num_v", "_raw_e_dict", "_raw_selfloop_dict", "_has_extra_selfloop"],
    "DiGraph": ["_num_v", "_raw_e_dict", "_raw_selfloop_dict", "_has_extra_selfloop"],
    "BiGraph": ["_num_u", "_num_v", "_raw_e_dict"],
    "Hypergraph": ["_num_v", "_v_weight", "_raw_groups"],
}
DEPTH = {"_raw_e_dict": 1, "_raw_selfloop_dict": 1, "_raw_groups": 3, "_v_weight": 1}
STRUCTS = ["Graph", "DiGraph", "BiGraph", "Hypergraph"]
CACHES = ("cache", "group_cache")


def family(repo, cls):
    for c in repo.mro(cls):
        if hasattr(c, "name") and c.name in RAW:
            return c.name
    return None


class SInterp(Interp):
    """Interp that knows the caches and raw state of structure objects."""

    def __init__(self, repo, mode="miss", **kw):
        super().__init__(repo, **kw)
        self.mode = mode
        self.base_struct = [repo.cls("BaseGraph"), repo.cls("BaseHypergraph")]

    def is_struct(self, cls):
        m = self.repo.mro(cls)
        return any(b in m for b in self.base_struct)

    def field_depth(self, o, name):
        return DEPTH.get(name, 0) if self.is_struct(o.cls) else 1

    def field_hook(self, o, name, r, st):
        if not self.is_struct(o.cls):
            return None
        if name in CACHES:
            r.org = frozenset([(("field", next((k for k, x in st.objs.items() if x is o), None), name), 0)])
        if name == "cache":
            return V(("cache", o.name), "cachehit") if self.mode == "hit" else V(None, "memo", map=[], org=r.org)
        if name == "group_cache":
            return V(("gcache", o.name), "gcachehit") if self.mode == "hit" else V(None, "memo", map=[], default="dict", org=r.org)
        if name in ("_raw_e_dict", "_raw_selfloop_dict", "_raw_groups"):
            r.ty = "dict"
        if name == "_v_weight":
            r.ty = "list"
        return r


def struct_self(I, clsname, st, name="self"):
    cls = I.repo.cls(clsname) if isinstance(clsname, str) else clsname
    return I.new_obj(cls, name, st)


def state(module):
    st = St()
    st.frames.append({"__module__": module, "__id__": None, "__closure__": None})
    return st


import ast as _ast


def ann_type(I, module, ann):
    """Abstract type of an annotated parameter: 'list' | 'dict' | Cls | None, and whether None is allowed."""
    if ann is None:
        return None, True
    if isinstance(ann, _ast.Constant) and isinstance(ann.value, str):
        try:
            ann = _ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return None, True
    if isinstance(ann, _ast.Subscript):
        head = _ast.unparse(ann.value).split(".")[-1]
        if head == "Optional":
            return ann_type(I, module, ann.slice)[0], True
        if head in ("List", "list"):
            return "list", False
        if head in ("Dict", "dict"):
            return "dict", False
        if head in ("Set", "set"):
            return "set", False
        if head == "Union":
            elts = ann.slice.elts if isinstance(ann.slice, _ast.Tuple) else [ann.slice]
            ts = [ann_type(I, module, e) for e in elts]
            kinds = {t for t, _ in ts}
            return (ts[0][0] if len(kinds) == 1 else None), any(o for _, o in ts) and None in kinds
        return None, False
    if isinstance(ann, (_ast.Name, _ast.Attribute)):
        nm = _ast.unparse(ann).split(".")[-1]
        if nm == "list":
            return "list", False
        if nm == "dict":
            return "dict", False
        r = I.repo.resolve_in(module, _ast.unparse(ann).split(".")[0]) if isinstance(ann, _ast.Name) else None
        if r and r[0] == "class":
            return r[1], False
    return None, False


def sym_args(I, func, st, skip_self=True, given=None):
    """Symbolic argument for every parameter (keyword map)."""
    a = func.node.args
    out = {}
    params = a.posonlyargs + a.args + a.kwonlyargs
    for i, p in enumerate(params):
        if i == 0 and func.cls is not None and not func.is_static and skip_self:
            continue
        if given and p.arg in given:
            g = given[p.arg]
            out[p.arg] = g if isinstance(g, V) else V(g)
            continue
        ty, opt = ann_type(I, func.module, p.annotation)
        if ty is not None and hasattr(ty, "methods"):
            if opt:
                out[p.arg] = V(("param", p.arg), ty, org=frozenset([(("param", p.arg), 0)]))
            else:
                o = I.new_obj(ty, ("param", p.arg), st)
                seed_invariants(I, st, ty, ("param", p.arg))
                out[p.arg] = o
        else:
            out[p.arg] = I.param(p.arg, None if opt else ty)
            if isinstance(p.annotation, _ast.Name) and p.annotation.id == "int":
                I.ints.add(("param", p.arg))
    return out


def seed_invariants(I, st, cls, name):
    """Class invariants established by the constructors (checked by S17): num_v is a positive int."""
    if not I.is_struct(cls):
        return
    fam = family(I.repo, cls)
    for f in ("_num_v", "_num_u"):
        if f == "_num_u" and fam != "BiGraph":
            continue
        t = ("init", name, f)
        st.fact(("isinstance", t, ("int",)), True)
        st.fact(("lt", N(0), t), True)
    if fam == "Hypergraph":
        st.fact(tm.eq(("len", ("init", name, "_v_weight")), ("init", name, "_num_v")), True)
    for f in ("_raw_e_dict", "_raw_selfloop_dict", "_raw_groups"):
        st.fact(("eq",) + tuple(sorted((("init", name, f), NONE), key=repr)), False)


def setup(I, clsname, func, given=None, name="self"):
    st = state(func.module)
    cls = I.repo.cls(clsname) if isinstance(clsname, str) else clsname
    s = None
    if not func.is_static:
        s = struct_self(I, cls, st, name)
        seed_invariants(I, st, cls, name)
    kw = sym_args(I, func, st, given=given)
    return st, ([s] if s is not None else []), kw


def members(repo, cls, private=False):
    """Every method/property/setter visible on the class, most derived first: [(name, Func, is_setter)]"""
    seen, out = set(), []
    for k in repo.mro(cls):
        if not hasattr(k, "methods"):
            continue
        for n, f in k.methods.items():
            if n in seen or (n.startswith("_") and not private and n not in ("__init__",)):
                continue
            seen.add(n)
            out.append((n, f, False))
        for n, f in k.setters.items():
            if ("set", n) in seen or n in seen and n not in k.methods:
                continue
            # a property re-declared lower without a setter hides it
            if repo.lookup(cls, n, setter=True) is not f:
                continue
            seen.add(("set", n))
            out.append((n, f, True))
    return out


DRAWS = {
    "dhg.visualization.structure.draw.draw_graph", "dhg.visualization.structure.draw.draw_digraph",
    "dhg.visualization.structure.draw.draw_bigraph", "dhg.visualization.structure.draw.draw_hypergraph",
}
