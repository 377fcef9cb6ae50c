"""Transfer functions for builtins, torch/numpy/sparse operations and container methods."""
import ast

from . import terms as tm
from .interp import (ALIAS_METHODS, CONTAINER_EXT, IDENT_METHODS, MUT_METHODS, RANDOM_EXT, Bound, ClsRef, Closure, Ext, MethodOf,
                     Partial, Undecided, V, aslist, device_of, each, is_cond, mkset, nonnone, orgs_shallow, orgs_sub, seqcat, sub)
from .repo import Cls, Func
from .terms import EYE, FALSE, N, NONE, S, TRUE, is_const, mk

PRIMS = {"int", "float", "str", "list", "tuple", "dict", "set", "bool"}


def listy(v):
    return v.ty == "list" or (isinstance(v.ty, tuple) and v.ty[0] == "list")


def list_extend(I, v, o, st, node):
    v, o = st.cur(v), st.cur(o)
    if v.items is not None and o.items is not None:
        I.mutate(v, V(None, v.ty, items=list(v.items) + list(o.items)), "extend", st, node)
    else:
        to = st.term(o)
        I.mutate(v, V(seqcat(st.term(v), aslist(to)), "list", org=v.org), "extend", st, node)


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def dimof(args, kw, i, st):
    a = arg(args, kw, i, "dim", None)
    if a is None:
        a = kw.get("axis")
    return None if a is None else st.term(a)


def is_mat(t):
    return t[0] in ("prop", "diag", "mm", "T", "coo", "I", "sparse_dropout", "spsoftmax", "hcat", "zeros") or (
        t[0] == "init" and t[2] in ("H", "A", "B")) or (t[0] in ("add", "mul") and any(is_mat(x) for x in t[1:]))


SIGS = {"random.choices": ("population", "weights", None, None), "random.sample": ("population", "k"), "random.uniform": ("a", "b"), "random.randint": ("a", "b")}
DEFAULTS = {"random.choices": {"k": N(1), "weights": NONE, "cum_weights": NONE}, "random.sample": {"counts": NONE}}


def canon_draw(t):
    """One spelling of a draw: leading arguments positional, defaults dropped."""
    name, a = t[0], t[1:]
    pos = [x for x in a if x[0] != "kw"]
    kws = {k: v for x in a if x[0] == "kw" for k, v in x[1:]}
    sig = SIGS.get(name)
    if sig is None:
        return t
    vals = dict(zip(sig, pos))
    if len(pos) > len(sig) or None in vals:
        return t
    vals.update(kws)
    for k, d in DEFAULTS.get(name, {}).items():
        if vals.get(k) == d:
            vals.pop(k)
    out = []
    for k in sig:
        if k is None or k not in vals:
            break
        out.append(vals.pop(k))
    return (name,) + tuple(out) + ((("kw",) + tuple(sorted(vals.items())),) if vals else ())


def ext(I, dotted, args, kw, st, node):
    """Default: an uninterpreted call, logged."""
    t = ("call", dotted) + I.argterms(args, kw, st)
    st.ev("call", dotted, I.argterms(args, kw, st), I.loc(node, st))
    I.ext_calls += 1
    if dotted in RANDOM_EXT:
        t = ("rnd", st.rnd) + canon_draw(t[1:])
        st.rnd += 1
    return [(V(t), st)]


def call_ext(I, dotted, args, kw, st, node):
    if dotted in I.hooks_ext:
        r = I.hooks_ext[dotted](I, args, kw, st, node)
        if r is not None:
            return r
    n = dotted
    if n.startswith("builtins."):
        f = _BUILTIN.get(n[9:])
        if f:
            r = f(I, args, kw, st, node)
            if r is not None:
                return r
        return ext(I, n, args, kw, st, node)
    f = _EXT.get(n)
    if f:
        r = f(I, args, kw, st, node)
        if r is not None:
            return r
    if n.startswith("super."):
        st.ev("call", n, I.argterms(args, kw, st), I.loc(node, st))
        return [(V(NONE), st)]
    if n.startswith("torch.Tensor.") and args:
        return call_method(I, args[0], n[13:], args[1:], kw, st, node)
    if n.startswith("torch.") and n[6:] in MSIG and "out" not in kw:
        k = dict(kw)
        a = ([k.pop("input")] if "input" in k and not args else []) + list(args)
        if a:
            return call_method(I, a[0], n[6:], a[1:], k, st, node)
    return ext(I, n, args, kw, st, node)


# methods that exist under the same name as torch functions: parameter names after the tensor, trailing defaults
MSIG = {
    "max": (), "min": (), "index_select": ("dim", "index"), "gather": ("dim", "index"), "clamp": ("min", "max"), "cumsum": ("dim",), "cumprod": ("dim",),
    "argmax": ("dim", "keepdim"), "argmin": ("dim", "keepdim"), "topk": ("k", "dim", "largest", "sorted"), "masked_select": ("mask",), "dot": ("other",), "outer": ("vec2",),
    "bmm": ("mat2",), "prod": ("dim",), "std": ("dim",), "var": ("dim",), "any": ("dim",), "all": ("dim",), "flatten": ("start_dim", "end_dim"), "reshape": (), "permute": (),
    "flip": (), "eq": ("other",), "ne": ("other",), "gt": ("other",), "lt": ("other",), "ge": ("other",), "le": ("other",), "logical_and": ("other",), "logical_or": ("other",),
    "minimum": ("other",), "maximum": ("other",), "round": (), "floor": (), "ceil": (), "sign": (), "equal": ("other",), "count_nonzero": ("dim",), "chunk": ("chunks", "dim"),
    "unbind": ("dim",), "tril": ("diagonal",), "triu": ("diagonal",), "amax": ("dim", "keepdim"), "amin": ("dim", "keepdim"), "scatter": ("dim", "index", "src"), "scatter_add": ("dim", "index", "src"),
    "index_add": ("dim", "index", "source"), "repeat_interleave": ("repeats", "dim"), "take": ("index",), "roll": ("shifts", "dims"), "norm": ("p", "dim", "keepdim"),
    "log": (), "log2": (), "log10": (), "log1p": (), "neg": (), "sin": (), "cos": (), "isclose": ("other",), "allclose": ("other",), "movedim": (), "swapaxes": (), "tile": (),
    "scatter_reduce": ("dim", "index", "src", "reduce"), "masked_scatter": (), "clip": ("min", "max"), "sub": ("other",), "multiply": ("other",), "nansum": ("dim",),
}
MDEF = {"topk": {"largest": TRUE, "sorted": TRUE, "dim": N(-1)}, "argmax": {"keepdim": FALSE}, "argmin": {"keepdim": FALSE}, "amax": {"keepdim": FALSE}, "amin": {"keepdim": FALSE}}


def positional(name, args, kw, st):
    """Keyword arguments of a tensor method moved to their positions, defaults dropped."""
    sig = MSIG.get(name)
    if not sig or len(args) > len(sig):
        return args, kw
    vals = dict(zip(sig, args))
    vals.update(kw)
    for k, d in MDEF.get(name, {}).items():
        if k in vals and st.term(vals[k]) == d:
            vals.pop(k)
    out = []
    for k in sig:
        if k not in vals:
            break
        out.append(vals.pop(k))
    return out, vals


# ------------------------------------------------------------------ builtins
def b_len(I, a, kw, st, node):
    v = st.cur(a[0])
    if v.items is not None:
        if v.ty == "set":
            t = st.term(v)
            return [(V(N(len(t) - 1) if all(tm.is_const(x) for x in t[1:]) else ("len", t)), st)]
        return [(V(N(len(v.items))), st)]
    if v.map is not None and v.base is None:
        return [(V(N(len(v.map))), st)]
    if v.t is not None and v.t[0] == "obj":
        f = I.repo.lookup(st.objs[v.t[1]].cls, "__len__")
        if f:
            return I.call_func(f, [v], {}, st, node)
    return [(V(length(st.term(v))), st)]


def length(t):
    if t[0] in ("list", "tup"):
        return N(len(t) - 1)
    if t[0] == "dict":
        return N(len(t) - 1)
    if t[0] == "s":
        return N(len(t[1]))
    if t == ("const", "b''"):
        return N(0)
    if t[0] in ("keys", "values", "items", "list_of", "enumerate", "tuple", "sorted", "seq", "shuffled"):
        return length(t[1])
    if t[0] == "each" and len(t) == 3 and not t[2][0] and t[2][1][0] == "list":
        n = len(t[2][1]) - 1
        return tm.mul(N(n), length(t[1]))
    if t[0] == "deach" and len(t) == 3 and not t[2][0] and len(t[2][1]) == 1 and t[2][1][0][0][0] == "elem":
        return length(t[1])
    if t[0] == "range" and len(t) == 2:
        return t[1]
    if t[0] == "repeat" and t[1][0] == "list":
        return tm.mul(N(len(t[1]) - 1), t[2])
    if t[0] == "concat":
        return tm.add(*[length(x) for x in t[1:]])
    return ("len", t)


def b_list(I, a, kw, st, node):
    if not a:
        return [(I.lst([]), st)]
    v = st.cur(a[0])
    if v.items is not None:
        return [(V(None, "list", items=list(v.items)), st)]
    if v.map is not None and v.base is None:
        return [(V(None, "list", items=[V(k) for k, _ in v.map]), st)]
    t = st.term(v)
    r = aslist(t, v.ty)
    if r[0] == "items" or t[0] == "items":
        r = ("list_of", t)
    return [(V(r, "list", org=orgs_shallow(v.org)), st)]


def b_tuple(I, a, kw, st, node):
    if not a:
        return [(I.lst([], "tuple"), st)]
    v = st.cur(a[0])
    if v.items is not None:
        return [(V(None, "tuple", items=list(v.items)), st)]
    t = st.term(v)
    if t[0] in ("list", "tup"):
        return [(V(("tup",) + t[1:]), st)]
    if t[0] == "list_of":
        t = t[1]
    if t[0] == "tuple":
        return [(V(t), st)]
    return [(V(("tuple", t), org=orgs_shallow(v.org)), st)]


def b_set(I, a, kw, st, node):
    if not a:
        return [(V(None, "set", items=[]), st)]
    v = st.cur(a[0])
    t = st.term(v)
    r = mkset(t)
    if r[0] == "setlit" and all(tm.is_const(x) for x in r[1:]):
        return [(V(None, "set", items=[V(x) for x in r[1:]]), st)]
    return [(V(r, "set"), st)]


def plain_elems(I, v, st):
    """The elements of a literal collection of numbers or strings, or None."""
    v = st.cur(v)
    t = st.term(v)
    if t[0] == "keys" and t[1][0] == "dict":
        xs = [x[0] for x in t[1][1:]]
    elif v.map is not None and v.base is None:
        xs = [k for k, _ in v.map]
    elif t[0] in ("list", "tup", "setlit"):
        xs = list(t[1:])
    elif t == ("set", ("list",)):
        xs = []
    else:
        return None
    return xs if all(tm.is_const(x) for x in xs) else None


SETOPS = {
    "intersection": lambda x, y: [e for e in x if e in y], "difference": lambda x, y: [e for e in x if e not in y],
    "union": lambda x, y: x + [e for e in y if e not in x],
    "symmetric_difference": lambda x, y: [e for e in x if e not in y] + [e for e in y if e not in x],
}


def set_op(I, name, a, b, st):
    """A set operation on two literal sets."""
    x, y = plain_elems(I, a, st), plain_elems(I, b, st)
    if x is None or y is None:
        return None
    return V(None, "set", items=[V(e) for e in sorted(set(SETOPS[name](x, y)), key=repr)])


def m_setop(name):
    def run(I, v, a, kw, st, node):
        t = st.term(v)
        if (v.ty == "set" or t[0] == "setlit") and len(a) == 1 and not kw:
            r = set_op(I, name, v, a[0], st)
            if r is not None:
                return [(r, st)]
        return None
    return run


def m_settest(name):
    def run(I, v, a, kw, st, node):
        if len(a) != 1 or kw or not (v.ty == "set" or st.term(v)[0] == "setlit"):
            return None
        x, y = plain_elems(I, v, st), plain_elems(I, a[0], st)
        if x is None or y is None:
            return None
        x, y = set(x), set(y)
        return [(V(("b", {"isdisjoint": not x & y, "issubset": x <= y, "issuperset": x >= y}[name])), st)]
    return run


def sort_key(I, v, kw, st, node):
    """Ascending literal items by a key function whose values are known constants or comparable, or None."""
    items = [st.cur(x) for x in v.items]
    if set(kw) - {"key", "reverse"}:
        return None
    rev = kw.get("reverse")
    rev = st.term(rev) if rev is not None else tm.FALSE
    if rev not in (tm.TRUE, tm.FALSE):
        return None
    ks = []
    for x in items:
        if "key" in kw and st.term(kw["key"]) != NONE:
            outs = I.call(kw["key"], [x], {}, st.copy(), node)
            if len(outs) != 1:
                return None
            x = outs[0][0]
        x = st.cur(x)
        t = st.term(x)
        if x.items is not None and x.items:
            t = ("tup",) + tuple(st.term(z) for z in x.items)
        ks.append(t)
    first = [k[1] if k[0] == "tup" and len(k) > 1 else k for k in ks]
    plain = [all(k[0] == ty for k in first) for ty in ("n", "s")]
    if any(plain) and (first == ks or len(set(first)) == len(first)):
        order = sorted(range(len(items)), key=lambda i: first[i][1], reverse=rev == tm.TRUE)
        return [items[i] for i in order]
    return None


def b_sorted(I, a, kw, st, node):
    v = st.cur(a[0])
    if v.items is not None and (kw or any(st.cur(x).items is not None for x in v.items)):
        r = sort_key(I, v, kw, st, node)
        if r is not None:
            return [(V(None, "list", items=r), st)]
    t = st.term(v)
    while t[0] in ("list_of", "tuple", "sorted") and not kw:
        t = t[1]
    if t[0] in ("tup", "setlit"):
        t = ("list",) + t[1:]
    if t[0] == "list":
        if t[1:] and not kw and (all(x[0] == "n" for x in t[1:]) or all(x[0] == "s" for x in t[1:])):
            return [(V(None, "list", items=[V(x) for x in sorted(t[1:], key=lambda z: z[1])]), st)]
        if all(x[0] == "n" for x in t[1:]) and not kw:
            return [(V(("list",) + tuple(sorted(t[1:], key=lambda z: z[1])), "list"), st)]
        if 3 <= len(t) <= 5 and not kw:
            xs = in_order(I, list(t[1:]), st)
            if xs is not None:
                return [(V(None, "list", items=[V(x) for x in xs]), st)]
        if len(t) == 2:
            return [(V(None, "list", items=[V(t[1])]), st)]
        if len(t) == 3 and not kw:
            x, y = t[1:]
            return [(V(None, "list", items=[V(minmax("min", x, y)), V(minmax("max", x, y))]), st)]
    if kw:
        return [(V(("sortedby", t) + I.argterms([], kw, st), "list"), st)]
    if v.ty == "pair" or (isinstance(v.ty, tuple) and v.ty == ("pair",)):
        x, y = sub(t, N(0)), sub(t, N(1))
        return [(V(None, "list", items=[V(minmax("min", x, y)), V(minmax("max", x, y))]), st)]
    return [(V(("sorted", t), "list"), st)]


def in_order(I, xs, st):
    """Ascending order of xs when every pairwise comparison is known."""
    out = []
    for x in xs:
        i = 0
        for y in out:
            if x == y or I.known(tm.eq(x, y), st) is True:
                pass
            else:
                k = I.known(("lt", x, y), st)
                if k is True:
                    break
                if k is None or I.known(("lt", y, x), st) is not True:
                    return None
            i += 1
        out.insert(i, x)
    return out


def minmax(op, *xs):
    if all(x[0] == "n" for x in xs):
        return N(min(x[1] for x in xs) if op == "min" else max(x[1] for x in xs))
    xs = sorted(set(xs), key=repr)
    return xs[0] if len(xs) == 1 else (op,) + tuple(xs)


def b_minmax(op):
    def f(I, a, kw, st, node):
        if len(a) > 1 and not kw:
            return [(V(minmax(op, *[st.term(x) for x in a])), st)]
        v = st.cur(a[0])
        if v.items and not kw:
            return [(V(minmax(op, *[st.term(x) for x in v.items])), st)]
        t = st.term(v)
        while t[0] in ("list_of", "set", "tuple", "sorted"):
            t = t[1]
        return [(V((op + "of", t) + I.argterms([], kw, st)), st)]
    return f


def b_range(I, a, kw, st, node):
    ts = [st.term(x) for x in a]
    if len(ts) == 2 and ts[0] == N(0):
        ts = ts[1:]
    return [(V(("range",) + tuple(ts)), st)]


def b_zip(I, a, kw, st, node):
    if not a and not kw:
        return [(V(None, "list", items=[]), st)]
    if len(a) == 1 and a[0].t is not None and a[0].t[0] == "star":
        return [(V(("unzip", a[0].t[1])), st)]
    cs = [I.concrete_iter(st.cur(x), st) for x in a]
    if all(c is not None for c in cs) and cs:
        return [(V(None, "list", items=[I.lst(list(z), "tuple") for z in zip(*cs)]), st)]
    return [(V(("zip",) + tuple(st.term(x) for x in a), org=frozenset().union(*[x.org for x in a])), st)]


def b_enumerate(I, a, kw, st, node):
    c = I.concrete_iter(st.cur(a[0]), st)
    start = arg(a, kw, 1, "start")
    if c is not None and start is None:
        return [(V(None, "list", items=[I.lst([V(N(i)), x], "tuple") for i, x in enumerate(c)]), st)]
    t = ("enumerate", st.term(a[0]))
    if start is not None and st.term(start) != N(0):
        t += (st.term(start),)
    return [(V(t, org=a[0].org), st)]


def static_type(v, st):
    """Name of the builtin type of a value, when it is known."""
    if v.items is not None:
        return v.ty
    if v.map is not None or v.ty == "dict":
        return "dict"
    if isinstance(v.ty, tuple) and v.ty[0] == "list":
        return "list"
    if v.ty in ("list", "tuple", "set", "str", "float", "tensor", "ndarray"):
        return {"tensor": "Tensor"}.get(v.ty, v.ty)
    if isinstance(v.ty, Cls):
        return None
    t = st.term(v)
    if t[0] == "n" and not isinstance(t[1], int):
        return "float"
    if t[0] in ("s", "b", "list", "tup", "dict", "none", "each", "concat", "list_of", "set", "sorted"):
        return {"s": "str", "b": "bool", "tup": "tuple", "none": "NoneType", "each": "list", "concat": "list", "list_of": "list", "sorted": "list"}.get(t[0], t[0])
    return None


def b_isinstance(I, a, kw, st, node):
    v = st.cur(a[0])
    k = st.cur(a[1])
    ks = [st.cur(x) for x in k.items] if k.items is not None else [k]
    names = []
    for x in ks:
        if isinstance(x.py, ClsRef):
            names.append(x.py.cls.name)
        elif isinstance(x.py, Ext):
            names.append(x.py.dotted.split(".")[-1])
        else:
            names.append(repr(st.term(x)))
    names = tuple(sorted(names))
    ty = static_type(v, st)
    if ty is None:
        t = st.term(v)
        if isinstance(v.ty, Cls):
            mro = [c.name if isinstance(c, Cls) else c.split(".")[-1] for c in I.repo.mro(v.ty)]
            return [(V(("b", any(n in mro for n in names))), st)]
        if v.t is not None and v.t[0] == "obj":
            c = st.objs[v.t[1]].cls
            mro = [x.name if isinstance(x, Cls) else x.split(".")[-1] for x in I.repo.mro(c)]
            return [(V(("b", any(n in mro for n in names))), st)]
        if t[0] == "n":
            # integral floats are normalised: both are possible
            if {"int", "float"} <= set(names):
                return [(V(TRUE), st)]
            if not set(names) & {"int", "float"} and all(n in PRIMS or n in ("Tensor", "ndarray") for n in names):
                return [(V(FALSE), st)]
            if len(set(names) & {"int", "float"}) == 1:
                # it is one of the two: an answer about the other kind settles this one
                other = {"int": "float", "float": "int"}[(set(names) & {"int", "float"}).pop()]
                for c, b in st.facts.items():
                    if c[0] == "isinstance" and c[1] == t and set(c[2]) & {"int", "float"} == {other}:
                        return [(V(FALSE if b else TRUE), st)]
            return [(V(("isinstance", t, names)), st)]
    if ty is None and set(names) <= {"list", "tuple", "dict", "set", "str"}:
        t = st.term(v)
        if any(x[0] in ("exp", "pow", "log", "sqrt") or x[0] == "n" and not isinstance(x[1], int) for x in (t[1:] if t[0] == "mul" else (t,))):
            # the value of a power, an exponential or a multiple by a fraction is no container
            return [(V(FALSE), st)]
    if ty is not None:
        if ty == "bool" and "int" in names:
            return [(V(TRUE), st)]
        if ty in names:
            return [(V(TRUE), st)]
        if all(n in PRIMS or n in ("Tensor", "ndarray", "Hypergraph", "Graph") for n in names):
            return [(V(FALSE), st)]
    return [(V(("isinstance", st.term(v), names)), st)]


def b_cast(name):
    def f(I, a, kw, st, node):
        if not a:
            return None
        v = st.cur(a[0])
        t = st.term(v)
        if name == "str":
            return [(V(S(str(t[1])) if t[0] in ("s", "n") else ("str", t), "str"), st)]
        if name == "float":
            if t[0] == "s" and t[1] in ("inf", "-inf"):
                return [(V(N(float(t[1]))), st)]
            return [(V(t), st)]
        if name == "int":
            if t[0] == "n":
                return [(V(N(int(t[1]))), st)]
            if t[0] == "s" and isinstance(t[1], str) and len(a) == 1 and not kw:
                if t[1].strip().lstrip("+-").isdigit():
                    return [(V(N(int(t[1]))), st)]
                I.do_raise("ValueError", st, node)
                return []
            if t[0] in ("len", "fdiv", "idx", "int"):
                return [(V(t), st)]
            return [(V(("int", t)), st)]
        if name == "bool":
            return [(V(I.truth(v, st)), st)]
    return f


def b_anyall(op):
    def f(I, a, kw, st, node):
        v = st.cur(a[0])
        if v.items is not None:
            ts = [I.truth(x, st) for x in v.items]
            if any(t == ("b", op == "any") for t in ts):
                return [(V(("b", op == "any")), st)]
            ts = [t for t in ts if t[0] != "b"]
            if not ts:
                return [(V(("b", op != "any")), st)]
            return [(V(("or" if op == "any" else "and",) + tuple(ts) if len(ts) > 1 else ts[0]), st)]
        t = st.term(v)
        # any(c(x) for x in D) is a quantified condition over the domain
        return [(V((op, t)), st)]
    return f


# library functions with a definition in the analysed language; evaluated like package code
MODEL_SRC = """
def chain_from_iterable(xs):
    return [y for x in xs for y in x]

def chain(*xs):
    return [y for x in xs for y in x]

def dict_pairs(xs):
    return {k: v for k, v in xs}

def dict_fromkeys(xs, v=None):
    out = {}
    for x in xs:
        out[x] = v
    return out

def reduce2(f, xs):
    acc = xs[0]
    for x in xs[1:]:
        acc = f(acc, x)
    return acc

def reduce3(f, xs, acc):
    for x in xs:
        acc = f(acc, x)
    return acc
"""
_MODELS = {}


def model(name):
    def run(I, a, kw, st, node):
        if kw:
            return None
        if not _MODELS:
            import ast as _ast
            from .repo import Func, Module
            m = Module("dhg.__model__", "model", MODEL_SRC, False)
            for f in m.tree.body:
                if isinstance(f, _ast.FunctionDef):
                    _MODELS[f.name] = Func(m, f)
        return I.call_func(_MODELS[name], a, kw, st, node)
    return run


def x_reduce(I, a, kw, st, node):
    return model("reduce%d" % len(a))(I, a, kw, st, node) if len(a) in (2, 3) else None


def b_sum(I, a, kw, st, node):
    v = st.cur(a[0])
    if len(a) == 2 and st.term(a[1]) == ("list",):
        return model("chain_from_iterable")(I, a[:1], {}, st, node)
    if v.items is not None and len(a) == 1:
        return [(V(tm.add(*[st.term(x) for x in v.items]) if v.items else N(0)), st)]
    t = st.term(v)
    if t[0] == "each" and len(a) == 1:
        from .interp import sumeach
        alts = []
        for c, s in t[2:]:
            if s[0] != "list":
                return None
            alts.append((c, tm.add(*s[1:]) if len(s) > 1 else N(0)))
        return [(V(sumeach(t[1], alts)), st)]
    return [(V(("sum", t)), st)]


def b_dict(I, a, kw, st, node):
    if not a:
        return [(V(None, "dict", map=[(S(k), x) for k, x in kw.items()]), st)]
    v = st.cur(a[0])
    if v.map is not None and not kw:
        return [(V(None, "dict", map=list(v.map), base=v.base), st)]
    t = st.term(v)
    if t[0] == "zip" and len(t) == 3:
        if t[1][0] == "keys" and t[2] == ("values", t[1][1]):
            return [(V(t[1][1], "dict", org=orgs_shallow(v.org)), st)]
    if kw:
        return None
    if t[0] == "zip" and len(t) == 3 or v.items is not None or t[0] == "each" and v.ty != "dict":
        return model("dict_pairs")(I, [v], {}, st, node)
    return [(V(t if v.ty == "dict" else ("dictof", t), "dict", org=orgs_shallow(v.org)), st)]


def b_getattr(I, a, kw, st, node):
    k = st.term(a[1])
    if k[0] == "s":
        return I.getattr_(a[0], k[1], st, node)
    return None


def b_hasattr(I, a, kw, st, node):
    v, k = st.cur(a[0]), st.term(a[1])
    if v.t is not None and v.t[0] == "obj" and k[0] == "s":
        o = st.objs[v.t[1]]
        if k[1] in o.fields or I.repo.lookup(o.cls, k[1]):
            return [(V(TRUE), st)]
        if not o.sym:
            return [(V(FALSE), st)]
    return [(V(("hasattr", st.term(v), k)), st)]


def b_setattr(I, a, kw, st, node):
    k = st.term(a[1])
    if k[0] == "s":
        return [(V(NONE), s) for s in I.setattr_(a[0], k[1], a[2], st, node)]
    return None


def b_map(I, a, kw, st, node):
    if len(a) != 2:
        return None
    # desugar to the comprehension [f(x) for x in xs]
    fr = st.frames[-1]
    fr["__mapf__"], fr["__maps__"] = a[0], a[1]
    e = ast.parse("[__mapf__(__x__) for __x__ in __maps__]", mode="eval").body
    ast.copy_location(e, node)
    return I.eval(e, st)


def b_type(I, a, kw, st, node):
    v = st.cur(a[0])
    if v.t is not None and v.t[0] == "obj" and len(a) == 1:
        c = st.objs[v.t[1]].cls
        return [(V(("cls", c.qual), py=ClsRef(c)), st)]
    if len(a) == 1:
        ty = static_type(v, st)
        if ty in PRIMS:
            return [(V(("ext", "builtins." + ty), py=Ext("builtins." + ty)), st)]
        return [(V(("type", st.term(v))), st)]
    return None


def b_abs(I, a, kw, st, node):
    t = st.term(a[0])
    return [(V(N(abs(t[1])) if t[0] == "n" else ("abs", t)), st)]


def b_round(I, a, kw, st, node):
    return [(V(("round",) + tuple(st.term(x) for x in a)), st)]


def b_reversed(I, a, kw, st, node):
    v = st.cur(a[0])
    if v.items is not None:
        return [(V(None, "list", items=list(reversed(v.items))), st)]
    return [(V(("reversed", st.term(v))), st)]


def b_slice(I, a, kw, st, node):
    ts = [st.term(x) for x in a]
    if len(ts) == 1:
        ts = [NONE, ts[0], NONE]
    while len(ts) < 3:
        ts.append(NONE)
    if ts[0] == N(0):
        ts[0] = NONE
    return [(V(("slice",) + tuple(ts)), st)]


def b_noop(I, a, kw, st, node):
    return [(V(NONE), st)]


_BUILTIN = {
    "len": b_len, "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_set, "sorted": b_sorted,
    "min": b_minmax("min"), "max": b_minmax("max"), "range": b_range, "zip": b_zip, "enumerate": b_enumerate,
    "isinstance": b_isinstance, "int": b_cast("int"), "float": b_cast("float"), "str": b_cast("str"), "bool": b_cast("bool"),
    "any": b_anyall("any"), "all": b_anyall("all"), "sum": b_sum, "dict": b_dict, "getattr": b_getattr, "hasattr": b_hasattr,
    "setattr": b_setattr, "map": b_map, "type": b_type, "abs": b_abs, "round": b_round, "reversed": b_reversed, "print": b_noop, "slice": b_slice,
    "dict.fromkeys": model("dict_fromkeys"),
}


# ------------------------------------------------------------------ torch / numpy / copy
def x_deepcopy(I, a, kw, st, node):
    v = st.cur(a[0])
    return [(deep(I, v, st), st)]


def deep(I, v, st):
    v = st.cur(v)
    if v.items is not None:
        return V(None, v.ty, items=[deep(I, x, st) for x in v.items])
    if v.map is not None:
        return V(None, v.ty, map=[(k, deep(I, x, st)) for k, x in v.map], base=v.base, default=v.default)
    if v.t is not None and v.t[0] == "obj":
        o = st.objs[v.t[1]]
        st.nobj += 1
        key = ("new", o.cls.name, st.nobj)
        st.objs[key] = type(o)(o.cls, o.sym, o.name, {})
        nv = V(("obj", key), v.ty)
        st.objs[key].fields = {k: deep(I, x, st) for k, x in o.fields.items()}
        return nv
    if v.ty in ("cachehit", "gcachehit"):
        return V(v.t, v.ty)
    if v.dev is not None:
        return V(v.t, v.ty, py=v.py, dev=v.dev)
    if v.t is not None and v.t[0] == "apply" or (v.t and v.t[0] == "attr" and v.py is not None):
        return v
    return V(v.t, v.ty, py=v.py)


def x_copy(I, a, kw, st, node):
    v = st.cur(a[0])
    if v.items is not None or v.map is not None:
        return [(v.clone(org=frozenset(), par=None), st)]
    if v.t and v.t[0] == "obj":
        return None
    return [(V(v.t, v.ty, org=orgs_shallow(v.org)), st)]


def x_mm(I, a, kw, st, node):
    ts = [st.term(x) for x in (a + [kw[k] for k in ("mat1", "mat2", "input", "other") if k in kw])]
    return [(V(tm.mm(*ts)), st)]


def x_coo(I, a, kw, st, node):
    ind = arg(a, kw, 0, "indices")
    val = arg(a, kw, 1, "values")
    size = arg(a, kw, 2, "size")
    if ind is not None and val is None and size is None:
        size, ind = ind, None
    dev = kw.get("device")
    st.ev("tensor", "sparse_coo", st.term(dev) if dev is not None else None, I.loc(node, st))
    if ind is None or val is None:
        sz = st.term(size) if size is not None else ("?",)
        return [(V(("zeros", sz)), st)]
    t = tm.coo(st.term(ind), st.term(val))
    if size is not None:
        I.sizes.setdefault(t, set()).add(known_size(I, st.term(size)))
    return [(V(t), st)]


def known_size(I, sz):
    """A matrix size as plain counts, or None when it is written in terms this cannot read."""
    if sz[0] == "shape":
        x = sz[1]
        if x[0] == "zeros":
            return known_size(I, x[1]) if len(x) == 2 else None
        if x[0] == "T":
            r = known_size(I, ("shape", x[1]))
            return r and r[::-1]
        got = I.sizes.get(x, ())
        return next(iter(got)) if len(got) == 1 else None
    if sz[0] in ("list", "tup", "tuple") and len(sz) == 3 and all(map(is_count, sz[1:])):
        return sz[1:]
    return None


def is_count(t):
    if t[0] == "init":
        return t[-1] in ("_num_v", "_num_u")
    if t[0] == "len":
        return is_group(t[1])
    if t[0] == "sumeach" and len(t) == 3:
        return t[1][0] == "init" and t[2][0] == () and len(t[2]) == 2 and t[2][1][0] == "len" and is_group(t[2][1][1])
    return t[0] == "n"


def is_group(t):
    return t[0] == "sub" and t[1][0] == "init" and t[1][-1] == "_raw_groups"


def x_spsum(I, a, kw, st, node):
    t = st.term(a[0])
    d = dimof(a, kw, 1, st)
    if d in (N(1), N(-1)):
        return [(V(tm.rowsum(t)), st)]
    if d in (N(0), N(-2)):
        return [(V(tm.rowsum(tm.T(t))), st)]
    return [(V(("spsumall", t)), st)]


def x_arange(I, a, kw, st, node):
    ts = [st.term(x) for x in a]
    if len(ts) == 2 and ts[0] == N(0):
        ts = ts[1:]
    return [(V(("arange",) + tuple(ts)), st)]


def x_hcat(dimdefault, stack=False):
    def f(I, a, kw, st, node):
        v = st.cur(a[0])
        d = dimof(a, kw, 1, st) or N(dimdefault)
        if v.items is None:
            return [(V(("cat", d, st.term(v))), st)]
        ts = [st.term(x) for x in v.items]
        if (dimdefault == 1 or d in (N(1), N(-1))) and len(ts) == 1:
            return [(V(ts[0]), st)]
        if dimdefault == 1 or d in (N(1), N(-1)):
            return [(V(("hcat",) + tuple(ts)), st)]
        if len(ts) == 1 and not stack:
            return [(V(ts[0]), st)]
        return [(V(("vcat",) + tuple(ts)), st)]
    return f


def x_hstack(I, a, kw, st, node):
    v = st.cur(a[0])
    if v.items is None:
        return [(V(("hcatl", st.term(v))), st)]
    if len(v.items) == 1:
        return [(V(st.term(v.items[0])), st)]
    return [(V(("hcat",) + tuple(st.term(x) for x in v.items)), st)]


def x_ones(I, a, kw, st, node):
    return [(V(("ones",)), st)]


def x_full(I, a, kw, st, node):
    v = a[1] if len(a) > 1 else kw.get("fill_value")
    if v is None or st.term(v) == N(0):
        return None
    return [(V(tm.mul(st.term(v), ("ones",))), st)]


def x_tensor(I, a, kw, st, node):
    v = st.cur(a[0])
    dev = kw.get("device")
    st.ev("tensor", "tensor", st.term(dev) if dev is not None else None, I.loc(node, st))
    t = st.term(v)
    return [(V(t if t[0] not in ("n", "b") else t, None), st)]


def x_un(op):
    def f(I, a, kw, st, node):
        kw = {k: x for k, x in kw.items() if k != "inplace"}
        return [(V((op, st.term(a[0])) + I.argterms(a[1:], kw, st)), st)]
    return f


def x_stack(I, a, kw, st, node):
    xs = arg(a, kw, 0, "tensors", None)
    if xs is None:
        return None
    d = dimof(a, kw, 1, st) or N(0)
    return [(V(("stack", st.term(xs)) + ((d,) if d != N(0) else ())), st)]


def x_where(I, a, kw, st, node):
    if len(a) != 3:
        return None
    c, x, y = [st.term(z) for z in a]
    x, y = [N(0) if z[0] == "zeros" or z[:2] == ("call", "torch.zeros_like") else z for z in (x, y)]
    if c[0] == "not":
        c, x, y = c[1], y, x
    r = tm.guard(y, c, x)
    if r[0] == "maskset":
        r = ("where", c, x, y)
    return [(V(r), st)]


def x_nan2num(I, a, kw, st, node):
    t = st.term(a[0])
    pos = kw.get("posinf")
    nan = arg(a, kw, 1, "nan")
    kinds = ["nan"] if nan is None or st.term(nan) == N(0) else []
    if pos is not None and st.term(pos) == N(0):
        kinds.append("inf")
    return [(V(tm.g0(t, tuple(sorted(kinds)))), st)]


def x_ident(I, a, kw, st, node):
    v = st.cur(a[0])
    return [(V(st.term(v), org=v.org), st)]


def x_t(I, a, kw, st, node):
    return [(V(tm.T(st.term(a[0]))), st)]


def x_partial(I, a, kw, st, node):
    return [(V(("partial", st.term(a[0])) + I.argterms(a[1:], kw, st), py=Partial(a[0], a[1:], kw)), st)]


def x_defaultdict(I, a, kw, st, node):
    d = "list"
    if a:
        t = st.term(a[0])
        d = t[1].split(".")[-1] if t[0] == "ext" else repr(t)
    return [(V(None, "dict", map=[], default=d), st)]


def x_container(I, a, kw, st, node):
    if not a:
        return [(I.lst([]), st)]
    v = st.cur(a[0])
    if v.items is not None and len(a) == 1:
        return [(V(None, "list", items=list(v.items)), st)]
    if len(a) == 1:
        return [(V(st.term(v), "list"), st)]
    return None


def x_size(I, a, kw, st, node):
    return [(V(st.term(a[0])), st)]


def x_device(I, a, kw, st, node):
    t = st.term(a[0])
    return [(V(("device", t)), st)]


def x_method(name):
    def f(I, a, kw, st, node):
        if not a:
            return None
        return call_method(I, a[0], name, a[1:], kw, st, node)
    return f


def x_exp(I, a, kw, st, node):
    return [(V(("exp", st.term(a[0]))), st)]


def x_sqrt(I, a, kw, st, node):
    return [(V(tm.pow_(st.term(a[0]), N(0.5))), st)]


def x_pow(I, a, kw, st, node):
    return [(V(tm.pow_(st.term(a[0]), st.term(a[1]))), st)]


def x_path(I, a, kw, st, node):
    v = st.cur(a[0])
    t = st.term(v)
    if len(a) > 1:
        ts = [st.term(x) for x in a]
        return [(V(("join",) + tuple(y for x in ts for y in (x[1:] if x[0] == "join" else (x,))), "path"), st)]
    return [(V(t if t[0] != "s" else ("path", t), "path", org=v.org), st)]


def x_zeros(I, a, kw, st, node):
    if "size" in kw and not a:
        a = [kw["size"]]
    size = tuple(st.term(x) for x in a)
    if len(size) == 1 and size[0][0] in ("tup", "list"):
        size = size[0][1:]
    d = st.term(kw["dtype"]) if "dtype" in kw else NONE
    return [(V(("zeros",) + size + ((("dtype", S(dtype_name(d))),) if d != NONE and dtype_name(d) not in ("float", "float32") else ())), st)]


def dtype_name(d):
    return str(d[-1]).rsplit(".", 1)[-1] if isinstance(d, tuple) and len(d) > 1 else str(d)


def x_zeros_like(I, a, kw, st, node):
    t = st.term(a[0])
    while t[0] == "dset":
        t = t[1]
    if t[0] == "zeros" and not set(kw) - {"device"}:
        return [(V(t), st)]
    return None


def x_product(I, a, kw, st, node):
    return [(V(("product",) + tuple(st.term(x) for x in a) + I.argterms([], kw, st)), st)]


def x_no_grad(I, a, kw, st, node):
    return [(V(("call", "torch.no_grad")), st)]


def x_shuffle(I, a, kw, st, node):
    v = st.cur(a[0])
    st.ev("call", "random.shuffle", I.argterms(a, kw, st), I.loc(node, st))
    t = ("shuffled", st.term(v), st.rnd)
    st.rnd += 1
    I.mutate(v, V(t, "list"), "shuffle", st, node)
    return [(V(NONE), st)]


_EXT = {
    "copy.deepcopy": x_deepcopy, "copy.copy": x_copy,
    "torch.mm": x_mm, "torch.sparse.mm": x_mm, "torch.matmul": x_mm, "torch.sparse.addmm": None, "torch.spmm": x_mm, "torch.smm": x_mm,
    "torch.sparse_coo_tensor": x_coo, "torch.sparse.FloatTensor": x_coo, "torch.sparse.sum": x_spsum, "torch.arange": x_arange,
    "itertools.chain.from_iterable": model("chain_from_iterable"), "itertools.chain": model("chain"), "functools.reduce": x_reduce,
    "torch.hstack": x_hstack, "torch.cat": x_hcat(0), "torch.concat": x_hcat(0), "torch.vstack": x_hcat(0, True), "torch.ones": x_ones, "torch.ones_like": x_ones,
    "torch.tensor": x_tensor, "torch.as_tensor": x_tensor, "torch.Tensor": x_tensor, "torch.from_numpy": x_ident, "numpy.array": x_ident, "numpy.asarray": x_ident,
    "torch.FloatTensor": x_tensor, "torch.LongTensor": x_tensor,
    "torch.isinf": x_un("isinf"), "torch.isnan": x_un("isnan"), "torch.isfinite": x_un("isfinite"), "numpy.isnan": x_un("isnan"), "numpy.isinf": x_un("isinf"),
    "torch.where": x_where, "torch.nan_to_num": x_nan2num, "torch.t": x_t, "torch.transpose": None, "functools.partial": x_partial,
    "collections.defaultdict": x_defaultdict, "torch.nn.ModuleList": x_container, "torch.Size": x_size, "torch.device": x_device, "torch.zeros": x_zeros, "torch.zeros_like": x_zeros_like,
    "torch.exp": x_exp, "numpy.exp": x_exp, "torch.sqrt": x_sqrt, "math.sqrt": x_sqrt, "numpy.sqrt": x_sqrt, "torch.pow": x_pow, "math.pow": x_pow, "numpy.power": x_pow, "torch.relu": x_un("relu"), "F.relu": x_un("relu"),
    "torch.tanh": x_un("tanh"), "pathlib.Path": x_path, "itertools.product": x_product, "torch.no_grad": x_no_grad, "torch.sparse.transpose": x_t,
    "torch.nonzero": x_un("nonzero"), "torch.squeeze": x_method("squeeze"), "torch.unsqueeze": x_method("unsqueeze"),
    "torch.sum": x_method("sum"), "torch.mean": x_method("mean"), "torch.sparse.softmax": x_method("spsoftmax"), "torch.softmax": x_method("softmax"),
    "torch.argsort": x_method("argsort"), "torch.sort": x_method("sort_t"), "torch.clone": x_ident, "torch.abs": b_abs, "tqdm.tqdm": x_ident,
    "random.shuffle": x_shuffle, "torch.add": None, "torch.reciprocal": lambda I, a, kw, st, node: [(V(tm.pow_(st.term(a[0]), N(-1))), st)],
    "torch.logical_not": lambda I, a, kw, st, node: [(V(tm.not_(st.term(a[0]))), st)],
    "torch.diag": lambda I, a, kw, st, node: [(V(tm.diag(st.term(a[0]))), st)],
    "torch.mul": lambda I, a, kw, st, node: [(V(tm.mul(st.term(a[0]), st.term(a[1]))), st)],
    "torch.div": lambda I, a, kw, st, node: [(V(tm.div(st.term(a[0]), st.term(a[1]))), st)] if not kw else None,
    "torch.full": x_full, "torch.full_like": x_full, "torch.stack": x_stack, "operator.itemgetter": None,
    "F.dropout": x_method("F_dropout"),
}
_EXT = {k: v for k, v in _EXT.items() if v is not None}


# ------------------------------------------------------------------ methods
STR_PURE = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "split", "startswith", "endswith", "join", "count", "find", "isdigit", "format",
            "removeprefix", "removesuffix", "rsplit", "casefold", "partition", "rpartition", "isnumeric", "isdecimal", "isalpha", "index", "rfind"}


def str_const(I, t, name, args, kw, st):
    """Methods of a constant string on constant arguments."""
    if t[0] != "s" or name not in STR_PURE or not isinstance(t[1], str):
        return None

    def val(v):
        v = st.cur(v)
        if v.items is not None:
            xs = [val(x) for x in v.items]
            return None if any(x is None for x in xs) else (tuple(xs) if v.ty == "tuple" else xs)
        y = st.term(v)
        if y[0] in ("list", "tup"):
            xs = [z[1] if z[0] in ("s", "n") else None for z in y[1:]]
            return None if any(x is None for x in xs) else (xs if y[0] == "list" else tuple(xs))
        return y[1] if y[0] in ("s", "b") or y[0] == "n" and isinstance(y[1], int) else None
    a = [val(x) for x in args]
    k = {n: val(x) for n, x in kw.items()}
    if any(x is None for x in a) or any(x is None for x in k.values()):
        return None
    try:
        r = getattr(t[1], name)(*a, **k)
    except Exception:
        return None
    if isinstance(r, tuple):
        return V(None, "tuple", items=[V(S(x), "str") for x in r])
    return I.lst([V(S(x)) for x in r]) if isinstance(r, list) else V(tm.const(r))


ARITH_ = {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "pow": "Pow"}


def elementwise(I, v, name, args, kw, st):
    """The value an in-place arithmetic method leaves."""
    if name in ARITH_ and len(args) == 1 and not kw and v.items is None and v.ty not in ("list", "tuple", "set", "dict"):
        r = I.binop(getattr(ast, ARITH_[name])(), v, args[0], st)
        return V(r.t, v.ty) if isinstance(r, V) and r.t is not None else None
    return None


def call_method(I, recv, name, args, kw, st, node):
    v = st.cur(recv)
    if v.t is not None and v.t[0] == "obj":
        out = []
        for f, s in I.obj_attr(v, name, st, node):
            out += I.call(f, args, kw, s, node)
        return out
    if I.hook_mcall is not None:
        r = I.hook_mcall(I, v, name, args, kw, st, node)
        if r is not None:
            return r
    # (not after a search that found nothing: whether it can find nothing is not decided here)
    if v.t == NONE and not name.startswith("__") and not any(c[0] == "exists" and x is False for c, x in st.facts.items()):
        I.do_raise("AttributeError", st, node)
        return []
    f = _METHOD.get(name)
    if f:
        r = f(I, v, args, kw, st, node)
        if r is not None:
            return r
    if name in MUT_METHODS and not (name in ("add", "sort", "remove", "clear", "pop", "update") and False):
        t = st.term(v)
        nt = ("mutcall", t, name) + I.argterms(args, kw, st)
        I.mutate(v, V(nt, v.ty), name, st, node, tuple(st.term(a) for a in args))
        st.ev("mcall", t, name, I.argterms(args, kw, st), I.loc(node, st))
        return [(V(("mres", t, name) + I.argterms(args, kw, st)), st)]
    t = st.term(v)
    r = str_const(I, t, name, args, kw, st)
    if r is not None:
        return [(r, st)]
    args, kw = positional(name, args, kw, st)
    if name.endswith("_") and not name.startswith("_") and not name.endswith("__"):
        nv = elementwise(I, v, name[:-1], args, kw, st)
        if nv is not None:
            I.mutate(v, nv, name, st, node)
            return [(nv, st)]
        nt = ("inplace", t, name) + I.argterms(args, kw, st)
        nv = V(nt, v.ty)
        I.mutate(v, nv, name, st, node)
        return [(nv, st)]
    st.ev("mcall", t, name, I.argterms(args, kw, st), I.loc(node, st))
    return [(V(("mcall", t, name) + I.argterms(args, kw, st), org=v.org if name in ALIAS_METHODS else frozenset()), st)]


def m_append(I, v, a, kw, st, node):
    if len(a) != 1:
        return None
    if v.items is not None:
        I.mutate(v, V(None, v.ty, items=list(v.items) + [a[0]]), "append", st, node)
        return [(V(NONE), st)]
    I.mutate(v, V(seqcat(st.term(v), ("list", st.term(a[0]))), v.ty if listy(v) else "list", org=v.org), "append", st, node)
    return [(V(NONE), st)]


def m_extend(I, v, a, kw, st, node):
    list_extend(I, v, a[0], st, node)
    return [(V(NONE), st)]


def m_add(I, v, a, kw, st, node):
    t = st.term(v)
    if v.ty == "set" or t[0] in ("set", "setlit"):
        if v.items is not None:
            I.mutate(v, V(None, "set", items=list(v.items) + [a[0]]), "add", st, node)
        else:
            I.mutate(v, V(mkset(seqcat(("list_of", t), ("list", st.term(a[0])))), "set"), "add", st, node)
        return [(V(NONE), st)]
    if listy(v) or v.ty == "dict":
        return None
    if v.t is not None and v.t[0] == "acc" and v.ty == "set":
        return None
    if len(a) == 1 and not kw:
        return [(V(tm.add(t, st.term(a[0]))), st)]
    return None


def m_get(I, v, a, kw, st, node):
    if not a or len(a) > 2 or kw:
        return None
    k = st.term(a[0])
    d = a[1] if len(a) > 1 else V(NONE)
    if v.ty == "cachehit":
        return [(V(("cached",) + v.t[1:] + (k,)), st)]
    if v.map is not None:
        return I.map_get(v, k, st, node, d, False)
    t = st.term(v)
    kn = I.known_in(k, t, st)
    if kn is True:
        return I.getitem(v, a[0], st, node)
    if kn is False:
        return [(d, st)]
    out = []
    for b, s in I.decide(("in", k, t), st):
        if b:
            out += I.getitem(v, a[0], s, node)
        else:
            out.append((d, s))
    return out


def m_keys(I, v, a, kw, st, node):
    if v.map is not None and v.base is None:
        return [(V(None, "list", items=[V(k) for k, _ in v.map]), st)]
    return [(V(("keys", st.term(v)), org=v.org), st)]


def m_values(I, v, a, kw, st, node):
    if v.map is not None and v.base is None:
        return [(V(None, "list", items=[x for _, x in v.map]), st)]
    t = st.term(v)
    if v.ty == "dict" or t[0] in ("init", "param", "deach", "dset", "dupd", "sub", "acc"):
        return [(V(("values", t), org=v.org), st)]
    return m_vals(I, v, a, kw, st, node)


def m_items(I, v, a, kw, st, node):
    if v.map is not None and v.base is None:
        return [(V(None, "list", items=[I.lst([V(k), x], "tuple") for k, x in v.map]), st)]
    return [(V(("items", st.term(v)), org=v.org), st)]


def m_update(I, v, a, kw, st, node):
    if v.ty in ("cachehit", "gcachehit"):
        st.ev("cache_update", v.t, I.loc(node, st))
        return [(V(NONE), st)]
    if len(a) == 1 and not kw:
        o = st.cur(a[0])
        if o.map is not None and o.base is None and v.map is not None:
            m = list(v.map)
            for k, x in o.map:
                m = [(p, q) for p, q in m if p != k] + [(k, x)]
            I.mutate(v, v.clone(map=m), "update", st, node)
            return [(V(NONE), st)]
        if v.ty == "set":
            r = mkset(seqcat(("list_of", st.term(v)), aslist(st.term(o))))
            I.mutate(v, V(None, "set", items=[V(x) for x in r[1:]]) if r[0] == "setlit" else V(r, "set"), "update", st, node)
            return [(V(NONE), st)]
        I.mutate(v, V(mk("dupd", st.term(v), st.term(o)), "dict"), "update", st, node)
        return [(V(NONE), st)]
    if kw and not a and v.map is not None:
        m = list(v.map)
        for k, x in kw.items():
            m = [(p, q) for p, q in m if p != S(k)] + [(S(k), x)]
        I.mutate(v, v.clone(map=m), "update", st, node)
        return [(V(NONE), st)]
    return None


def m_clear(I, v, a, kw, st, node):
    if v.ty in ("cachehit", "gcachehit"):
        st.ev("cache_clear", v.t, I.loc(node, st))
        st.forward(v, V(None, "dict", map=[], default=v.default))
        return [(V(NONE), st)]
    if v.items is not None:
        I.mutate(v, V(None, v.ty, items=[]), "clear", st, node)
        return [(V(NONE), st)]
    if v.map is not None or v.ty == "dict" or True:
        I.mutate(v, V(None, "dict", map=[], default=v.default), "clear", st, node)
        return [(V(NONE), st)]


def m_pop(I, v, a, kw, st, node):
    if v.ty in ("cachehit", "gcachehit"):
        st.ev("cache_pop", v.t, st.term(a[0]), I.loc(node, st))
        return [(V(("popped",)), st)]
    if v.items is not None and v.ty == "list":
        k = st.term(a[0]) if a else N(-1)
        if k[0] == "n" and isinstance(k[1], int) and -len(v.items) <= k[1] < len(v.items):
            items = list(v.items)
            x = items.pop(k[1])
            I.mutate(v, V(None, v.ty, items=items), "pop", st, node)
            return [(st.cur(x), st)]
        return None
    if v.map is not None and a:
        k = st.term(a[0])
        if k in [p for p, _ in v.map]:
            x = [q for p, q in v.map if p == k][-1]
            I.mutate(v, v.clone(map=[(p, q) for p, q in v.map if p != k]), "pop", st, node)
            return [(st.cur(x), st)]
        if v.base is None and len(a) > 1 and (is_const(k) and all(is_const(p) for p, _ in v.map) or not v.map):
            return [(a[1], st)]
    if len(a) in (1, 2) and not listy(v):
        k = st.term(a[0])
        t = st.term(v)
        if len(a) == 2:
            out = []
            for b, s in I.decide(("in", k, t), st):
                if b:
                    r = V(sub(t, k), org=orgs_sub(v.org))
                    I.mutate(v, V(mk("ddel", t, k), v.ty), "pop", s, node, (k,))
                    out.append((r, s))
                else:
                    out.append((a[1], s))
            return out
        r = V(sub(t, k), org=orgs_sub(v.org))
        I.mutate(v, V(mk("ddel", t, k), v.ty), "pop", st, node, (k,))
        return [(r, st)]
    return None


def m_copy(I, v, a, kw, st, node):
    if v.items is not None or v.map is not None:
        return [(v.clone(org=frozenset(), par=None), st)]
    return [(V(st.term(v), v.ty, org=orgs_shallow(v.org)), st)]


def m_ident(fresh):
    def f(I, v, a, kw, st, node):
        t = st.term(v)
        if t[0] in ("obj",):
            return None
        if v.items is not None or v.map is not None:
            return None
        return [(V(t, "tensor" if v.ty == "tensor" else None, org=frozenset() if fresh else v.org), st)]
    return f


def m_to(I, v, a, kw, st, node):
    t = st.term(v)
    if v.items is not None or v.map is not None:
        return None
    st.ev("to", t, tuple(st.term(x) for x in a), I.loc(node, st))
    return [(V(t, v.ty, org=v.org), st)]


def m_t(I, v, a, kw, st, node):
    if a:
        if not (len(a) == 2 and {st.term(x) for x in a} in ({N(0), N(1)}, {N(-1), N(-2)})):
            return None
    return [(V(tm.T(st.term(v)), org=v.org), st)]


def m_mm(I, v, a, kw, st, node):
    return [(V(tm.mm(st.term(v), st.term(a[0]))), st)]


def m_vals(I, v, a, kw, st, node):
    return [(V(tm.vals(st.term(v)), org=v.org, par=None), st)]


def m_inds(I, v, a, kw, st, node):
    return [(V(tm.inds(st.term(v)), org=v.org), st)]


def rank2(t):
    """Certainly a matrix (so flattening it is not the identity)."""
    if t[0] == "sub":
        return t[2][0] in ("list", "tup") and len([x for x in t[2][1:] if x[0] == "slice"]) >= 2
    if t[0] in ("exp", "log", "sigmoid", "relu"):
        return rank2(t[1])
    if t[0] == "mul" and len(t) == 3 and tm.is_const(t[1]):
        return rank2(t[2])
    if t[0] == "call" and t[1].endswith("_like"):
        return rank2(t[2])
    return t[0] == "view" and len(t) == 4


def m_bool(I, v, a, kw, st, node):
    t = st.term(v)
    if t[0] in ("lt", "eq", "not", "and", "or", "in", "isinstance", "b", "tobool", "bitand", "bitor"):
        return [(v, st)]
    return [(V(("tobool", t), org=frozenset()), st)]


def m_view(I, v, a, kw, st, node):
    t = st.term(v)
    if len(a) == 1 and st.cur(a[0]).items is not None:
        a = st.cur(a[0]).items
    ts = [st.term(x) for x in a]
    if ts == [N(-1)]:
        if t[0] == "col":
            t = t[1]
        elif rank2(t):
            t = ("view", t, N(-1))
        return [(V(t, org=v.org), st)]
    if len(ts) == 2 and ts[1] == N(1) and (ts[0] == N(-1) or not tm.is_const(ts[0])):
        return [(V(tm.col(t), org=v.org), st)]
    if len(ts) == 2 and ts[0] == N(1) and ts[1] == N(-1):
        return [(V(("row", t), org=v.org), st)]
    return [(V(("view", t) + tuple(ts), org=v.org), st)]


def m_unsqueeze(I, v, a, kw, st, node):
    d = dimof(a, kw, 0, st)
    t = st.term(v)
    if d in (N(1), N(-1)):
        return [(V(tm.col(t), org=v.org), st)]
    if d == N(0):
        return [(V(("row", t), org=v.org), st)]
    return None


def m_squeeze(I, v, a, kw, st, node):
    t = st.term(v)
    if not a:
        return [(V(t[1] if t[0] in ("col", "row") else ("squeeze", t), org=v.org), st)]
    if t[0] == "col" and st.term(a[0]) in (N(1), N(-1)):
        return [(V(t[1], org=v.org), st)]
    return [(V(("squeeze", t) + tuple(st.term(x) for x in a), org=v.org), st)]


def m_repeat(I, v, a, kw, st, node):
    t = st.term(v)
    ts = [st.term(x) for x in a]
    if t[0] == "row" and t[1][0] == "arange" and ts == [N(2), N(1)]:
        return [(V(("diaginds",)), st)]
    if t[0] == "view" and t[1][0] == "arange" and t[2] == N(1) and ts == [N(2), N(1)]:
        return [(V(("diaginds",)), st)]
    if t[0] == "col":
        return None
    return [(V(("rep", t) + tuple(ts)), st)]


def m_to_dense(I, v, a, kw, st, node):
    t = st.term(v)
    return [(V(t, org=v.org), st)]


def entries(t):
    """Entries of a rectangular literal (or of one of its columns)."""
    if t[0] == "sub" and t[2][0] == "tup" and len(t[2]) == 3 and t[1][0] in ("list", "tup") and t[2][1] == ("slice", NONE, NONE, NONE) and t[2][2][0] == "n":
        k = t[2][2][1]
        rows = t[1][1:]
        if rows and all(r[0] in ("list", "tup") and -len(r) < k < len(r) - 1 for r in rows):
            return [r[1:][k] for r in rows]
        return None
    if t[0] in ("list", "tup"):
        out = []
        for x in t[1:]:
            if x[0] in ("list", "tup"):
                y = entries(x)
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
        return out
    return None


def m_reduce(name):
    def f(I, v, a, kw, st, node):
        t = st.term(v)
        d = dimof(a, kw, 0, st)
        if name == "sum" and t[0] == "vcat" and d == N(0):
            return [(V(tm.add(*t[1:])), st)]
        if name == "sum" and is_mat(t):
            if d in (N(1), N(-1)):
                return [(V(tm.rowsum(t)), st)]
            if d in (N(0),):
                return [(V(tm.rowsum(tm.T(t))), st)]
        if name in ("sum", "mean") and t[0] == "stack" and t[1][0] in ("list", "tup") and len(t[1]) > 1 and d == (t[2] if len(t) > 2 else N(0)) and len(a) + len(kw) == 1:
            r = tm.add(*t[1][1:])
            return [(V(r if name == "sum" else tm.div(r, N(len(t[1]) - 1))), st)]
        if name in ("max", "min") and d is None:
            xs = entries(t)
            if xs:
                return [(V(minmax(name, *xs)), st)]
        keep = kw.get("keepdim")
        r = ("red", name, t, d if d is not None else NONE)
        if keep is not None and st.term(keep) == TRUE:
            r = r + (TRUE,)
        return [(V(r), st)]
    return f


def m_pow(I, v, a, kw, st, node):
    return [(V(tm.pow_(st.term(v), st.term(a[0]))), st)]


def m_spsoftmax(I, v, a, kw, st, node):
    d = dimof(a, kw, 0, st)
    t = st.term(v)
    if d in (N(1), N(-1)):
        return [(V(("spsoftmax", t)), st)]
    if d == N(0):
        return [(V(tm.T(("spsoftmax", tm.T(t)))), st)]
    return None


def m_masked_fill(I, v, a, kw, st, node):
    t = st.term(v)
    nt = tm.guard(t, st.term(a[0]), st.term(a[1]))
    return [(V(nt), st)]


def m_masked_fill_(I, v, a, kw, st, node):
    nv = V(tm.guard(st.term(v), st.term(a[0]), st.term(a[1])))
    I.mutate(v, nv, "masked_fill_", st, node)
    return [(nv, st)]


def m_un(op):
    def f(I, v, a, kw, st, node):
        return [(V((op, st.term(v)) + I.argterms(a, kw, st)), st)]
    return f


def m_size(I, v, a, kw, st, node):
    t = st.term(v)
    if a:
        return [(V(sub(("shape", t), st.term(a[0]))), st)]
    return [(V(("shape", t)), st)]


def m_sort(I, v, a, kw, st, node):
    if v.ty in ("list",) or v.items is not None:
        r = b_sorted(I, [v], kw, st, node)
        nv = r[0][0]
        I.mutate(v, V(nv.t, "list", items=nv.items), "sort", st, node)
        return [(V(NONE), st)]
    return None


def m_index_select(I, v, a, kw, st, node):
    a, kw = positional("index_select", a, kw, st)
    if not kw and len(a) == 2 and st.term(a[0]) == N(0):
        return I.getitem(v, a[1], st, node)
    return [(V(("index_select", st.term(v)) + I.argterms(a, kw, st)), st)]


def m_setdefault(I, v, a, kw, st, node):
    k = st.term(a[0])
    if v.map is not None:
        hit = [q for p, q in v.map if p == k]
        if hit:
            return [(st.cur(hit[-1]), st)]
        if v.base is None and (is_const(k) and all(is_const(p) for p, _ in v.map) or not v.map):
            x = a[1] if len(a) > 1 else V(NONE)
            I.mutate(v, v.clone(map=v.map + [(k, x)]), "setdefault", st, node)
            return [(x, st)]
        return None
    t = st.term(v)
    out = []
    for b, s in I.decide(I.incond(k, v, st), st):
        if b:
            out += I.getitem(v, a[0], s, node)
        else:
            x = V(s.term(a[1]) if s.cur(a[1]).items is None and s.cur(a[1]).map is None else None) if False else a[1]
            I.setitem(v, a[0], x, s, node)
            c = s.cur(x)
            nx = c.clone(par=(s.cur(v), k)) if c.items is None and c.map is None else c
            s.forward(c, nx)
            out.append((nx, s))
    return out


def m_format(I, v, a, kw, st, node):
    return [(V(("format", st.term(v)) + I.argterms(a, kw, st), "str"), st)]


def m_mul(I, v, a, kw, st, node):
    return [(V(tm.mul(st.term(v), st.term(a[0]))), st)]


def m_div(I, v, a, kw, st, node):
    return [(V(tm.div(st.term(v), st.term(a[0]))), st)]


def m_sub(I, v, a, kw, st, node):
    return [(V(tm.sub_(st.term(v), st.term(a[0]))), st)]


_METHOD = {
    "append": m_append, "extend": m_extend, "add": m_add, "get": m_get, "keys": m_keys, "values": m_values, "items": m_items,
    "update": m_update, "clear": m_clear, "pop": m_pop, "copy": m_copy, "to": m_to, "t": m_t, "transpose": m_t, "mm": m_mm, "matmul": m_mm, "spmm": m_mm,
    "_values": m_vals, "_indices": m_inds, "indices": m_inds, "view": m_view, "reshape": m_view, "unsqueeze": m_unsqueeze, "squeeze": m_squeeze,
    "repeat": m_repeat, "to_dense": m_to_dense, "sum": m_reduce("sum"), "mean": m_reduce("mean"), "max": m_reduce("max"), "min": m_reduce("min"), "pow": m_pow, "spsoftmax": m_spsoftmax,
    "masked_fill": m_masked_fill, "masked_fill_": m_masked_fill_, "softmax": m_un("softmax"), "argsort": m_un("argsort"), "size": m_size, "sort": m_sort, "index_select": m_index_select,
    "isinf": m_un("isinf"), "isnan": m_un("isnan"), "setdefault": m_setdefault, **{k: m_setop(k) for k in SETOPS}, **{k: m_settest(k) for k in ("isdisjoint", "issubset", "issuperset")}, "mul": m_mul, "div": m_div, "sub": m_sub, "exp": m_un("exp"),
    "relu": m_un("relu"), "tanh": m_un("tanh"), "sqrt": lambda I, v, a, kw, st, node: [(V(tm.pow_(st.term(v), N(0.5))), st)],
    "reciprocal": lambda I, v, a, kw, st, node: [(V(tm.pow_(st.term(v), N(-1))), st)], "insert": None, "discard": None,
    "squeeze_": None,
}
for _n in ("contiguous", "cpu", "cuda", "detach", "float", "long", "double", "half", "numpy", "tolist", "item", "coalesce", "bool", "int", "astype", "type", "requires_grad_", "toarray", "flatten"):
    _METHOD[_n] = m_ident(_n in ("tolist", "item", "astype", "bool"))
_METHOD["bool"] = m_bool
_METHOD["clone"] = m_ident(True)


def m_coalesce(I, v, a, kw, st, node):
    t = st.term(v)
    if getattr(I, "entry_order", False) and t[0] == "T":
        # sorts the entries of a transposed matrix anew: same matrix, other entry order
        return [(V(("coal", t), "tensor" if v.ty == "tensor" else None, org=v.org), st)]
    return m_ident(False)(I, v, a, kw, st, node)


_METHOD["coalesce"] = m_coalesce
_METHOD = {k: v for k, v in _METHOD.items() if v is not None}
