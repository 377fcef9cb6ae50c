"""Comparison of an implementation with a reference definition by value numbering.

The reference is a small Python function held in the check.  It is never executed either: both are evaluated by the same abstract
interpreter on the same symbolic inputs, and every pair of paths whose path conditions can hold together must have the same observable
outcome (returned value, raised or not, final raw state).
"""
import ast
import textwrap

from . import terms as tm
from .interp import mkset, Undecided, V
from .repo import Func, Module
from .structs import RAW, SInterp, family, setup
from .terms import N, NONE, S, mk

PRELUDE = """
import random
import torch
import torch.nn as nn
import torch.nn.functional as F
import numpy as np
import scipy
import scipy.spatial
from copy import deepcopy
from typing import Any, Dict, List, Optional, Tuple, Union
import dhg
from dhg import Graph, DiGraph, BiGraph, Hypergraph
from dhg.utils.sparse import sparse_dropout
"""

OPAQUE_OPS = {"call", "mcall", "apply", "mutcall", "inplace", "attr", "missing", "mres", "rnd", "kwget", "exists"}
LOOPY = {"fold", "last", "acc", "bacc", "while"}


def ref_func(repo, src, cls=None, like=None, extra=""):
    src = textwrap.dedent(src)
    m = Module("dhg.__spec__", "/verif/sa/spec", PRELUDE + extra + "\n" + src, False)
    for s in m.tree.body:
        if isinstance(s, ast.FunctionDef) and s.name == "ref":
            static = like is not None and like.is_static
            if like is not None:
                anns = {x.arg: x.annotation for x in like.node.args.args + like.node.args.kwonlyargs}
                for x in s.args.args + s.args.kwonlyargs:
                    if x.annotation is None:
                        x.annotation = anns.get(x.arg)
            f = Func(m, s, None if static else cls)
            if static:
                f.decos.append("staticmethod")
            return f
    raise ValueError("no ref in reference")


def tensor(name):
    return V(("param", name), "tensor", org=frozenset([(("param", name), 0)]))


def listp(name):
    return V(("param", name), "list", org=frozenset([(("param", name), 0)]))


def observe(I, st, v, seen=()):
    v = st.cur(v)
    if v.items is not None:
        xs = ("list",) + tuple(observe(I, st, x, seen) for x in v.items)
        return mkset(xs) if v.ty == "set" else xs if v.ty == "list" else ("tup",) + xs[1:]
    if v.map is not None and v.base is None and v.default is None:
        return ("dict",) + tuple(sorted(((k, observe(I, st, x, seen)) for k, x in v.map), key=repr))
    if v.t is not None and v.t[0] == "obj":
        o = st.objs[v.t[1]]
        if v.t[1] in seen:
            return ("self",)
        if I.is_struct(o.cls):
            return ("struct", o.cls.name) + raw_obs(I, st, v)
        return ("object", o.cls.name) + tuple(sorted(((k, observe(I, st, x, seen + (v.t[1],))) for k, x in o.fields.items() if x.t is None or x.t[0] != "mmeth"), key=repr))
    return st.term(v)


def raw_obs(I, st, v, device=True):
    o = st.objs[v.t[1]]
    fam = family(I.repo, o.cls)
    out = []
    for f in RAW.get(fam, ()):
        x = o.fields.get(f)
        if x is None:
            out.append((f, ("init", o.name, f) if o.sym else ("unset",)))
        else:
            out.append((f, observe(I, st, x)))
    if device:
        x = o.fields.get("device")
        out.append(("device", ("init", o.name, "device") if x is None else st.term(x)))
    return tuple(out)


def ops_of(t):
    out = set()
    for x in tm.walk(t):
        if x[0] in OPAQUE_OPS:
            if x[0] == "call":
                out.add(("call", x[1]))
            elif x[0] in ("mcall", "mutcall", "inplace"):
                out.add((x[0], x[2] if len(x) > 2 else None))
            elif x[0] == "attr":
                out.add(("attr", x[-1]))
            elif x[0] == "rnd":
                out.add(("rnd", x[2]))
            else:
                out.add((x[0],))
        elif x[0] in LOOPY:
            out.add(("loop", x[0]))
    return out


def min_diff(a, b):
    """Smallest pair of corresponding subterms in which a and b differ."""
    while True:
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b:
            return a, b
        if len(a) != len(b) or (isinstance(a[0], str) and a[0] != b[0]):
            return a, b
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if len(d) != 1 or not isinstance(d[0][0], tuple) or not isinstance(d[0][1], tuple):
            return a, b
        a, b = d[0]


def loops_in(t):
    return {y for y in tm.walk(t) if y[0] in ("fold", "last")} if isinstance(t, tuple) else None


def spots(a, b, out=None):
    """Distinct pairs of corresponding subterms in which a and b differ; unordered parts are aligned by their common members."""
    out = set() if out is None else out
    if len(out) > 3 or a == b:
        return out
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b or len(a) != len(b) or (isinstance(a[0], str) and a[0] != b[0]):
        out.add((a, b))
        return out
    d = [(x, y) for x, y in zip(a, b) if x != y]
    if len(d) > 1 and (isinstance(a[0], str) or isinstance(a[1], bool)) and loops_in(a) == loops_in(b):
        below = spots_all(d)
        if len(below) == 1 and isinstance(a[0], str):
            out |= below
        elif isinstance(a[1], bool):
            out.add((a[0], b[0]))
        else:
            out.add((a, b))
        return out
    if len(d) > 1:
        xs, ys = [x for x in a if x not in b], [y for y in b if y not in a]
        if len(xs) == len(ys) == 1:
            d = [(xs[0], ys[0])]
        elif len(xs) == len(ys) and not isinstance(a[0], str) and all(isinstance(x, tuple) for x in a + b):
            # pair every member with the one it shares most with
            best = []
            rest = list(ys)
            for x in xs:
                c = [(len(spots(x, y, set())), i) for i, y in enumerate(rest)]
                best.append((x, rest.pop(min(c)[1])))
            if len(spots_all(best)) < len(spots_all(d)):
                d = best
    for x, y in d:
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            out.add((a, b))
        else:
            spots(x, y, out)
    return out


def spots_all(pairs):
    out = set()
    for x, y in pairs:
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            out.add((x, y))
        else:
            spots(x, y, out)
    return out


def inputs(t, out=None):
    """Inputs a term reads: parameters, fields, and for containers whether their contents (not only their keys) are read."""
    out = set() if out is None else out
    if not isinstance(t, tuple) or not t:
        return out
    op = t[0]
    if op == "param" or op == "init":
        out.add(t)
        out.add(("contents", t))
        return out
    if op in ("elem", "each", "deach", "keys", "in", "len", "truth", "exists", "isinstance") or op == "eq" and NONE in t:
        for x in t[1:]:
            if isinstance(x, tuple):
                y = x[1] if x and x[0] in ("keys", "list_of") and isinstance(x[1], tuple) else x
                if y and y[0] == "init":
                    out.add(y)
                else:
                    inputs(x, out)
        return out
    if op == "inds" and len(t) == 2 and isinstance(t[1], tuple) and t[1][0] == "coo":
        return inputs(t[1][1], out)
    if op in ("values", "items", "sub", "get") and isinstance(t[1], tuple):
        r = t[1]
        while isinstance(r, tuple) and r and r[0] in ("sub", "get", "dset", "ddel"):
            r = r[1]
        if isinstance(r, tuple) and r and r[0] == "init":
            out.add(("contents", r))
    for x in t:
        if isinstance(x, tuple):
            inputs(x, out)
    return out


RESHAPING_VALUES = {"round", "floor", "ceil", "trunc", "fix", "sign", "exp", "log", "sqrt", "rsqrt", "square", "reciprocal", "neg", "frac", "sin", "cos", "tanh"}

# what these make of an arbitrary argument differs from the argument by more than the order of its elements
RESHAPING_INPUTS = {"unique", "unique_consecutive", "argsort", "cumsum", "cumprod", "bincount"}

COLLAPSE = {"mean", "sum", "max", "min", "median", "prod", "std", "var", "len"}


def unwrap(t, names, only=None):
    """The term without the named functions of one argument."""
    def go(z):
        if only and len(z) == 3 and not ({z[1], z[2]} & only):
            return None
        if z[0] in ("mcall", "mutcall", "inplace") and len(z) == 3 and z[2].rstrip("_") in names:
            return unwrap(z[1], names, only)
        if z[0] == "call" and len(z) == 3 and z[1].split(".")[-1] in names:
            return unwrap(z[2], names, only)
    return tm.subst(t, go)


def free_acc(t):
    """A loop variable outside the loop it belongs to: what it holds there is not summarised."""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "acc":
        return True
    if t[0] in LOOPY:
        return False
    return any(free_acc(x) for x in t)


def undecidable(impl, ref, known=()):
    """The implementation uses an operator the algebra does not interpret and the reference does not use: inequality proves nothing."""
    a, b = min_diff(impl, ref)
    oa, ob = ops_of(a), ops_of(b)
    if free_acc(impl):
        return "a value carried through an iteration that is left early"
    miss = (inputs(ref) - inputs(impl) - known) or (inputs(b) - inputs(a) - known)
    if miss and not any(tm.contains(impl, lambda z: z[0] in ("acc", "bacc", "fold", "last", "opaque")) for _ in (0,)):
        return None  # whatever the operators mean, the result cannot follow an input it does not read
    if any(o[0] == "loop" for o in oa | ob):
        d = spots(impl, ref)
        if len(d) == 1:
            # the same loops with one term exchanged
            (a, b), = d
            if all(isinstance(z, tuple) and z for z in (a, b)) and loops_in(a) == loops_in(b) and not (ops_of(a) - {("loop", x) for x in LOOPY}) - ops_of(ref):
                return None
        return "differs inside a loop the summary does not normalise"
    if oa - ops_of(ref):
        extra = {o[1].split(".")[-1].rstrip("_") for o in oa - ops_of(ref) if o[0] in ("call", "mcall", "mutcall", "inplace")}
        if impl[0] == "call" and len(impl) == 3 and impl[1].split(".")[-1] in COLLAPSE and impl[2] == ref and ref[0] in ("each", "list", "tuple"):
            return None  # one number in the place of the sequence it is computed from
        if extra and extra <= RESHAPING_VALUES and len(extra) == len(oa - ops_of(ref)) and unwrap(impl, extra) == ref:
            return None  # the defined value with a function that changes it put around a part
        if extra and extra <= RESHAPING_INPUTS and len(extra) == len(oa - ops_of(ref)) and unwrap(impl, extra, inputs(ref)) == ref:
            return None  # the same for a function of one of the inputs
        return "uninterpreted operators " + ", ".join(sorted(map(str, oa - ops_of(ref))))
    return None


def compat(I, st, facts):
    for c, b in facts.items():
        k = I.known(c, st)
        if k is not None and k != b:
            return False
    return True


def canon(t):
    """Positions in a range counted by its elements."""
    if not tm.contains(t, lambda z: z[0] == "idx" and z[1][0] == "range"):
        return t

    def go(z):
        if z[0] == "idx" and z[1][0] == "range" and len(z) == 3:
            return tm.add(("elem", z[1], z[2]), tm.mul(N(-1), z[1][1] if len(z[1]) > 2 else N(0)))
    return tm.subst(t, go)


def apply_facts(t, facts):
    """Rewrite with the equalities to constants that hold on the path."""
    m = {}
    for c, b in facts.items():
        if b and c[0] == "eq":
            x, y = c[1], c[2]
            if tm.is_const(x) and not tm.is_const(y):
                m[y] = x
            elif tm.is_const(y) and not tm.is_const(x):
                m[x] = y
    if not m:
        return t
    return tm.subst(t, lambda z: m.get(z))


def device_move(I, func, args, kw, st, node):
    """Moving between devices changes no value (S07 decides that nothing is left behind)."""
    d = args[1] if len(args) > 1 else kw.get("device")
    if len(args) != 1 + (len(args) > 1) or d is None or args[0].t is None or args[0].t[0] != "obj":
        return None
    st.objs[args[0].t[1]].fields["device"] = d
    return [(args[0], st)]


class Comparer:
    def __init__(self, chk, mode="miss", opaque=(), maxstates=500):
        self.chk, self.mode, self.opaque, self.maxstates = chk, mode, set(opaque), maxstates
        self.tweak = None
        self.norm = None
        self.norm_st = None

    def interp(self):
        I = SInterp(self.chk.repo, self.mode, opaque=self.opaque, maxstates=self.maxstates)
        if self.mode != "to":
            for c in I.base_struct + [self.chk.repo.cls(n) for n in RAW]:
                f = c.methods.get("to")
                if f is not None:
                    I.intercept[f.qual] = device_move
        if self.tweak:
            self.tweak(I)
        return I

    def outcomes(self, func, cls, seeds, facts, fields=None):
        I = self.interp()
        st, a, kw = setup(I, cls, func, given=seeds) if cls is not None else _setup_free(I, func, seeds)
        for c, b in facts or ():
            st.fact(c, b)
        if cls is not None and a and family(I.repo, a[0].ty if hasattr(a[0].ty, "methods") else I.repo.cls(cls)) == "BiGraph":
            # a bipartite graph has no loops: its own mutators never write these fields
            o = st.objs[a[0].t[1]]
            o.fields["_raw_selfloop_dict"] = V(None, "dict", map=[])
            o.fields["_has_extra_selfloop"] = V(("b", False))
        if fields:
            st.objs[a[0].t[1]].fields.update(fields)
        outs = I.run(func, a, kw, st)
        self.chk.analysed |= I.inlined
        return I, a, outs

    def compare(self, rule, construct, cls, impl, ref_src, seeds=None, facts=(), what="ret", post=None, extra="", raises=True):
        chk = self.chk
        seeds = seeds or {}
        try:
            ref = ref_func(chk.repo, ref_src, cls if not isinstance(cls, str) else chk.repo.cls(cls), like=impl, extra=extra)
            rp = set(x.arg for x in ref.node.args.args + ref.node.args.kwonlyargs)
            ri = self.outcomes(impl, cls, {k: v() if callable(v) else v for k, v in seeds.items()}, facts)
            rr = self.outcomes(ref, cls, {k: v() if callable(v) else v for k, v in seeds.items() if k in rp}, facts)
        except (Undecided, RecursionError) as e:
            chk.und(construct, str(e) or type(e).__name__)
            return
        return self.match(rule, construct, impl.loc, ri, rr, what, post, raises)

    def match(self, rule, construct, loc, ri, rr, what="ret", post=None, raises=True):
        chk = self.chk
        (Ii, ai, oi), (Ir, ar, orr) = ri, rr
        pairs = 0
        bad = None
        und = None
        for t in Ii.sizes:
            x, y = Ii.sizes[t], Ir.sizes.get(t, ())
            if len(x) == 1 == len(y) and x != y and None not in x and None not in y:
                bad = f"a sparse matrix is given the size {tm.show(('list',) + next(iter(x)), 200)}, expected {tm.show(('list',) + next(iter(y)), 200)}"
        for k1, v1, s1 in oi:
            for k2, v2, s2 in orr:
                if not compat(Ii, s1, s2.facts) or not compat(Ir, s2, s1.facts):
                    continue
                if {c for c in s1.order if c[0] == "exc"} != {c for c in s2.order if c[0] == "exc"}:
                    continue  # an exception an external call might raise, assumed on one side only
                if k1 == "raise" and k2 == "raise":
                    pairs += 1
                    if "state" in what and ai and ar:
                        o1, o2 = raw_obs(Ii, s1, ai[0]), raw_obs(Ir, s2, ar[0])
                        if o1 != o2:
                            bad = bad or f"on rejection the state is left as {tm.show(o1, 300)}, expected {tm.show(o2, 300)}"
                    continue
                if k1 != k2:
                    if not raises:
                        continue
                    extra_i = [c for c in s1.order if c not in s2.facts and ops_of(c) - ops_of(tuple(s2.order))]
                    msg = f"{'raises ' + str(v1) if k1 == 'raise' else 'returns'} where the definition {'rejects the call' if k2 == 'raise' else 'returns a value'} (path: {path_str(s1, s2)})"
                    if extra_i:
                        und = und or ("outcome depends on uninterpreted condition " + tm.show(extra_i[0], 120))
                    else:
                        bad = bad or msg
                    continue
                pairs += 1
                fc = dict(s1.facts)
                fc.update(s2.facts)
                cmpd = []
                if "ret" in what:
                    cmpd.append(("value", observe(Ii, s1, v1), observe(Ir, s2, v2)))
                if "state" in what and ai and ar:
                    cmpd.append(("final state", raw_obs(Ii, s1, ai[0]), raw_obs(Ir, s2, ar[0])))
                if post:
                    for nm, x, y in post(Ii, ai, v1, s1, Ir, ar, v2, s2):
                        cmpd.append((nm, x, y))
                for nm, x, y in cmpd:
                    if self.norm:
                        x, y = self.norm(x), self.norm(y)
                    if self.norm_st:
                        x, y = self.norm_st(x, s1.facts), self.norm_st(y, s2.facts)
                    if x == y:
                        continue
                    x2, y2 = canon(apply_facts(x, fc)), canon(apply_facts(y, fc))
                    if x2 == y2:
                        continue
                    why = undecidable(x2, y2, set().union(*[inputs(c) for c in s1.facts]) if s1.facts else set())
                    p, q = min_diff(x2, y2)
                    msg = f"{nm} is {tm.show(p, 300)} where the definition gives {tm.show(q, 300)} (path: {path_str(s1, s2)})"
                    if why:
                        und = und or f"{why}: {msg}"
                    else:
                        bad = bad or msg
        if bad:
            chk.finding(rule, construct, loc, bad)
        elif und:
            chk.und(construct, und)
        elif not pairs:
            chk.und(construct, "no compatible pair of paths")
        else:
            chk.count("path_pairs", pairs)
            chk.discharge(f"{construct}: {len(oi)} x {len(orr)} paths, {pairs} pairs equal")
        chk.count("compared")
        return oi


def path_str(s1, s2):
    out = []
    for c in list(s1.order) + [c for c in s2.order if c not in s1.facts]:
        b = s1.facts.get(c, s2.facts.get(c))
        if c[0] == "isinstance" or (c[0] == "lt" and c[1] == N(0) and c[2][0] == "init"):
            continue
        out.append(("" if b else "not ") + tm.show(c, 80))
    out = [x for x in out if "_raw_" not in x or "None" not in x]
    return "; ".join(out if len(out) <= 10 else out[:2] + ["..."] + out[-8:])


def _setup_free(I, func, seeds):
    from .structs import state, sym_args
    st = state(func.module)
    kw = sym_args(I, func, st, skip_self=func.cls is not None, given=seeds)
    return st, [], kw
