"""S08 edge identity, S09 merging, S16 unknown groups, S17 argument validation."""
import ast
import itertools

from .. import terms as tm
from ..interp import Undecided, V
from ..spec import Comparer, apply_facts, compat, observe, ops_of, path_str, raw_obs, ref_func, undecidable, inputs
from ..structs import DEPTH, DRAWS, RAW, STRUCTS, SInterp, family, members, setup
from ..terms import N, NONE, S
from .cache import flat
from .structm import shared_roots

OPS = ("mean", "sum", "max")


def vid(x):
    return ("param", "v_" + x)


def wt(i):
    return ("param", f"w{i}")


def lit(xs, ty="list"):
    """Nested literal list of terms as a value."""
    return V(None, ty, items=[lit(x, ty) if isinstance(x, list) else (x if isinstance(x, V) else V(x)) for x in xs])


def vfacts(names, cls):
    """The ids are distinct ints in range, in ascending order."""
    out = []
    n = [("init", "self", "_num_v")] + ([("init", "self", "_num_u")] if cls == "BiGraph" else [])
    for x in names:
        out.append((("isinstance", vid(x), ("int",)), True))
        out.append((("lt", vid(x), N(0)), False))
        for b in n:
            out.append((("lt", vid(x), b), True))
    for i in range(4):
        out.append((("isinstance", wt(i), ("float",)), True))
    for x, y in itertools.combinations(names, 2):
        out.append((("lt", vid(x), vid(y)), True))
        out.append((("lt", vid(y), vid(x)), False))
    return out


def invariants(cls, names):
    """No stored two-vertex edge is a loop; undirected edges are stored with the smaller vertex first (S08)."""
    out = []
    if cls in ("Graph", "DiGraph"):
        for x in names:
            out.append((("in", ("tup", vid(x), vid(x)), ("init", "self", "_raw_e_dict")), False))
    return out


GRAPH_ADD = """
def ref(self, e_list, e_weight, merge_op):
    for (a, b), w in zip(e_list, e_weight):
        {order}
        {loop}if (a, b) in self._raw_e_dict:
            self._raw_e_dict[(a, b)] = merge(merge_op, self._raw_e_dict[(a, b)], w)
        else:
            self._raw_e_dict[(a, b)] = w
"""
MERGE = """
def merge(op, x, y):
    if op == "mean":
        return (x + y) / 2
    if op == "sum":
        return x + y
    if op == "max":
        return max(x, y)
    raise ValueError()
"""
LOOP = """if a == b:
            if a in self._raw_selfloop_dict:
                self._raw_selfloop_dict[a] = merge(merge_op, self._raw_selfloop_dict[a], w)
            else:
                self._raw_selfloop_dict[a] = w
        el"""
ORDER = """if b < a:
            a, b = b, a"""
ADD_REF = {"Graph": GRAPH_ADD.format(order=ORDER, loop=LOOP), "DiGraph": GRAPH_ADD.format(order="", loop=LOOP), "BiGraph": GRAPH_ADD.format(order="", loop="")}
REMOVE_REF = {
    c: f"""
def ref(self, e_list):
    for a, b in e_list:
        {ORDER if c == "Graph" else ""}
        {'''if a == b:
            self._raw_selfloop_dict.pop(a, None)
        else:
            self._raw_e_dict.pop((a, b), None)''' if c != "BiGraph" else "self._raw_e_dict.pop((a, b), None)"}
""" for c in ("Graph", "DiGraph", "BiGraph")
}
HG_ADD = """
def ref(self, e_list, e_weight, merge_op, group_name):
    if group_name not in self._raw_groups:
        self._raw_groups[group_name] = {}
    for e, w in zip(e_list, e_weight):
        c = (tuple(e), tuple(e))
        if c in self._raw_groups[group_name]:
            self._raw_groups[group_name][c] = {"w_e": merge(merge_op, self._raw_groups[group_name][c]["w_e"], w)}
        else:
            self._raw_groups[group_name][c] = {"w_e": w}
"""
a, b, c, d = (vid(x) for x in "abcd")
PAIRS = [
    [[a, b]], [[b, a]], [[a, a]], [[a, b], [b, a]], [[b, a], [a, b]], [[a, b], [a, b]], [[a, a], [a, a]], [[a, b], [c, d]], [[d, c], [b, a]],
    [[a, b], [a, c]], [[c, a], [b, a]], [[a, a], [a, b]], [[a, b], [b, b]], [[a, b], [b, a], [a, b]], [[a, b], [c, d], [b, a]], [[a, b], [b, c], [c, d]],
]
HYPER = [
    [[a, b, c]], [[c, a, b]], [[b, a]], [[a]], [[a, b, c], [c, b, a]], [[a, b], [b, c]], [[b, a], [a, b]], [[a, b], [c, d], [b, a]], [[a, b], [a, b, c], [c, b, a]],
]


def sname(e_list):
    return "[" + ",".join("".join(x[1][2:] for x in e) for e in e_list) + "]"


def srt(e):
    return sorted(e, key=lambda t: t[1])


def s09(chk):
    repo = chk.repo
    chk.rule("R1", "adding edges to an arbitrary structure: an existing edge gets the merged weight, a new one exactly its own (1 by default), nothing else changes")
    chk.rule("R2", "removing edges from an arbitrary structure removes exactly the named ones")
    chk.rule("R3", "the constructor stores exactly the given edges with the given weights")
    for cn in ("Graph", "DiGraph", "BiGraph"):
        cls = repo.cls(cn)
        add, rem = repo.method(cls, "add_edges"), repo.method(cls, "remove_edges")
        for el in PAIRS:
            facts = vfacts("abcd", cn) + invariants(cn, "abcd")
            ws = [wt(i) for i in range(len(el))]
            for op in OPS:
                for weighted in (True, False):
                    if not weighted and op == "max":
                        continue
                    # reference always sees a full weight list
                    compare(chk, "R1", f"{cn}.add_edges/{sname(el)}/{op}" + ("" if weighted else "/unweighted"), cls, add, ADD_REF[cn],
                            {"e_list": lambda: lit(el), "e_weight": (lambda: lit(ws)) if weighted else (lambda: V(NONE)), "merge_op": lambda: V(S(op))},
                            {"e_list": lambda: lit(el), "e_weight": (lambda: lit(ws)) if weighted else (lambda: lit([N(1)] * len(el))), "merge_op": lambda: V(S(op))}, facts)
            compare(chk, "R2", f"{cn}.remove_edges/{sname(el)}", cls, rem, REMOVE_REF[cn], {"e_list": lambda: lit(el)}, {"e_list": lambda: lit(el)}, facts)
        for el, w in (([a, b], True), ([b, a], False)):
            facts = vfacts("abcd", cn) + invariants(cn, "abcd")
            compare(chk, "R1", f"{cn}.add_edges/single/{'w' if w else 'unweighted'}", cls, add, ADD_REF[cn],
                    {"e_list": lambda: lit(el), "e_weight": lambda: V(wt(0) if w else NONE), "merge_op": lambda: V(S("mean"))},
                    {"e_list": lambda: lit([el]), "e_weight": lambda: lit([wt(0) if w else N(1)]), "merge_op": lambda: V(S("mean"))}, facts)
            compare(chk, "R2", f"{cn}.remove_edges/single", cls, rem, REMOVE_REF[cn], {"e_list": lambda: lit(el)}, {"e_list": lambda: lit([el])}, facts)
    hg = repo.cls("Hypergraph")
    add, rem = repo.method(hg, "add_hyperedges"), repo.method(hg, "remove_hyperedges")
    for el in HYPER:
        ws = [wt(i) for i in range(len(el))]
        facts = vfacts("abcd", "Hypergraph")
        for op in OPS:
            for kind in ("list", "one", "none"):
                if kind == "one" and op != "sum" or kind == "none" and op == "max":
                    continue
                full = {"list": ws, "one": [wt(0)] * len(el), "none": [N(1)] * len(el)}[kind]
                f2 = facts + [(("isinstance", w, ("float",)), True) for w in ws]
                for group in (S("main"), S("g"), ("param", "group_name")):
                    if group[0] == "param" and (op != "mean" or kind != "list"):
                        continue
                    compare(chk, "R1", f"Hypergraph.add_hyperedges/{sname(el)}/{op}/{kind}/{group[1]}", hg, add, HG_ADD,
                            {"e_list": lambda: lit(el), "e_weight": lambda: {"list": lit(ws), "one": V(wt(0), "float"), "none": V(NONE)}[kind], "merge_op": lambda: V(S(op)), "group_name": lambda: V(group)},
                            {"e_list": lambda: lit([srt(e) for e in el]), "e_weight": lambda: lit(full), "merge_op": lambda: V(S(op)), "group_name": lambda: V(group)}, f2)
        for form in ("one group", "all groups"):
            compare(chk, "R2", f"Hypergraph.remove_hyperedges/{sname(el)}/{form}", hg, rem, HG_REMOVE[form],
                    {"e_list": lambda: lit(el), "group_name": lambda: V(S("g") if form == "one group" else NONE)},
                    {"e_list": lambda: lit([srt(e) for e in el])}, facts, groups=True)
    compare(chk, "R2", "Hypergraph.remove_group", hg, repo.method(hg, "remove_group"), "def ref(self):\n    self._raw_groups.pop('g', None)\n",
            {"group_name": lambda: V(S("g"))}, {}, [], groups=True)
    chk.rule("R4", "switching extra self-loops on or off changes the flag only; removing self-loops empties the loop table and switches the flag off")
    for cn in ("Graph", "DiGraph"):
        cls = repo.cls(cn)
        for m, body in (("add_extra_selfloop", "self._has_extra_selfloop = True"), ("remove_extra_selfloop", "self._has_extra_selfloop = False"),
                        ("remove_selfloop", "self._raw_selfloop_dict = {}\n    self._has_extra_selfloop = False")):
            compare(chk, "R4", f"{cn}.{m}", cls, repo.method(cls, m), f"def ref(self):\n    {body}\n", {}, {}, [])
    # construction
    for cn in ("Graph", "DiGraph", "BiGraph", "Hypergraph"):
        construct(chk, repo, cn)
    chk.floor("compared", 250)


HG_REMOVE = {
    "one group": """
def ref(self, e_list):
    for e in e_list:
        self._raw_groups["g"].pop((tuple(e), tuple(e)), None)
""",
    "all groups": """
def ref(self, e_list):
    for e in e_list:
        for name in ("main", "g"):
            self._raw_groups[name].pop((tuple(e), tuple(e)), None)
""",
}


def two_groups(I, st, key):
    """A hypergraph with two groups of arbitrary contents."""
    gs = [(S(n), V(("group", n), "dict")) for n in ("main", "g")]
    st.objs[key].fields["_raw_groups"] = V(None, "dict", map=gs)


def outcomes(chk, func, cls, seeds, facts, groups=False):
    I = SInterp(chk.repo, "miss", maxstates=500)
    st, args, kw = setup(I, cls, func, given={k: v() for k, v in seeds.items()})
    for t, x in facts:
        st.fact(t, x)
    key = args[0].t[1]
    if family(chk.repo, cls) == "BiGraph":
        o = st.objs[key]
        o.fields["_raw_selfloop_dict"] = V(None, "dict", map=[])
        o.fields["_has_extra_selfloop"] = V(("b", False))
    if groups:
        two_groups(I, st, key)
    outs = I.run(func, args, kw, st)
    chk.analysed |= I.inlined
    return I, args, outs


def compare(chk, rule, construct, cls, impl, ref_src, seeds_i, seeds_r, facts, groups=False):
    ref = ref_func(chk.repo, ref_src, cls, extra=MERGE)
    try:
        ri = outcomes(chk, impl, cls, seeds_i, facts, groups)
        rr = outcomes(chk, ref, cls, seeds_r, facts, groups)
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return
    Comparer(chk).match(rule, construct, impl.loc, ri, rr, "state")


def construct(chk, repo, cn):
    cls = repo.cls(cn)
    names = "abcd"
    facts = [f for f in vfacts(names, cn)]
    n = ("param", "num_v")
    params = "num_u, num_v" if cn == "BiGraph" else "num_v"
    half = lambda x, y: tm.add(tm.mul(N(0.5), x), tm.mul(N(0.5), y))
    merge = {"mean": half, "sum": tm.add, "max": lambda x, y: ("max",) + tuple(sorted((x, y), key=repr))}
    forms = [("weighted", None), ("unweighted", None)] + [("conflict", op) for op in OPS]
    if cn in ("Graph", "DiGraph"):
        forms += [("extra self-loops", x) for x in (True, False)] + [("loop", None)]
    for form, arg in forms:
        el = [[b, a], [b, a] if cn in ("DiGraph", "BiGraph") else [a, b]] if form == "conflict" else [[b, a], [a, a]] if form == "loop" else [[b, a], [c, d]]
        ws = [wt(0), wt(1)]
        more = {"conflict": f", merge_op={arg!r}", "extra self-loops": f", extra_selfloop={arg!r}"}.get(form, "")
        src = f"""
def ref({params}, e_list, e_weight, w0, w1, device):
    return dhg.{cn}({", ".join(f"{p}={p}" for p in params.split(", "))}, e_list=e_list, e_weight=e_weight, device=device{more})
"""
        keys = [("tup",) + tuple(e if cn in ("DiGraph", "BiGraph") else srt(e)) for e in el]
        if cn == "Hypergraph":
            keys = [("tup", k, k) for k in keys]
        w = [N(1)] * 2 if form == "unweighted" else ws
        pairs = list(zip(keys, w))
        loops = ()
        if form == "conflict":
            pairs = [(keys[0], merge[arg](wt(0), wt(1)))]
        if form == "loop":
            pairs, loops = pairs[:1], ((a, w[1]),)
        f = ref_func(repo, src, None)
        I = SInterp(repo, "miss", maxstates=300)
        from ..structs import state, sym_args
        st = state(f.module)
        kw = sym_args(I, f, st, skip_self=False, given={"e_list": lit(el), "e_weight": V(NONE) if form == "unweighted" else lit(ws)})
        for t, x in facts:
            t2 = tuple(("param", y[2][1:]) if isinstance(y, tuple) and y and y[0] == "init" else y for y in t)
            st.fact(t2, x)
        for p in ("num_v", "num_u"):
            st.fact(("isinstance", ("param", p), ("int",)), True)
            st.fact(("lt", N(0), ("param", p)), True)
        tag = f"{cn}(...)/{form}" + (f" {arg}" if arg is not None else "")
        try:
            outs = I.run(f, [], kw, st)
        except (Undecided, RecursionError) as e:
            chk.und(tag, str(e))
            continue
        chk.count("compared")
        init = repo.method(cls, "__init__")
        rets = [(v, s) for k, v, s in outs if k == "ret"]
        if not rets:
            chk.finding("R3", tag, init.loc, "valid arguments are rejected")
            continue
        bad = False
        for v, s in rets:
            got = dict(raw_obs(I, s, v))
            want = {"_num_v": n, "device": ("param", "device")}
            if cn == "BiGraph":
                want["_num_u"] = ("param", "num_u")
            o = s.objs[v.t[1]].fields

            def table(x):
                x = s.cur(x) if x is not None else None
                if x is None or x.map is None or x.base is not None:
                    return ("?", observe(I, s, x) if x is not None else None)
                return tuple(sorted(((k, observe(I, s, y)) for k, y in x.map), key=repr))
            if cn == "Hypergraph":
                pairs_h = [(k, ("dict", (S("w_e"), x))) for k, x in pairs]
                groups = s.cur(o["_raw_groups"])
                if groups.map is None or groups.base is not None or [k for k, _ in groups.map] != [S("main")]:
                    got["_raw_groups"] = ("?", observe(I, s, groups))
                else:
                    got["_raw_groups"] = table(groups.map[0][1])
                want["_raw_groups"] = tuple(sorted(pairs_h, key=repr))
            else:
                got["_raw_e_dict"] = table(o.get("_raw_e_dict"))
                want["_raw_e_dict"] = tuple(sorted(pairs, key=repr))
                if cn != "BiGraph":
                    got["_raw_selfloop_dict"] = table(o.get("_raw_selfloop_dict"))
                    want["_raw_selfloop_dict"] = loops
                    want["_has_extra_selfloop"] = ("b", arg is True and form == "extra self-loops")
            for k, y in want.items():
                z = got.get(k)
                if z != y and apply_facts(z, s.facts) != apply_facts(y, s.facts):
                    if ops_of(z if isinstance(z, tuple) else ("?",)):
                        chk.und(tag, f"{k} is {str(z)[:200]}")
                    else:
                        chk.finding("R3", f"{tag}/{k}", init.loc, f"{k} is {str(z)[:200]}, expected {str(y)[:200]}")
                    bad = True
        if not bad:
            chk.discharge(tag)


# ---------------------------------------------------------------------------------------------------- S08
def s08(chk):
    repo = chk.repo
    chk.rule("R1", "the effect of adding / removing an undirected edge or hyperedge does not depend on the order its vertices are listed in")
    chk.rule("R2", "an edge added twice in different vertex orders is stored once and reported once")
    chk.rule("R3", "directed and bipartite edges keep the order of their endpoints")
    g = repo.cls("Graph")
    for m in ("add_edges", "remove_edges"):
        f = repo.method(g, m)
        for op in OPS if m == "add_edges" else (None,):
            for e1, e2 in (([[a, b]], [[b, a]]), ([[a, b], [c, d]], [[b, a], [d, c]]), ([[a, b], [b, c]], [[a, b], [c, b]]), ([[a, b], [a, b]], [[a, b], [b, a]]), ([a, b], [b, a])):
                if m == "add_edges":
                    flat_ = not isinstance(e1[0], list)
                    ws = (lambda: V(wt(0))) if flat_ else (lambda: lit([wt(i) for i in range(len(e1))]))
                    more = {"e_weight": ws, "merge_op": lambda: V(S(op))}
                else:
                    more = {}
                self_compare(chk, f"Graph.{m}/{op or ''}/{name2(e1)}~{name2(e2)}", g, f, dict(more, e_list=lambda: lit(e1)), dict(more, e_list=lambda: lit(e2)),
                             vfacts("abcd", "Graph") + invariants("Graph", "abcd"))
    h = repo.cls("Hypergraph")
    for m in ("add_hyperedges", "remove_hyperedges"):
        f = repo.method(h, m)
        for op in OPS if m == "add_hyperedges" else (None,):
            base = [a, b, c]
            for p in itertools.permutations(base):
                if list(p) == base:
                    continue
                for form in ("listed", "bare", "tuples"):
                    wrap = {"listed": lambda e: lit([e]), "bare": lambda e: lit(e), "tuples": lambda e: lit([lit(e, "tuple")], "tuple")}[form]
                    for group in ("main", "g", None) if form == "listed" else ("main",) if m == "add_hyperedges" else ("main", None):
                        if group is None and m == "add_hyperedges":
                            continue
                        more = {"group_name": (lambda: V(S(group))) if group else (lambda: V(NONE))}
                        if m == "add_hyperedges":
                            more.update({"e_weight": lambda: lit([wt(0)]), "merge_op": lambda: V(S(op))})
                        self_compare(chk, f"Hypergraph.{m}/{op or ''}/{form} {name2([base])}~{name2([list(p)])}/{group}", h, f, dict(more, e_list=lambda: wrap(base)),
                                     dict(more, e_list=lambda: wrap(list(p))), vfacts("abcd", "Hypergraph"), groups=True)
    # stored once, reported once
    for cn in STRUCTS:
        cls = repo.cls(cn)
        call = "add_hyperedges" if cn == "Hypergraph" else "add_edges"
        directed = cn in ("DiGraph", "BiGraph")
        for order in ([[a, b], [b, a]], [[b, a], [a, b]], [[b, a]], [[a, b]]):
            rule = "R3" if directed else "R2"
            tag = f"{cn}.{call}{sname(order)} on an empty structure"
            f = ref_func(repo, f"def ref(self, es):\n    self.{call}(es)\n    return (self.e, self.num_e)\n", cls)
            I = SInterp(repo, "miss", maxstates=300)
            st, args, kw = setup(I, cls, f, given={"es": lit(order)})
            o = st.objs[args[0].t[1]]
            for fld in ("_raw_e_dict", "_raw_selfloop_dict", "_raw_groups"):
                o.fields[fld] = V(None, "dict", map=[])
            o.fields["_has_extra_selfloop"] = V(("b", False))
            for t, x in vfacts("abcd", cn):
                st.fact(t, x)
            try:
                outs = I.run(f, args, kw, st)
            except (Undecided, RecursionError) as e:
                chk.und(tag, str(e))
                continue
            chk.analysed |= I.inlined
            chk.count("compared")
            loc = repo.method(cls, call).loc
            seen = []
            for e in order:
                k = ("tup",) + tuple(e if directed else srt(e))
                if k not in seen:
                    seen.append(k)
            want = ("tup", ("tup", ("list",) + tuple(seen), ("list",) + tuple(N(1) for _ in seen)), N(len(seen)))
            ok = bool(outs)
            for k, v, s in outs:
                if k == "raise":
                    chk.finding(rule, tag, loc, f"valid edges are rejected with {v}")
                    ok = False
                    continue
                got = lists_as_tuples(observe(I, s, v))
                if got != lists_as_tuples(want):
                    ok = False
                    if ops_of(got):
                        chk.und(tag, f"reported {tm.show(got, 200)}")
                    else:
                        chk.finding(rule, tag, loc, f"reported edges, weights and count are {tm.show(got, 200)}, expected {tm.show(want, 200)}")
            if ok:
                chk.discharge(tag)
    chk.floor("compared", 60)


def lists_as_tuples(t):
    if isinstance(t, tuple) and t and t[0] == "list":
        t = ("tup",) + t[1:]
    return tuple(lists_as_tuples(x) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def name2(e):
    return sname(e) if isinstance(e[0], list) else "single " + sname([e])


def self_compare(chk, construct, cls, f, s1, s2, facts, groups=False):
    try:
        r1 = outcomes(chk, f, cls, s1, facts, groups)
        r2 = outcomes(chk, f, cls, s2, facts, groups)
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return
    Comparer(chk).match("R1", construct, f.loc, r1, r2, "state")


# ---------------------------------------------------------------------------------------------------- S16, S17
def must_raise(chk, construct, cls, func, given, facts, prop="the call", mode="miss", groups=False, need_raw=True, silent_ok=False, no_cache=False, prepare=None):
    """Every path of the call ends in an error, with the raw state as it was."""
    I = SInterp(chk.repo, mode, maxstates=600)
    chk.count("calls")
    try:
        st, args, kw = setup(I, cls, func, given={k: v() for k, v in given.items()})
        for t, x in facts:
            st.fact(t, x)
        pre = None
        if prepare:
            prepare(st, args[0].t[1])
        if args:
            if groups:
                two_groups(I, st, args[0].t[1])
            pre = raw_obs(I, st, args[0], device=False)
        outs = I.run(func, args, kw, st)
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return
    chk.analysed |= I.inlined
    bad = False
    if not outs:
        chk.und(construct, "no path")
        return
    for kind, v, s in outs:
        post = raw_obs(I, s, args[0], device=False) if args else None
        changed = [f for (f, x), (_, y) in zip(pre, post) if x != y] if args else []
        if kind == "ret" and not (silent_ok and not changed):
            bad = True
            chk.finding("R1", construct, func.loc, f"{prop} is accepted" + (f" and changes {', '.join(changed)}" if changed else "") + f" (path: {path_str(s, s)})")
        elif kind == "raise" and changed and need_raw:
            bad = True
            chk.finding("R2", construct, func.loc, f"{prop} is rejected only after {', '.join(changed)} was changed (path: {path_str(s, s)})")
        stale = [e for e in flat(s.events) if e[0] == "mut" and any(r[0] == "field" and r[2] == "group_cache" and d < 0 for r, d in e[1])]
        if no_cache and kind == "raise" and stale:
            bad = True
            chk.finding("R2", construct, func.loc, f"{prop} is rejected only after something was cached for it ({stale[0][3]})")
    if not bad:
        chk.discharge(construct)


def has(func, name):
    a = func.node.args
    return name in [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def s16(chk):
    repo = chk.repo
    chk.rule("R1", "with a name that is not one of the groups, no path of a query on one group returns")
    chk.rule("R2", "the rejection happens before anything is stored or cached")
    chk.rule("R3", "removing or dropping from a group that does not exist leaves the source as it was")
    cls = repo.cls("Hypergraph")
    g = ("param", "group_name")
    facts = [(("in", g, ("init", "self", "_raw_groups")), False), (("isinstance", g, ("str",)), True), (tm.eq(g, NONE), False)]
    n = 0
    for name, f, setter in members(repo, cls):
        if setter or f.is_static or name.startswith("add_") or not has(f, "group_name"):
            continue
        n += 1
        silent = name in ("remove_group",) or name.startswith("drop_")
        must_raise(chk, f"Hypergraph.{name}", cls, f, {}, facts, "an unknown group name", silent_ok=silent, no_cache=True)
    chk.floor("calls", 25)
    head = """
def ref(rate):
    hg = dhg.Hypergraph(3, [[0, 1], [1, 2]])
    hg.add_hyperedges([[0, 2]], group_name="b")
"""
    show = ", ".join(f"{x}.num_groups, {x}.group_names, {x}.e" for x in ("hg", "out"))
    for name, call in (("remove_group", "out = hg\n    hg.remove_group('absent')"), ("drop_hyperedges_of_group", "out = hg.drop_hyperedges_of_group('absent', rate)"),
                       ("drop_hyperedges_of_group/one group", "hg = dhg.Hypergraph(3, [[0, 1], [1, 2]])\n    out = hg.drop_hyperedges_of_group('absent', rate)"),
                       ("remove_group/one group", "hg = dhg.Hypergraph(3, [[0, 1], [1, 2]])\n    out = hg\n    hg.remove_group('absent')")):
        f = repo.method(cls, name.split("/")[0])
        C = Comparer(chk, maxstates=500)
        ref = head + ("    hg = dhg.Hypergraph(3, [[0, 1], [1, 2]])\n" if "one group" in name else "") + f"    out = hg\n    return {show}\n"
        try:
            res = [C.outcomes(ref_func(repo, src, None, extra="import dhg\n"), None, {}, ()) for src in (head + f"    {call}\n    return {show}\n", ref)]
        except (Undecided, RecursionError) as e:
            chk.und(f"Hypergraph.{name}/absent group", str(e) or type(e).__name__)
            continue
        C.match("R3", f"Hypergraph.{name}/absent group", f.loc, res[0], res[1])


AGGR = ("mean", "sum", "softmax_then_sum")


def s17(chk):
    repo = chk.repo
    chk.rule("R1", "a call with an invalid argument never returns normally, on any path")
    chk.rule("R2", "the structure is unchanged when the call is rejected")
    x = vid("x")
    for cn in STRUCTS:
        cls = repo.cls(cn)
        # constructors
        init = repo.method(cls, "__init__")
        for p in ["num_v"] + (["num_u"] if cn == "BiGraph" else []):
            for what, fs in (("0", None), ("negative", [(("lt", ("param", p), N(0)), True), (("lt", N(0), ("param", p)), False)]),
                             ("a float", [(("isinstance", ("param", p), ("float",)), True), (("isinstance", ("param", p), ("int",)), False)])):
                given = {"e_list": lambda: V(NONE), "e_weight": lambda: V(NONE)}
                if cn == "Hypergraph":
                    given["v_weight"] = lambda: V(NONE)
                if fs is None:
                    given[p] = lambda: V(N(0))
                other = "num_u" if p == "num_v" else "num_v"
                facts = list(fs or []) + [(("isinstance", ("param", other), ("int",)), True), (("lt", N(0), ("param", other)), True)]
                ctor_raise(chk, f"{cn}({p}={what})", cls, given, facts)
        ok = [(("isinstance", ("param", q), ("int",)), True) for q in ("num_v", "num_u")] + [(("lt", N(0), ("param", q)), True) for q in ("num_v", "num_u")]
        ids = vfacts("ab", cn)

        def par(fs):
            return [(tuple(("param", y[2][1:]) if isinstance(y, tuple) and y and y[0] == "init" else y for y in t), b_) for t, b_ in fs]
        hyper = cn == "Hypergraph"
        add = "add_hyperedges" if hyper else "add_edges"
        rem = "remove_hyperedges" if hyper else "remove_edges"
        op = ("param", "merge_op")
        unknown = [(tm.eq(op, S(o)), False) for o in OPS] + [(("isinstance", op, ("str",)), True)]
        w2 = lambda: lit([wt(0), wt(1)])
        cases = []
        # vertex ids
        bounds = {"Graph": ["_num_v"], "DiGraph": ["_num_v"], "Hypergraph": ["_num_v"], "BiGraph": ["_num_u", "_num_v"]}[cn]
        for pos in (0, 1):
            up = ("init", "self", bounds[pos % len(bounds)])
            for kind, fs in (("beyond the range", [(("lt", x, up), False), (("lt", x, N(0)), False)]), ("equal to the count", [(tm.eq(x, up), True), (("lt", x, up), False), (("lt", x, N(0)), False)]),
                             ("negative", [(("lt", x, N(0)), True), (("lt", x, up), True)])):
                e = [x, a] if pos == 0 else [a, x]
                for shape, el in (("one edge", [e]), ("second edge", [[a, b], e])):
                    cases.append((f"a vertex id {kind} at position {pos} of {shape}", el, ids + fs + [(("isinstance", x, ("int",)), True)]))
                if not hyper:
                    cases.append((f"a vertex id {kind} at position {pos} of a single edge", e, ids + fs + [(("isinstance", x, ("int",)), True)]))
        for what, el, fs in cases:
            rule_c = f"{what}".replace("a vertex id ", "vertex ")
            if hyper and "negative" not in what:
                rule_c = "vertex id not below the vertex count"
            ws = (lambda el=el: lit([wt(i) for i in range(len(el))])) if isinstance(el[0], list) else (lambda: V(wt(0)))
            more = {"group_name": lambda: V(S("main"))} if hyper else {}
            for o in ("mean", "max"):
                must_raise(chk, f"{cn}.{add}/{rule_c}" + ("" if hyper else f"/{o}"), cls, repo.method(cls, add), dict(more, e_list=lambda: lit(el), e_weight=ws, merge_op=lambda: V(S(o))), fs, what)
            must_raise(chk, f"{cn}.{add}/{rule_c}" + ("" if hyper else "/no weights"), cls, repo.method(cls, add), dict(more, e_list=lambda: lit(el), e_weight=lambda: V(NONE), merge_op=lambda: V(S("sum"))), fs, what)
            if not hyper:
                must_raise(chk, f"{cn}.{rem}/{rule_c}", cls, repo.method(cls, rem), {"e_list": lambda: lit(el)}, fs, what)
            ctor_raise(chk, f"{cn}(...)/{rule_c}", cls, {"e_list": lambda: lit(el), "e_weight": ws, "merge_op": lambda: V(S("mean"))}, par(fs) + ok)
        # merge operation
        for el in ([[a, b]], [[a, b], [b, a]], [[a, b], [a, b]], [[a, a]]):
            ws = lambda: lit([wt(i) for i in range(len(el))])
            more = {"group_name": lambda: V(S("g"))} if hyper else {}
            must_raise(chk, f"{cn}.{add}/unknown merge_op/{sname(el)}", cls, repo.method(cls, add), dict(more, e_list=lambda: lit(el), e_weight=ws, merge_op=lambda: V(op)), ids + unknown, "an unknown merge operation")
            ctor_raise(chk, f"{cn}(...)/unknown merge_op/{sname(el)}", cls, {"e_list": lambda: lit(el), "e_weight": ws, "merge_op": lambda: V(op)}, par(ids) + ok + unknown)
        # number of weights
        for el, k in (([[a, b]], 2), ([[a, b], [b, a]], 1), ([[a, b], [b, a]], 3), ([[a, b], [b, a]], 0)):
            ws = lambda: lit([wt(i) for i in range(k)])
            more = {"group_name": lambda: V(S("g"))} if hyper else {}
            must_raise(chk, f"{cn}.{add}/{k} weights for {len(el)} edges", cls, repo.method(cls, add), dict(more, e_list=lambda: lit(el), e_weight=ws, merge_op=lambda: V(S("mean"))), ids, "a wrong number of weights")
            ctor_raise(chk, f"{cn}(...)/{k} weights for {len(el)} edges", cls, {"e_list": lambda: lit(el), "e_weight": ws, "merge_op": lambda: V(S("mean"))}, par(ids) + ok)
        # choices
        for name, f, setter in members(repo, cls):
            if setter or f.is_abstract:
                continue
            for p, vals in (("aggr", AGGR), ("v2e_aggr", AGGR), ("e2v_aggr", AGGR), ("direction", ("src2dst", "dst2src")), ("ord", ("uniform",))):
                if not has(f, p):
                    continue
                rest = {q: (lambda: V(NONE)) for q in ("v2e_aggr", "e2v_aggr") if p == "aggr" and has(f, q)}
                fs = [(tm.eq(("param", p), S(v)), False) for v in vals] + [(("isinstance", ("param", p), ("str",)), True)]
                if has(f, "group_name"):
                    fs.append((("in", ("param", "group_name"), ("init", "self", "_raw_groups")), True))
                if p == "e2v_aggr":
                    rest = {"aggr": lambda: V(S("mean")), "v2e_aggr": lambda: V(NONE), "drop_rate": lambda: V(N(0)), "v2e_weight": lambda: V(NONE), "e_weight": lambda: V(NONE)}
                    rest = {q: x for q, x in rest.items() if has(f, q)}
                must_raise(chk, f"{cn}.{name}/unknown {p}", cls, f, dict(rest, **{p: lambda: V(("param", p))}), fs, f"an unknown {p}")
            for p in ("hop", "k"):
                if not has(f, p) or "feature" in name:
                    continue
                fs = [(("lt", ("param", p), N(1)), True), (("lt", N(0), ("param", p)), False), (("isinstance", ("param", p), ("int",)), True)]
                must_raise(chk, f"{cn}.{name}/non-positive {p}", cls, f, {p: lambda: V(("param", p))}, fs, f"a non-positive number of hops", need_raw=True)
    h = repo.cls("Hypergraph")
    for k in ("shorter", "longer"):
        fs = [(("isinstance", ("param", "num_v"), ("int",)), True), (("lt", N(0), ("param", "num_v")), True), (tm.eq(("len", ("param", "v_weight")), ("param", "num_v")), False), (tm.eq(("param", "v_weight"), NONE), False)]
        fs.append((("lt", ("len", ("param", "v_weight")), ("param", "num_v")), k == "shorter"))
        ctor_raise(chk, f"Hypergraph(...)/v_weight {k} than the vertex count", h, {"e_list": lambda: V(NONE), "v_weight": lambda: V(("param", "v_weight"), "list")}, fs)
    chk.floor("calls", 250)


# ---------------------------------------------------------------------------------------------------- S21 sub-hypergraph
SUB_V = 5
SUB_E = {"main": [((0, 1, 2), None, None), ((2, 3), ("p", "q"), None), ((3,), None, None), ((1, 4), None, ("r", "s"))],
         "g": [((0, 4), None, None), ((1, 2, 3, 4), ("x", "y", "z", "t"), ("k", "l", "m", "o"))]}
SUB_DIR = {"main": [((0, 1), (2, 3), ("p", "q"), ("r", "s")), ((4,), (0,), None, None)], "g": [((2,), (1, 3, 4), ("x",), None)]}
SUB_Q = [("some", [1, 2, 3]), ("unordered with repeats", [4, 1, 4, 2]), ("one", [0]), ("all", [0, 1, 2, 3, 4]), ("leaving a hyperedge out", [3, 2])]


def sub_state(directed):
    out = {}
    for g, es in (SUB_DIR if directed else SUB_E).items():
        for i, e in enumerate(es):
            src, dst, wv, we = e if directed else (e[0], e[0], e[1], e[2])
            out.setdefault(g, []).append((src, dst, wv, we, ("param", f"w_{g}_{i}")))
    return out


def content(w, wv, we):
    m = [(S("w_e"), V(w))]
    for k, x in (("w_v2e", wv), ("w_e2v", we)):
        if x is not None:
            m.append((S(k), lit([("param", "w_" + y) for y in x])))
    return V(None, "dict", map=m)


def ids(xs):
    return ("tup",) + tuple(N(x) for x in xs)


def s21(chk):
    repo = chk.repo
    chk.rule("R1", "the sub-hypergraph keeps, per group, exactly the hyperedges with enough selected vertices, restricted and renumbered in ascending order, with their weights, the weights of the selected vertices and the device")
    chk.rule("R2", "an empty selection or one with a vertex that does not exist is rejected")
    chk.rule("R3", "extracting changes neither the hypergraph nor the caller's selection, and the result shares no container with it")
    cls = repo.cls("Hypergraph")
    f = repo.method(cls, "subgraph")
    for directed in (False, True):
        st_ = sub_state(directed)
        for what, q in SUB_Q:
            for keep in (True, False):
                for vw in (False, True):
                    for form in ("list", "set") if (what, keep, vw) == ("some", True, True) else ("list",):
                        sub_case(chk, cls, f, st_, f"Hypergraph.subgraph/{'source and target sets/' if directed else ''}{what}/{'keep' if keep else 'drop'} single{'/vertex weights' if vw else ''}" + ("/set" if form == "set" else ""), q, keep, vw, form)
    x = ("param", "v_x")
    isint = (("isinstance", x, ("int",)), True)
    for what, given, facts in (("no vertex", [], []), ("a vertex beyond the range", [N(0), N(SUB_V)], []), ("a negative vertex", [N(-1), N(2)], []),
                               ("only a vertex beyond the range", [N(SUB_V + 3)], [])):
        must_raise(chk, f"Hypergraph.subgraph/{what}", cls, f, {"v_list": lambda: lit(given), "keep_edges_with_only_one_nodes": lambda: V(("b", True))}, facts + [(("lt", N(3), ("init", "self", "_num_v")), True)], what,
                   prepare=lambda st, key: st.objs[key].fields.update({"_num_v": V(N(SUB_V))}))
    chk.floor("compared", 36)
    chk.floor("calls", 4)


def sub_case(chk, cls, f, state_, tag, q, keep, vw, form):
    I = SInterp(chk.repo, "miss", maxstates=300)
    sel = lit([N(x) for x in q], "list") if form == "list" else V(None, "set", items=[V(N(x)) for x in q])
    st, args, kw = setup(I, cls, f, given={"v_list": sel, "keep_edges_with_only_one_nodes": V(("b", keep))})
    o = st.objs[args[0].t[1]]
    groups = [(S(g), V(None, "dict", map=[(("tup", ids(s), ids(d)), content(w, wv, we)) for s, d, wv, we, w in es])) for g, es in state_.items()]
    vws = [("param", f"vw{i}") for i in range(SUB_V)]
    o.fields.update({"_num_v": V(N(SUB_V)), "_raw_groups": V(None, "dict", map=groups), "_v_weight": lit(vws) if vw else V(NONE)})
    for i in range(SUB_V + 1):
        st.fact(("isinstance", N(i), ("int",)), True)
    pre = raw_obs(I, st, args[0])
    chk.count("compared")
    try:
        outs = I.run(f, args, kw, st)
    except (Undecided, RecursionError) as e:
        chk.und(tag, str(e) or type(e).__name__)
        return
    chk.analysed |= I.inlined
    vs = sorted(set(q))
    new = {v: i for i, v in enumerate(vs)}
    want = {}
    for g, es in state_.items():
        want[g] = {}
        for s, d, wv, we, w in es:
            if len(set(s) | set(d)) and len((set(s) | set(d)) & set(vs)) >= (1 if keep else 2):
                c = {"w_e": w}
                for k, side, ws in (("w_v2e", s, wv), ("w_e2v", d, we)):
                    if ws is not None:
                        c[k] = ("list",) + tuple(("param", "w_" + y) for v, y in zip(side, ws) if v in new)
                want[g][("tup", ids([new[v] for v in s if v in new]), ids([new[v] for v in d if v in new]))] = c
    bad = False

    def complain(field, got, exp, s):
        nonlocal bad
        bad = True
        if ops_of(got if isinstance(got, tuple) else ("?",)):
            chk.und(tag, f"{field} is {tm.show(got, 200)}")
        else:
            chk.finding("R1", f"{tag}/{field}", f.loc, f"{field} is {tm.show(got, 200) if isinstance(got, tuple) else got}, expected {exp} (path: {path_str(s, s)})")

    n = 0
    for kind, v, s in outs:
        if kind != "ret":
            chk.finding("R1", tag, f.loc, f"a valid selection is rejected: {v} at {next((e[2] for e in reversed(list(flat(s.events))) if e[0] == "raise"), "?")} (path: {path_str(s, s)})")
            bad = True
            continue
        n += 1
        if raw_obs(I, s, args[0]) != pre:
            chk.finding("R3", tag, f.loc, "the hypergraph itself is changed")
            bad = True
        if form == "list" and s.term(sel) != ("list",) + tuple(N(x) for x in q):
            chk.finding("R3", tag, f.loc, "the caller's selection is changed")
            bad = True
        if v.t is None or v.t[0] != "obj" or not I.is_struct(s.objs[v.t[1]].cls):
            chk.und(tag, f"returns {tm.show(s.term(v), 100)}")
            bad = True
            continue
        key = v.t[1]
        r = s.objs[key]
        if r.cls is not cls:
            chk.finding("R1", tag, f.loc, f"gives a {r.cls.name}")
            bad = True
        obs = dict(raw_obs(I, s, v))
        if apply_facts(obs["_num_v"], s.facts) != N(len(vs)):
            complain("num_v", obs["_num_v"], len(vs), s)
        dev = ("init", "self", "device")
        if apply_facts(obs["device"], s.facts) != apply_facts(dev, s.facts):
            complain("device", obs["device"], "the device of the hypergraph", s)
        ew = tuple(vws[x] for x in vs) if vw else None
        gw = s.cur(r.fields.get("_v_weight")) if r.fields.get("_v_weight") is not None else None
        if gw is not None and gw.items is not None:
            got = tuple(s.term(x) for x in gw.items)
            if got != (ew or (N(1),) * len(vs)):
                complain("v_weight", ("list",) + got, ew or "all 1", s)
        elif not (ew is None and (gw is None or gw.t == NONE)):
            complain("v_weight", obs["_v_weight"], ew or "unset", s)
        gs = s.cur(r.fields["_raw_groups"])
        if gs.map is None or gs.base is not None:
            complain("hyperedges", obs["_raw_groups"], "a table per group", s)
            continue
        tables = {k[1]: s.cur(x) for k, x in gs.map if k[0] == "s"}
        for g in want:
            t = tables.get(g)
            if t is None:
                if want[g]:
                    complain(f"group {g}", ("none",), "present", s)
                continue
            if t.map is None or t.base is not None:
                complain(f"group {g}", s.term(t), "a literal table", s)
                continue
            got = {}
            for k, c in t.map:
                c = s.cur(c)
                got[k] = {z[1]: s.term(y) for z, y in c.map} if c.map is not None else {"?": s.term(c)}
            norm = lambda c: {k: x for k, x in c.items() if x != NONE}
            if {k: norm(c) for k, c in got.items()} != want[g]:
                complain(f"hyperedges of {g}", ("list",) + tuple(("tup", k) + tuple(("tup", S(z), y) for z, y in c.items()) for k, c in got.items()),
                         "; ".join(f"{tm.show(k, 80)}: {', '.join(z + '=' + tm.show(y, 60) for z, y in c.items())}" for k, c in want[g].items()) or "none", s)
        if set(tables) - set(want):
            complain("groups", ("list",) + tuple(S(x) for x in tables), sorted(want), s)
        for fld in ("_raw_groups", "_v_weight"):
            y = r.fields.get(fld)
            for root in sorted(shared_roots(I, s, y, 3), key=repr) if y is not None else ():
                if root[0] != key:
                    chk.finding("R3", f"{tag}/{fld}", f.loc, f"{fld} of the result is (or contains) the source's {root[1]}")
                    bad = True
    if not n and not bad:
        chk.und(tag, "no path")
    elif not bad:
        chk.discharge(tag)



def ctor_raise(chk, construct, cls, given, facts):
    repo = chk.repo
    init = repo.method(cls, "__init__")
    a = init.node.args
    ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs][1:]
    src = f"def ref({', '.join(ps)}):\n    return dhg.{cls.name}({', '.join(f'{p}={p}' for p in ps)})\n"
    f = ref_func(repo, src, None)
    I = SInterp(repo, "miss", maxstates=400)
    from ..structs import state, sym_args
    st = state(f.module)
    chk.count("calls")
    kw = sym_args(I, f, st, skip_self=False, given={k: v() for k, v in given.items() if k in ps})
    for t, x in facts:
        st.fact(t, x)
    try:
        outs = I.run(f, [], kw, st)
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return
    chk.analysed |= I.inlined
    rets = [s for k, v, s in outs if k == "ret"]
    if rets:
        chk.finding("R1", construct, init.loc, f"invalid arguments are accepted (path: {path_str(rets[0], rets[0])})")
    elif not outs:
        chk.und(construct, "no path")
    else:
        chk.discharge(construct)


ASSUME = ["vertex ids are ints and weights are numbers, as documented", "edge lists of one to three edges are representative of longer ones: every add/remove handles edges one by one (a loop over a longer list repeats the analysed step)"]
INFO = {
    "S08": {"technique": "value numbering and self-composition of edge mutators over an arbitrary prior state",
            "explanation": "The abstract interpreter evaluates every add/remove call on an arbitrary (symbolic) edge table twice, with the vertices in two orders; the final states of each pair of compatible paths must have the same value number. "
                           "From an empty structure the reported edges, weights and count must be those of one stored edge; directed and bipartite ones keep their endpoint order.",
            "assumptions": ASSUME, "note": "Arbitrary prior contents; vertex ids are symbolic and in range, lists of up to two edges, all permutations of three-vertex hyperedges; longer lists and wider hyperedges are covered only through the shared code path."},
    "S09": {"technique": "value numbering of mutators against reference definitions over an arbitrary prior state",
            "explanation": "add/remove/construct are evaluated path by path over an arbitrary (symbolic) edge table for edge lists of one to three symbolic edges with repeats in every position, each merge operation and weight form; "
                           "the final raw state must have the value number the reference definition gives on the compatible path.",
            "assumptions": ASSUME, "note": "Every path over arbitrary prior contents for lists of up to three edges (unrolled); longer lists repeat the same loop body."},
    "S21": {"technique": "value numbering of the extraction on literal hypergraphs with symbolic weights against the definition; must-raise analysis",
            "explanation": "The abstract interpreter evaluates Hypergraph.subgraph on literal tables (two groups, undirected and source/target hyperedges, with and without per-vertex weights, symbolic weights and device) for several selections; "
                           "every field of every returned structure must have the value number computed from the definition, the source must be untouched and share no container with the result, and invalid selections must end in an error on every path.",
            "assumptions": ASSUME, "note": "Fixed small tables (5 vertices, 6 hyperedges, 5 selections, both settings of the flag), symbolic weights; hyperedges whose restrictions coincide are not decided (the documentation does not say which weight survives)."},
    "S16": {"technique": "path-sensitive must-raise and effect analysis under the fact 'group not present'",
            "explanation": "Every public member with a group name is evaluated with the fact that the name is not a key of the group table; no path may return, and no raw container or memo table may have been written before the error. remove_group and the drop functions may return when the structure is untouched.",
            "assumptions": [], "note": "All paths of all public members taking group_name (helpers inlined)."},
    "S17": {"technique": "path-sensitive must-raise and effect analysis under facts describing each invalid argument",
            "explanation": "Constructors, mutators and queries are evaluated under the facts of each documented invalid value (vertex count, vertex id beyond/at/below the range at each position, unknown merge operation/aggregation/direction/drop order, weight count, hop count); "
                           "no path may return, and the raw fields must be as at entry on every raising path.",
            "assumptions": ASSUME[:1], "note": "Documented invalid values only; edge lists of one or two edges; the accepted upper vertex bound of hypergraphs is a recorded known finding."},
}
