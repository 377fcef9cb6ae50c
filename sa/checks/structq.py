"""S10-S14, S20: matrices, Laplacians and message passing against their definitions."""
from .. import terms as tm
from ..interp import Undecided, V
from ..spec import Comparer, observe, listp, ref_func, tensor
from ..terms import N, NONE, S

ASSUME = ["algebraic laws of sa/terms.py (matrix product associative, diag/transposition laws, exact real arithmetic)",
          "torch operations mean what sa/ops.py says"]

AGGRS = ["mean", "sum", "softmax_then_sum"]

PASS_BODY = """
    if W is None:
        P = {P}
    else:
        assert W.shape[0] == {wref}.shape[0]
        P = {PW}
    if drop_rate > 0.0:
        P = sparse_dropout(P, drop_rate)
    if aggr == "sum":
        return P.mm(X)
    if aggr == "softmax_then_sum":
        return torch.sparse.softmax(P, dim=1).mm(X)
    if W is None:
        return {D}.mm(P.mm(X))
    d = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
    d[torch.isinf(d)] = 0
    return d * P.mm(X)
"""


def passing_cases(groups=False):
    """(class, method, weight argument, extra args, reference)"""
    c = []

    def one(cls, m, warg, P, PW, wref, D, seeds=None, lead=""):
        body = PASS_BODY.format(P=P, PW=PW, wref=wref, D=D).replace("W is", warg + " is").replace("W.shape", warg + ".shape")
        src = f"def ref(self, {lead}X, aggr, {warg}, drop_rate):" + body
        c.append((cls, m, warg, seeds or {}, src))

    coo = "torch.sparse_coo_tensor({M}._indices(), {w}, {M}.shape)"
    one("Graph", "v2v", "e_weight", "self.A", coo.format(M="self.A", w="e_weight"), "self.e_weight", "self.D_v_neg_1")
    one("DiGraph", "v2v", "e_weight", "self.A", coo.format(M="self.A", w="e_weight"), "self.e_weight", "self.D_v_out_neg_1", {"direction": V(S("dst2src"))})
    one("DiGraph", "v2v", "e_weight", "self.A_T", coo.format(M="self.A", w="e_weight") + ".t()", "self.e_weight", "self.D_v_in_neg_1", {"direction": V(S("src2dst"))})
    one("BiGraph", "u2v", "e_weight", "self.B_T", coo.format(M="self.B", w="e_weight") + ".t()", "self.e_weight", "self.D_v_neg_1")
    one("BiGraph", "v2u", "e_weight", "self.B", coo.format(M="self.B", w="e_weight"), "self.e_weight", "self.D_u_neg_1")
    one("Hypergraph", "v2e_aggregation", "v2e_weight", "self.H_T", coo.format(M="self.H_T", w="v2e_weight"), "self.v2e_weight", "self.D_e_neg_1")
    one("Hypergraph", "e2v_aggregation", "e2v_weight", "self.H", coo.format(M="self.H", w="e2v_weight"), "self.e2v_weight", "self.D_v_neg_1")
    if groups:
        for way, D in (("v2e", "D_e_neg_1"), ("e2v", "D_v_neg_1")):
            H = f"self.{'H_T' if way == 'v2e' else 'H'}_of_group(group_name)"
            one("Hypergraph", f"{way}_aggregation_of_group", way + "_weight", H, coo.format(M=H, w=way + "_weight"), f"self.{way}_weight_of_group(group_name)",
                f"self.{D}_of_group(group_name)", lead="group_name, ")
    return c


GRP = V(("param", "group_name"))


def group_fact():
    return (("in", ("param", "group_name"), ("init", "self", "_raw_groups")), True)


def s13(chk):
    repo = chk.repo
    chk.rule("R1", "aggregation equals (inverse-degree) matrix product of the requested direction, custom weights replacing stored ones, dropout only for positive rates")
    chk.rule("R2", "vertex->hyperedge->vertex propagation composes aggregation, hyperedge weights and aggregation")
    cmpr = Comparer(chk)
    pos = (("lt", N(0), ("param", "drop_rate")), True)
    for cls, m, warg, extra, src in passing_cases(groups=True):
        f = repo.method(cls, m)
        for aggr in AGGRS:
            for w in (None, "w"):
                for dr in (0, 1):
                    seeds = {"X": lambda: tensor("X"), "aggr": V(S(aggr)), warg: (V(NONE) if w is None else (lambda: tensor(warg))),
                             "drop_rate": V(N(0)) if dr == 0 else V(("param", "drop_rate"))}
                    seeds.update(extra)
                    facts = [] if w is None else [(tm.eq(("param", warg), NONE), False)]
                    if dr:
                        facts.append(pos)
                    if m.endswith("_of_group"):
                        facts.append(group_fact())
                    d = extra.get("direction")
                    tag = f"{cls}.{m}" + (f"/{d.t[1]}" if d else "") + f"/{aggr}/{'custom' if w else 'stored'}" + ("/drop" if dr else "")
                    cmpr.compare("R1", tag, cls, f, src, seeds, facts)
    for m, src in COMPOSE + [of_group(*x) for x in COMPOSE]:
        g = m.endswith("_of_group")
        f = repo.method("Hypergraph", m)
        ps = f.params()
        base = {"X": lambda: tensor("X")}
        variants = [base]
        if "e_weight" in ps:
            variants = [dict(base, e_weight=V(NONE)), dict(base, e_weight=lambda: tensor("e_weight"))]
        if "aggr" in ps:
            variants = [dict(v, aggr=V(S("mean"))) for v in variants]
        if m in ("v2v", "v2v_of_group"):
            opts = ("v2e_aggr", "e2v_aggr", "v2e_drop_rate", "e2v_drop_rate")
            none = {k: V(NONE) for k in opts + ("v2e_weight", "e2v_weight", "e_weight")}
            variants = [dict(base, aggr=V(S("mean")), **none), dict(base, aggr=V(S("mean")), **dict(none, v2e_aggr=V(S("sum")))),
                        dict(base, aggr=V(S("mean")), **dict(none, e2v_aggr=V(S("softmax_then_sum")))),
                        dict(base, aggr=V(S("sum")), **dict(none, v2e_weight=(lambda: tensor("v2e_weight")), e_weight=(lambda: tensor("e_weight")))),
                        dict(base, aggr=V(S("sum")), **dict(none, e2v_weight=(lambda: tensor("e2v_weight")))),
                        dict(base, aggr=V(S("sum")), **dict(none, v2e_drop_rate=V(("param", "v2e_drop_rate")))),
                        dict(base, aggr=V(S("sum")), **dict(none, e2v_drop_rate=V(("param", "e2v_drop_rate"))))]
        for i, v in enumerate(variants):
            v = dict({k: V(NONE) for k in ps if k.endswith("_weight")}, **v)
            facts = [group_fact()] if g else []
            for k, x in v.items():
                if callable(x):
                    facts.append((tm.eq(("param", k), NONE), False))
                elif "drop" in k and x.t != NONE:
                    facts += [(("lt", N(0), ("param", k)), True), (("lt", N(0), ("param", "drop_rate")), False)]
            v.setdefault("drop_rate", V(("param", "drop_rate")))
            cmpr.compare("R2", f"Hypergraph.{m}/{i}", "Hypergraph", f, src, v, facts)
    chk.floor("compared", 120)


def of_group(m, src):
    """The same reference over the hyperedges of one group."""
    src = src.replace("(self, X", "(self, group_name, X").replace("self.W_e.", "self.W_e_of_group(group_name).").replace("self.num_e", "self.num_e_of_group(group_name)")
    return m + "_of_group", src.replace("_aggregation(", "_aggregation_of_group(group_name, ")


UPD = """
    if e_weight is None:
        Y = self.W_e.mm(Y)
    else:
        assert e_weight.view(-1, 1).shape[0] == self.num_e
        Y = e_weight.view(-1, 1) * Y
"""
COMPOSE = [
    ("v2e_update", "def ref(self, X, e_weight):\n    Y = X\n" + UPD + "    return Y\n"),
    ("e2v_update", "def ref(self, X):\n    return X\n"),
    ("v2e", "def ref(self, X, aggr, v2e_weight, e_weight, drop_rate):\n    Y = self.v2e_aggregation(X, aggr, v2e_weight, drop_rate)\n" + UPD + "    return Y\n"),
    ("e2v", "def ref(self, X, aggr, e2v_weight, drop_rate):\n    return self.e2v_aggregation(X, aggr, e2v_weight, drop_rate)\n"),
    ("v2v", """
def ref(self, X, aggr, drop_rate, v2e_aggr, v2e_weight, v2e_drop_rate, e_weight, e2v_aggr, e2v_weight, e2v_drop_rate):
    a1 = aggr if v2e_aggr is None else v2e_aggr
    a2 = aggr if e2v_aggr is None else e2v_aggr
    d1 = drop_rate if v2e_drop_rate is None else v2e_drop_rate
    d2 = drop_rate if e2v_drop_rate is None else e2v_drop_rate
    Y = self.v2e_aggregation(X, a1, v2e_weight, d1)
""" + UPD + "    return self.e2v_aggregation(Y, a2, e2v_weight, d2)\n"),
]


# ---------------------------------------------------------------------------------------------------- S12 finiteness
def unguarded(t):
    """[(base, power, certain)] negative powers of run-time tensors whose infinities are not replaced."""
    out = []

    def walk(x, maybe):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "pow" and len(x) == 3 and x[2][0] == "n" and x[2][1] < 0:
            b = x[1]
            fixed = b[0] == "maskset" and b[2] == tm.eq(b[1], N(0)) and b[3][0] == "n" and b[3][1] != 0
            scalar = not any(y[0] in ("rowsum", "red", "spsumall", "coo", "mm", "mat") for y in tm.walk(b))
            if not fixed and not scalar:
                out.append((b, x[2][1], not maybe))
        m = maybe or x[0] in ("maskset", "where", "g0") or x[0] in ("call", "mcall", "apply")
        if x[0] == "g0":
            m = maybe
        for y in x[1:]:
            walk(y, m)
    walk(t, False)
    return out


def s12(chk):
    from ..structs import STRUCTS, members, setup
    repo = chk.repo
    chk.rule("R1", "no value computed by a structure contains a negative power of a degree/row-sum whose infinities are not replaced by 0")
    cmpr = Comparer(chk)
    for cname in STRUCTS:
        cls = repo.cls(cname)
        for n, f, is_set in members(repo, cls):
            if is_set or f.is_static or n in ("__init__", "draw", "save", "load", "__repr__", "clear", "clone", "to", "subgraph") or n.startswith(("add_", "remove_", "drop_", "switch", "reverse")):
                continue
            ps = f.params()
            variants = [{}]
            if "aggr" in ps:
                variants = [{"aggr": V(S(a))} for a in AGGRS]
            if "direction" in ps:
                variants = [dict(v, direction=V(S(d))) for v in variants for d in ("dst2src", "src2dst")]
            for w in ("e_weight", "v2e_weight", "e2v_weight"):
                if w in ps and len(ps) <= 7:
                    variants = [dict(v, **{w: V(NONE)}) for v in variants] + [dict(v, **{w: tensor(w)}) for v in variants]
            if len(ps) > 7:
                variants = [dict({k: V(NONE) for k in ps if k.endswith(("_weight", "_aggr", "_drop_rate"))}, aggr=V(S("mean")))]
            for v in variants:
                seeds = dict(v)
                if "X" in ps:
                    seeds["X"] = tensor("X")
                if "drop_rate" in ps:
                    seeds["drop_rate"] = V(N(0))
                facts = [] if cname != "Hypergraph" else [(tm.eq(("init", "self", "_v_weight"), NONE), False)]
                for k, x in v.items():
                    if x.ty == "tensor":
                        facts.append((tm.eq(x.t, NONE), False))
                tag = f"{cname}.{n}" + "".join("/" + (x.t[1] if x.t[0] == "s" else k) for k, x in v.items() if x.t != NONE)
                try:
                    I, a, outs = cmpr.outcomes(f, cls, seeds, facts)
                except Exception as e:
                    if type(e).__name__ not in ("Undecided", "RecursionError"):
                        raise
                    chk.und(tag, str(e))
                    continue
                bad = maybe = None
                inverse = False
                for k, val, st in outs:
                    if k != "ret":
                        continue
                    t = st.term(val)
                    inverse = inverse or any(y[0] in ("pinv", "pow") for y in tm.walk(t))
                    for b, p, certain in unguarded(t):
                        m = f"contains {tm.show(b, 160)} ** {p} without replacing the infinities of zero entries"
                        if certain:
                            bad = m
                        else:
                            maybe = m
                if bad:
                    chk.finding("R1", tag, f.loc, bad)
                elif maybe:
                    chk.und(tag, maybe)
                else:
                    chk.discharge(tag if inverse else None)
                    if inverse:
                        chk.count("inverse_values")
                chk.count("members")
    chk.floor("members", 140)
    chk.floor("inverse_values", 25)
    # positive control: the rule must fire on an unguarded inverse
    src = "def ref(self):\n    return torch.diag(torch.sparse.sum(self.A, dim=1) ** -0.5).mm(self.A)\n"
    from ..spec import ref_func
    I, a, outs = cmpr.outcomes(ref_func(repo, src, repo.cls("Graph")), "Graph", {}, [])
    if not any(unguarded(st.term(v)) for k, v, st in outs if k == "ret"):
        from ..repo import AnalysisBroken
        raise AnalysisBroken("S12: positive control not detected")


# ---------------------------------------------------------------------------------------------------- S10 matrices and degrees
EMPTY = "    if {c} == 0:\n        return torch.sparse_coo_tensor(size=({r}, {k}), device=self.device)\n"
RAW_E = """
    es = [(s, d) for s, d in self._raw_e_dict.keys()]
    ws = list(self._raw_e_dict.values())
"""
LOOPS = """
    es = es + [(v, v) for v in self._raw_selfloop_dict.keys()]
    ws = ws + list(self._raw_selfloop_dict.values())
    if self._has_extra_selfloop:
        es = es + [(v, v) for v in range(self._num_v)]
        ws = ws + [1.0] * self._num_v
"""
NUM_E = """
    n = len(self._raw_e_dict) + len(self._raw_selfloop_dict)
    if self._has_extra_selfloop:
        n = n + self._num_v
"""
INV = """
    d = {d} ** {p}
    d[torch.isinf(d)] = 0
    return torch.diag(d)
"""


def inv(d, p="-1"):
    return INV.format(d=d, p=p)


def s10_cases():
    c = []

    def one(cls, m, body, args=""):
        c.append((cls, m, f"def ref(self{args}):\n" + (body if "\n" in body else f"    return {body}\n")))

    for g in ("Graph", "DiGraph"):
        one(g, "num_v", "self._num_v")
        one(g, "v", "list(range(self._num_v))")
        one(g, "num_e", NUM_E + "    return n\n")
        one(g, "e", RAW_E + LOOPS + "    return es, ws\n")
    one("BiGraph", "num_u", "self._num_u")
    one("BiGraph", "num_v", "self._num_v")
    one("BiGraph", "u", "list(range(self._num_u))")
    one("BiGraph", "v", "list(range(self._num_v))")
    one("Hypergraph", "num_v", "self._num_v")
    one("Hypergraph", "v", "list(range(self._num_v))")
    one("Hypergraph", "num_groups", "len(self._raw_groups)")
    one("Hypergraph", "group_names", "list(self._raw_groups.keys())")

    # Graph: symmetric adjacency, every stored edge in both directions, every loop once
    both = RAW_E + LOOPS + "    es = es + [(d, s) for s, d in self._raw_e_dict.keys()]\n    ws = ws + list(self._raw_e_dict.values())\n"
    one("Graph", "e_both_side", both + "    return es, ws\n")
    one("Graph", "A", NUM_E + EMPTY.format(c="n", r="self._num_v", k="self._num_v") + both +
        "    return torch.sparse_coo_tensor(torch.tensor(es).t(), torch.tensor(ws), (self._num_v, self._num_v), device=self.device)\n")
    one("Graph", "D_v", "torch.diag(torch.sparse.sum(self.A, dim=1))")
    one("Graph", "D_v_neg_1", inv("torch.sparse.sum(self.A, dim=1)"))
    one("Graph", "D_v_neg_1_2", inv("torch.sparse.sum(self.A, dim=1)", "-0.5"))
    one("Graph", "deg_v", "torch.sparse.sum(self.A, dim=1)")
    one("Graph", "e_src", "self.A._indices()[1]")
    one("Graph", "e_dst", "self.A._indices()[0]")
    one("Graph", "e_weight", "self.A._values()")
    # DiGraph: rows are sources
    one("DiGraph", "A", NUM_E + EMPTY.format(c="n", r="self._num_v", k="self._num_v") + RAW_E + LOOPS +
        "    return torch.sparse_coo_tensor(torch.tensor(es).t(), torch.tensor(ws), (self._num_v, self._num_v), device=self.device)\n")
    one("DiGraph", "A_T", "self.A.t()")
    one("DiGraph", "D_v_out", "torch.diag(torch.sparse.sum(self.A, dim=1))")
    one("DiGraph", "D_v_in", "torch.diag(torch.sparse.sum(self.A.t(), dim=1))")
    one("DiGraph", "D_v_out_neg_1", inv("torch.sparse.sum(self.A, dim=1)"))
    one("DiGraph", "D_v_in_neg_1", inv("torch.sparse.sum(self.A.t(), dim=1)"))
    one("DiGraph", "deg_v_out", "torch.sparse.sum(self.A, dim=1)")
    one("DiGraph", "deg_v_in", "torch.sparse.sum(self.A.t(), dim=1)")
    one("DiGraph", "e_src", "self.A._indices()[0]")
    one("DiGraph", "e_dst", "self.A._indices()[1]")
    one("DiGraph", "e_weight", "self.A._values()")
    # BiGraph: rows are U
    one("BiGraph", "B", EMPTY.format(c="len(self._raw_e_dict)", r="self._num_u", k="self._num_v") + RAW_E +
        "    return torch.sparse_coo_tensor(torch.tensor(es).t(), torch.tensor(ws), (self._num_u, self._num_v), device=self.device)\n")
    one("BiGraph", "B_T", "self.B.t()")
    one("BiGraph", "A", """
    uu = torch.sparse_coo_tensor(size=(self._num_u, self._num_u))
    vv = torch.sparse_coo_tensor(size=(self._num_v, self._num_v))
    return torch.vstack([torch.hstack([uu, self.B]), torch.hstack([self.B.t(), vv])])
""")
    one("BiGraph", "D_u", "torch.diag(torch.sparse.sum(self.B, dim=1))")
    one("BiGraph", "D_v", "torch.diag(torch.sparse.sum(self.B.t(), dim=1))")
    one("BiGraph", "D_u_neg_1", inv("torch.sparse.sum(self.B, dim=1)"))
    one("BiGraph", "D_v_neg_1", inv("torch.sparse.sum(self.B.t(), dim=1)"))
    one("BiGraph", "deg_u", "torch.sparse.sum(self.B, dim=1)")
    one("BiGraph", "deg_v", "torch.sparse.sum(self.B.t(), dim=1)")
    one("BiGraph", "e_u", "self.B._indices()[0]")
    one("BiGraph", "e_v", "self.B._indices()[1]")
    one("BiGraph", "e_weight", "self.B._values()")
    # Hypergraph, one group
    G = ", group_name"
    ga = "    assert group_name in self._raw_groups\n"

    def grp(m, body):
        one("Hypergraph", m, ga + (body if "\n" in body else f"    return {body}\n"), G)

    hbody = """
    vs, es = [], []
    for i, code in enumerate(self._raw_groups[group_name].keys()):
        vs.extend(code[{i}])
        es.extend([i] * len(code[{i}]))
    return torch.sparse_coo_tensor(torch.tensor([vs, es]), torch.ones(len(vs)), (self._num_v, len(self._raw_groups[group_name])), device=self.device)
"""
    grp("num_e_of_group", "len(self._raw_groups[group_name])")
    grp("e_of_group", "[c[0] for c in self._raw_groups[group_name].keys()], [x['w_e'] for x in self._raw_groups[group_name].values()]")
    grp("H_v2e_of_group", hbody.format(i=0))
    grp("H_e2v_of_group", hbody.format(i=1))
    grp("H_of_group", hbody.format(i=0))
    grp("H_T_of_group", "self.H_of_group(group_name).t()")
    grp("W_e_of_group", "torch.diag(torch.tensor([x['w_e'] for x in self._raw_groups[group_name].values()]))")
    grp("D_v_of_group", "torch.diag(torch.sparse.sum(self.H_of_group(group_name).mm(self.W_e_of_group(group_name)), dim=1))")
    grp("D_e_of_group", "torch.diag(torch.sparse.sum(self.H_of_group(group_name).t(), dim=1))")
    dv = "self.D_v_of_group(group_name)._values()"
    de = "self.D_e_of_group(group_name)._values()"
    grp("D_v_neg_1_of_group", inv(dv))
    grp("D_v_neg_1_2_of_group", inv(dv, "-0.5"))
    grp("D_e_neg_1_of_group", inv(de))
    grp("deg_v_of_group", dv)
    grp("deg_e_of_group", de)
    for d, M in (("v2e", "H_T"), ("e2v", "H")):
        grp(f"{d}_src_of_group", f"self.{M}_of_group(group_name)._indices()[1]")
        grp(f"{d}_dst_of_group", f"self.{M}_of_group(group_name)._indices()[0]")
        grp(f"{d}_weight_of_group", f"self.{M}_of_group(group_name)._values()")
        one("Hypergraph", f"{d}_src", f"self.{M}._indices()[1]")
        one("Hypergraph", f"{d}_dst", f"self.{M}._indices()[0]")
        one("Hypergraph", f"{d}_weight", f"self.{M}._values()")
    one("Hypergraph", "H_T", "self.H.t()")
    one("Hypergraph", "D_v_neg_1", inv("self.D_v._values()"))
    one("Hypergraph", "D_v_neg_1_2", inv("self.D_v._values()", "-0.5"))
    one("Hypergraph", "D_e_neg_1", inv("self.D_e._values()"))
    one("Hypergraph", "deg_v", "self.D_v._values()")
    one("Hypergraph", "deg_e", "self.D_e._values()")
    one("Hypergraph", "W_v", "torch.diag(torch.tensor(self._v_weight))")
    return c


def run_cases(chk, rule, cases, cmpr=None):
    cmpr = cmpr or Comparer(chk)
    for cls, m, src in cases:
        f = chk.repo.method(cls, m)
        facts = []
        if cls == "Hypergraph":
            facts.append((tm.eq(("init", "self", "_v_weight"), NONE), False))
        cmpr.compare(rule, f"{cls}.{m}", cls, f, src, facts=facts)


def s10(chk):
    chk.rule("R1", "every count, edge list, incidence/adjacency/degree/weight matrix and edge-index accessor equals its definition from the stored edges, weights and loops")
    chk.rule("R2", "neighbour queries return the column indices of the row of the adjacency/incidence matrix of that hop, group and direction")
    chk.rule("R3", "global hypergraph views concatenate the groups' views in group order")
    run_cases(chk, "R1", s10_cases())
    run_cases(chk, "R2", NBRS)
    run_cases(chk, "R3", GLOBAL)
    several_groups(chk)
    chk.floor("compared", 105)


GROUPS3 = ("a", "b", "c")
SIZES = {"a": 1, "b": 2, "c": 1}


def several_groups(chk):
    """The global views on a hypergraph of exactly three groups: running offsets are followed group by group."""
    repo = chk.repo
    chk.rule("R4", "on a hypergraph with several groups, hyperedge numbers of a group start where those of the previous group end, in every global view")
    cmpr = Comparer(chk)

    def tweak(I):
        def grp(I, func, args, kw, st, node):
            I.inlined.add(func.qual)
            ps = [p for p in func.params() if p != "self"]
            b = dict(zip(ps, args[1:]))
            b.update(kw)
            return [(V(("mat", "Hypergraph", func.name) + tuple(st.term(b[p]) for p in ps if p in b)), st)]
        for n in ("N_v_of_group", "N_e_of_group"):
            I.intercept[repo.method("Hypergraph", n).qual] = grp
    cmpr.tweak = tweak
    cls = repo.cls("Hypergraph")
    vw = (tm.eq(("init", "self", "_v_weight"), NONE), False)
    raw = ("init", "self", "_raw_groups")
    fields = lambda: {"_raw_groups": V(None, "dict", map=[(S(g), V(("sub", raw, S(g)), "dict")) for g in GROUPS3])}
    cases = [c for c in NBRS if c[1] == "N_e"] + [("Hypergraph", "nbr_e", "def ref(self, v_idx):\n    return self.N_e(v_idx)\n")] + GLOBAL
    for _, m, src in cases:
        f = repo.method(cls, m)
        tag = f"Hypergraph.{m}/three groups"
        try:
            ref = ref_func(repo, src, cls, like=f)
            ri = cmpr.outcomes(f, cls, {}, [vw], fields=fields())
            rr = cmpr.outcomes(ref, cls, {}, [vw], fields=fields())
        except (Undecided, RecursionError) as e:
            chk.und(tag, str(e) or type(e).__name__)
            continue
        cmpr.match("R4", tag, f.loc, ri, rr)
    sized = lambda: {"_raw_groups": V(None, "dict", map=[(S(g), V(None, "dict", map=[(S(f"{g}{i}"), V(("sub", ("sub", raw, S(g)), S(f"{g}{i}")), "dict")) for i in range(n)])) for g, n in SIZES.items()])}
    flat_ = [(g, i) for g, n in SIZES.items() for i in range(n)]
    for m in ("N_v", "nbr_v"):
        f = repo.method(cls, m)
        p = [x for x in f.params() if x != "self"][0]
        for e, (g, i) in enumerate(flat_):
            tag = f"Hypergraph.{m}/hyperedge {e}"
            ref = ref_func(repo, f"def ref(self, {p}):\n    return self.N_v_of_group({i}, {g!r})\n", cls, like=f)
            try:
                ri = cmpr.outcomes(f, cls, {p: V(N(e))}, [vw], fields=sized())
                rr = cmpr.outcomes(ref, cls, {p: V(N(e))}, [vw], fields=sized())
            except (Undecided, RecursionError) as ex:
                chk.und(tag, str(ex) or type(ex).__name__)
                continue
            if any(k == "ret" and tm.contains(s.term(v), lambda z: z[0] in ("coo", "inds", "coal")) for k, v, s in ri[2]):
                chk.und(tag, "computed from the matrices and not from a group's own answer")
                continue
            cmpr.match("R4", tag, f.loc, ri, rr)


NBRS = [
    ("Graph", "N_v", """
def ref(self, v_idx, hop):
    assert hop >= 1
    M = self.A
    if hop != 1:
        for _ in range(hop - 1):
            M = M.mm(self.A)
    return M[v_idx]._indices()[0]
"""),
    ("Graph", "nbr_v", "def ref(self, v_idx, hop):\n    return self.N_v(v_idx, hop)\n"),
    ("DiGraph", "N_v_out", "def ref(self, v_idx):\n    return self.A[v_idx]._indices()[0]\n"),
    ("DiGraph", "N_v_in", "def ref(self, v_idx):\n    return self.A.t()[v_idx]._indices()[0]\n"),
    ("DiGraph", "nbr_v_out", "def ref(self, v_idx):\n    return self.A[v_idx]._indices()[0]\n"),
    ("DiGraph", "nbr_v_in", "def ref(self, v_idx):\n    return self.A.t()[v_idx]._indices()[0]\n"),
    ("BiGraph", "N_v", "def ref(self, u_idx):\n    return self.B[u_idx]._indices()[0]\n"),
    ("BiGraph", "N_u", "def ref(self, v_idx):\n    return self.B.t()[v_idx]._indices()[0]\n"),
    ("BiGraph", "nbr_v", "def ref(self, u_idx):\n    return self.B[u_idx]._indices()[0]\n"),
    ("BiGraph", "nbr_u", "def ref(self, v_idx):\n    return self.B.t()[v_idx]._indices()[0]\n"),
    ("Hypergraph", "N_e_of_group", "def ref(self, v_idx, group_name):\n    assert group_name in self._raw_groups\n    assert v_idx < self._num_v\n    return self.H_of_group(group_name)[v_idx]._indices()[0]\n"),
    ("Hypergraph", "N_v_of_group", "def ref(self, e_idx, group_name):\n    assert group_name in self._raw_groups\n    assert e_idx < len(self._raw_groups[group_name])\n    return self.H_of_group(group_name).t()[e_idx]._indices()[0]\n"),
    ("Hypergraph", "nbr_e_of_group", "def ref(self, v_idx, group_name):\n    assert group_name in self._raw_groups\n    assert v_idx < self._num_v\n    return self.H_of_group(group_name)[v_idx]._indices()[0]\n"),
    ("Hypergraph", "nbr_v_of_group", "def ref(self, e_idx, group_name):\n    assert group_name in self._raw_groups\n    assert e_idx < len(self._raw_groups[group_name])\n    return self.H_of_group(group_name).t()[e_idx]._indices()[0]\n"),
    ("Hypergraph", "nbr_e", "def ref(self, v_idx):\n    return self.N_e(v_idx)\n"),
    ("Hypergraph", "nbr_v", "def ref(self, e_idx):\n    return self.N_v(e_idx)\n"),
    ("Hypergraph", "N_e", """
def ref(self, v_idx):
    assert v_idx < self._num_v
    out, bias = [], 0
    for name in self._raw_groups.keys():
        out.append(self.N_e_of_group(v_idx, name) + bias)
        bias += len(self._raw_groups[name])
    return torch.cat(out, dim=0)
"""),
]

# every group contributes its hyperedges in group order
GLOBAL = [
    ("Hypergraph", "num_e", "def ref(self):\n    return sum([len(g) for g in self._raw_groups.values()])\n"),
    ("Hypergraph", "e", """
def ref(self):
    es, ws = [], []
    for n in self._raw_groups.keys():
        es.extend([c[0] for c in self._raw_groups[n].keys()])
        ws.extend([x['w_e'] for x in self._raw_groups[n].values()])
    return es, ws
"""),
    ("Hypergraph", "H_v2e", "def ref(self):\n    return torch.cat([self.H_v2e_of_group(n) for n in self._raw_groups.keys()], dim=1)\n"),
    ("Hypergraph", "H_e2v", "def ref(self):\n    return torch.cat([self.H_e2v_of_group(n) for n in self._raw_groups.keys()], dim=1)\n"),
    ("Hypergraph", "H", "def ref(self):\n    return torch.cat([self.H_v2e_of_group(n) for n in self._raw_groups.keys()], dim=1)\n"),
    ("Hypergraph", "W_e", "def ref(self):\n    return torch.diag(torch.cat([self.W_e_of_group(n)._values() for n in self._raw_groups.keys()], dim=0))\n"),
    ("Hypergraph", "D_e", "def ref(self):\n    return torch.diag(torch.cat([self.D_e_of_group(n)._values() for n in self._raw_groups.keys()], dim=0))\n"),
    ("Hypergraph", "D_v", "def ref(self):\n    return torch.diag(torch.vstack([self.D_v_of_group(n)._values() for n in self._raw_groups.keys()]).sum(dim=0))\n"),
]


# ---------------------------------------------------------------------------------------------------- S11 Laplacians
def s11_cases():
    EYE_ = "torch.diag(torch.ones(self._num_v))"
    NOLOOP = """
    g = self.clone()
    g._raw_selfloop_dict = {}
    g._has_extra_selfloop = False
    g._clear_cache()
    d = torch.sparse.sum(g.A, dim=1)
"""
    LOOP = """
    g = self.clone()
    g._has_extra_selfloop = True
    g._clear_cache()
    d = torch.sparse.sum(g.A, dim=1)
"""
    DN = "    n = d ** {p}\n    n[torch.isinf(n)] = 0\n    n = torch.diag(n)\n"
    out = [
        ("Graph", "L", "def ref(self):" + NOLOOP + "    return torch.diag(d) - g.A\n"),
        ("Graph", "L_sym", "def ref(self):" + NOLOOP + DN.format(p="-0.5") + f"    return {EYE_} - n.mm(g.A).mm(n)\n"),
        ("Graph", "L_rw", "def ref(self):" + NOLOOP + DN.format(p="-1") + f"    return {EYE_} - n.mm(g.A)\n"),
        ("Graph", "L_GCN", "def ref(self):" + LOOP + DN.format(p="-0.5") + "    return n.mm(g.A).mm(n)\n"),
        ("BiGraph", "L_GCN", "def ref(self):\n    A = self.A + torch.diag(torch.ones(self._num_u + self._num_v))\n    d = torch.sparse.sum(A, dim=1)\n" + DN.format(p="-0.5") + "    return n.mm(A).mm(n)\n"),
    ]
    for g in (False, True):
        a = "(group_name)" if g else ""
        q = lambda n: f"self.{n}_of_group(group_name)" if g else f"self.{n}"  # noqa: E731
        head = "def ref(self, group_name):\n    assert group_name in self._raw_groups\n" if g else "def ref(self):\n"
        core = f"{q('H')}.mm({q('W_e')}).mm(e).mm({q('H')}.t())"
        e = f"    e = {q('D_e')}._values() ** -1\n    e[torch.isinf(e)] = 0\n    e = torch.diag(e)\n    d = {q('D_v')}._values()\n"
        s = "_of_group" if g else ""
        out.append(("Hypergraph", "L_HGNN" + s, head + e + DN.format(p="-0.5") + f"    return n.mm({core}).mm(n)\n"))
        out.append(("Hypergraph", "L_sym" + s, head + e + DN.format(p="-0.5") + f"    return {EYE_} - n.mm({core}).mm(n)\n"))
        out.append(("Hypergraph", "L_rw" + s, head + e + DN.format(p="-1") + f"    return {EYE_} - n.mm({core})\n"))
    return out


def s11(chk):
    chk.rule("R1", "every Laplacian has the value number of its defining formula over the adjacency/incidence matrices")
    run_cases(chk, "R1", s11_cases())
    chk.floor("compared", 11)


# ---------------------------------------------------------------------------------------------------- S20 smoothing
def s20(chk):
    chk.rule("R1", "smoothing multiplies the features by the named matrix, dropping entries only for a positive rate")
    chk.rule("R2", "smoothing leaves the memoised matrix it multiplies by unchanged")
    chk.rule("R3", "a dropped matrix keeps each entry with probability 1 - rate and has the fill value at the others")
    cmpr = Comparer(chk)
    pos = (("lt", N(0), ("param", "drop_rate")), True)
    gen = "def ref(self, X, L, lamb):\n    return X + lamb * L.mm(X)\n"
    for cls in ("Graph", "DiGraph", "BiGraph", "Hypergraph"):
        cmpr.compare("R1", f"{cls}.smoothing", cls, chk.repo.method(cls, "smoothing"), gen,
                     {"X": lambda: tensor("X"), "L": lambda: tensor("L"), "lamb": V(("param", "lamb"))})
    for cls, m, L in (("Graph", "smoothing_with_GCN", "L_GCN"), ("BiGraph", "smoothing_with_GCN", "L_GCN"), ("Hypergraph", "smoothing_with_HGNN", "L_HGNN"),
                      ("Hypergraph", "smoothing_with_HGNN_of_group", "L_HGNN_of_group(group_name)")):
        g = "group_name, " if "group" in m else ""
        src = f"def ref(self, {g}X, drop_rate):\n" + ("    assert group_name in self._raw_groups\n" if g else "") + f"""
    if drop_rate > 0.0:
        return sparse_dropout(self.{L}, drop_rate).mm(X)
    return self.{L}.mm(X)
"""
        cmpr.compare("R1", f"{cls}.{m}", cls, chk.repo.method(cls, m), src, {"X": lambda: tensor("X")})
        untouched(chk, cls, m)
    c2 = Comparer(chk)
    c2.norm = draws
    c2.compare("R3", "sparse_dropout", None, chk.repo.func("dhg.utils.sparse.sparse_dropout"), DROPOUT,
               {"sp_mat": lambda: V(("coal", ("mat", "m")), "tensor"), "p": V(("param", "p")), "fill_value": V(("param", "fill_value"))}, raises=False)
    chk.floor("compared", 9)


DROPOUT = """
def ref(sp_mat, p, fill_value):
    assert 0 <= p <= 1
    if p == 0:
        return sp_mat
    keep = torch.bernoulli(torch.ones(sp_mat._nnz()) * (1 - p))
    return torch.sparse_coo_tensor(sp_mat._indices(), sp_mat._values() * keep + (1 - keep) * fill_value, sp_mat.size())
"""


def draws(t):
    """Canonical form of random masks: one Bernoulli draw per entry, written with the smaller of its two probabilities."""
    from .nn import expand
    one = ("ones",)

    def bern(i, q):
        q = expand(q)
        r = expand(tm.sub_(N(1), q))
        return ("rnd", i, "torch.bernoulli", q) if repr(q) <= repr(r) else tm.sub_(N(1), ("rnd", i, "torch.bernoulli", r))

    def go(x):
        if not isinstance(x, tuple) or not x or x[0] in ("n", "s", "b", "none", "param", "init", "I", "mat"):
            return x
        if not isinstance(x[0], str):
            return tuple(go(y) for y in x)
        x = tm.mk(x[0], *[go(y) for y in x[1:]])
        if x[0] == "mul" and any(y[0] == "ones" for y in x[1:] if isinstance(y, tuple)):
            x = tm.mul(*[y for y in x[1:] if y[0] != "ones"])
        if x[0] == "add" and any(y[0] == "ones" for y in x[1:]):
            x = tm.add(*[N(1) if y[0] == "ones" else y for y in x[1:]])
        if x[0] == "rnd" and len(x) > 3 and str(x[2]).endswith("bernoulli"):
            return bern(x[1], N(1) if x[3] == one else x[3])
        if x[0] == "lt" and len(x) == 3:
            for y, q, flip in ((x[1], x[2], False), (x[2], x[1], True)):
                if y[0] == "rnd" and str(y[2]).endswith(("torch.rand", "rand_like")):
                    r = bern(y[1], q)
                    return tm.sub_(N(1), r) if flip else r
        if x[0] == "tobool" and tm.contains(x[1], lambda y: y[0] == "rnd"):
            return x[1]
        if x[0] == "not" and tm.contains(x[1], lambda y: y[0] == "rnd"):
            return tm.sub_(N(1), x[1])
        if x[0] == "where" and len(x) == 4 and tm.contains(x[1], lambda y: y[0] == "rnd"):
            return go(tm.add(tm.mul(x[1], x[2]), tm.mul(tm.sub_(N(1), x[1]), x[3])))
        return x

    def coin(y):
        return isinstance(y, tuple) and len(y) > 3 and y[0] == "rnd" and str(y[2]).endswith("bernoulli")

    def once(x):
        # a 0/1 draw equals each of its powers
        if x[0] == "pow" and x[2][0] == "n" and x[2][1] > 0:
            y = tm.subst(x[1], once)
            if coin(y) or coin(tm.sub_(N(1), y)):
                return y
        if x[0] == "mul":
            xs, seen = [], set()
            for y in x[1:]:
                y = tm.subst(y, once)
                if coin(y) and y in seen:
                    continue
                seen.add(y)
                xs.append(y)
            return tm.mul(*xs)
        return None
    return expand(tm.subst(expand(go(t)), once))


def untouched(chk, cls, m):
    """Smoothing (also with dropout) leaves the memoised matrix as it is."""
    from .cache import MemoWrites, runs
    f = chk.repo.method(cls, m)
    memo = MemoWrites()
    try:
        I, a, outs = runs(chk.repo, chk.repo.cls(cls), f, "miss")
    except (Undecided, RecursionError) as e:
        chk.und(f"{cls}.{m}/memo", str(e))
        return
    for kind, v, s in outs:
        memo.path(I, s, f"{cls}.{m}")
    memo.decide(chk, "R2")


# ---------------------------------------------------------------------------------------------------- S14 groups
def single_group(I=None):
    g = ("param", "group_name")
    return {"_raw_groups": V(None, "dict", map=[(g, V(("sub", ("init", "self", "_raw_groups"), g), "dict"))])}


def name_dependence(chk, tag, f, ri):
    """A group's name selects its hyperedges and nothing else."""
    I, a, outs = ri
    gp = ("param", "group_name")
    con = {}
    for kind, v, s in outs:
        for c, b in s.facts.items():
            if c[0] == "eq" and gp in c[1:] and any(x[0] == "s" for x in c[1:]):
                con.setdefault(c, {True: [], False: []})[b].append((kind, v, s))
    chk.count("name_conditions", len(con))
    for c, br in con.items():
        nm = next(x for x in c[1:] if x[0] == "s")
        ab = lambda t: tm.subst(t, lambda z: nm if z == gp else None)
        for k1, v1, s1 in br[True]:
            for k2, v2, s2 in br[False]:
                if any(s2.facts.get(x, b) != b for x, b in s1.facts.items() if x != c):
                    continue
                if k1 != k2 or k1 == "ret" and ab(observe(I, s1, v1)) != ab(observe(I, s2, v2)):
                    chk.finding("R2", tag, f.loc, f"gives a group named {nm[1]!r} another result than a group with the same hyperedges and another name")
                    return


def s14(chk):
    repo = chk.repo
    chk.rule("R2", "the result for a group does not depend on how the group is called")
    chk.rule("R1", "for every operation X_of_group with a global counterpart X: X on the hypergraph holding only that group has the value number of X_of_group")
    cls = repo.cls("Hypergraph")
    cmpr = Comparer(chk)
    vw = (tm.eq(("init", "self", "_v_weight"), NONE), False)
    from ..structs import members
    names = {n: f for n, f, s in members(repo, cls) if not s}
    pos = (("lt", N(0), ("param", "drop_rate")), True)
    for n, f in sorted(names.items()):
        if not n.endswith("_of_group") or n[:-9] not in names or n.startswith("drop_hyperedges"):
            continue
        gf = names[n[:-9]]
        ps = [p for p in f.params() if p not in ("self", "group_name")]
        variants = [{}]
        if "aggr" in ps:
            variants = [{"aggr": V(S(a))} for a in AGGRS]
        for wn in ("v2e_weight", "e2v_weight", "e_weight"):
            if wn in ps and not ("aggr" in ps and len(ps) > 5):
                variants = [dict(v, **{wn: V(NONE)}) for v in variants] + [dict(v, **{wn: V(("param", wn), "tensor")}) for v in variants]
        if len(ps) > 5:  # v2v: the default path and the fully specified path
            variants = [dict(v, **{p: V(NONE) for p in ps if p not in ("X", "aggr", "drop_rate")}) for v in variants]
            variants.append({p: V(("param", p)) if "drop" in p else V(S("mean" if "v2e" in p else "sum")) if "aggr" in p else V(NONE) for p in ps if p != "X"})
        for v in variants:
            seeds = dict(v)
            if "X" in ps:
                seeds["X"] = tensor("X")
            facts = [vw, group_fact()]
            for k, x in v.items():
                if x.t == ("param", k) and "weight" in k:
                    facts.append((tm.eq(x.t, NONE), False))
            for p in ps:
                if "drop_rate" in p and (p not in v or v[p].t != NONE):
                    seeds[p] = V(("param", p))
                    facts.append((("lt", N(0), ("param", p)), True))
            tag = f"{n}" + "".join("/" + (x.t[1] if x.t[0] == "s" else k) for k, x in v.items() if x.t != NONE)
            try:
                ri = cmpr.outcomes(f, cls, dict(seeds), facts)
                rr = cmpr.outcomes(gf, cls, {k: x for k, x in seeds.items() if k in gf.params()}, facts, fields=single_group())
            except Exception as e:  # Undecided
                chk.und(tag, str(e))
                continue
            cmpr.match("R1", "Hypergraph." + tag, f.loc, ri, rr)
            name_dependence(chk, "Hypergraph." + tag, f, ri)
    chk.floor("compared", 40)


# ---------------------------------------------------------------------------------------------------- S15 order
def s15(chk):
    repo = chk.repo
    chk.rule("R1", "source/destination indices, weights and custom-weight propagation all read the entry order of one and the same matrix")
    chk.rule("R2", "edge list and its weights, and all hyperedge-indexed views, iterate the same containers in the same order")
    cmpr = Comparer(chk)

    def tweak(I):
        def mat(name):
            def f(I, func, args, kw, st, node):
                g = tuple(st.term(x) for x in args[1:]) + tuple(st.term(x) for _, x in sorted(kw.items()))
                return [(V(("mat", func.cls.name, name) + g), st)]
            return f
        for c, m in (("Graph", "A"), ("DiGraph", "A"), ("BiGraph", "B"), ("Hypergraph", "H_v2e_of_group"), ("Hypergraph", "H")):
            I.intercept[repo.method(c, m).qual] = mat(m)
        I.entry_order = True
    cmpr.tweak = tweak

    def norm(t):
        # re-sorting entries matters only to who looks at the entries
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ("inds", "vals") and len(t) == 2 and t[1][0] == "coal":
            return (t[0], ("coal", norm(t[1][1])))
        if t[0] == "coal":
            return norm(t[1])
        if isinstance(t[0], str) and t[0] not in ("n", "s", "b", "none", "param", "init", "I"):
            return tm.mk(t[0], *[norm(x) for x in t[1:]])
        return tuple(norm(x) for x in t) if not isinstance(t[0], str) else t
    cmpr.norm = norm
    want = {"e_src", "e_dst", "e_weight", "e_u", "e_v", "A_T", "B_T", "H_T"}
    cases = [c for c in s10_cases() if c[1] in want or c[1].split("_")[0] in ("v2e", "e2v")]
    run_cases(chk, "R1", cases, cmpr)
    for cls, m, warg, extra, src in passing_cases():
        seeds = {"X": lambda: tensor("X"), "aggr": V(S("sum")), warg: (lambda: tensor(warg)), "drop_rate": V(N(0))}
        seeds.update(extra)
        d = extra.get("direction")
        cmpr.compare("R1", f"{cls}.{m}" + (f"/{d.t[1]}" if d else "") + "/custom", cls, repo.method(cls, m), src, seeds, [(tm.eq(("param", warg), NONE), False)])
    c2 = Comparer(chk)
    run_cases(chk, "R2", [c for c in s10_cases() if c[1] in ("e", "e_both_side", "e_of_group", "W_e_of_group", "H_v2e_of_group", "D_e_of_group", "A", "B") and c[0] != "Hypergraph" or c[1] in ("e_of_group", "W_e_of_group", "H_v2e_of_group", "D_e_of_group")], c2)
    run_cases(chk, "R2", GLOBAL, c2)
    chk.floor("compared", 40)


_T = "global value numbering of every path against a reference definition"
_E = ("Each public member is evaluated by path-sensitive interprocedural abstract interpretation (value numbering with matrix-algebra normalisation, callees inlined, "
      "loops summarised as comprehensions over their container); a reference definition is evaluated the same way and every compatible pair of paths must have the same "
      "value number.  Values the algebra cannot interpret are reported as undecided, never as violations.")
INFO = {
    "S10": {"technique": _T, "explanation": _E, "assumptions": ASSUME,
            "note": "Every count, edge list, matrix, degree, weight, index-vector and neighbour query of the four classes has the value number of its definition over the raw edges; floating-point rounding and torch itself are assumed."},
    "S11": {"technique": _T, "explanation": _E, "assumptions": ASSUME,
            "note": "Every Laplacian, per class and per group, has the value number of its formula; exact real arithmetic assumed."},
    "S12": {"technique": "dataflow (taint) of negative powers of degrees to query results", "assumptions": ASSUME,
            "explanation": "Every value computed by a query, smoothing or message-passing member is searched for a negative power of a run-time row sum whose infinities are not replaced; a planted unguarded reference must be detected in the same run.",
            "note": "No value reachable from any query/propagation member contains an unguarded negative power of a degree; overflow of finite numbers is not decided."},
    "S13": {"technique": _T, "explanation": _E, "assumptions": ASSUME,
            "note": "Every path of every message-passing entry point, per aggregation x stored/custom weights x dropout, has the value number of the definition; rounding and the drop distribution are not decided."},
    "S14": {"technique": "value numbering of X against X_of_group on the structure restricted to one group", "explanation": _E, "assumptions": ASSUME,
            "note": "For every pair X / X_of_group, X evaluated with the raw groups restricted to the named one has the value number of X_of_group."},
    "S15": {"technique": "value numbering with the adjacency/incidence matrices as atoms", "explanation": _E + "  The coalesced matrix is an atom, so an index or weight vector taken from another ordering has a different value number.", "assumptions": ASSUME,
            "note": "All per-entry vectors and custom-weight matrices read the entry order of one and the same matrix; edge list and weights iterate the same containers."},
    "S20": {"technique": _T, "explanation": _E, "assumptions": ASSUME,
            "note": "Every smoothing helper equals left-multiplication by the named matrix, with dropping only for positive rates."},
}
