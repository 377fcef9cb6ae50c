"""S18 conversions between structures."""
from .. import terms as tm
from ..interp import Undecided, V
from ..spec import Comparer, observe, ref_func
from ..structs import RAW, SInterp, family, setup, state, sym_args
from ..terms import N, NONE, S
from .edges import lit, vfacts, vid, wt

a, b, c, d = (vid(x) for x in "abcd")


def record(names):
    """Stand-in for a constructor / add method: remembers what it was asked to build."""
    def hook(I, func, args, kw, st, node):
        fr = I.bind(func, args, kw, st, node)
        if fr is None:
            return []
        o = st.objs[args[0].t[1]]
        for k, x in fr.items():
            if k == func.params()[0]:
                continue
            if isinstance(x, tuple):  # default
                st.frames.append({"__module__": func.module, "__id__": None, "__closure__": None})
                x = I.eval(x[1], st)[0][0]
                st.frames.pop()
            o.fields["arg:" + names + k] = x
            if k in ("num_v", "num_u", "device"):
                o.fields[k if k == "device" else "_" + k] = x
            if k == "extra_selfloop":
                o.fields["_has_extra_selfloop"] = x
        return [(V(NONE), st)]
    return hook


def pairs(t):
    """Edge lists: pairs may be lists or tuples."""
    if isinstance(t, tuple):
        if t and t[0] == "tup":
            return ("list",) + tuple(pairs(x) for x in t[1:])
        return tuple(pairs(x) for x in t)
    return t


def observed(I, s, v):
    """What a built structure was asked to contain."""
    v = s.cur(v)
    if v.items is not None:
        return ("list",) + tuple(observed(I, s, x) for x in v.items)
    if v.t is None or v.t[0] != "obj" or not I.is_struct(s.objs[v.t[1]].cls):
        return s.term(v)
    o = s.objs[v.t[1]]
    out = [o.cls.name]
    for k in sorted(o.fields):
        if k.startswith("arg:") or k in ("_has_extra_selfloop",):
            x = observe(I, s, o.fields[k])
            if k in ("arg:e_weight", "arg:add.e_weight"):
                if x != NONE and x[0] == "list" and all(z == N(1) for z in x[1:]):
                    x = NONE
            if k == "arg:extra_selfloop":
                continue
            if k == "_has_extra_selfloop" and I.known(tm.mk("truth", x), s) is not None:
                x = ("b", I.known(tm.mk("truth", x), s))
            out.append((k, pairs(x)))
    return tuple(out)


def run(chk, func, cls, given, facts, fields, opaque=()):
    I = SInterp(chk.repo, "miss", maxstates=600, opaque=opaque)
    for n in RAW:
        k = chk.repo.cls(n)
        I.intercept[chk.repo.method(k, "__init__").qual] = record("")
    h = chk.repo.cls("Hypergraph")
    I.intercept[chk.repo.method(h, "add_hyperedges").qual] = record("add.")
    st, args, kw = setup(I, cls, func, given={k: v() for k, v in given.items()}) if not func.is_static and func.cls is not None else _free(I, func, {k: v() for k, v in given.items()})
    for p, fl in fields.items():
        if p in kw and kw[p].t is not None and kw[p].t[0] == "obj":
            for f, x in fl.items():
                st.objs[kw[p].t[1]].fields[f] = x()
    for t, x in facts:
        st.fact(t, x)
    outs = I.run(func, args, kw, st)
    chk.analysed |= I.inlined
    return I, args, outs


def _free(I, func, given):
    st = state(func.module)
    return st, [], sym_args(I, func, st, skip_self=False, given=given)


def conv(chk, cn, name, ref_src, given=None, facts=(), fields=None, opaque=(), tag="", on_self=False):
    repo = chk.repo
    cls = repo.cls(cn)
    impl = repo.method(cls, name)
    construct = f"{cn}.{name}" + (f"/{tag}" if tag else "")
    given, fields = given or {}, fields or {}
    try:
        ref = ref_func(repo, ref_src, cls, like=impl)
        rp = set(x.arg for x in ref.node.args.args + ref.node.args.kwonlyargs)
        ri = run(chk, impl, cls, given, facts, fields, opaque)
        rr = run(chk, ref, cls, {k: v for k, v in given.items() if k in rp}, facts, fields, opaque)
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return
    cmpr = Comparer(chk)

    def post(Ii, ai, v1, s1, Ir, ar, v2, s2):
        if on_self:
            return [("the stored hyperedges", observed(Ii, s1, ai[0]), observed(Ir, s2, ar[0]))]
        return [("the result", observed(Ii, s1, v1), observed(Ir, s2, v2))]
    cmpr.match("R1", construct, impl.loc, ri, rr, what="", post=post)


def hyper(*edges):
    """Fields of a hypergraph with literal hyperedges."""
    def groups():
        g = V(None, "dict", map=[(("tup", ("tup",) + tuple(e), ("tup",) + tuple(e)), V(None, "dict", map=[(S("w_e"), V(wt(i)))])) for i, e in enumerate(edges)])
        return V(None, "dict", map=[(S("main"), g)])
    return {"_raw_groups": groups}


def s18(chk):
    repo = chk.repo
    chk.rule("R1", "the structure a conversion builds is requested with exactly the vertex count, edges, weights, merge operation, self-loop switch and device of the definition")
    A = "arg"
    # adjacency lists: the first entry of a line is the source
    lines = [[[a, b, c], [b, d], [c]], [[c, a], [a]], [[a], [b]], [[a, b], [], [c, b, a]], [[b, a]]]
    for i, ln in enumerate(lines):
        es = [(l[0], x) for l in ln if l for x in l[1:]]
        e_list = "[" + ", ".join(f"({s[1]}, {t[1]})" for s, t in es) + "]"
        pp = ", ".join(x[1] for x in (a, b, c, d))
        adj = {"adj_list": lambda: lit(ln)}
        for cn in ("Graph", "DiGraph"):
            conv(chk, cn, "from_adj_list", f"def ref(num_v, adj_list, extra_selfloop, device, {pp}):\n    return dhg.{cn}(num_v, {e_list}, extra_selfloop=extra_selfloop, device=device)\n", adj, vfacts("abcd", cn), tag=str(i))
        conv(chk, "BiGraph", "from_adj_list", f"def ref(num_u, num_v, adj_list, device, {pp}):\n    return dhg.BiGraph(num_u, num_v, {e_list}, device=device)\n", adj, vfacts("abcd", "BiGraph"), tag=str(i))
    # star expansion
    conv(chk, "Graph", "from_hypergraph_star", """
def ref(hypergraph, weighted, merge_op, device):
    H = hypergraph.H
    nv, ne = hypergraph.num_v, hypergraph.num_e
    i = H._indices()
    pairs = torch.stack([i[0], i[1] + nv]).t().tolist()
    mask = torch.hstack([torch.ones(nv), torch.zeros(ne)]).bool().to(device)
    if weighted:
        return dhg.Graph(nv + ne, pairs, H._values().tolist(), merge_op=merge_op, device=device), mask
    return dhg.Graph(nv + ne, pairs, merge_op=merge_op, device=device), mask
""")
    # clique expansion
    conv(chk, "Graph", "from_hypergraph_clique", """
def ref(hypergraph, weighted, miu, device):
    adj = (miu * hypergraph.H.mm(hypergraph.H_T)).coalesce()
    src, dst = adj._indices()
    keep = src < dst
    pairs = torch.stack([src[keep], dst[keep]]).t().tolist()
    if weighted:
        return dhg.Graph(hypergraph.num_v, pairs, adj._values()[keep].tolist(), merge_op="sum", device=device)
    return dhg.Graph(hypergraph.num_v, pairs, merge_op="mean", device=device)
""")
    # two-colour expansion of HyperGCN
    for med in (True, False):
        for i, es in enumerate(([[a, b]], [[a, b, c]], [[a, b], [c, d]], [[a, b], [c]]) + (([[a, b, c], [b, d]],) if not med else ())):
            body = ""
            for e in es:
                if len(e) < 2:
                    body += "    assert False\n"
                    continue
                vs = "[" + ", ".join(x[1] for x in e) + "]"
                body += f"""
    e = {vs}
    p = torch.mm(feature[e, :], rv).squeeze()
    hi, lo = torch.argmax(p), torch.argmin(p)
"""
                if not med:
                    body += f"    pairs.append([e[hi], e[lo]])\n    ws.append(1.0 / {len(e)})\n"
                else:
                    for m in range(len(e)):
                        body += f"    if {m} != hi and {m} != lo:\n        pairs += [[e[hi], {e[m][1]}], [e[lo], {e[m][1]}]]\n        ws += [1.0 / {2 * len(e) - 3}, 1.0 / {2 * len(e) - 3}]\n"
            conv(chk, "Graph", "from_hypergraph_hypergcn", f"""
def ref(hypergraph, feature, with_mediator, remove_selfloop, device, v_a, v_b, v_c, v_d):
    assert hypergraph.num_v == feature.shape[0]
    rv = torch.rand((feature.shape[1], 1), device=feature.device)
    pairs, ws = [], []
{body}
    if remove_selfloop:
        pairs = torch.tensor(pairs, dtype=torch.long).reshape(-1, 2)
        ws = torch.tensor(ws, dtype=torch.float)
        keep = (pairs[:, 0] != pairs[:, 1]).bool()
        pairs = pairs[keep].tolist()
        ws = ws[keep].tolist()
    return dhg.Graph(hypergraph.num_v, pairs, ws, merge_op="sum", device=device)
""", {"with_mediator": lambda: V(("b", med))}, vfacts("abcd", "Hypergraph"), {"hypergraph": hyper(*es)}, tag=f"{i}{' with mediators' if med else ''}")
    # bipartite graph of a hypergraph
    for i, es in enumerate(([[a, b, c]], [[a, b], [c]], [[b], [a, c], [a, b, d]])):
        uv = "[" + ", ".join(f"({x[1]}, {j})" for j, e in enumerate(es) for x in e) + "]"
        vu = "[" + ", ".join(f"({j}, {x[1]})" for j, e in enumerate(es) for x in e) + "]"
        ws = "[" + ", ".join(f"w{j}" for j, e in enumerate(es) for _ in e) + "]"
        extra = ", ".join([x[1] for x in (a, b, c, d)] + ["w0", "w1", "w2"])
        conv(chk, "BiGraph", "from_hypergraph", f"""
def ref(hypergraph, vertex_as_U, weighted, device, {extra}):
    w = {ws} if weighted else None
    if vertex_as_U:
        return dhg.BiGraph(hypergraph.num_v, {len(es)}, {uv}, w, device=device)
    return dhg.BiGraph({len(es)}, hypergraph.num_v, {vu}, w, device=device)
""", facts=vfacts("abcd", "Hypergraph"), fields={"hypergraph": hyper(*es)}, tag=str(i))
    # hypergraphs
    opq = [repo.method(repo.cls("BiGraph"), "nbr_u").qual, repo.method(repo.cls("BiGraph"), "nbr_v").qual]
    bi = """
    if U_as_vertex:
        es = [bigraph.nbr_u(v) for v in range(bigraph.num_v) if len(bigraph.nbr_u(v)) > 0]
    else:
        es = [bigraph.nbr_v(u) for u in range(bigraph.num_u) if len(bigraph.nbr_v(u)) > 0]
"""
    conv(chk, "Hypergraph", "from_bigraph", f"""
def ref(bigraph, U_as_vertex, device):{bi}
    return dhg.Hypergraph(bigraph.num_u if U_as_vertex else bigraph.num_v, es, device=device)
""", opaque=opq)
    conv(chk, "Hypergraph", "add_hyperedges_from_bigraph", f"""
def ref(self, bigraph, U_as_vertex, group_name):
    assert self.num_v == (bigraph.num_u if U_as_vertex else bigraph.num_v){bi}
    self.add_hyperedges(es, group_name=group_name)
""", opaque=opq, on_self=True)
    conv(chk, "Hypergraph", "from_graph", """
def ref(graph, device):
    es, ws = graph.e
    return dhg.Hypergraph(graph.num_v, es, e_weight=ws, device=device)
""")
    conv(chk, "Hypergraph", "add_hyperedges_from_graph", """
def ref(self, graph, group_name):
    assert self.num_v == graph.num_v
    es, ws = graph.e
    self.add_hyperedges(es, e_weight=ws, group_name=group_name)
""", on_self=True)
    for k in (0, 1, 2, 3, 4):
        power = ["A"]
        for _ in range(k - 1):
            power.append(f"torch.sparse.mm({power[-1]}, A)")
        hop = f"""
    assert {k} >= 1
    A = graph.A
    M = {power[-1]} if only_kHop else {" + ".join(power)}
    es = [tuple(set([v] + M[v]._indices().squeeze(0).tolist())) for v in range(graph.num_v)]
"""
        for o in (True, False):
            given = {"k": lambda: V(N(k)), "only_kHop": lambda: V(("b", o))}
            t = f"{k} hops{' only' if o else ''}"
            conv(chk, "Hypergraph", "from_graph_kHop", f"def ref(graph, k, only_kHop, device):{hop}    return dhg.Hypergraph(graph.num_v, es, device=device)\n", given, tag=t)
            conv(chk, "Hypergraph", "add_hyperedges_from_graph_kHop", f"def ref(self, graph, k, only_kHop, group_name):\n    assert self.num_v == graph.num_v{hop}    self.add_hyperedges(es, group_name=group_name)\n", given, tag=t, on_self=True)
    knn = """
    assert {f}.ndim == 2
    assert k <= {f}.shape[0]
    es = torch.topk(torch.cdist({f}, {f}), k, largest=False)[1].tolist()
"""
    conv(chk, "Hypergraph", "from_feature_kNN", f"def ref(features, k, device):{knn.format(f='features')}    return dhg.Hypergraph(features.shape[0], es, device=device)\n")
    conv(chk, "Hypergraph", "add_hyperedges_from_feature_kNN", f"def ref(self, feature, k, group_name):\n    assert feature.shape[0] == self.num_v{knn.format(f='feature')}    self.add_hyperedges(es, group_name=group_name)\n", on_self=True)
    conv(chk, "DiGraph", "from_feature_kNN", """
def ref(features, k, p, distance2weight, include_center, center_as_src, device):
    features = features.cpu().numpy()
    assert features.ndim == 2
    assert k <= features.shape[0]
    n = features.shape[0]
    tree = scipy.spatial.cKDTree(features)
    m = k if include_center else k + 1
    dist, idx = tree.query(features, k=list(range(1, m + 1)), p=p)
    near = idx[:, 1:].reshape(-1, 1)
    center = np.arange(n).reshape(-1, 1).repeat(m - 1, 1).reshape(-1, 1)
    es = np.concatenate([center, near] if center_as_src else [near, center], axis=1).tolist()
    if distance2weight:
        ws = np.exp(-dist[:, 1:]).reshape(-1).tolist()
    else:
        ws = np.ones_like(dist[:, 1:]).reshape(-1).tolist()
    return dhg.DiGraph(n, es, ws, device=device, extra_selfloop=include_center)
""")
    chk.floor("compared", 30)


INFO = {
    "S18": {"technique": "value numbering of each conversion's constructor request against its definition",
            "explanation": "Every from_*/add_hyperedges_from_* function is evaluated path by path with the constructors (and add_hyperedges) replaced by recorders; the requested vertex count, edge list, weights, merge operation, self-loop switch and device "
                           "must have the value number of the reference definition on every compatible path.",
            "assumptions": ["torch/numpy/scipy operators are uninterpreted or follow the algebraic laws listed in DESIGN.md", "what the constructors do with the request is decided by S08, S09 and S17"],
            "note": "Adjacency lists, HyperGCN and hypergraph-to-bipartite expansions are compared on literal shapes with symbolic vertex ids (5, 7 and 3 shapes); hop counts 1 to 4; all flag values. DiGraph.from_feature_kNN keeps the documented 'nearest point is the centre' rule."},
}
