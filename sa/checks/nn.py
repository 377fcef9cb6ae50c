"""N01-N06: layers, models, losses."""
import itertools

from .. import terms as tm
from ..interp import Ext, MethodOf, Partial, Undecided, V
from ..repo import AnalysisBroken
from ..spec import Comparer, observe, ref_func
from ..terms import N, NONE, S

ASSUME = ["torch operations and torch.nn modules mean what sa/ops.py and sa/checks/nn.py say (Linear, BatchNorm1d, Embedding and Parameter are distinct unknown functions/values per instance; Dropout is the identity outside training)",
          "matrices and message-passing primitives of the structure classes are taken as atoms here; the S checks decide them"]
EXTRA = """
import torch.optim as optim
from dhg.nn import GCNConv, GATConv, GraphSAGEConv, GINConv, HGNNConv, HGNNPConv, JHConv, HNHNConv, HyperGCNConv, UniGCNConv, UniGATConv, UniSAGEConv, UniGINConv
from dhg.nn import MLP, MultiHeadWrapper, Discriminator, BPRLoss, EmbeddingRegularization
from dhg.models import GCN, GAT, GraphSAGE, GIN, HGNN, HGNNP, HNHN, HyperGCN, DHCF, UniGCN, UniGAT, UniSAGE, UniGIN, LightGCN, NGCF, BGNN_Adv, BGNN_MLP
"""

T, F_ = ("b", True), ("b", False)
SIG = {
    "Linear": (("in_features", "out_features", "bias"), {"bias": T}),
    "BatchNorm1d": (("num_features", "eps", "momentum", "affine", "track_running_stats"), {"eps": N(1e-5), "momentum": N(0.1), "affine": T, "track_running_stats": T}),
    "Embedding": (("num_embeddings", "embedding_dim"), {}),
    "Dropout": (("p", "inplace"), {"p": N(0.5), "inplace": F_}),
    "ReLU": (("inplace",), {"inplace": F_}),
    "ELU": (("alpha", "inplace"), {"alpha": N(1), "inplace": F_}),
    "LeakyReLU": (("negative_slope", "inplace"), {"negative_slope": N(0.01), "inplace": F_}),
    "Sigmoid": ((), {}), "Tanh": ((), {}), "Identity": ((), {}), "Softplus": (("beta", "threshold"), {"beta": N(1), "threshold": N(20)}), "LogSigmoid": ((), {}),
    "Parameter": (("data", "requires_grad"), {"data": NONE, "requires_grad": T}),
}
FSIG = {
    "leaky_relu": (("input", "negative_slope", "inplace"), {"negative_slope": N(0.01), "inplace": F_}),
    "elu": (("input", "alpha", "inplace"), {"alpha": N(1), "inplace": F_}),
    "relu": (("input", "inplace"), {"inplace": F_}),
    "dropout": (("input", "p", "training", "inplace"), {"p": N(0.5), "training": T, "inplace": F_}),
    "normalize": (("input", "p", "dim", "eps"), {"p": N(2), "dim": N(1), "eps": N(1e-12)}),
    "softplus": (("input", "beta", "threshold"), {"beta": N(1), "threshold": N(20)}),
    "clamp": (("input", "min", "max"), {"min": NONE, "max": NONE}),
    "split": (("tensor", "split_size_or_sections", "dim"), {"dim": N(0)}),
    "log": (("input",), {}), "logsigmoid": (("input",), {}), "sigmoid": (("input",), {}), "tanh": (("input",), {}),
}
STATELESS = ("Dropout", "ReLU", "ELU", "LeakyReLU", "Sigmoid", "Tanh", "Identity", "Softplus", "LogSigmoid")
FUNC = {"ReLU": "relu", "ELU": "elu", "LeakyReLU": "leaky_relu", "Sigmoid": "sigmoid", "Tanh": "tanh", "Dropout": "dropout", "Softplus": "softplus", "LogSigmoid": "logsigmoid"}
ALIAS = {"clip": "clamp"}
CONTAINERS = ("ModuleList", "Sequential", "ModuleDict", "ParameterList")
MMETH = ("add_module", "register_module", "register_parameter", "register_buffer", "train", "eval", "to", "cpu", "cuda", "parameters", "named_parameters", "children", "modules", "apply", "zero_grad", "state_dict", "load_state_dict", "requires_grad_")


def mod_kind(d):
    """torch.nn.X, torch.nn.modules.activation.X -> X"""
    if not d.startswith("torch.nn."):
        return None
    k = d.split(".")[-1]
    if d.startswith("torch.nn.init.") or d.startswith("torch.nn.utils.") or d.startswith("torch.nn.functional"):
        return None
    return k if k[:1].isupper() else None


def fn_kind(d):
    if d.startswith("F.") and d[2:].rstrip("_") in FSIG:
        return d[2:].rstrip("_")
    if d.startswith("torch.") and d[6:].rstrip("_") in ("relu", "sigmoid", "tanh", "dropout", "clamp", "clip", "split", "log"):
        return ALIAS.get(d[6:].rstrip("_"), d[6:].rstrip("_"))
    return None


class Hooks(dict):
    def __init__(self, owner, base):
        super().__init__(base)
        self.owner = owner

    def __contains__(self, d):
        return dict.__contains__(self, d) or bool(mod_kind(d) or fn_kind(d) or d.startswith("nnmodule."))

    def __getitem__(self, d):
        if dict.__contains__(self, d):
            return dict.__getitem__(self, d)
        o = self.owner
        if d.startswith("nnmodule."):
            return lambda I, a, kw, st, node: o.module_method(I, d[9:], a, kw, st, node)
        k = mod_kind(d)
        if k:
            return lambda I, a, kw, st, node: o.create(I, k, a, kw, st, node)
        return lambda I, a, kw, st, node: o.functional(I, d, fn_kind(d), a, kw, st, node)


def bound(I, sig, a, kw, st):
    names, dflt = sig
    if len(a) > len(names) or any(k not in names for k in kw):
        return None
    d = dict(dflt)
    d.update({n: st.term(x) for n, x in zip(names, a)})
    d.update({k: st.term(x) for k, x in kw.items()})
    return d if all(n in d for n in names) else None


class Nets:
    """torch.nn modules as values: a module is its kind, its configuration and (if it holds parameters) its identity."""

    def __init__(self, training=True, shallow=True):
        self.training, self.shallow = training, shallow

    def install(self, I):
        I.hooks_ext = Hooks(self, I.hooks_ext)
        I.hook_apply = self.apply
        prev = I.hook_mcall

        def mcall(I, v, name, a, kw, st, node):
            r = self.mcall(I, v, name, a, kw, st, node)
            return r if r is not None or prev is None else prev(I, v, name, a, kw, st, node)
        I.hook_mcall = mcall
        fh = I.field_hook

        def field(o, name, r, st):
            if not I.is_struct(o.cls):
                if name == "training":
                    return V(("b", self.training))
                if name in MMETH:
                    key = r.t[1]
                    return V(("mmeth", key, name), py=Partial(V(("ext", "nnmodule." + name), py=Ext("nnmodule." + name)), [V(("obj", key))], {}))
            return fh(o, name, r, st)
        I.field_hook = field
        kn = I.known

        def known(c, st):
            # features and structure are on one device (S07 decides what happens when they are not)
            if c[0] == "eq" and any(z[0] == "device_of" for z in c[1:]):
                return True
            return kn(c, st)
        I.known = known
        if self.shallow:
            atoms(I)

    # ------------------------------------------------------------------ modules
    def create(self, I, kind, a, kw, st, node):
        if kind in CONTAINERS:
            items = []
            if kind == "Sequential":
                items = [st.cur(x) for x in a]
            elif a:
                c = I.concrete_iter(st.cur(a[0]), st)
                if c is None:
                    return None
                items = list(c)
            st.nobj += 1
            v = I.lst(items)
            v.org = frozenset([(("modlist", kind, st.nobj), 0)])
            return [(v, st)]
        if kind == "Module":
            return None
        if kind in SIG:
            d = bound(I, SIG[kind], a, {k: x for k, x in kw.items() if k not in ("device", "dtype")}, st)
            if d is None:
                return None
            args = tuple((n, d[n]) for n in SIG[kind][0])
        else:
            args = I.argterms(a, kw, st)
        st.nobj += 1
        t = ("mod", kind) + args
        if kind not in STATELESS:
            t += (("id", st.nobj),)
        return [(V(t), st)]

    def apply(self, I, f, a, kw, st, node):
        t = f.t
        if t is not None and t[0] == "obj" and len(a) == 1 and st.objs[t[1]].cls.name == "Sequential":
            return None
        if f.items is not None and any(o[0][0] == "modlist" for o in f.org) and len(a) == 1:
            outs = [(a[0], st)]
            for m in f.items:
                outs = [r for x, s in outs for r in I.call(m, [x], {}, s, node)]
            return outs
        if t is None or t[0] != "mod":
            return None
        if len(a) + len(kw) != 1:
            return None
        x = st.cur(a[0] if a else list(kw.values())[0])
        kind = t[1]
        if kind in FUNC:
            d = {n: y for n, y in t[2:]}
            return self.func(I, FUNC[kind], x, d, st, node, self.training)
        if kind == "Identity":
            return [(x, st)]
        return [(V(("mapp", t, st.term(x)), "tensor"), st)]

    def func(self, I, name, x, d, st, node, training):
        xt = st.term(x)
        if name == "dropout":
            if d["p"] == N(0) or training is False:
                return [(x, st)]
            r = ("drop", xt, d["p"]) if training is True else ("drop?", xt, d["p"], training)
            st.ev("draw", "dropout", I.loc(node, st))
        elif name == "leaky_relu":
            r = ("leaky_relu", xt, d["negative_slope"])
        elif name == "elu":
            r = ("elu", xt, d["alpha"])
        elif name == "softplus" and d["beta"] == N(1):
            r = tm.mul(N(-1), ("log", ("sigmoid", tm.mul(N(-1), xt))))
        elif name == "logsigmoid":
            r = ("log", ("sigmoid", xt))
        elif name in ("relu", "sigmoid", "tanh", "log"):
            r = (name, xt)
        else:
            r = (name, xt) + tuple(sorted((k, y) for k, y in d.items() if k not in ("input", "inplace")))
        v = V(r, "tensor")
        if d.get("inplace") == T:
            I.mutate(x, v, name + "_", st, node)
        return [(v, st)]

    def split(self, I, x, d, st):
        """Chunks of the given sizes along the first axis; the sizes add up to its length."""
        z = d["split_size_or_sections"]
        if z[0] not in ("list", "tup") or d["dim"] != N(0):
            return None
        out, at = [], N(0)
        for i, n in enumerate(z[1:]):
            hi = tm.add(at, n)
            out.append(V(("sub", st.term(x), ("slice", NONE if i == 0 else at, NONE if i == len(z) - 2 else hi, NONE)), "tensor"))
            at = hi
        return [(I.lst(out), st)]

    def functional(self, I, dotted, k, a, kw, st, node):
        d = bound(I, FSIG[k], a, kw, st)
        if d is None:
            return None
        x = st.cur(a[0] if a else kw[FSIG[k][0][0]])
        if k == "split":
            return self.split(I, x, d, st)
        if dotted.endswith("_"):
            d["inplace"] = T
        tr = d.get("training")
        return self.func(I, k, x, d, st, node, tr[1] if tr is not None and tr[0] == "b" else tr)

    def mcall(self, I, v, name, a, kw, st, node):
        t = v.t
        if t is not None and t[0] == "mod":
            if name in ("forward", "__call__"):
                return self.apply(I, v, a, kw, st, node)
            if name in ("to", "cpu", "cuda", "train", "eval", "requires_grad_", "float", "double"):
                st.ev("modmode", t, name, I.argterms(a, kw, st), I.loc(node, st))
                return [(v, st)]
            return None
        if v.items is not None and any(o[0][0] == "modlist" for o in v.org) and name == "forward":
            return self.apply(I, v, a, kw, st, node)
        if name in ("relu", "sigmoid", "tanh", "log", "relu_", "sigmoid_", "tanh_", "log_") and not a:
            return self.func(I, name.rstrip("_"), v, {"inplace": T if name.endswith("_") else F_}, st, node, None)
        if name in ("clamp", "clip", "clamp_", "split"):
            k = ALIAS.get(name.rstrip("_"), name.rstrip("_"))
            d = bound(I, FSIG[k], [v] + list(a), kw, st)
            if d is not None:
                return self.split(I, v, d, st) if k == "split" else self.func(I, k, v, dict(d, inplace=T if name.endswith("_") else F_), st, node, None)
        if name in ("detach", "detach_"):
            return [(V(("detach", st.term(v)), v.ty, org=v.org), st)]
        return None

    def module_method(self, I, name, a, kw, st, node):
        me, a = st.cur(a[0]), a[1:]
        key = me.t[1]
        if name in ("add_module", "register_module", "register_parameter", "register_buffer"):
            n = st.term(a[0] if a else kw["name"])
            x = a[1] if len(a) > 1 else kw.get("module") or kw.get("param") or kw.get("tensor")
            if n[0] != "s":
                raise Undecided("module registered under a computed name")
            st.objs[key].fields[n[1]] = x
            st.ev("write", key, n[1], st.term(x) if st.cur(x).py is None else ("py",), I.loc(node, st), x)
            return [(V(NONE), st)]
        st.ev("modmode", me.t, name, I.argterms(a, kw, st), I.loc(node, st))
        if name in ("train", "eval", "to", "cpu", "cuda", "apply", "requires_grad_"):
            return [(me, st)]
        return [(V(("mmcall", me.t, name) + I.argterms(a, kw, st)), st)]


# ------------------------------------------------------------------------------------------------------------ structures
MSG = {
    "Graph": ("v2v", "from_hypergraph_hypergcn"),
    "DiGraph": ("v2v",),
    "BiGraph": ("u2v", "v2u"),
    "Hypergraph": ("v2e_aggregation", "v2e_update", "e2v_aggregation", "e2v_update", "v2e_aggregation_of_group", "v2e_update_of_group", "e2v_aggregation_of_group", "e2v_update_of_group"),
}
MATS = ("A", "B", "B_T", "D_v", "D_u", "D_e", "H", "H_T", "W_e", "W_v", "N_e", "N_v", "N_u", "L")


def atoms(I):
    """Message-passing primitives and derived matrices of a structure are atoms over (structure, arguments)."""
    repo = I.repo
    for cn, msgs in MSG.items():
        for k in repo.mro(repo.cls(cn)):
            if not hasattr(k, "methods"):
                continue
            for n, f in k.methods.items():
                if n in msgs:
                    I.intercept[f.qual] = message
                elif f.is_property and n not in ("device", "vars_for_DL"):
                    I.intercept[f.qual] = prop


def prop(I, f, args, kw, st, node):
    n = f.node.name
    head = "prop" if n in MATS or n.split("_")[0] in ("D", "L", "H", "W", "B") else "vprop"
    v = V((head, n, st.term(args[0])), "tensor")
    if head == "prop":
        # the structure keeps these matrices: changing one in place changes the structure
        v.org = frozenset([(("param", n + " of the structure"), 0)])
    return [(v, st)]


def message(I, f, args, kw, st, node):
    env = I.bind(f, args, kw, st, node)
    if env is None:
        return []
    st.frames.append({"__module__": f.module, "__id__": None, "__closure__": None})
    d = {}
    for k, x in env.items():
        if isinstance(x, tuple):
            x = I.eval(x[1], st)[0][0]
        d[k] = st.term(x)
    st.frames.pop()
    d.pop("device", None)
    d.pop("drop_rate", None) if d.get("drop_rate") == N(0) else None
    if "drop_rate" in d:
        st.ev("draw", "edge dropping", I.loc(node, st))
    return [(V(("msg", f.node.name) + tuple(sorted(d.items())), f.cls if f.node.name.startswith("from_") else "tensor"), st)]


# ------------------------------------------------------------------------------------------------------------ identities
def number(t):
    """Rename module identities: ordered by the identity-free form of their applications, then by first occurrence; numeric factors leave reductions."""
    if tm.contains(t, lambda z: z[0] == "red" and z[1] in ("mean", "sum") and z[2][0] in ("mul", "add")):
        t = tm.subst(t, linear)
    if tm.contains(t, lambda z: z[0] == "mul" and any(x[0] == "add" or x == N(0) for x in z[1:]) or z[0] in ELEMENTWISE and len(z) > 1 and isinstance(z[1], tuple) and z[1][0] in ("squeeze", "unsqueeze")):
        t = expand(t)
    if tm.contains(t, lambda z: z[0] == "rnd"):
        draws = {}
        for z in tm.walk(t):
            if z[0] == "rnd":
                draws.setdefault(z[1], len(draws))
        t = tm.subst(t, lambda z: ("rnd", ("draw", draws[z[1]])) + tuple(tm.subst(x, number_draw(draws)) for x in z[2:]) if z[0] == "rnd" and z[1] in draws else None)
    if not tm.contains(t, lambda z: z[0] == "id" and len(z) == 2):
        return t
    erase = lambda x: tm.subst(x, lambda z: ("id", "*") if z[0] == "id" and len(z) == 2 else None)
    sig, order = {}, {}
    for z in tm.walk(t):
        if z[0] == "mod" and z[-1][0] == "id":
            order.setdefault(z[-1], len(order))
            sig.setdefault(z[-1], set())
        if z[0] in ("mapp", "attr") and z[1][0] == "mod" and z[1][-1][0] == "id":
            sig.setdefault(z[1][-1], set()).add(repr(erase(z)))
    ids = sorted(sig, key=lambda i: (sorted(sig[i]), order.get(i, 0)))
    m = {i: ("nth", k) for k, i in enumerate(ids)}
    return tm.subst(t, lambda z: m.get(z))


ELEMENTWISE = ("leaky_relu", "relu", "elu", "sigmoid", "tanh", "log", "exp", "softplus", "logsigmoid")


def expand(t):
    """Products distribute over sums; a dropped or added axis moves outside of elementwise functions."""
    if not isinstance(t, tuple):
        return t
    if not t or not isinstance(t[0], str):
        return tuple(expand(x) for x in t)
    if t[0] in ("n", "s", "b", "none", "param", "init", "I"):
        return t
    z = tm.mk(t[0], *[expand(x) for x in t[1:]])
    if z[0] == "mul":
        if N(0) in z[1:]:
            return N(0)
        sums = [x for x in z[1:] if x[0] == "add"]
        n = 1
        for x in sums:
            n *= len(x) - 1
        if sums and n <= 32:
            rest = [x for x in z[1:] if x[0] != "add"]
            return tm.add(*[expand(tm.mul(*rest, *c)) for c in itertools.product(*[x[1:] for x in sums])])
    if z[0] in ELEMENTWISE and isinstance(z[1], tuple) and z[1][0] in ("squeeze", "unsqueeze"):
        q = z[1]
        return (q[0], expand(tm.mk(z[0], q[1], *z[2:]))) + q[2:]
    return z


def number_draw(draws):
    return lambda z: ("rnd", ("draw", draws[z[1]])) + tuple(tm.subst(x, number_draw(draws)) for x in z[2:]) if z[0] == "rnd" and z[1] in draws else None


def linear(z):
    """mean(c * x) = c * mean(x) for a number c."""
    if z[0] == "red" and z[1] in ("mean", "sum") and z[2][0] == "mul":
        x = tm.subst(z[2], linear)
        c = [y for y in x[1:] if y[0] == "n"] if x[0] == "mul" else []
        if c:
            return tm.mul(*c, ("red", z[1], tm.mul(*[y for y in x[1:] if y[0] != "n"])) + z[3:])
    return None


def drive(chk, rule, name, loc, impl, ref, extra="", facts=(), training=None, given=None, returns=True):
    if training is None:
        # the definitions hold in training and in evaluation mode
        r = drive(chk, rule, name, loc, impl, ref, extra, facts, True, given, returns)
        drive(chk, rule, name + " (evaluation mode)", loc, impl, ref, extra, facts, False, given, returns)
        return r
    C = Comparer(chk, maxstates=3000)
    C.tweak = lambda I: Nets(training).install(I)
    C.norm = number
    try:
        res = []
        for src in (impl, ref):
            f = ref_func(chk.repo, src.replace("TRAINING", str(training)), None, extra=EXTRA + extra)
            res.append(C.outcomes(f, None, {k: (v() if callable(v) else v) for k, v in (given or {}).items()}, facts))
    except (Undecided, RecursionError) as e:
        chk.und(name, str(e) or type(e).__name__)
        return None
    if returns and not any(k == "ret" for k, v, s in res[1][2]):
        raise AnalysisBroken(f"{chk.pid}: the definition of '{name}' never returns")
    return C.match(rule, name, loc, res[0], res[1])


# ------------------------------------------------------------------------------------------------------------ layers
# name: (structure parameter, extra constructor parameters, definition of the raw output, activation, dropout after it)
BASE = [("in_channels", "a"), ("out_channels", "b")]
BIAS = [("bias", "bias")]
HY = "hg: Hypergraph"
CONVS = {
    "GCNConv": ("g: Graph", BASE + BIAS, "return g.L_GCN.mm(nn.Linear(a, b, bias)(X))", "torch.relu"),
    "GATConv": ("g: Graph", BASE + BIAS + [("drop_rate", "p"), ("atten_neg_slope", "slope")], """
    H = nn.Linear(a, b, bias)(X)
    s, d = nn.Linear(b, 1, bias=False)(H), nn.Linear(b, 1, bias=False)(H)
    w = nn.Dropout(p)(F.leaky_relu(s[g.e_src] + d[g.e_dst], slope).squeeze(-1))
    return g.v2v(H, aggr="softmax_then_sum", e_weight=w.clamp(0.001, 5))
""", "F.elu"),
    "GraphSAGEConv": ("g: Graph", BASE + BIAS, "return nn.Linear(a * 2, b, bias)(torch.cat([X, g.v2v(X, aggr='mean')], dim=1))", "torch.relu"),
    "HGNNConv": (HY, BASE + BIAS, "return hg.L_HGNN.mm(nn.Linear(a, b, bias)(X))", "torch.relu"),
    "HGNNPConv": (HY, BASE + BIAS, "return hg.v2v(nn.Linear(a, b, bias)(X), aggr='mean')", "torch.relu"),
    "JHConv": (HY, BASE + BIAS, "return hg.L_HGNN.mm(nn.Linear(a, b, bias)(X)) + X", "torch.relu"),
    "HNHNConv": (HY, BASE + BIAS, "return hg.e2v(nn.Linear(b, b, bias)(torch.relu(hg.v2e(nn.Linear(a, b, bias)(X), aggr='mean'))), aggr='mean')", "torch.relu"),
    "HyperGCNConv": (HY, BASE + [("use_mediator", "med")] + BIAS, """
    H = nn.Linear(a, b, bias)(X)
    return Graph.from_hypergraph_hypergcn(hg, H, med).L_GCN.mm(H)
""", "torch.relu"),
    "UniGCNConv": (HY, BASE + BIAS, """
    Y = hg.v2e(nn.Linear(a, b, bias)(X), aggr="mean")
    D = hg.D_v._values()[hg.v2e_src]
    tot = torch.zeros(hg.num_e, device=hg.device).scatter_reduce(0, index=hg.v2e_dst, src=D, reduce="sum")
    cnt = torch.zeros(hg.num_e, device=hg.device).scatter_reduce(0, index=hg.v2e_dst, src=(D != 0).type_as(torch.zeros(hg.num_e, device=hg.device)), reduce="sum")
    De = (tot / cnt).pow(-0.5)
    De[De.isinf()] = 1
    return hg.D_v_neg_1_2.mm(hg.e2v(De.view(-1, 1) * Y, aggr="sum"))
""", "torch.relu"),
    "UniGATConv": (HY, BASE + BIAS + [("drop_rate", "p"), ("atten_neg_slope", "slope")], """
    Y = hg.v2e(nn.Linear(a, b, bias)(X), aggr="mean")
    w = nn.Dropout(p)(F.leaky_relu(nn.Linear(b, 1, bias=False)(Y)[hg.e2v_src], slope).squeeze(-1))
    return hg.e2v(Y, aggr="softmax_then_sum", e2v_weight=w.clamp(0.001, 5))
""", "F.elu"),
    "UniSAGEConv": (HY, BASE + BIAS, """
    H = nn.Linear(a, b, bias)(X)
    return hg.e2v(hg.v2e(H, aggr="mean"), aggr="sum") + H
""", "torch.relu"),
    "UniGINConv": (HY, BASE + [("eps", "eps")] + BIAS, """
    H = nn.Linear(a, b, bias)(X)
    return (1 + eps) * hg.e2v(hg.v2e(H, aggr="mean"), aggr="sum") + H
""", "torch.relu"),
}
# constructor parameters in their documented positions
POS = {
    "GATConv": "in_channels out_channels bias use_bn drop_rate atten_neg_slope is_last",
    "UniGATConv": "in_channels out_channels bias use_bn drop_rate atten_neg_slope is_last",
    "GraphSAGEConv": "in_channels out_channels aggr bias use_bn drop_rate is_last",
    "HyperGCNConv": "in_channels out_channels use_mediator bias use_bn drop_rate is_last",
    "UniGINConv": "in_channels out_channels eps train_eps bias use_bn drop_rate is_last",
}
STDPOS = "in_channels out_channels bias use_bn drop_rate is_last"
ATTEN = ("GATConv", "UniGATConv")  # dropout acts on the attention weights, not on the output
VARS = "a, b, bias, p, slope, eps, med"
DEFAULT = {"bias": "True", "use_bn": "False", "drop_rate": "0.5", "atten_neg_slope": "0.2", "is_last": "False", "aggr": "'mean'", "use_mediator": "False", "eps": "0.0", "train_eps": "False"}
VAL = {"in_channels": "a", "out_channels": "b", "bias": "bias", "drop_rate": "p", "atten_neg_slope": "slope", "eps": "eps", "use_mediator": "med"}


def body(src):
    src = src.strip("\n")
    return src if src.startswith("    ") else "    " + src


def make(name, style, **over):
    """Source of a constructor call of a layer: by keyword, by position, or with defaults only."""
    names = POS.get(name, STDPOS).split()
    if style == "pos":
        return f"{name}({', '.join(over.get(n, VAL.get(n, DEFAULT.get(n))) for n in names)})"
    if style == "default":
        return f"{name}({', '.join([VAL[n] for n in names[:2]] + [f'{k}={v}' for k, v in over.items()])})"
    return f"{name}({', '.join(f'{n}={over.get(n, VAL.get(n, DEFAULT.get(n)))}' for n in reversed(names))})"


def layer_loc(chk, name):
    c = chk.repo.cls(name)
    return chk.repo.method(c, "forward").loc


def struct_of(name):
    p = CONVS[name][0]
    return p, p.split(":")[0]


def n01(chk):
    chk.rule("R1", "with is_last=False a layer returns dropout(batch norm(activation(Y))) of the value Y it returns with is_last=True (attention layers drop attention weights instead of outputs); batch norm only with use_bn")
    n = 0
    for name, (sp, _, _, act) in CONVS.items():
        v = sp.split(":")[0]
        for bn in (True, False):
            impl = f"def ref(X, {sp}, {VARS}):\n    return {make(name, 'kw', use_bn=str(bn), is_last='False')}(X, {v})\n"
            drop = "Y" if name in ATTEN else "nn.Dropout(p)(Y)"
            want = f"def ref(X, {sp}, {VARS}):\n    Y = {make(name, 'kw', use_bn=str(bn), is_last='True')}(X, {v})\n    Y = {act}(Y)\n"
            if bn:
                want += "    Y = nn.BatchNorm1d(b)(Y)\n"
            want += f"    return {drop}\n"
            drive(chk, "R1", f"{name}/use_bn={bn}", layer_loc(chk, name), impl, want, returns=False)
            n += 1
            # the raw output does not depend on the options of the tail
            raw = f"def ref(X, {sp}, {VARS}):\n    return {make(name, 'kw', use_bn=str(bn), is_last='True', **({} if name in ATTEN else {'drop_rate': '0'}))}(X, {v})\n"
            want = f"def ref(X, {sp}, {VARS}):\n    return {make(name, 'kw', use_bn='False', is_last='True')}(X, {v})\n"
            drive(chk, "R1", f"{name}/raw/use_bn={bn}", layer_loc(chk, name), raw, want, returns=False)
    for last in (True, False):
        for bn in (True, False):
            impl = f"def ref(X, a, b, c, p):\n    return MLP([a, b, c], use_bn={bn}, drop_rate=p, is_last={last})(X)\n"
            want = "def ref(X, a, b, c, p):\n    X = torch.relu(nn.Linear(a, b)(X))\n" + ("    X = nn.BatchNorm1d(b)(X)\n" if bn else "") + "    X = nn.Linear(b, c)(nn.Dropout(p)(X))\n"
            if not last:
                want += "    X = torch.relu(X)\n" + ("    X = nn.BatchNorm1d(c)(X)\n" if bn else "") + "    X = nn.Dropout(p)(X)\n"
            drive(chk, "R1", f"MLP/is_last={last}/use_bn={bn}", chk.repo.cls("MLP").loc, impl, want + "    return X\n")
    chk.floor("compared", 52)


def n02(chk):
    chk.rule("R1", "the raw output of every layer is its documented propagation of its own linear transform over the structure passed to this call, for every option and constructor style")
    n = 0
    for name, (sp, params, formula, act) in CONVS.items():
        v = sp.split(":")[0]
        for style in ("kw", "pos"):
            drive(chk, "R1", f"{name}/{style}", layer_loc(chk, name),
                  f"def ref(X, {sp}, {VARS}):\n    return {make(name, style, is_last='True')}(X, {v})\n",
                  f"def ref(X, {sp}, {VARS}):\n{body(formula)}\n")
            n += 1
        # documented defaults
        dfl = "\n".join(f"    {VAL[k]} = {DEFAULT[k]}" for k in VAL if k in DEFAULT)
        drive(chk, "R1", f"{name}/defaults", layer_loc(chk, name),
              f"def ref(X, {sp}, {VARS}):\n    return {make(name, 'default')}(X, {v})\n",
              f"def ref(X, {sp}, {VARS}):\n{dfl}\n    def raw(X, {v}, a, b, bias, p, slope, eps, med):\n" + "\n".join("    " + x for x in body(formula).splitlines()) + f"\n    Y = {act}(raw(X, {v}, a, b, bias, p, slope, eps, med))\n    return {'Y' if name in ATTEN else 'nn.Dropout(0.5)(Y)'}\n")
    for eps in ("eps", "0.0"):
        for train in (True, False):
            e = f"nn.Parameter(torch.tensor([{eps}]))" if train else eps
            e2 = e.replace("torch.tensor", "torch.Tensor")
            drive(chk, "R1", f"UniGINConv/eps={eps}/train_eps={train}", layer_loc(chk, "UniGINConv"),
                  f"def ref(X, hg: Hypergraph, a, b, eps):\n    return UniGINConv(a, b, {eps}, {train}, is_last=True)(X, hg)\n",
                  f"def ref(X, hg: Hypergraph, a, b, eps):\n    eps = {e}\n    bias = True\n{body(CONVS['UniGINConv'][2])}\n")
            drive(chk, "R1", f"GINConv/eps={eps}/train_eps={train}", layer_loc(chk, "GINConv"),
                  f"def ref(X, g: Graph, a, b, eps):\n    return GINConv(nn.Linear(a, b), {eps}, {train})(X, g)\n",
                  f"def ref(X, g: Graph, a, b, eps):\n    return nn.Linear(a, b)((1 + {e2}) * X + g.v2v(X, aggr='sum'))\n")
    drive(chk, "R1", "HyperGCNConv/cached graph", layer_loc(chk, "HyperGCNConv"),
          f"def ref(X, hg: Hypergraph, g: Graph, {VARS}):\n    return {make('HyperGCNConv', 'kw', is_last='True')}(X, hg, g)\n",
          f"def ref(X, hg: Hypergraph, g: Graph, {VARS}):\n    return g.L_GCN.mm(nn.Linear(a, b, bias)(X))\n")
    chk.floor("compared", 45)


# ------------------------------------------------------------------------------------------------------------ models
def two(conv, v, extra="", last="is_last=True"):
    """Definition of the plain two-layer models."""
    return f"""
    l1 = {conv}(a, h, {extra}use_bn=bn, drop_rate=p)
    l2 = {conv}(h, c, {extra}use_bn=bn, {last})
    return l2(l1(X, {v}), {v})
"""


def heads(conv, v):
    return f"""
    ls = [{conv}(a, h, use_bn=bn, drop_rate=p, atten_neg_slope=slope, is_last=False) for _ in range(HEADS)]
    out = {conv}(h * HEADS, c, use_bn=bn, drop_rate=p, atten_neg_slope=slope, is_last=False)
    D = nn.Dropout(p)
    X = D(X)
    X = torch.cat([l(X, {v}) for l in ls], dim=-1)
    return out(D(X), {v})
"""


GIN_REF = """
    def mlp(n_in, n_out):
        dims = [n_in] + [h] * DEPTH
        def go(X):
            for i in range(DEPTH):
                X = nn.Linear(dims[i], dims[i + 1])(X)
                X = torch.relu(X)
                if bn:
                    X = nn.BatchNorm1d(dims[i + 1])(X)
                X = nn.Dropout(p)(X)
            return X
        return go
    if train:
        par = lambda: nn.Parameter(torch.Tensor([eps]))
    else:
        par = lambda: eps
    out = nn.Linear(a, c)(X)
    n = a
    for i in range(LAYERS):
        X = mlp(n, h)((1 + par()) * X + g.v2v(X, aggr="sum"))
        n = h
        out = out + nn.Linear(h, c)(X)
    return out
"""
CF_HEAD = """
    E = torch.cat([nn.Embedding(a, d).weight, nn.Embedding(b, d).weight], dim=0)
    outs = [E]
    for i in range(LAYERS):
"""
CF_TAIL = """
        outs.append(E)
    E = torch.stack(outs, dim=0).mean(dim=0)
    return E[:a], E[a:]
"""
NGCF_REF = CF_HEAD + """
        G = g.L_GCN.mm(E)
        S = F.leaky_relu(nn.Linear(d, d)(G), 0.2) + F.leaky_relu(nn.Linear(d, d)(E * G), 0.2)
        E = F.normalize(nn.Dropout(p)(S), p=2, dim=1)
""" + CF_TAIL
DHCF_REF = CF_HEAD + """
        G = torch.cat([hu.L_HGNN.mm(E[:a]), hi.L_HGNN.mm(E[a:])], dim=0)
        S = F.leaky_relu(nn.Linear(d, d)(G) + E, 0.2) + F.leaky_relu(nn.Linear(d, d)(E * G), 0.2)
        E = F.normalize(nn.Dropout(p)(S), p=2, dim=1)
""" + CF_TAIL
LIGHT_REF = CF_HEAD + """
        E = g.smoothing_with_GCN(E, drop_rate=RATE)
""" + CF_TAIL
BGNN_REF = """
    for i in range(LAYERS):
        if i % 2 == 0:
            U = torch.tanh(g.v2u(nn.Linear(b, a)(V), aggr="sum"))
        else:
            V = torch.tanh(g.u2v(nn.Linear(a, b)(U), aggr="sum"))
    return U
"""
BGNN_MLP_REF = """
    def dec(X, n):
        return torch.tanh(nn.Linear(k, n)(nn.Dropout(p)(torch.relu(nn.Linear(h, k)(X)))))
    for i in range(LAYERS):
        if i % 2 == 0:
            U = dec(torch.tanh(g.v2u(nn.Linear(b, h)(V), aggr="sum")), a)
        else:
            V = dec(torch.tanh(g.u2v(nn.Linear(a, h)(U), aggr="sum")), b)
    return U
"""


def models():
    """(name, class, parameters of the program, constructor + call, definition)"""
    out = []
    HX = "X, hg: Hypergraph, a, h, c, p, slope, eps, med"
    GX = "X, g: Graph, a, h, c, p, slope, eps, med"
    for bn in (True, False):
        for m, conv, ps, v, kw in (("GCN", "GCNConv", GX, "g", ""), ("GraphSAGE", "GraphSAGEConv", GX, "g", ""), ("HGNN", "HGNNConv", HX, "hg", ""), ("HGNNP", "HGNNPConv", HX, "hg", ""),
                                   ("HNHN", "HNHNConv", HX, "hg", ""), ("UniGCN", "UniGCNConv", HX, "hg", ""), ("UniSAGE", "UniSAGEConv", HX, "hg", "")):
            out.append((f"{m}/use_bn={bn}", m, ps, f"{m}(a, h, c, use_bn={bn}, drop_rate=p)(X, {v})", f"    bn = {bn}" + two(conv, v)))
            if m == "GraphSAGE":
                pos = f"{m}(a, h, c, 'mean', {bn}, p)(X, {v})"
            else:
                pos = f"{m}(a, h, c, {bn}, p)(X, {v})"
            out.append((f"{m}/positional/use_bn={bn}", m, ps, pos, f"    bn = {bn}" + two(conv, v)))
        for fast in (True, False):
            out.append((f"HyperGCN/fast={fast}/use_bn={bn}", "HyperGCN", HX, f"HyperGCN(a, h, c, use_mediator=med, use_bn={bn}, fast={fast}, drop_rate=p)(X, hg)", f"    bn = {bn}" + (two("HyperGCNConv", "hg", "use_mediator=med, ") if not fast else """
    g = Graph.from_hypergraph_hypergcn(hg, X, med)
    l1 = HyperGCNConv(a, h, use_mediator=med, use_bn=bn, drop_rate=p)
    l2 = HyperGCNConv(h, c, use_mediator=med, use_bn=bn, is_last=True)
    return l2(l1(X, hg, g), hg, g)
""")))
        for k in (1, 2, 3):
            for m, conv, ps, v in (("GAT", "GATConv", GX, "g"), ("UniGAT", "UniGATConv", HX, "hg")):
                if bn and k == 3:
                    continue
                out.append((f"{m}/heads={k}/use_bn={bn}", m, ps, f"{m}(a, h, c, num_heads={k}, use_bn={bn}, drop_rate=p, atten_neg_slope=slope)(X, {v})", f"    bn = {bn}" + heads(conv, v).replace("HEADS", str(k))))
        for train in (True, False):
            out.append((f"UniGIN/train_eps={train}/use_bn={bn}", "UniGIN", HX, f"UniGIN(a, h, c, eps=eps, train_eps={train}, use_bn={bn}, drop_rate=p)(X, hg)", f"    bn = {bn}" + two("UniGINConv", "hg", f"eps=eps, train_eps={train}, ")))
            for layers, depth in ((2, 2), (3, 2), (2, 1), (2, 3)):
                if layers + depth > 4 and bn != train:
                    continue
                out.append((f"GIN/layers={layers}/mlp={depth}/train_eps={train}/use_bn={bn}", "GIN", GX,
                            f"GIN(a, h, c, num_layers={layers}, num_mlp_layers={depth}, eps=eps, train_eps={train}, use_bn={bn}, drop_rate=p)(X, g)",
                            f"    bn, train = {bn}, {train}" + GIN_REF.replace("LAYERS", str(layers)).replace("DEPTH", str(depth))))
    BX = "g: BiGraph, a, b, d, p"
    for k in (1, 2, 3):
        out.append((f"LightGCN/layers={k}", "LightGCN", BX, f"LightGCN(a, b, d, num_layers={k}, drop_rate=p)(g)", LIGHT_REF.replace("LAYERS", str(k)).strip("\n").replace("RATE", "(p if TRAINING else 0.0)")))
        out.append((f"NGCF/layers={k}", "NGCF", BX, f"NGCF(a, b, d, num_layers={k}, drop_rate=p)(g)", NGCF_REF.replace("LAYERS", str(k)).strip("\n")))
        out.append((f"DHCF/layers={k}", "DHCF", "hu: Hypergraph, hi: Hypergraph, a, b, d, p", f"DHCF(a, b, d, num_layers={k}, drop_rate=p)(hu, hi)", DHCF_REF.replace("LAYERS", str(k)).strip("\n")))
    UV = "U, V, g: BiGraph, a, b, h, k, p"
    for k in (1, 2, 3, 4):
        out.append((f"BGNN_Adv/depth={k}", "BGNN_Adv", UV, f"BGNN_Adv(a, b, layer_depth={k})(U, V, g)", BGNN_REF.replace("LAYERS", str(k)).strip("\n")))
        out.append((f"BGNN_MLP/depth={k}", "BGNN_MLP", UV, f"BGNN_MLP(a, b, h, k, drop_rate=p, layer_depth={k})(U, V, g)", BGNN_MLP_REF.replace("LAYERS", str(k)).strip("\n")))
    return out


DEFAULTS_M = [
    ("GCN", "X, g: Graph, a, h, c", "GCN(a, h, c)(X, g)", "GCN(a, h, c, use_bn=False, drop_rate=0.5)(X, g)"),
    ("GraphSAGE", "X, g: Graph, a, h, c", "GraphSAGE(a, h, c)(X, g)", "GraphSAGE(a, h, c, aggr='mean', use_bn=False, drop_rate=0.5)(X, g)"),
    ("GAT", "X, g: Graph, a, h, c", "GAT(a, h, c, 2)(X, g)", "GAT(a, h, c, num_heads=2, use_bn=False, drop_rate=0.5, atten_neg_slope=0.2)(X, g)"),
    ("GIN", "X, g: Graph, a, h, c", "GIN(a, h, c, 2)(X, g)", "GIN(a, h, c, num_layers=2, num_mlp_layers=2, eps=0.0, train_eps=False, use_bn=False, drop_rate=0.5)(X, g)"),
    ("LightGCN", "g: BiGraph, a, b, d", "LightGCN(a, b, d)(g)", "LightGCN(a, b, d, num_layers=3, drop_rate=0.0)(g)"),
    ("NGCF", "g: BiGraph, a, b, d", "NGCF(a, b, d)(g)", "NGCF(a, b, d, num_layers=3, drop_rate=0.5)(g)"),
    ("BGNN_Adv", "U, V, g: BiGraph, a, b", "BGNN_Adv(a, b)(U, V, g)", "BGNN_Adv(a, b, layer_depth=3)(U, V, g)"),
    ("BGNN_MLP", "U, V, g: BiGraph, a, b, h, k", "BGNN_MLP(a, b, h, k)(U, V, g)", "BGNN_MLP(a, b, h, k, drop_rate=0.5, layer_depth=3)(U, V, g)"),
    ("HGNN", "X, hg: Hypergraph, a, h, c", "HGNN(a, h, c)(X, hg)", "HGNN(a, h, c, use_bn=False, drop_rate=0.5)(X, hg)"),
    ("HGNNP", "X, hg: Hypergraph, a, h, c", "HGNNP(a, h, c)(X, hg)", "HGNNP(a, h, c, use_bn=False, drop_rate=0.5)(X, hg)"),
    ("HNHN", "X, hg: Hypergraph, a, h, c", "HNHN(a, h, c)(X, hg)", "HNHN(a, h, c, use_bn=False, drop_rate=0.5)(X, hg)"),
    ("HyperGCN", "X, hg: Hypergraph, a, h, c", "HyperGCN(a, h, c)(X, hg)", "HyperGCN(a, h, c, use_mediator=False, use_bn=False, fast=True, drop_rate=0.5)(X, hg)"),
    ("UniGCN", "X, hg: Hypergraph, a, h, c", "UniGCN(a, h, c)(X, hg)", "UniGCN(a, h, c, use_bn=False, drop_rate=0.5)(X, hg)"),
    ("UniGAT", "X, hg: Hypergraph, a, h, c", "UniGAT(a, h, c, 2)(X, hg)", "UniGAT(a, h, c, num_heads=2, use_bn=False, drop_rate=0.5, atten_neg_slope=0.2)(X, hg)"),
    ("UniSAGE", "X, hg: Hypergraph, a, h, c", "UniSAGE(a, h, c)(X, hg)", "UniSAGE(a, h, c, use_bn=False, drop_rate=0.5)(X, hg)"),
    ("UniGIN", "X, hg: Hypergraph, a, h, c", "UniGIN(a, h, c)(X, hg)", "UniGIN(a, h, c, eps=0.0, train_eps=False, use_bn=False, drop_rate=0.5)(X, hg)"),
    ("DHCF", "hu: Hypergraph, hi: Hypergraph, a, b, d", "DHCF(a, b, d)(hu, hi)", "DHCF(a, b, d, num_layers=3, drop_rate=0.5)(hu, hi)"),
]


def evaluate(chk, name, src, training=True):
    """Outcomes of a client program, or None (recorded as undecided)."""
    C = Comparer(chk, maxstates=3000)
    C.tweak = lambda I: Nets(training).install(I)
    try:
        return C.outcomes(ref_func(chk.repo, src, None, extra=EXTRA), None, {}, ())
    except (Undecided, RecursionError) as e:
        chk.und(name, str(e) or type(e).__name__)
        return None


def split_call(expr):
    """'M(args)(inputs)' -> ('M(args)', 'inputs')"""
    depth = 0
    for i, ch in enumerate(expr):
        depth += (ch == "(") - (ch == ")")
        if ch == ")" and depth == 0:
            return expr[:i + 1], expr[i + 2:-1]


def ids_in(t):
    return {z[-1] for z in tm.walk(t) if z[0] == "mod" and z[-1][0] == "id"} if t is not None else set()


def registered(I, st, v, plain=False, seen=None):
    """(identities reachable the way torch registers them, identities held outside of it)"""
    seen = set() if seen is None else seen
    v = st.cur(v)
    ins, outs = set(), set()
    if v.t is not None and v.t[0] == "obj":
        if v.t[1] in seen:
            return ins, outs
        seen.add(v.t[1])
        o = st.objs[v.t[1]]
        module = any(b.split(".")[-1] == "Module" for b in I.repo.ext_bases(o.cls))
        for k, x in o.fields.items():
            a, b = registered(I, st, x, plain or not module, seen)
            ins |= a
            outs |= b
        return ins, outs
    if v.items is not None or v.map is not None:
        ok = any(o[0][0] == "modlist" for o in v.org)
        for x in v.items if v.items is not None else [y for _, y in v.map]:
            a, b = registered(I, st, x, plain or not ok, seen)
            ins |= a
            outs |= b
        return ins, outs
    t = v.t
    if t is not None and t[0] == "mod":
        (outs if plain else ins).update(ids_in(t))
        if t[1] == "Dropout":
            (outs if plain else ins).add(t)
    return ins, outs


def layers_programs():
    out = []
    for name, (sp, _, _, act) in CONVS.items():
        out.append((f"{name}", name, f"X, {sp}, {VARS}", f"{make(name, 'kw', use_bn='True', is_last='False')}(X, {sp.split(':')[0]})"))
    for train in (True, False):
        out.append((f"UniGINConv/train_eps={train}", "UniGINConv", "X, hg: Hypergraph, a, b, eps", f"UniGINConv(a, b, eps, {train})(X, hg)"))
        out.append((f"GINConv/train_eps={train}", "GINConv", "X, g: Graph, a, b, eps", f"GINConv(nn.Linear(a, b), eps, {train})(X, g)"))
    out.append(("MLP", "MLP", "X, a, b, c, p", "MLP([a, b, c], drop_rate=p)(X)"))
    out.append(("Discriminator", "Discriminator", "X, a, b, c, p", "Discriminator(a, b, c, p)(X)"))
    for r in ("concat", "mean", "max", "sum"):
        out.append((f"MultiHeadWrapper/{r}", "MultiHeadWrapper", "X, g: Graph, a, b", f"MultiHeadWrapper(2, '{r}', GCNConv, in_channels=a, out_channels=b)(X=X, g=g)"))
    return out


def n03(chk):
    chk.rule("R1", "every model, for every constructor option, is the documented composition of its layers: channels chain input -> hidden -> classes, options reach every layer, layers are applied once each in order")
    chk.rule("R2", "documented defaults of the constructors")
    chk.rule("R3", "every parameterised layer (and every dropout) a forward pass uses is registered with the model, so optimisers, devices and train/eval reach it")
    progs = models()
    for name, m, ps, call, ref in progs:
        drive(chk, "R1", name, chk.repo.cls(m).loc, f"def ref({ps}):\n    return {call}\n", f"def ref({ps}):\n{ref}\n")
    MH = "X, g: Graph, a, b, bias, p"
    for k in (1, 2, 3):
        ls = f"    outs = [GCNConv(in_channels=a, out_channels=b, bias=bias, drop_rate=p)(X, g) for _ in range({k})]\n"
        for r, fin in (("concat", "torch.cat(outs, dim=-1)"), ("mean", "torch.stack(outs).mean(dim=0)"), ("max", "torch.stack(outs).max(dim=0)[0]"), ("sum", "torch.stack(outs).sum(dim=0)")):
            drive(chk, "R1", f"MultiHeadWrapper/{r}/heads={k}", chk.repo.cls("MultiHeadWrapper").loc,
                  f"def ref({MH}):\n    return MultiHeadWrapper({k}, '{r}', GCNConv, in_channels=a, out_channels=b, bias=bias, drop_rate=p)(X=X, g=g)\n", f"def ref({MH}):\n{ls}    return {fin}\n")
    drive(chk, "R1", "Discriminator", chk.repo.cls("Discriminator").loc, "def ref(X, a, b, c, p):\n    return Discriminator(a, b, c, p)(X)\n",
          "def ref(X, a, b, c, p):\n    return torch.sigmoid(nn.Linear(b, c)(nn.Dropout(p)(F.leaky_relu(nn.Linear(a, b)(X), 0.01))))\n")
    for dims in (["a", "b"], ["a", "b", "c", "d"]):
        for act, kw, fn in (("ReLU", "None", "torch.relu(X)"), ("LeakyReLU", "{'negative_slope': p}", "F.leaky_relu(X, p)"), ("ELU", "None", "F.elu(X)")):
            for last in (True, False):
                want = "def ref(X, a, b, c, d, p):\n"
                for i in range(len(dims) - 1):
                    want += f"    X = nn.Linear({dims[i]}, {dims[i + 1]})(X)\n"
                    if i < len(dims) - 2 or not last:
                        want += f"    X = {fn}\n    X = nn.BatchNorm1d({dims[i + 1]})(X)\n    X = nn.Dropout(p)(X)\n"
                drive(chk, "R1", f"MLP/{len(dims)} sizes/{act}/is_last={last}", chk.repo.cls("MLP").loc,
                      f"def ref(X, a, b, c, d, p):\n    return MLP([{', '.join(dims)}], '{act}', {kw}, True, p, {last})(X)\n", want + "    return X\n")
    for m, ps, short, full in DEFAULTS_M:
        drive(chk, "R2", f"{m}/defaults", chk.repo.cls(m).loc, f"def ref({ps}):\n    return {short}\n", f"def ref({ps}):\n    return {full}\n", returns=False)
    for name, m, ps, call in [(x[0], x[1], x[2], x[3]) for x in progs] + layers_programs():
        mk, args = split_call(call)
        r = evaluate(chk, name, f"def ref({ps}):\n    m = {mk}\n    out = m({args})\n    return (m, out)\n")
        if r is None:
            continue
        I, _, outs = r
        for k, v, s in outs:
            if k != "ret":
                continue
            mv, ov = s.cur(v).items
            used = ids_in(observe(I, s, ov))
            ins, held = registered(I, s, mv)
            loose = sorted(used - ins)
            if loose:
                t = next(z for z in tm.walk(observe(I, s, ov)) if z[0] == "mod" and z[-1] == loose[0])
                chk.finding("R3", f"{m}: {t[1]}", chk.repo.cls(m).loc, f"a {t[1]} layer used by the forward pass of {name} is not registered with the model")
            else:
                chk.discharge(f"{name}: {len(used)} parameterised parts used, all registered")
            drops = [z for z in held if z[0] == "mod"]
            if drops:
                chk.finding("R3", f"{m}: Dropout", chk.repo.cls(m).loc, f"a dropout held by {name} is not registered with the model, so eval() does not reach it")
        chk.count("programs")
    chk.floor("compared", 100)
    chk.floor("programs", 60)


def n04(chk):
    chk.rule("R1", "in evaluation mode no forward pass draws: no dropout, no edge dropping, no sampling (the random projection of the HyperGCN reduction, taken as an atom, excepted)")
    for name, m, ps, call in [(x[0], x[1], x[2], x[3]) for x in models()] + layers_programs():
        r = evaluate(chk, name, f"def ref({ps}):\n    return {call}\n", training=False)
        if r is None:
            continue
        I, _, outs = r
        bad = None
        for k, v, s in outs:
            if k != "ret":
                continue
            t = observe(I, s, v)
            for z in tm.walk(t):
                if z[0] in ("drop", "drop?", "rnd", "sparse_dropout") or z[0] in ("call", "mcall") and "dropout" in str(z[1:3]).lower():
                    bad = bad or f"the value returned in evaluation mode contains the draw {tm.show(z, 160)}"
            for e in s.events:
                if e[0] == "draw":
                    bad = bad or f"{e[1]} is active in evaluation mode (at {e[2]})"
        chk.count("programs")
        if bad:
            chk.finding("R1", name.split("/")[0], chk.repo.cls(m).loc, f"{name}: {bad}")
        else:
            chk.discharge(f"{name}: {len(outs)} paths without a draw")
        # the same program in training mode does draw wherever a rate is configured: the rule is not vacuous
    chk.floor("programs", 60)


def fields(t):
    """Observed fields of a model, module identities and the mode it started in aside."""
    def go(z):
        if z[0] == "id" and len(z) == 2:
            return ("id", "*")
        if z[0] == "object":
            return z[:2] + tuple((k, tm.subst(x, go)) for k, x in z[2:] if (k, x) != ("training", T))
    return repr(tm.subst(t, go))


def n05(chk):
    chk.rule("R1", "the result of a forward pass is the same after an earlier pass on another structure and other features")
    chk.rule("R2", "a forward pass changes neither its inputs nor the structure nor any field of the model")
    seen = 0
    for name, m, ps, call in [(x[0], x[1], x[2], x[3]) for x in models()] + layers_programs():
        mk, args = split_call(call)
        if "fast=True" in name:
            continue  # documented to keep the reduced graph of its first call
        first = ", ".join(p.strip() for p in args.split(","))
        names = [p.split(":")[0].split("=")[-1].strip() for p in args.split(",")]
        other = ps
        for nm in names:
            for p in ps.split(","):
                if p.split(":")[0].strip() == nm:
                    other += ", " + p.strip().replace(nm, nm + "0", 1)
        pre = first
        for nm in names:
            pre = ", ".join((q.split("=")[0] + "=" if "=" in q else "") + (nm + "0" if q.split("=")[-1] == nm else q.split("=")[-1]) for q in pre.split(", "))
        drive(chk, "R1", name, chk.repo.cls(m).loc, f"def ref({other}):\n    m = {mk}\n    m({pre})\n    return m({args})\n", f"def ref({other}):\n    m = {mk}\n    return m({args})\n", returns=False)
        r = evaluate(chk, name, f"def ref({ps}):\n    m = {mk}\n    out = m({args})\n    return (m, out)\n")
        b = evaluate(chk, name, f"def ref({ps}):\n    m = {mk}\n    return m\n")
        if r is None or b is None:
            continue
        bad = None
        for k, v, s in r[2]:
            if k != "ret":
                continue
            for e in s.events:
                if e[0] == "mut" and any(o[0][0] == "param" for o in e[1]):
                    bad = bad or f"argument {sorted(o[0][1] for o in e[1] if o[0][0] == 'param')[0]} is modified in place ({e[2]} at {e[3]})"
                if e[0] == "write" and isinstance(e[1], tuple) and e[1][:1] == ("in",):
                    bad = bad or f"field {e[2]} of the structure is written (at {e[4]})"
        chk.count("programs")
        after = {fields(observe(r[0], s, s.cur(v).items[0])) for k, v, s in r[2] if k == "ret"}
        before = {fields(observe(b[0], s, v)) for k, v, s in b[2] if k == "ret"}
        if not bad and not after <= before:
            bad = "a field of the model differs after a forward pass"
        if bad:
            chk.finding("R2", name.split("/")[0], chk.repo.cls(m).loc, f"{name}: {bad}")
        else:
            chk.discharge(f"{name}: inputs, structure and fields unchanged")
    chk.floor("programs", 60)
    chk.floor("compared", 60)


def n06(chk):
    chk.rule("R1", "BPRLoss is the mean of -log sigmoid(alpha * positive - beta * negative), in both documented forms; any other form is rejected")
    chk.rule("R2", "EmbeddingRegularization is weight_decay * sum over its arguments of the mean over rows of 1/p * sum of p-th powers")
    loc = chk.repo.method(chk.repo.cls("BPRLoss"), "forward").loc
    for act in ("'sigmoid_then_log'", "'softplus'", "'relu'", None):
        want = "def ref(x, y, al, be):\n"
        if act == "'relu'":
            want += "    raise AssertionError('unknown activation')\n"
        else:
            want += "    return -torch.sigmoid(al * x - be * y).log().mean()\n" if act != "'softplus'" else "    return F.softplus(be * y - al * x).mean()\n"
        impl = f"def ref(x, y, al, be):\n    return BPRLoss(al, be{', ' + act if act else ''})(x, y)\n"
        drive(chk, "R1", f"BPRLoss/{act or 'default'}", loc, impl, want, returns=act != "'relu'")
    drive(chk, "R1", "BPRLoss/default weights", loc, "def ref(x, y):\n    return BPRLoss()(x, y)\n", "def ref(x, y):\n    return -torch.sigmoid(x - y).log().mean()\n")
    drive(chk, "R1", "BPRLoss/keywords", loc, "def ref(x, y, al, be):\n    return BPRLoss(beta=be, alpha=al)(neg_scores=y, pos_scores=x)\n", "def ref(x, y, al, be):\n    return -torch.sigmoid(al * x - be * y).log().mean()\n")
    loc = chk.repo.method(chk.repo.cls("EmbeddingRegularization"), "forward").loc
    for args in (["x"], ["x", "y"], ["x", "y", "z"], ["x", "x"]):
        drive(chk, "R2", f"EmbeddingRegularization/{len(args)} arguments{'/same' if args == ['x', 'x'] else ''}", loc,
              f"def ref(x, y, z, q, w):\n    return EmbeddingRegularization(q, w)({', '.join(args)})\n",
              "def ref(x, y, z, q, w):\n    return w * (" + " + ".join(f"(1 / q) * {a}.pow(q).sum(dim=1).mean()" for a in args) + ")\n")
    drive(chk, "R2", "EmbeddingRegularization/defaults", loc, "def ref(x):\n    return EmbeddingRegularization()(x)\n", "def ref(x):\n    return 1e-4 * (0.5 * x.pow(2).sum(dim=1).mean())\n")
    drive(chk, "R2", "EmbeddingRegularization/no arguments", loc, "def ref(q, w):\n    return EmbeddingRegularization(q, w)()\n", "def ref(q, w):\n    return w * 0\n")
    chk.floor("compared", 12)


VN = "abstract interpretation of construct-and-call programs with torch.nn modules as values, compared with the definition by value numbering"
INFO = {
    "N01": {"technique": VN, "assumptions": ASSUME,
            "explanation": "Every layer class is constructed with is_last True and False and with and without batch norm and applied to symbolic features and a symbolic structure; the non-last value must be dropout(batch norm(activation(.))) of the last-layer value of the same code.",
            "note": "All layers x is_last x use_bn; the raw value itself is compared with the published rule by N02."},
    "N02": {"technique": VN, "assumptions": ASSUME,
            "explanation": "The raw output of every layer, for every constructor style (keyword, positional, defaults), symbolic channel sizes and options, is compared, in training and in evaluation mode, with its published propagation formula over the structure object passed to the call.",
            "note": "Structure matrices and message-passing primitives are atoms decided by S10-S20; numeric rounding is not modelled."},
    "N03": {"technique": VN + "; heap reachability for registration", "assumptions": ASSUME,
            "explanation": "Every model is constructed for all boolean options and small layer/head counts with symbolic sizes and rates and compared, in training and in evaluation mode, with its documented composition; defaults are compared with the documented values; every parameterised module used by a forward pass must be reachable through registered attributes.",
            "note": "Layer, head and MLP depths are enumerated up to 4; sizes, rates and epsilons are symbolic."},
    "N04": {"technique": "abstract interpretation in evaluation mode with draw tracking", "assumptions": ASSUME,
            "explanation": "The forward pass of every layer and model is evaluated with training = False on every path; no dropout, edge dropping or other draw may occur in the value or on the way.",
            "note": "Registration of dropout modules (so eval() reaches them) is decided by N03 R3."},
    "N05": {"technique": VN + "; in-place effect tracking with origins", "assumptions": ASSUME,
            "explanation": "A pass after an earlier pass on other inputs must have the value number of a first pass; no argument, structure field or model field may change.",
            "note": "HyperGCN's documented fast mode keeps the reduced graph of its first call and is compared with that definition in N03."},
    "N06": {"technique": VN, "assumptions": ASSUME,
            "explanation": "Loss and regulariser programs with symbolic scores and weights are compared with their definitions; softplus and log-sigmoid are related algebraically.",
            "note": "Reduction over a batch is an atom; numeric stability is not modelled."},
}
