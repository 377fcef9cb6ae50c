"""M01-M03: metric functions, metric registries and evaluators."""
import ast

from .. import terms as tm
from ..interp import Undecided, V
from ..npl import Literal
from ..repo import AnalysisBroken
from ..spec import Comparer, observe, ref_func
from ..structs import SInterp, state, sym_args
from ..terms import N, NONE, S

CLS, RET, REC = "dhg.metrics.classification", "dhg.metrics.retrieval", "dhg.metrics.recommender"
ASSUME = ["torch, numpy and sklearn operations mean what sa/ops.py says; operations it does not list are compared by name and arguments"]

EXTRA = "import sklearn.metrics as sm\nfrom collections import defaultdict\n"

# the two ranking modules share these definitions
FMT = """
def fmt(y_true, y_pred, k, ratio):
    assert y_true.shape == y_pred.shape
    assert y_true.dim() in (1, 2)
    assert y_pred.dim() in (1, 2)
    {guard}
    if y_true.dim() == 1:
        y_true = y_true.unsqueeze(0)
    if y_pred.dim() == 1:
        y_pred = y_pred.unsqueeze(0)
    y_true = y_true.float()
    y_pred = y_pred.float()
    n = y_true.shape[1]
    if ratio is not None:
        k = int(np.ceil(n * ratio))
    elif k is None:
        k = n
    else:
        k = min(k, n)
    return y_true, y_pred, k
"""
GUARD = "assert ratio is None or (ratio > 0 and ratio <= 1)"
SEQ = "y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]"
DCG = """
def dcg(matrix):
    assert matrix.dim() == 2
    n, k = matrix.shape
    pos = torch.arange(k, device=matrix.device) + 2.0
    return (matrix / torch.log2(pos).view(1, -1).repeat(n, 1)).sum(dim=-1)
"""
CUT1 = """
    y_true, y_pred = y_true.float(), y_pred.float()
    n = y_true.shape[0]
    if ratio is not None:
        k = int(np.ceil(n * ratio))
    elif k is None:
        k = n
    else:
        k = min(k, n)
"""
AP = """
def ref(y_true, y_pred, k, ratio, method):
    assert ratio is None or (ratio > 0 and ratio <= 1)
    assert method in ("legacy", "pascal_voc")
    assert y_true.shape == y_pred.shape
    assert y_true.dim() == 1
    assert y_pred.dim() == 1
""" + CUT1 + """
    seq = y_true[torch.argsort(y_pred, descending=True)]
    idx = torch.arange(1, len(y_true) + 1, device=y_true.device)[seq > 0]
    if len(idx) == 0:
        return 0.0
    res = torch.arange(1, len(idx) + 1, device=y_true.device) / idx
    if method == "pascal_voc":
        res = torch.cummax(torch.flip(res, dims=(0,)), dim=0)[0]
    return res.mean().item()
"""
RR = """
def ref(y_true, y_pred, k, ratio):
    assert y_true.shape == y_pred.shape
    assert y_true.dim() == 1
    assert y_pred.dim() == 1
""" + CUT1 + """
    idx = torch.nonzero(y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]).view(-1)
    if len(idx) == 0:
        return 0.0
    return (1 / (idx + 1)).mean().mean().item()
"""
PRC = """
def ref(y_true, y_pred, k, ratio, method, n_points):
    assert method in ("legacy", "pascal_voc")
    assert y_true.shape == y_pred.shape
    assert y_true.dim() == 1
    assert y_pred.dim() == 1
""" + CUT1 + """
    seq = y_true[torch.argsort(y_pred, descending=True)]
    idx = torch.arange(1, len(y_true) + 1, device=y_true.device)[seq > 0]
    if len(idx) == 0:
        return [0.0] * n_points, np.linspace(0, 1, n_points).tolist()
    res = torch.arange(1, len(idx) + 1, device=y_true.device) / idx
    if method == "pascal_voc":
        res = torch.flip(torch.cummax(torch.flip(res, dims=(0,)), dim=0)[0], dims=(0,))
    res = res.cpu().numpy()
    coor = np.linspace(0, 1, n_points)
    return res[(coor * (torch.sum(y_true).item() - 1)).astype(int)].tolist(), coor.tolist()
"""


def ranking(head, body, batch):
    """Reference of a ranking metric: batch = how the per-sample mode presents its result."""
    tail = """
    if ret_batch:
        return {b}
    return res.mean().item()
""".format(b=batch)
    return head + body + tail


def ranking_refs(mod):
    rec = mod == REC
    head = FMT.format(guard="pass" if rec else GUARD) + DCG
    batch = "[x.item() for x in res]" if rec else "res"
    sig = "def ref(y_true, y_pred, k, ratio, ret_batch):\n    y_true, y_pred, k = fmt(y_true, y_pred, k, ratio)\n"
    zero = "    res[torch.isinf(res)] = 0\n    res[torch.isnan(res)] = 0\n"
    out = {
        "precision": ranking(head, sig + "    assert y_true.max() == 1\n    res = " + SEQ + ".sum(dim=1) / k\n", batch),
        "recall": ranking(head, sig + "    assert y_true.max() == 1\n    res = " + SEQ + ".sum(dim=1) / y_true.sum(dim=1)\n" + zero, batch),
        "ndcg": ranking(head, sig + "    res = dcg(" + SEQ + ") / dcg(torch.sort(y_true, dim=-1, descending=True)[0][:, :k])\n" + zero, batch),
    }
    return out


def m03(chk):
    repo = chk.repo
    C = Comparer(chk, maxstates=1500)

    def cmp(mod, name, src):
        f = repo.func(f"{mod}.{name}")
        C.compare("R1", f"{mod.split('.')[-1]}.{name}", None, f, src, extra=EXTRA)

    for mod in (RET, REC):
        for name, src in ranking_refs(mod).items():
            cmp(mod, name, src)
    C2 = C
    cmp(RET, "ap", AP)
    cmp(RET, "rr", RR)
    cmp(RET, "_pr_curve", PRC)
    head = FMT.format(guard=GUARD)
    cmp(RET, "map", head + "from dhg.metrics.retrieval import ap\n" + """
def ref(y_true, y_pred, k, ratio, method, ret_batch):
    assert method in ("legacy", "pascal_voc")
    y_true, y_pred, k = fmt(y_true, y_pred, k, ratio)
    res = [ap(y_true[i, :], y_pred[i, :], k, method=method) for i in range(y_true.shape[0])]
    return res if ret_batch else np.mean(res)
""")
    cmp(RET, "mrr", head + "from dhg.metrics.retrieval import rr\n" + """
def ref(y_true, y_pred, k, ratio, ret_batch):
    y_true, y_pred, k = fmt(y_true, y_pred, k, ratio)
    res = [rr(y_true[i, :], y_pred[i, :], k) for i in range(y_true.shape[0])]
    return res if ret_batch else np.mean(res)
""")
    cmp(RET, "pr_curve", head + "from dhg.metrics.retrieval import _pr_curve\n" + """
def ref(y_true, y_pred, k, ratio, method, n_points, ret_batch):
    assert method in ("legacy", "pascal_voc")
    y_true, y_pred, k = fmt(y_true, y_pred, k, ratio)
    ps, rs = [], []
    for i in range(y_true.shape[0]):
        p, r = _pr_curve(y_true[i, :], y_pred[i, :], k=k, method=method, n_points=n_points)
        ps.append(p)
        rs.append(r)
    if ret_batch:
        return ps, rs
    return np.mean(ps, axis=0).tolist(), np.mean(rs, axis=0).tolist()
""")
    head = """
def fmt(y_true, y_pred):
    assert y_true.dim() == 1
    assert y_pred.dim() in (1, 2)
    if y_pred.dim() == 2:
        y_pred = y_pred.argmax(dim=1)
    assert y_true.shape == y_pred.shape
    return y_true, y_pred
"""
    cmp(CLS, "accuracy", head + "def ref(y_true, y_pred):\n    y_true, y_pred = fmt(y_true, y_pred)\n    return (y_true == y_pred).float().mean().item()\n")
    cmp(CLS, "f1_score", head + "def ref(y_true, y_pred, average):\n    y_true, y_pred = fmt(y_true, y_pred)\n    return sm.f1_score(y_true, y_pred, average=average)\n")
    cmp(CLS, "confusion_matrix", head + "def ref(y_true, y_pred):\n    y_true, y_pred = fmt(y_true, y_pred)\n    return sm.confusion_matrix(y_true, y_pred)\n")



# ---------------------------------------------------------------------------------------------------- drivers
IMPORTS = EXTRA + """
import dhg.metrics as dm
import dhg.metrics.base as base
import dhg.metrics.classification as classification
import dhg.metrics.retrieval as retrieval
import dhg.metrics.recommender as recommender
"""


CURVES = ("pr_curve",)


def sampled(I, func, args, kw, st, node):
    """A metric as an unknown function of its arguments: per-sample mode gives one value per sample of the batch (batches differ in size), or two curves per sample."""
    pos = list(args)
    ps = func.params()
    full = dict(zip(ps, pos), **kw)
    rb = full.pop("ret_batch", None)
    rb = rb is not None and st.term(rb) == ("b", True)
    key = ("metric", func.name) + tuple((p, st.term(full[p])) for p in ps if p in full) + (rb,)
    if not rb:
        return [(V(key, "float"), st)]

    y = st.term(full.get("y_true", V(NONE)))
    m = int(y[1][1:]) if y[0] == "param" and y[1][1:].isdigit() else 1
    rows = range((2, 1, 3, 1, 2)[(m - 1) % 5])
    if func.name in CURVES:
        return [(V(None, "tuple", items=[V(None, "list", items=[V(None, "list", items=[V(key + (j, i, c), "float") for c in range(2)]) for i in rows]) for j in range(2)]), st)]
    return [(V(None, "list", items=[V(key + (i,), "float") for i in rows]), st)]


def drive(chk, rule, construct, loc, impl_src, ref_src, given=None, opaque=(), stub=()):
    """Compare two client programs: one written against the package, one against the definition."""
    C = Comparer(chk, opaque=opaque, maxstates=3000)

    def tweak(I):
        if stub:
            Literal(I)
        for q in stub:
            I.intercept[q] = sampled
    C.tweak = tweak
    try:
        res = []
        for src in (impl_src, ref_src):
            f = ref_func(chk.repo, src, None, extra=IMPORTS)
            res.append(C.outcomes(f, None, {k: V(v) for k, v in (given or {}).items()}, ()))
    except (Undecided, RecursionError) as e:
        chk.und(construct, str(e) or type(e).__name__)
        return None
    return C.match(rule, construct, loc, res[0], res[1])


def registry(chk, task):
    """Names the task's registry returns (evaluated, not matched)."""
    f = chk.repo.func(f"dhg.metrics.{task}.available_{task}_metrics")
    I = SInterp(chk.repo)
    outs = I.run(f, [], {}, state(f.module))
    chk.analysed |= I.inlined
    names = set()
    for k, v, s in outs:
        v = s.cur(v)
        if k != "ret" or v.items is None or not all(x.t is not None and x.t[0] == "s" for x in v.items):
            return None, f
        names |= {x.t[1] for x in v.items}
    return sorted(names), f


DOC = {
    "classification": ("accuracy", "f1_score", "confusion_matrix"),
    "retrieval": ("precision", "recall", "map", "ndcg", "mrr", "pr_curve"),
    "recommender": ("precision", "recall", "ndcg"),
}
EVAL = [("classification", "VertexClassificationEvaluator"), ("classification", "GraphVertexClassificationEvaluator"),
        ("classification", "HypergraphVertexClassificationEvaluator"), ("retrieval", "RetrievalEvaluator"), ("recommender", "UserItemRecommenderEvaluator")]
BUILD = [("graph_vertex_classification", "GraphVertexClassificationEvaluator"), ("hypergraph_vertex_classification", "HypergraphVertexClassificationEvaluator"),
         ("user_item_recommender", "UserItemRecommenderEvaluator")]
PARAMS = {"k": "3", "ratio": "0.5", "method": "'legacy'", "average": "'micro'", "n_points": "5"}


def m01(chk):
    repo = chk.repo
    chk.rule("R1", "every documented metric name is registered and every registered name resolves to the function of that name")
    chk.rule("R2", "the configured metric called the way evaluators call it equals the function called with those parameters")
    chk.rule("R3", "configurations that differ get different result names; unknown tasks, names and indices are rejected")
    chk.rule("R4", "evaluator classes and build_evaluator dispatch to the metrics of their own task")
    fmt = repo.func("dhg.metrics.base.format_metric_configs")
    names = {}
    for task, doc in DOC.items():
        got, f = registry(chk, task)
        if got is None:
            chk.und(f.qual, "the registry is not a literal")
            got = list(doc)
        for n in doc:
            if n not in got:
                chk.finding("R1", f"{task}.{n}", f.loc, "documented metric is not registered")
        mod = repo.modules[f"dhg.metrics.{task}"]
        names[task] = []
        for n in got:
            r = repo.resolve_in(mod, n)
            if r is None or r[0] != "func":
                chk.finding("R1", f"{task}.{n}", f.loc, f"registered name is not a function of dhg.metrics.{task}")
                continue
            chk.discharge(f"{task}.{n} resolves to {r[1].qual}")
            names[task].append((n, r[1]))
        chk.count("registered", len(got))
    chk.floor("registered", 12)
    for task, fs in names.items():
        for n, f in fs:
            modes = [""] + ([", ret_batch=True"] if task != "classification" else [])
            for mode in modes:
                cfgs = [("'%s'" % n, "")]
                for p, v in PARAMS.items():
                    if p in f.params():
                        cfgs.append(("{'%s': {'%s': %s}}" % (n, p, v), f", {p}={v}"))
                ps = [p for p in PARAMS if p in f.params()]
                if len(ps) > 1:
                    q = [p for p in ps if p != "ratio"]
                    cfgs.append(("{'%s': {%s}}" % (n, ", ".join(f"'{p}': {PARAMS[p]}" for p in q)), "".join(f", {p}={PARAMS[p]}" for p in q)))
                for cfg, kw in cfgs:
                    drive(chk, "R2", f"{task}.{n}{kw or ', defaults'}{mode}", fmt.loc,
                          f"def ref(y_true, y_pred):\n    return base.format_metric_configs('{task}', [{cfg}])[0]['func'](y_true, y_pred{mode})\n",
                          f"def ref(y_true, y_pred):\n    return {task}.{n}(y_true, y_pred{kw}{mode})\n")
        # several configured metrics at once: each keeps its own function and parameters
        many = [("'%s'" % g, g, "") for g, _ in fs] + [("{'%s': {'%s': %s}}" % (g, p, v), g, f", {p}={v}") for g, fg in fs for p, v in PARAMS.items() if p in fg.params()]
        for lst in (many, many[::-1]):
            for mode in [""] + ([", ret_batch=True"] if task != "classification" else []):
                drive(chk, "R2", f"{task}: {len(lst)} configured metrics together{mode}", fmt.loc,
                      f"def ref(y_true, y_pred):\n    ms = base.format_metric_configs('{task}', [" + ", ".join(c for c, _, _ in lst) + "])\n"
                      f"    return [m['func'](y_true, y_pred{mode}) for m in ms]\n",
                      "def ref(y_true, y_pred):\n    return [" + ", ".join(f"{task}.{g}(y_true, y_pred{kw}{mode})" for _, g, kw in lst) + "]\n", stub=[fg.qual for _, fg in fs])
        # result names
        n, f = next(((n, f) for n, f in fs if "k" in f.params()), fs[0])
        ps = [p for p in PARAMS if p in f.params()]
        alts = {"k": ["3", "4", "13"], "ratio": ["0.5", "0.52", "0.25", "0.251", "0.01", "0.001"], "method": ["'legacy'", "'pascal_voc'"], "average": ["'micro'", "'macro'"], "n_points": ["5", "7"]}
        cfgs = [f"'{n}'"]
        for g, fg in fs:
            if g != n:
                cfgs.append(f"'{g}'")
            for p in PARAMS:
                if p in fg.params():
                    cfgs += ["{'%s': {'%s': %s}}" % (g, p, a) for a in alts[p]]
                    cfgs += ["{'%s': {'%s': %s, '%s': %s}}" % (g, p, a, q, alts[q][0]) for q in PARAMS if q in fg.params() and q != p for a in alts[p]][:2]
        markers(chk, task, cfgs, fmt)
        drive(chk, "R3", f"{task}: unknown metric name", fmt.loc, f"def ref():\n    return base.format_metric_configs('{task}', ['no_such_metric'])\n", "def ref():\n    raise ValueError\n")
        drive(chk, "R3", f"{task}: unknown metric name with parameters", fmt.loc, f"def ref():\n    return base.format_metric_configs('{task}', [{{'no_such_metric': {{'k': 1}}}}])\n", "def ref():\n    raise ValueError\n")
    drive(chk, "R3", "unknown task", fmt.loc, "def ref():\n    return base.format_metric_configs('no_such_task', [])\n", "def ref():\n    raise ValueError\n")
    for task, c in EVAL:
        cls = repo.cls(c)
        ns = [n for n, _ in names[task]]
        cfg = "[" + ", ".join(f"'{n}'" for n in ns) + "]"
        for i, n in enumerate(ns):
            op = [f.qual for _, f in names[task]]
            drive(chk, "R4", f"{c}.validate[{n}]", cls.loc, f"def ref(y_true, y_pred):\n    return dm.{c}({cfg}, {i}).validate(y_true, y_pred)\n",
                  f"def ref(y_true, y_pred):\n    return {task}.{n}(y_true, y_pred)\n", stub=op)
        drive(chk, "R4", f"{c}.test", cls.loc, f"def ref(y_true, y_pred):\n    return dm.{c}({cfg}).test(y_true, y_pred)\n",
              "def ref(y_true, y_pred):\n    return {" + ", ".join(f"'{n}': {task}.{n}(y_true, y_pred)" for n in ns) + "}\n", stub=op)
        for i in (-1, len(ns)):
            drive(chk, "R3", f"{c}: validate_index {i} of {len(ns)}", cls.loc, f"def ref():\n    return dm.{c}({cfg}, {i})\n", "def ref():\n    raise ValueError\n")
    be = repo.func("dhg.metrics.build_evaluator")
    for task, c in BUILD:
        m = [n for n, _ in names[dict((b, a) for a, b in EVAL)[c]]][:2]
        drive(chk, "R4", f"build_evaluator({task})", be.loc, f"def ref():\n    return dm.build_evaluator('{task}', {m!r}, 1)\n", f"def ref():\n    return dm.{c}({m!r}, 1)\n")
    drive(chk, "R3", "build_evaluator: unknown task", be.loc, "def ref():\n    return dm.build_evaluator('no_such_task', ['accuracy'])\n", "def ref():\n    raise ValueError\n")


def markers(chk, task, cfgs, fmt):
    seen = {}
    for c in cfgs:
        f = ref_func(chk.repo, f"def ref():\n    return base.format_metric_configs('{task}', [{c}])[0]['marker']\n", None, extra=IMPORTS)
        try:
            I, _, outs = Comparer(chk).outcomes(f, None, {}, ())
        except Undecided as e:
            chk.und(f"{task}: result name of {c}", str(e))
            continue
        for k, v, s in outs:
            if k != "ret":
                chk.finding("R3", f"{task}: result name of {c}", fmt.loc, f"a valid configuration is rejected ({v})")
                continue
            t = observe(I, s, v)
            if t in seen and seen[t] != c:
                chk.finding("R3", f"{task}: result name of {c}", fmt.loc, f"configurations {seen[t]} and {c} share the result name {tm.show(t, 80)}, so one result overwrites the other")
            elif t[0] != "s":
                chk.und(f"{task}: result name of {c}", "not a constant: " + tm.show(t, 100))
            else:
                chk.discharge(f"{task} {c} -> {t[1]}")
            seen[t] = c


SPEC = """
class Spec:
    def __init__(self, names, funcs, index):
        self.names, self.funcs, self.index = names, funcs, index
        self.v, self.t = [], {}
        self.last_v, self.last_t = None, None

    def rows(self, r):
        r = np.array(r)
        if len(r.shape) == 1:
            r = r[:, np.newaxis]
        return r

    def validate_add_batch(self, y, p):
        self.v = self.v + [self.rows(self.funcs[self.index](y, p, ret_batch=True))]

    def validate_epoch_res(self):
        if len(self.v) > 0:
            self.last_v = np.vstack(self.v).mean(0).item()
            self.v = []
        elif self.last_v is None:
            raise ValueError
        return self.last_v

    def test_add_batch(self, y, p):
        for n, f in zip(self.names, self.funcs):
            r = f(y, p, ret_batch=True)
            if isinstance(r, tuple):
                new = [self.rows(x) for x in r]
                if n not in self.t:
                    self.t[n] = [[] for x in r]
                for i in range(len(new)):
                    self.t[n][i].append(new[i])
            else:
                if n not in self.t:
                    self.t[n] = []
                self.t[n].append(self.rows(r))

    def test_epoch_res(self):
        if len(self.t) > 0:
            out = {}
            for n in self.names:
                x = self.t[n]
                if isinstance(x[0], list):
                    out[n] = [np.vstack(y).mean(0).squeeze().tolist() for y in x]
                else:
                    out[n] = np.vstack(x).mean(0).squeeze().tolist()
            self.last_t = out
            self.t = {}
        elif self.last_t is None:
            raise ValueError
        return self.last_t

    def validate(self, y, p):
        return self.funcs[self.index](y, p)

    def test(self, y, p):
        return {n: f(y, p) for n, f in zip(self.names, self.funcs)}
"""


def histories():
    import itertools
    out = []
    for alpha, L in ((("va", "ve"), 5), (("ta", "te"), 5), (("va", "ve", "ta", "te"), 4), (("va", "ve", "ta", "te", "v", "t"), 3)):
        for n in range(1, L + 1):
            for h in itertools.product(alpha, repeat=n):
                if h not in out and h[-1] in ("ve", "te") and not (len(alpha) == 6 and not {"v", "t"} & set(h)):
                    out.append(h)
    return out


def program(make, h):
    body, res, n = [], [], 0
    for i, op in enumerate(h):
        if op in ("va", "ta", "v", "t"):
            n += 1
            call = {"va": "validate_add_batch", "ta": "test_add_batch", "v": "validate", "t": "test"}[op] + f"(y{n}, p{n})"
        else:
            call = {"ve": "validate_epoch_res()", "te": "test_epoch_res()"}[op]
        if op in ("va", "ta"):
            body.append(f"    ev.{call}")
        else:
            body.append(f"    r{i} = ev.{call}")
            res.append(f"r{i}")
    args = ", ".join(f"y{i}, p{i}" for i in range(1, n + 1))
    return f"def ref({args}):\n    ev = {make}\n" + "\n".join(body) + "\n    return [" + ", ".join(res) + "]\n"


def m02(chk):
    repo = chk.repo
    chk.rule("R1", "every history of batch, epoch-result and one-shot calls returns what the accumulator definition returns, also for results read earlier")
    hs = histories()
    for task, c in EVAL:
        cls = repo.cls(c)
        if task == "classification":
            continue
        mod = f"dhg.metrics.{task}"
        ns = {"retrieval": ["map", "pr_curve", "precision"], "recommender": ["recall", "ndcg", "precision"]}[task]
        idx = 2
        op = [repo.func(f"{mod}.{n}").qual for n in ns]
        for h in hs:
            two = [ns[2], ns[1]] if len(h) > 4 else ns
            k = 0 if len(h) > 4 else idx
            drive(chk, "R1", f"{c}: " + " ".join(h), cls.loc, program(f"dm.{c}({two!r}, {k})", h),
                  SPEC + program(f"Spec({two!r}, [" + ", ".join(f"{task}.{n}" for n in two) + f"], {k})", h), stub=op)
            chk.count("histories")
    chk.rule("R2", "an epoch result is the mean over all samples of the epoch, however they are spread over batches")
    for task, c in EVAL:
        if task != "classification":
            sample_means(chk, task, c)
    chk.floor("histories", 100)


SIZES = ((2, 1), (1, 3), (2,), (1, 1, 2))


def sample_means(chk, task, c):
    """Batches of literal sizes whose samples have symbolic metric values; the epoch result must be their plain average."""
    repo = chk.repo
    cls = repo.cls(c)
    one, curve = {"retrieval": ("precision", "pr_curve"), "recommender": ("recall", None)}[task]
    ns = [one] + ([curve] if curve else [])
    funcs = {repo.func(f"dhg.metrics.{task}.{n}").qual: n for n in ns}

    def val(n, b, i, *k):
        return ("sample", n, b, i) + k

    def tweak(sizes):
        def go(I):
            Literal(I)

            def metric(I, func, args, kw, st, node):
                y = st.term(args[0]) if args else NONE
                b = int(y[1][1:]) if y[0] == "param" else 0
                n = funcs[func.qual]
                rb = kw.get("ret_batch")
                if not b or b > len(sizes) or rb is None or st.term(rb) != ("b", True):
                    return None
                if n == curve:
                    return [(V(None, "tuple", items=[V(None, "list", items=[V(None, "list", items=[V(val(n, b, i, j, k), "float") for k in range(2)]) for i in range(sizes[b - 1])]) for j in range(2)]), st)]
                return [(V(None, "list", items=[V(val(n, b, i), "float") for i in range(sizes[b - 1])]), st)]
            for q in funcs:
                I.intercept[q] = metric
        return go

    for sizes in SIZES:
        idx = [(b + 1, i) for b in range(len(sizes)) for i in range(sizes[b])]
        avg = lambda f: tm.mul(tm.add(*[f(b, i) for b, i in idx]), ("pow", N(len(idx)), N(-1)))  # noqa: E731
        want = {"ve": avg(lambda b, i: val(one, b, i)),
                "te": ("dict",) + tuple(sorted([(S(one), avg(lambda b, i: val(one, b, i)))] + ([(S(curve), ("list",) + tuple(
                    ("list",) + tuple(avg(lambda b, i: val(curve, b, i, j, k)) for k in range(2)) for j in range(2)))] if curve else [])))}
        for phase in ("va", "ta"):
            tag = f"{c}: {'validation' if phase == 'va' else 'test'} batches of {', '.join(map(str, sizes))} samples"
            out = "ve" if phase == "va" else "te"
            f = ref_func(repo, program(f"dm.{c}({ns!r}, 0)", [phase] * len(sizes) + [out]), None, extra=IMPORTS)
            C = Comparer(chk)
            C.tweak = tweak(sizes)
            chk.count("spread")
            try:
                I, _, outs = C.outcomes(f, None, {}, ())
            except (Undecided, RecursionError) as e:
                chk.und(tag, str(e))
                continue
            ok = bool(outs)
            for k, v, s in outs:
                if k != "ret":
                    ok = False
                    chk.finding("R2", tag, cls.loc, f"raises {v}")
                    continue
                t = observe(I, s, v)
                got = t[1] if t[0] == "list" and len(t) == 2 else t
                if got[0] == "dict":
                    got = ("dict",) + tuple(sorted(got[1:]))
                if got == want[out]:
                    continue
                ok = False
                if {x[0] for x in tm.walk(got) if x and isinstance(x[0], str)} - {"list", "tup", "dict", "add", "mul", "pow", "n", "s", "sample"}:
                    chk.und(tag, tm.show(got, 150))
                else:
                    chk.finding("R2", tag, cls.loc, f"the result is {tm.show(got, 150)}, not the mean over the samples {tm.show(want[out], 150)}")
            if ok:
                chk.discharge(tag)


INFO = {
    "M01": {"technique": "whole-registry resolution and value numbering of client programs against the named functions",
            "explanation": "The registries are evaluated, every name is resolved to a function of its own module, and every registered metric is called through format_metric_configs and through each evaluator class, with each of its parameters and in each calling mode; the resulting term must equal the direct call. Result names of different configurations are evaluated to constants and must differ; unknown names, tasks and indices must be rejected.",
            "assumptions": ASSUME, "note": "Every evaluator x metric x parameter x mode is enumerated; parameter values are sample constants (their value reaches the metric unexamined). The per-sample mode is required of the ranking evaluators only: the classification evaluator documents one-shot calls."},
    "M02": {"technique": "abstract interpretation of call histories with opaque metrics, compared by value numbering with an accumulator definition",
            "explanation": "For every evaluator with batch accumulation, all histories up to the bound over {add batch, read epoch result} (length 5 per phase, 4 interleaved, 3 with one-shot calls) are evaluated with symbolic batches and metrics as uninterpreted functions and compared with a reference accumulator, including results read earlier (aliasing).",
            "assumptions": ASSUME, "note": "Batches, labels and metric values are arbitrary; the number of calls in a history is bounded. Field names of the evaluator are not used."},
    "M03": {"technique": "value numbering against reference formulas",
            "explanation": "Each metric function is evaluated path by path on symbolic inputs and every compatible pair of paths must give the same term as the reference formula; recommender and retrieval share their references.",
            "assumptions": ASSUME, "note": "Numerical accuracy of torch reductions is outside; the classification scores of sklearn are trusted."},
}
