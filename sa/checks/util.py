"""D04-D08: interaction datasets, identifier remapping, splits, adjacency helpers, loaders and preprocessing."""
from .. import terms as tm
from ..interp import Undecided, V
from ..repo import AnalysisBroken
from ..spec import Comparer, ref_func
from ..terms import N, NONE, S, mk

ASSUME = ["torch, numpy, random, re, json and pickle operations mean what sa/ops.py says; operations it does not list are compared by name and arguments"]
TYPED = "import pickle\nimport pickle as pkl\nimport json\nimport re\nfrom collections import defaultdict\nfrom pathlib import Path\nimport scipy.sparse\n"


def drive(chk, rule, name, loc, impl, ref, extra="", given=None, facts=(), norm=None, tweak=None, stub=(), raises=True, opaque=(), returns=False):
    """Compare a client program of the package with the same program of the definition."""
    C = Comparer(chk, opaque=opaque, maxstates=3000)
    C.tweak, C.norm = tweak, norm
    try:
        res = []
        for src in (impl, ref):
            f = ref_func(chk.repo, src, None, extra=TYPED + extra)
            res.append(C.outcomes(f, None, {k: (v() if callable(v) else v) for k, v in (given or {}).items()}, facts))
    except (Undecided, RecursionError) as e:
        chk.und(name, str(e) or type(e).__name__)
        return None
    if returns and not any(k == "ret" for k, v, s in res[1][2]):
        raise AnalysisBroken(f"{chk.pid}: the definition of '{name}' never returns")
    return C.match(rule, name, loc, res[0], res[1], raises=raises)


# ------------------------------------------------------------------------------------------------------------ draws
def draw_kind(t):
    """A library draw in one spelling, without its ordinal."""
    if t[0] != "rnd":
        return None
    n, a = t[2], t[3:]
    if n in ("random.randrange", "numpy.random.randint", "numpy.random.choice") and len(a) == 1 and (n != "numpy.random.choice" or a[0][0] in ("n", "param", "add", "len")):
        return ("below", a[0])
    if n in ("random.randrange", "numpy.random.randint") and len(a) == 2 and a[0] == N(0):
        return ("below", a[1])
    if n == "random.randint" and len(a) == 2 and a[0] == N(0):
        return ("below", tm.add(a[1], N(1)))
    if n in ("random.choice", "numpy.random.choice") and len(a) == 1:
        x = a[0]
        # a pick among the numbers below n that are not in a list
        if x[0] == "each" and len(x) == 3 and x[1][0] == "range" and len(x[1]) == 3 and x[1][1] == N(0):
            conds, y = x[2]
            if len(conds) == 1 and not conds[0][1] and y[0] == "list" and len(y) == 2 and y[1][0] == "elem" and member(conds[0][0], y[1]):
                return outside(x[1][2], member(conds[0][0], y[1]))
        return ("pick", strip(x))
    return None


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ("list_of", "set", "tup", "list", "setlit", "keys") and (t[0] in ("tup", "list", "setlit") or len(t) == 2):
        if t[0] in ("tup", "list", "setlit"):
            return ("among",) + tuple(sorted(set(t[1:]), key=repr)) if t[0] != "among" else t
        t = t[1]
    return t


def member(c, who):
    """The set a test 'who in set' / 'who == x' looks in."""
    if c[0] == "in" and c[1] == who:
        return strip(c[2])
    if c[0] == "eq" and who in c[1:]:
        return ("among", c[2] if c[1] == who else c[1])
    return None


def rejected(t):
    """while x in L: x = draw  ->  a draw outside L"""
    if t[0] == "fold" and len(t) == 5 and t[2] == "while" and len(t[4]) == 1:
        acc, init, alts = t[4][0]
        if t[3] == acc and len(alts) == 1 and alts[0][2] == "next" and len(alts[0][0]) == 1:
            (c, b), = alts[0][0]
            k0, k1 = draw_kind(init), draw_kind(alts[0][1])
            if k0 and k0 == k1 and k0[0] == "below" and b and member(c, acc):
                return outside(k0[1], member(c, acc))
            if k0 and k1 and member(c, acc):
                return ("redraw", k0, k1, member(c, acc), ("b", b))
    if t[0] == "fold" and len(t) == 5 and t[1][0] == "range" and t[2] == "break" and len(t[4]) == 1:
        # a bounded number of attempts: when all of them fail the last draw is kept, whatever it is
        acc, init, alts = t[4][0]
        k0 = draw_kind(init)
        if t[3] == acc and k0 and all((k == "break" and v == acc) or (k in ("next", "cont") and draw_kind(v) == k0) for c, v, k in alts):
            return ("retried", k0)
    if t[0] == "last" and len(t) == 3 and isinstance(t[2], tuple) and len(t[2]) == 2 and isinstance(t[2][0], tuple) and len(t[2][0]) == 3:
        (c1, d1, k1), (c2, d2, k2) = sorted(t[2], key=lambda z: z[2])
        if k1 == "break" and k2 in ("next", "cont") and d1 == d2 and draw_kind(d1) and draw_kind(d1)[0] == "below" and len(c1) == len(c2) == 1:
            c, b = c1[0]
            if not b and member(c, d1) and c2[0] == (c, True):
                return outside(draw_kind(d1)[1], member(c, d1))
    return None


def outside(n, excl):
    """A draw below n outside a set; with known numbers: a pick among the rest."""
    if n[0] == "n" and excl[0] == "among" and all(x[0] == "n" for x in excl[1:]) and n[1] < 50:
        return ("pick", ("among",) + tuple(sorted((N(i) for i in range(int(n[1])) if N(i) not in excl[1:]), key=repr)))
    return ("reject", n, excl)


def fill(z):
    """Writing one scalar at several positions: neither order nor repetition matters."""
    if z[0] != "dset" or len(z) != 4 or z[3][0] not in ("n", "s", "b", "inf", "mul", "neg") and not tm.is_const(z[3]):
        return None
    where, base, todo = [], z, True
    while todo:
        todo = False
        while base[0] == "dset" and base[3] == z[3] and (base[2][0] in ("list", "tup", "n", "param")):
            where += list(base[2][1:]) if base[2][0] in ("list", "tup") else [base[2]]
            base = base[1]
            todo = True
        if base[0] == "filled" and base[3] == z[3]:
            where += list(base[2])
            base = base[1]
            todo = True
    if base == z:
        return None
    return ("filled", base, tuple(sorted(set(where), key=repr)), z[3]) if where else base


def norm_draws(t, facts=None):
    def go(z):
        r = rejected(z)
        if r:
            return ("draw", ("ord", id_of(z)), r)
        k = draw_kind(z)
        if k:
            return ("draw", ("ord", z[1]), k)
        if z[0] == "int" and len(z) == 2:
            w = tm.subst(z[1], go)
            return w if w[0] == "draw" else None
        return None

    def id_of(z):
        inner = [y[1] for y in tm.walk(z) if y[0] == "rnd"]
        return min(inner) if inner else -1
    if facts:
        for c, b in facts.items():
            # a test after the attempts
            for w in (c[1:] if not b and c[0] in ("in", "eq") else ()):
                r = rejected(w) if w[0] == "fold" else None
                if r and r[0] == "retried" and member(c, w):
                    t = tm.subst(t, lambda z, w=w, r=r, c=c: ("draw", ("ord", id_of(z)), outside(r[1][1], member(c, w))) if z == w and r[1][0] == "below" else None)
        # return from inside an endless loop: the draw satisfies the exit test
        for c, b in facts.items():
            if b and c[0] == "exists" and c[1][0] == "while" and len(c[2]) == 1:
                (q, bb), = c[2]
                for w in (q[1:] if not bb and q[0] in ("in", "eq") else ()):
                    d = draw_kind(w)
                    if d and d[0] == "below" and member(q, w):
                        t = tm.subst(t, lambda z, w=w, d=d, q=q: ("draw", ("ord", w[1]), outside(d[1], member(q, w))) if z == w else None)
    t = tm.subst(tm.subst(t, go), fill)
    seen = {}

    def num(z):
        if z[0] == "ord":
            return ("nth", seen.setdefault(z[1], len(seen)))
    # number the draws by first occurrence
    for z in preorder(t):
        if z[0] == "ord":
            seen.setdefault(z[1], len(seen))
    return tm.subst(t, num)


def preorder(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from preorder(x)


# ------------------------------------------------------------------------------------------------------------ D04
UI_REF = '''
class RefData:
    def __init__(self, num_users, num_items, pairs, train=None, strict=True, phase="train"):
        assert phase == "train" or phase == "test"
        if phase == "test":
            assert train is not None
        self.nu = num_users
        self.ni = num_items
        self.pairs = pairs
        self.adj = self.group(pairs)
        self.phase = phase
        self.strict = strict
        if phase == "test":
            self.seen = self.group(train)

    def group(self, pairs):
        out = defaultdict(list)
        for u, i in pairs:
            out[u].append(i)
        return out

    def negative(self, user):
        assert len(set(self.adj[user])) < self.ni
        x = random.randrange(self.ni)
        while x in self.adj[user]:
            x = random.randrange(self.ni)
        return x

    def __getitem__(self, index):
        if self.phase == "test":
            mask = torch.zeros(self.ni)
            mask[self.seen[index]] = -float("inf")
            truth = torch.zeros(self.ni)
            truth[self.adj[index]] = 1.0
            return index, mask, truth
        if self.strict:
            user, pos = self.pairs[index]
        else:
            user = random.randrange(self.nu)
            assert len(self.adj[user]) > 0
            pos = random.choice(self.adj[user])
        return user, pos, self.negative(user)

    def __len__(self):
        return len(self.pairs) if self.phase == "train" else self.nu
'''
L1 = "[(0, 1), (0, 2), (1, 0), (2, 3), (0, 1)]"
L2 = "[(1, 2), (1, 3), (0, 0)]"
UI = [
    ("strict: every interaction", f"D(3, 5, {L1})", "d[0], d[1], d[2], d[3], d[4]"),
    ("strict: number of samples", f"D(3, 5, {L1})", "len(d)"),
    ("strict: interactions as lists", "D(2, 4, [[1, 3], [0, 2]])", "d[0], d[1]"),
    ("strict: symbolic identifiers", "D(2, 4, [(u, a), (u, b)])", "d[1][:2]"),
    ("strict: default arguments", "D(num_users=3, num_items=5, user_item_list=[(0, 1), (1, 2)])", "d[1]"),
    ("strict: item wanted by every user but one", "D(2, 2, [(0, 1), (1, 0)])", "d[0], d[1]"),
    ("strict: a user who knows every item", "D(2, 2, [(0, 1), (0, 0), (1, 0)])", "d[0]"),
    ("strict: repeated interactions leave a negative", "D(1, 3, [(0, 1), (0, 1), (0, 2)])", "d[0]"),
    ("strict: two reads draw twice", f"D(3, 5, {L1})", "d[0], d[0]"),
    ("sampled: one user", "D(1, 5, [(0, 1), (0, 2)], strict_link=False)", "d[0]"),
    ("sampled: one user with one item", "D(1, 5, [(0, 3)], strict_link=False)", "d[0]"),
    ("sampled: number of samples", f"D(3, 5, {L1}, strict_link=False)", "len(d)"),
    ("test: masks of every user", f"D(3, 5, {L1}, {L2}, phase='test')", "d[0], d[1], d[2]"),
    ("test: number of users", f"D(3, 5, {L1}, {L2}, phase='test')", "len(d)"),
    ("test: read twice", f"D(3, 5, {L1}, {L2}, phase='test')", "d[0], d[1], d[0]"),
    ("test: read in reverse", f"D(3, 5, {L1}, {L2}, phase='test')", "d[2], d[1], d[0]"),
    ("test: symbolic items", "D(2, n, [(0, a), (1, b)], [(1, c), (1, e)], phase='test')", "d[0], d[1]"),
    ("test: items of both lists", "D(2, 5, [(0, 2), (0, 1), (0, 3)], [(0, 1), (0, 3), (0, 4), (1, 0)], phase='test')", "d[0], d[1]"),
    ("test: repeated items", "D(1, 4, [(0, 2), (0, 2), (0, 0)], [(0, 1), (0, 1), (0, 2)], phase='test')", "d[0]"),
    ("test: symbolic items of both lists", "D(1, n, [(0, a), (0, b)], [(0, b), (0, c)], phase='test')", "d[0]"),
    ("test: numbers given as one user per item", "D(4, 3, [(3, 0), (2, 1), (0, 2)], [(0, 0), (2, 2), (3, 1)], phase='test')", "d[3], d[2], d[1], d[0]"),
    ("strict: the last item is the only negative", "D(2, 4, [(0, 2), (0, 0), (0, 1), (1, 3)])", "d[0], d[3]"),
    ("strict: users out of order", "D(5, 6, [(4, 5), (0, 0), (4, 1), (2, 2)])", "d[0], d[1], d[2], d[3]"),
    ("test: strict_link has no influence", f"D(3, 5, {L1}, {L2}, False, 'test')", "d[0], len(d)"),
    ("test: no training list", f"D(3, 5, {L1}, phase='test')", "len(d)"),
    ("test: user without test items", "D(3, 4, [(0, 1)], [(1, 2)], phase='test')", "d[1]"),
    ("unknown phase", f"D(3, 5, {L1}, {L2}, phase='valid')", "len(d)"),
    ("training phase ignores the training list", f"D(3, 5, {L1}, {L2}, phase='train')", "d[2], len(d)"),
]


def d04(chk):
    chk.rule("R1", "training triplets are (user, positive, negative) with (user, positive) the requested or a drawn interaction and the negative drawn below the number of items outside the user's own interactions")
    chk.rule("R2", "test samples are (user, mask, truth): the mask is -inf exactly at the user's training items and the truth 1 exactly at the user's test items; the length matches the phase; reads do not influence each other")
    chk.rule("R3", "the caller's interaction lists are not modified")
    cls = chk.repo.cls("dhg.utils.dataset_wrapers.UserItemDataset")
    imp = "from dhg.utils.dataset_wrapers import UserItemDataset as D\n"
    for name, ctor, obs in UI:
        impl = f"def ref(n, u, a, b, c, e):\n    d = {ctor}\n    return {obs}\n"
        rctor = ctor.replace("D(", "RefData(", 1)
        for x, y in (("strict_link=", "strict="), ("user_item_list=", "pairs=")):
            rctor = rctor.replace(x, y)
        ref = f"def ref(n, u, a, b, c, e):\n    d = {rctor}\n    return {obs}\n"
        facts = [(tm.eq(("param", "a"), ("param", "b")), False)] if "symbolic" in name else ()
        chk.count("programs")
        drive_norm(chk, "R2" if name.startswith("test") else "R1", name, cls.loc, impl, ref, imp + UI_REF, facts)
    for phase in ("train", "test"):
        name = f"caller lists after {phase} reads"
        impl = f"def ref(a, b):\n    x = [(0, 1), (0, 2), (1, 0)]\n    y = [(1, 1), (0, 0)]\n    d = D(2, 4, x, y, phase='{phase}')\n    d[0]\n    d[1]\n    d[0]\n    len(d)\n    return x, y\n"
        ref = "def ref(a, b):\n    return [(0, 1), (0, 2), (1, 0)], [(1, 1), (0, 0)]\n"
        chk.count("programs")
        drive_norm(chk, "R3", name, cls.loc, impl, ref, imp, ())
    chk.floor("programs", 20)


def drive_norm(chk, rule, name, loc, impl, ref, extra, facts):
    C = Comparer(chk, maxstates=3000)
    try:
        ri = C.outcomes(ref_func(chk.repo, impl, None, extra=TYPED + extra), None, {}, facts)
        rr = C.outcomes(ref_func(chk.repo, ref, None, extra=TYPED + extra), None, {}, facts)
    except (Undecided, RecursionError) as e:
        chk.und(name, str(e) or type(e).__name__)
        return
    C.norm_st = norm_draws
    C.match(rule, name, loc, ri, rr)


# ------------------------------------------------------------------------------------------------------------ D05
REMAP = {
    "remap_edge_list": ('''
def ref(e_list):
    raw = [[str(v) for v in e] for e in e_list]
    ids = {x: i for i, x in enumerate(sorted({v for e in raw for v in e}))}
    return [tuple([ids[v] for v in e]) for e in raw], ids
''', '''
def ref(e_list):
    raw = [[str(v) for v in e] for e in e_list]
    um = {x: i for i, x in enumerate(sorted({u for u, v in raw}))}
    vm = {x: i for i, x in enumerate(sorted({v for u, v in raw}))}
    return [(um[u], vm[v]) for u, v in raw], um, vm
'''),
    "remap_adj_list": ('''
def ref(e_list):
    raw = [[str(v) for v in e] for e in e_list]
    ids = {x: i for i, x in enumerate(sorted({v for e in raw for v in e}))}
    return [[ids[v] for v in e] for e in raw], ids
''', '''
def ref(e_list):
    raw = [[str(v) for v in e] for e in e_list]
    um = {x: i for i, x in enumerate(sorted({u for e in raw for u in e[:1]}))}
    vm = {x: i for i, x in enumerate(sorted({v for e in raw for v in e[1:]}))}
    return [[um[u] for u in e[:1]] + [vm[v] for v in e[1:]] for e in raw], um, vm
'''),
}
MULTI = {
    "remap_edge_lists": ('''
def ref(e_lists):
    raw = [[[str(v) for v in e] for e in l] for l in e_lists]
    ids = {x: i for i, x in enumerate(sorted({v for l in raw for e in l for v in e}))}
    return [[tuple([ids[v] for v in e]) for e in l] for l in raw], ids
''', '''
def ref(e_lists):
    raw = [[[str(v) for v in e] for e in l] for l in e_lists]
    um = {x: i for i, x in enumerate(sorted({u for l in raw for u, v in l}))}
    vm = {x: i for i, x in enumerate(sorted({v for l in raw for u, v in l}))}
    return [[(um[u], vm[v]) for u, v in l] for l in raw], um, vm
'''),
    "remap_adj_lists": ('''
def ref(e_lists):
    raw = [[[str(v) for v in e] for e in l] for l in e_lists]
    ids = {x: i for i, x in enumerate(sorted({v for l in raw for e in l for v in e}))}
    return [[[ids[v] for v in e] for e in l] for l in raw], ids
''', '''
def ref(e_lists):
    raw = [[[str(v) for v in e] for e in l] for l in e_lists]
    um = {x: i for i, x in enumerate(sorted({u for l in raw for e in l for u in e[:1]}))}
    vm = {x: i for i, x in enumerate(sorted({v for l in raw for e in l for v in e[1:]}))}
    return [[[um[u] for u in e[:1]] + [vm[v] for v in e[1:]] for e in l] for l in raw], um, vm
'''),
}
# (raw lists, one-sided result, id map, two-sided result, user map, item map), all written out by hand
EDGES = [
    ("distinct names", "[('a', 'c'), ('b', 'a')]", "[(0, 2), (1, 0)]", "{'a': 0, 'b': 1, 'c': 2}", "[(0, 1), (1, 0)]", "{'a': 0, 'b': 1}", "{'a': 0, 'c': 1}"),
    ("numbers sort as names", "[(10, 9), (2, 10)]", "[(0, 2), (1, 0)]", "{'10': 0, '2': 1, '9': 2}", "[(0, 1), (1, 0)]", "{'10': 0, '2': 1}", "{'10': 0, '9': 1}"),
    ("names and numbers meet", "[('1', 2), (2, 1)]", "[(0, 1), (1, 0)]", "{'1': 0, '2': 1}", "[(0, 1), (1, 0)]", "{'1': 0, '2': 1}", "{'1': 0, '2': 1}"),
    ("repeated edges and loops", "[('x', 'x'), ('x', 'y'), ('x', 'x')]", "[(0, 0), (0, 1), (0, 0)]", "{'x': 0, 'y': 1}", "[(0, 0), (0, 1), (0, 0)]", "{'x': 0}", "{'x': 0, 'y': 1}"),
    ("no edges", "[]", "[]", "{}", "[]", "{}", "{}"),
]
HYPER = [("hyperedges of every size", "[('b', 'a', 'c'), ('d',), ('c', 'b')]", "[(1, 0, 2), (3,), (2, 1)]", "{'a': 0, 'b': 1, 'c': 2, 'd': 3}")]
ADJ = [
    ("lines of every length", "[['b', 'c', 'a'], ['d'], ['c', 'b']]", "[[1, 2, 0], [3], [2, 1]]", "{'a': 0, 'b': 1, 'c': 2, 'd': 3}", "[[0, 2, 0], [2], [1, 1]]", "{'b': 0, 'c': 1, 'd': 2}", "{'a': 0, 'b': 1, 'c': 2}"),
    ("empty lines", "[[], [5, 3]]", "[[], [1, 0]]", "{'3': 0, '5': 1}", "[[], [0, 0]]", "{'5': 0}", "{'3': 0}"),
    ("repeated neighbours", "[[1, 2, 2], [1, 3]]", "[[0, 1, 1], [0, 2]]", "{'1': 0, '2': 1, '3': 2}", "[[0, 0, 0], [0, 1]]", "{'1': 0}", "{'2': 0, '3': 1}"),
]


def d05(chk):
    chk.rule("R1", "for every input the returned lists are the given ones with each identifier replaced through one map, the map numbers the sorted distinct identifiers 0..n-1 (one map per side for bipartite data, one map across all given lists)")
    chk.rule("R2", "the map is returned exactly when asked for, and the result without it is the same")
    chk.rule("R3", "worked examples: names and numbers mixed, repeated, empty")
    repo = chk.repo
    M = "dhg.utils.structure."
    for multi, table in ((False, REMAP), (True, MULTI)):
        for fn, refs in table.items():
            f = repo.func(M + fn)
            imp = f"from dhg.utils.structure import {fn} as F\n"
            star = "*" if multi else ""
            arg = "a, b, c" if multi else "e_list"
            give = "[a, b, c]" if multi else "e_list"
            lists = lambda: {n: listp_of(n) for n in ("a", "b", "c")} if multi else {"e_list": listp_of("e_list")}  # noqa: E731
            for bip in (False, True):
                body = refs[bip].replace("def ref", "def want")
                for flag in (False, True):
                    name = f"{fn}(bipartite_graph={bip}, ret_map={flag})"
                    chk.count("modes")
                    impl = f"def ref({arg}):\n    return F({arg}, bipartite_graph={bip}, ret_map={flag})\n"
                    ref = body + f"def ref({arg}):\n    r = want({give})\n    return r if {flag} else r[0]\n"
                    drive(chk, "R1" if flag else "R2", name, f.loc, impl, ref, extra=imp, given=lists())
            name = f"{fn} defaults"
            drive(chk, "R2", name, f.loc, f"def ref({arg}):\n    return F({arg})\n", refs[0].replace("def ref", "def want") + f"def ref({arg}):\n    return want({give})[0]\n", extra=imp, given=lists())
    n = 0
    for fn, rows in (("remap_edge_list", EDGES), ("remap_adj_list", ADJ)):
        f = repo.func(M + fn)
        g = repo.func(M + fn + "s")
        for label, raw, one, m, two, um, vm in rows:
            n += 5
            exact(chk, "R3", f"{fn}: {label}", f.loc, fn, f"F({raw}, ret_map=True)", f"{one}, {m}")
            exact(chk, "R3", f"{fn}: {label}, two sides", f.loc, fn, f"F({raw}, bipartite_graph=True, ret_map=True)", f"{two}, {um}, {vm}")
            exact(chk, "R3", f"{fn}: {label}, no map", f.loc, fn, f"F({raw}), F({raw}, True)", f"{one}, {two}")
            exact(chk, "R3", f"{fn}s: {label}", g.loc, fn + "s", f"F({raw}, [], {raw}, ret_map=True)", f"[{one}, [], {one}], {m}")
            exact(chk, "R3", f"{fn}s: {label}, two sides", g.loc, fn + "s", f"F({raw}, {raw}, bipartite_graph=True, ret_map=True)", f"[{two}, {two}], {um}, {vm}")
    f = repo.func(M + "remap_edge_list")
    for label, raw, one, m in HYPER:
        exact(chk, "R3", f"remap_edge_list: {label}", f.loc, "remap_edge_list", f"F({raw}, ret_map=True)", f"{one}, {m}")
        exact(chk, "R3", f"remap_edge_lists: {label}", f.loc, "remap_edge_lists", f"F({raw}, [('a', 'e')], ret_map=True)", f"[{one}, [(0, 4)]], {m[:-1]}, 'e': 4}}")
    exact(chk, "R3", "remap_edge_lists: one map across lists", f.loc, "remap_edge_lists", "F([('b', 'c')], [('a', 'b')], ret_map=True)", "[[(1, 2)], [(0, 1)]], {'a': 0, 'b': 1, 'c': 2}")
    exact(chk, "R3", "remap_edge_lists: three lists", f.loc, "remap_edge_lists", "F([(1, 2)], [(2, 3)], [(4, 5)], ret_map=True)", "[[(0, 1)], [(1, 2)], [(3, 4)]], {'1': 0, '2': 1, '3': 2, '4': 3, '5': 4}")
    exact(chk, "R3", "remap_edge_lists: three lists, two sides", f.loc, "remap_edge_lists", "F([(1, 2)], [(2, 3)], [(4, 1)], bipartite_graph=True, ret_map=True)", "[[(0, 1)], [(1, 2)], [(2, 0)]], {'1': 0, '2': 1, '4': 2}, {'1': 0, '2': 1, '3': 2}")
    exact(chk, "R3", "remap_adj_lists: three lists", f.loc, "remap_adj_lists", "F([[1, 2]], [[2, 3]], [[4, 5]], ret_map=True)", "[[[0, 1]], [[1, 2]], [[3, 4]]], {'1': 0, '2': 1, '3': 2, '4': 3, '5': 4}")
    exact(chk, "R3", "remap_adj_lists: three lists, two sides", f.loc, "remap_adj_lists", "F([[1, 2]], [[2, 3]], [[4, 1]], bipartite_graph=True, ret_map=True)", "[[[0, 1]], [[1, 2]], [[2, 0]]], {'1': 0, '2': 1, '4': 2}, {'1': 0, '2': 1, '3': 2}")
    exact(chk, "R3", "remap_edge_lists: one map per side across lists", f.loc, "remap_edge_lists", "F([('b', 'c')], [('a', 'b')], bipartite_graph=True)", "[[(1, 1)], [(0, 0)]]")
    exact(chk, "R3", "remap_adj_lists: one map across lists", f.loc, "remap_adj_lists", "F([['b', 'c']], [['a', 'b']], ret_map=True)", "[[[1, 2]], [[0, 1]]], {'a': 0, 'b': 1, 'c': 2}")
    exact(chk, "R3", "remap_adj_lists: one map per side across lists", f.loc, "remap_adj_lists", "F([['b', 'c']], [['a', 'b']], bipartite_graph=True)", "[[[1, 1]], [[0, 0]]]")
    chk.floor("modes", 16)


def listp_of(n):
    return V(("param", n), "list", org=frozenset([(("param", n), 0)]))


def exact(chk, rule, name, loc, fn, call, want):
    chk.count("examples")
    drive(chk, rule, name, loc, f"def ref():\n    return {call}\n", f"def ref():\n    return {want}\n", extra=f"from dhg.utils.structure import {fn} as F\n")


# ------------------------------------------------------------------------------------------------------------ D07
def d07(chk):
    chk.rule("R1", "edge lists group by source in first-occurrence order with the targets in order; adjacency lists expand into one pair per neighbour; lines without neighbours give no pair")
    chk.rule("R2", "converting an edge list to adjacency lists and back keeps every pair with its multiplicity")
    repo = chk.repo
    M = "dhg.utils.structure."
    fs = {n: repo.func(M + n) for n in ("edge_list_to_adj_list", "edge_list_to_adj_dict", "adj_list_to_edge_list")}
    imp = "".join(f"from dhg.utils.structure import {n}\n" for n in fs)

    def prog(rule, name, fn, args, call, want, facts=()):
        chk.count("programs")
        drive(chk, rule, name, fs[fn].loc, f"def ref({args}):\n    return {call}\n", f"def ref({args}):\n    return {want}\n", extra=imp, facts=facts)
    for pat in ("", "ab", "ab ac", "ab cd ae", "ab cd ce ab", "aa ab ba"):
        e = pat.split()
        pairs = "[" + ", ".join(f"({x[0]}, {x[1]})" for x in e) + "]"
        num = {c: str(i) for i, c in enumerate("abcde")}
        pairs = "[" + ", ".join(f"({num[x[0]]}, {x[1]})" for x in e) + "]"
        groups = {}
        for x in e:
            groups.setdefault(num[x[0]], []).append(x[1])
        adj = "[" + ", ".join("[" + ", ".join([s] + t) + "]" for s, t in groups.items()) + "]"
        dic = "{" + ", ".join(f"{s}: [{', '.join(t)}]" for s, t in groups.items()) + "}"
        back = "[" + ", ".join(f"({s}, {x})" for s, t in groups.items() for x in t) + "]"
        nm = pat or "no edges"
        prog("R1", f"edge_list_to_adj_list [{nm}]", "edge_list_to_adj_list", "a, b, c, d, e", f"edge_list_to_adj_list({pairs})", adj)
        keys = [k for k in groups]
        prog("R1", f"edge_list_to_adj_dict [{nm}]", "edge_list_to_adj_dict", "a, b, c, d, e", f"(lambda x: [list(x.keys()), [x[k] for k in [{', '.join(keys)}]], len(x)])(edge_list_to_adj_dict({pairs}))", f"[[{', '.join(keys)}], [{dic}[k] for k in [{', '.join(keys)}]], {len(keys)}]")
        prog("R2", f"there and back [{nm}]", "adj_list_to_edge_list", "a, b, c, d, e", f"adj_list_to_edge_list(edge_list_to_adj_list({pairs}))", back)
    for name, adj, want in (("lines", "[[a, b, c], [d, e]]", "[(a, b), (a, c), (d, e)]"), ("line without neighbours", "[[a], [b, c]]", "[(b, c)]"), ("empty line", "[[], [b, c], []]", "[(b, c)]"),
                            ("same source twice", "[[a, b], [a, c]]", "[(a, b), (a, c)]"), ("loop and repetition", "[[a, a, b, b]]", "[(a, a), (a, b), (a, b)]"), ("nothing", "[]", "[]")):
        prog("R1", f"adj_list_to_edge_list: {name}", "adj_list_to_edge_list", "a, b, c, d, e", f"adj_list_to_edge_list({adj})", want)
    # any number of lines
    drive(chk, "R1", "adj_list_to_edge_list: any list", fs["adj_list_to_edge_list"].loc, "def ref(adj_list):\n    return adj_list_to_edge_list(adj_list)\n",
          "def ref(adj_list):\n    out = []\n    for line in adj_list:\n        if len(line) > 1:\n            for x in line[1:]:\n                out.append((line[0], x))\n    return out\n", extra=imp, given={"adj_list": listp_of("adj_list")}, norm=empty_tail)
    prog("R1", "inputs unmodified", "adj_list_to_edge_list", "a, b, c, d, e", "(lambda x, y: [edge_list_to_adj_list(x), edge_list_to_adj_dict(x)[0], adj_list_to_edge_list(y), adj_list_to_edge_list(y), x, y])([(0, b), (1, c)], [[a, b], [c]])",
         "[[[0, b], [1, c]], [b], [(a, b)], [(a, b)], [(0, b), (1, c)], [[a, b], [c]]]")
    chk.floor("programs", 20)


def empty_tail(t):
    """Whether a line is empty need not be asked before running over it or over its tail."""
    def go(z):
        if z[0] != "each" or len(z) < 3:
            return None
        full = [(c, y) for c, y in z[2:] if y != ("list",)]
        if len(full) != 1 or full[0][1][0] != "each":
            return None
        c, y = full[0]
        d = y[1]
        if d[0] == "sub" and len(d) == 3 and d[2] == ("slice", N(1), NONE, NONE):
            lazy = {(tm.lt(N(1), mk("len", d[1])), True), (("truth", d[1]), True), (tm.lt(N(0), mk("len", d[1])), True)}
        else:
            return None
        return ("each", z[1], (tuple(x for x in c if x not in lazy), tm.subst(y, go)))
    return tm.subst(t, go)


# ------------------------------------------------------------------------------------------------------------ D06
SPLIT_HEAD = '''
def labels(v_label):
    if isinstance(v_label, list):
        v_label = np.array(v_label)
    elif isinstance(v_label, torch.Tensor):
        v_label = v_label.detach().cpu().numpy()
    assert isinstance(v_label, np.ndarray)
    v_label = v_label.squeeze().astype(int)
    assert v_label.ndim == 1
    return v_label

def mask(n, idx):
    out = torch.zeros(n, dtype=torch.bool)
    out[idx] = True
    return out
'''
SPLIT_NUM = SPLIT_HEAD + '''
def ref(num_v, v_label, train_num, val_num, test_num):
    y = labels(v_label)
    nv = 0 if val_num is None else val_num
    tr, va, te = [], [], []
    for c in np.unique(y):
        ids = np.where(y == c)[0]
        random.shuffle(ids)
        tr.extend(ids[:train_num])
        va.extend(ids[train_num:train_num + nv])
        if test_num is None:
            te.extend(ids[train_num + nv:])
        else:
            te.extend(ids[train_num + nv:train_num + nv + test_num])
    if nv == 0:
        return mask(num_v, tr), mask(num_v, te)
    return mask(num_v, tr), mask(num_v, va), mask(num_v, te)
'''
SPLIT_RATIO = SPLIT_HEAD + '''
def ref(num_v, v_label, train_ratio, val_ratio, test_ratio):
    y = labels(v_label)
    rv = 0 if val_ratio is None else val_ratio
    if test_ratio is None:
        assert train_ratio + rv < 1
    else:
        assert train_ratio + rv + test_ratio <= 1
    tr, va, te = [], [], []
    for c in np.unique(y):
        ids = np.where(y == c)[0]
        n = len(ids)
        random.shuffle(ids)
        a = int(n * train_ratio)
        b = int(n * rv)
        tr.extend(ids[:a])
        va.extend(ids[a:a + b])
        if test_ratio is None:
            te.extend(ids[a + b:])
        else:
            te.extend(ids[a + b:a + b + int(n * test_ratio)])
    if rv == 0:
        return mask(num_v, tr), mask(num_v, te)
    return mask(num_v, tr), mask(num_v, va), mask(num_v, te)
'''
UI_NUM = '''
def ref(g, train_num):
    tr, te = [], []
    for u in range(g.num_u):
        items = g.nbr_v(u)
        random.shuffle(items)
        if len(items) > 0:
            tr.append([u] + items[:train_num])
            if len(items) > train_num:
                te.append([u] + items[train_num:])
    return tr, te
'''
UI_RATIO = '''
def ref(g, train_ratio):
    tr, te = [], []
    for u in range(g.num_u):
        items = g.nbr_v(u)
        random.shuffle(items)
        if len(items) > 0:
            k = int(len(items) * train_ratio)
            tr.append([u] + items[:k])
            te.append([u] + items[k:])
    return tr, te
'''


def d06(chk):
    chk.rule("R1", "for each category the members are shuffled and cut into consecutive, hence disjoint, parts of the requested numbers (or floor of ratio x category size); the masks mark exactly the parts; the validation mask is returned exactly when a validation part is requested")
    chk.rule("R2", "ratios that exceed the whole are rejected")
    chk.rule("R3", "for user-item graphs each user's shuffled items are cut once: a training line and a test line starting with the user, users without items are left out")
    repo = chk.repo
    M = "dhg.utils.dataset_split."
    def arrays(I):
        def asarray(I, a, kw, st, node):
            return [(V(("asarray", st.term(a[0])), "ndarray"), st)]
        I.hooks_ext["numpy.array"] = I.hooks_ext["numpy.asarray"] = asarray
        I.hook_mcall = lambda I, v, name, a, kw, st, node: asarray(I, [v], kw, st, node) if name == "numpy" else None
    for fn, ref, args in (("split_by_num", SPLIT_NUM, ("train_num", "val_num", "test_num")), ("split_by_ratio", SPLIT_RATIO, ("train_ratio", "val_ratio", "test_ratio"))):
        f = repo.func(M + fn)
        for kind in ("list", "tensor", "array", "other"):
            for val in ("given", "zero", "none"):
                for test in ("given", "none"):
                    seeds = {"v_label": V(("param", "v_label"), {"list": "list", "tensor": "tensor"}.get(kind))}
                    facts = [(("isinstance", ("param", "v_label"), (k,)), b) for k, b in (("list", kind == "list"), ("Tensor", kind == "tensor"), ("ndarray", kind == "array"))]
                    for a, how in ((args[1], val), (args[2], test)):
                        if how == "none":
                            seeds[a] = V(NONE)
                        elif how == "zero":
                            seeds[a] = V(N(0))
                        else:
                            seeds[a] = V(("param", a), "int" if a.endswith("num") else "float")
                            facts.append((tm.eq(("param", a), NONE), False))
                            if a == args[1]:
                                facts.append((tm.eq(("param", a), N(0)), False))
                    name = f"{fn}: {kind} labels, validation {val}, test {test}"
                    chk.count("splits")
                    drive(chk, "R1", name, f.loc, f"from dhg.utils.dataset_split import {fn} as F\ndef ref(num_v, v_label, {', '.join(args)}):\n    return F(num_v, v_label, {', '.join(args)})\n", ref,
                          given=seeds, facts=facts, norm=unshift, tweak=arrays, returns=kind != "other")
        drive(chk, "R1", fn + ": defaults", f.loc, f"from dhg.utils.dataset_split import {fn} as F\ndef ref(num_v, v_label, a):\n    return F(num_v, v_label, a)\n",
              ref.replace("def ref", "def want") + "def ref(num_v, v_label, a):\n    return want(num_v, v_label, a, None, None)\n", given={"v_label": V(("param", "v_label"), "list")},
              facts=[(("isinstance", ("param", "v_label"), ("list",)), True)], norm=unshift, tweak=arrays, returns=True)
    bg = repo.cls("dhg.structure.graphs.bipartite_graph.BiGraph")
    for fn, ref, arg in (("split_by_num_for_UI_bigraph", UI_NUM, "train_num"), ("split_by_ratio_for_UI_bigraph", UI_RATIO, "train_ratio")):
        f = repo.func(M + fn)
        chk.count("splits")
        q = [m.qual for n, m in bg.methods.items() if n == "nbr_v"]
        drive(chk, "R3", fn, f.loc, f"from dhg.utils.dataset_split import {fn} as F\ndef ref(g: BiGraph, {arg}):\n    return F(g, {arg})\n", ref.replace("def ref(g,", "def ref(g: BiGraph,"), opaque=q, norm=lambda t: canon_each(unshift(t)))
    chk.floor("splits", 50)


def minterms(alts, implied=()):
    """Alternatives of one value as the set of truth assignments of the atoms that matter."""
    atoms = sorted({c for cs, _ in alts for c, b in cs}, key=repr)
    if len(atoms) > 6:
        return tuple(sorted((cs for cs, _ in alts), key=repr))
    from itertools import product
    ok = [dict(zip(atoms, bs)) for bs in product((True, False), repeat=len(atoms))]
    ok = [m for m in ok if not any(m.get(p) and m.get(q) is False for p, q in implied)]
    sat = [m for m in ok if any(all(m[c] == b for c, b in cs) for cs, _ in alts)]
    for c in list(atoms):
        def rest(m):
            return tuple((k, v) for k, v in sorted(m.items(), key=repr) if k != c)
        yes, no = {rest(m) for m in sat}, {rest(m) for m in ok if m not in sat}
        if not yes & no:
            ok = [dict(x) for x in {rest(m) for m in ok}]
            sat = [dict(x) for x in yes]
    return tuple(sorted((tuple(sorted(m.items(), key=repr)) for m in sat), key=repr))


def canon_each(t):
    def go(z):
        if z[0] != "each" or len(z) < 3:
            return None
        groups = {}
        for c, y in z[2:]:
            if y != ("list",):
                y = tm.subst(y, go)
                groups.setdefault(whole(y, c), []).append((c, y))
        implied = set()
        for al in groups.values():
            for c, _ in al:
                for q, b in c:
                    if q[0] == "lt" and q[2][0] == "len":
                        implied.add((q, ("truth", q[2][1])))
        return ("each", z[1]) + tuple(sorted(((minterms(al, implied), y) for y, al in groups.items()), key=repr))
    return tm.subst(t, go)


def whole(y, conds):
    """A list no longer than k is its own first k elements."""
    for q, b in conds:
        if q[0] == "lt" and not b and q[2][0] == "len":
            k, x = q[1], q[2][1]
            for w in {z for z in tm.walk(y) if z == x or z[0] == "shuffled" and len(z) > 1 and z[1] == x}:
                cut = ("sub", w, ("slice", NONE, k, NONE))
                y = tm.subst(y, lambda z: cut if z in (cut, ("list_of", cut), ("list_of", w)) else None)
                y = tm.subst(y, lambda z: cut if z == ("list_of", cut) else None)
    return y


def unshift(t):
    """Renumbering all labels by a constant changes neither the categories nor their members; the length of a vector is its shape."""
    def go(z):
        if z[0] == "sub" and z[1][0] == "shape" and z[2] == N(0):
            return tm.subst(mk("len", z[1][1]), go)
        if z[0] == "len" and z[1][0] == "shuffled":
            return tm.subst(mk("len", z[1][1]), go)
        if z[0] == "list_of" and z[1][0] == "sub" and z[1][2][0] == "slice":
            return tm.subst(z[1], go)
        if z[0] == "asarray":
            return tm.subst(z[1], go)
        if z[0] == "attr" and z[-1] == "size" and len(z) == 3 and isinstance(z[1], tuple):
            return tm.subst(mk("len", z[1]), go)
        if z[0] == "size" and len(z) == 2:
            return tm.subst(mk("len", z[1]), go)
        if z[0] == "add" and len(z) == 3 and any(x[0] == "n" for x in z[1:]) and any(tm.contains(x, lambda y: y == ("param", "v_label")) for x in z[1:]):
            x, = [x for x in z[1:] if x[0] != "n"] or [None]
            if x is not None and x[0] not in ("len", "elem"):
                return tm.subst(x, go)
        return None
    return tm.subst(t, go)


# ------------------------------------------------------------------------------------------------------------ D08
CASTS = {"float": "float32", "double": "float64", "half": "float16", "bool": "bool", "long": "int64", "int": "int32", "short": "int16"}
KINDS = {"float": "float32", "long": "int64", "int": "int32", "double": "float64", "bool": "bool", "float32": "float32", "int64": "int64", "float64": "float64", "int32": "int32", "uint8": "uint8",
         "FloatTensor": "float32", "LongTensor": "int64", "BoolTensor": "bool", "int_": "int64"}


def cast(t, kind):
    """float after float and so on: the last cast decides, an equal cast before it is idle."""
    return t if t[0] == "cast" and t[1] == kind else ("cast", kind, t)


RAWX = ("param", "X")


def untag(t):
    return tm.subst(t, lambda z: untag(z[1]) if z[0] in ("tens", "dense") else None)


def dtyped(I, src="Tensor"):
    """Casts become visible; data that is not a tensor yet has no tensor methods, sparse data must be densified first."""
    from ..ops import dtype_name

    def raw(t, I, st, node, *bad):
        if t == RAWX and src in bad:
            I.do_raise("AttributeError", st, node)
            return True

    def mcall(I, v, name, args, kw, st, node):
        if v.py is not None or v.items is not None or v.map is not None:
            return None
        t = st.term(v)
        if (name in CASTS or name in ("to", "type")) and raw(t, I, st, node, "list", "ndarray", "csr_matrix", "coo_matrix"):
            return []
        if name in CASTS and not args and not kw:
            return [(V(cast(t, CASTS[name]), "tensor"), st)]
        if name in ("to", "type", "astype"):
            d = kw.get("dtype") or (args[0] if args else None)
            k = KINDS.get(dtype_name(st.term(d))) if d is not None else None
            if k:
                return [(V(cast(t, k), "tensor"), st)]
        if name in ("todense", "toarray"):
            if raw(t, I, st, node, "list", "ndarray", "Tensor"):
                return []
            return [(V(("dense", t)), st)]
        if name in ("numpy", "clone", "detach", "cpu", "contiguous"):
            return [(V(t, "tensor"), st)]
        return None

    def tensor(I, a, kw, st, node):
        t = st.term(a[0])
        if raw(t, I, st, node, "csr_matrix", "coo_matrix"):
            return []
        t = ("tens", t)
        if "dtype" in kw:
            t = cast(t, KINDS.get(dtype_name(st.term(kw["dtype"])), str(st.term(kw["dtype"]))))
        return [(V(t, "tensor"), st)]

    def typed(kind):
        return lambda I, a, kw, st, node: [(V(cast(st.term(a[0]), kind), "tensor"), st)]
    for n in ("torch.tensor", "torch.as_tensor", "torch.from_numpy", "numpy.array", "numpy.asarray"):
        I.hooks_ext[n] = tensor
    for n, k in (("torch.FloatTensor", "float32"), ("torch.Tensor", "float32"), ("torch.LongTensor", "int64"), ("torch.BoolTensor", "bool")):
        I.hooks_ext[n] = typed(k)
    I.hook_mcall = mcall


class Reader:
    """Text files: how many lines were consumed before the rest is read."""

    def install(self, I):
        I.hooks_ext["builtins.open"] = self.open
        I.hook_mcall = self.mcall
        I.hook_iter = lambda I, v, st: V(("lines", v.t, N(self.seen(v.t, st))), "list") if v.t is not None and v.t[0] == "opened" else None
        for n in ("builtins.next",):
            I.hooks_ext[n] = lambda I, a, kw, st, node: self.line(st.cur(a[0]), st) if self.file(st, a[0]) else None

    def open(self, I, a, kw, st, node):
        args = dict(zip(("file", "mode"), a))
        args.update(kw)
        mode = st.term(args["mode"]) if "mode" in args else S("r")
        if mode in (S("rt"), S("tr")):
            mode = S("r")
        return [(V(("opened", st.term(args["file"]), mode), "file"), st)]

    def file(self, st, v):
        t = st.term(st.cur(v))
        return t[0] == "opened"

    def seen(self, t, st):
        return sum(1 for e in st.events if e[0] == "readline" and e[1] == t)

    def line(self, v, st):
        n = self.seen(v.t, st)
        st.ev("readline", v.t)
        return [(V(("line", v.t, N(n)), "str"), st)]

    def mcall(self, I, v, name, args, kw, st, node):
        if v.t is None or v.t[0] != "opened":
            if v.t is not None and name == "open" and (v.ty == "path" or v.t[0] in ("param", "path", "join")):
                return self.open(I, [v] + list(args), kw, st, node)
            return None
        if name == "__enter__":
            return [(v, st)]
        if name == "readline":
            return self.line(v, st)
        if name == "readlines":
            return [(V(("lines", v.t, N(self.seen(v.t, st))), "list"), st)]
        if name == "read":
            return [(V(("rest", v.t, N(self.seen(v.t, st)))), st)]
        return None


def rest_of(t, facts=None):
    """The lines after the first k, however they are skipped."""
    def go(z):
        if z[0] == "sub" and z[2][0] == "slice" and z[2][2:] == (NONE, NONE):
            x = tm.subst(z[1], go)
            if x[0] == "list_of":
                x = x[1]
            if x[0] == "lines" and z[2][1][0] == "n":
                return ("lines", x[1], tm.add(x[2], z[2][1]))
        if z[0] == "mcall" and len(z) == 4 and z[2] == "split" and z[1][:2] == ("call", "re.compile") and len(z[1]) == 3:
            return tm.subst(("call", "re.split", z[1][2], z[3]), go)
        if z[0] == "call" and z[1] == "itertools.islice" and len(z) == 5 and z[4] == NONE:
            x = tm.subst(z[2], go)
            if x[0] == "lines":
                return ("lines", x[1], tm.add(x[2], z[3]))
        return None
    return tm.subst(t, go)


NORM_REF = {
    1: "def ref(X, ord):\n    n = 1 / torch.linalg.norm(X, ord=ord)\n    n[torch.isinf(n)] = 0\n    return X * n\n",
    2: "def ref(X, ord):\n    n = 1 / torch.linalg.norm(X, ord=ord, dim=1, keepdim=True)\n    n[torch.isinf(n)] = 0\n    return X * n\n",
    3: "def ref(X, ord):\n    raise ValueError\n",
}


def d08(chk):
    chk.rule("R1", "norm_ft multiplies every row (or the vector) by the inverse of its own norm of the requested order, infinite inverses counting as zero; other ranks are rejected")
    chk.rule("R2", "min_max_scaler maps x to (x - min) * (hi - lo) / (max - min) + lo, a constant matrix to lo, and rejects an empty target range")
    chk.rule("R3", "converters keep the data and give exactly the documented dtype for lists, arrays, sparse matrices and tensors")
    chk.rule("R4", "compose_pipes applies its functions left to right, and each call of the result starts afresh")
    chk.rule("R5", "loaders read the given file in the mode of its format and return all of its data: header lines skipped exactly as many as requested, each line stripped, split at the separator and cast; pickle keys selected as asked")
    repo = chk.repo
    P = "dhg.datapipe."
    nf = repo.func(P + "normalize.norm_ft")
    for d in (1, 2, 3):
        x = ("param", "X")
        dim = ("rank", x)

        def ranks(I, dim=d):
            I.hook_mcall = lambda I, v, name, args, kw, st, node: [(V(N(dim)), st)] if name in ("dim", "ndimension") and v.t == x else None
        for o in ("given", "default"):
            chk.count("cases")
            call = "F(X, ord)" if o == "given" else "F(X)"
            ref = NORM_REF[d] if o == "given" else NORM_REF[d].replace("(X, ord)", "(X)").replace("ord=ord", "ord=None")
            drive(chk, "R1", f"norm_ft rank {d}, order {o}", nf.loc, f"from {P}normalize import norm_ft as F\ndef ref(X{', ord' if o == 'given' else ''}):\n    return {call}\n", ref, tweak=ranks,
                  given={"X": V(x, "tensor")}, facts=rank_facts(x, d), norm=lambda t, d=d: rank_norm(t, x, d))
    mm = repo.func(P + "normalize.min_max_scaler")
    chk.count("cases")
    drive(chk, "R2", "min_max_scaler", mm.loc, f"from {P}normalize import min_max_scaler as F\ndef ref(X, lo, hi):\n    return F(X, lo, hi)\n",
          "def ref(X, lo, hi):\n    assert lo < hi\n    a, b = X.min(), X.max()\n    s = (hi - lo) / (b - a) if b != a else 0.0\n    return X * s + (lo - a * s)\n", given={"X": V(("param", "X"), "tensor")}, norm=scale_norm)
    for fn, kind in (("to_tensor", "float32"), ("to_bool_tensor", "bool"), ("to_long_tensor", "int64")):
        f = repo.func(P + "common." + fn)
        for src in ("list", "ndarray", "Tensor", "csr_matrix", "coo_matrix")[: 5 if fn == "to_tensor" else 3]:
            facts = [(("isinstance", ("param", "X"), (k,)), k == src) for k in ("list", "ndarray", "Tensor", "csr_matrix", "coo_matrix")]
            chk.count("cases")
            C = Comparer(chk, maxstates=2000)
            C.tweak = lambda I, src=src: dtyped(I, src)
            try:
                I, _, outs = C.outcomes(ref_func(repo, f"from {P}common import {fn} as F\ndef ref(X):\n    return F(X)\n", None, extra=TYPED), None, {"X": V(("param", "X"), {"list": "list", "Tensor": "tensor"}.get(src))}, facts)
            except Undecided as e:
                chk.und(f"{fn} of {src}", str(e))
                continue
            want = ("cast", kind, ("param", "X"))
            bad = [(k, v, s) for k, v, s in outs if k == "raise" or untag(s.term(v)) != want]
            if not outs:
                chk.und(f"{fn} of {src}", "no path")
            elif not bad:
                chk.discharge(f"{fn} of {src}")
            else:
                k, v, s = bad[0]
                got = v if k == "raise" else untag(s.term(v))
                from ..spec import undecidable
                why = undecidable(got, want) if k == "ret" else None
                if why:
                    chk.und(f"{fn} of {src}", why)
                else:
                    chk.finding("R3", f"{fn} of {src}", f.loc, f"gives {got if k == 'raise' else tm.show(got, 200)}, expected the data as {kind}")
    cp = repo.func(P + "common.compose_pipes")
    imp = f"from {P}common import compose_pipes as F\n"
    for name, call, want in (("one", "F(f)(x)", "f(x)"), ("two", "F(f, g)(x)", "g(f(x))"), ("three", "F(f, g, h)(x)", "h(g(f(x)))"), ("none", "F()(x)", "x"), ("repeated pipe", "F(f, f, g)(x)", "g(f(f(x)))"),
                             ("called twice", "(lambda c: [c(x), c(y)])(F(f, g))", "[g(f(x)), g(f(y))]"), ("nested", "F(F(f, g), h)(x)", "h(g(f(x)))")):
        chk.count("cases")
        drive(chk, "R4", "compose_pipes: " + name, cp.loc, imp + f"def ref(f, g, h, x, y):\n    return {call}\n", f"def ref(f, g, h, x, y):\n    return {want}\n")
    # loaders
    R = Reader()

    def reading(name, fn, call, want, args, given=None, facts=(), rule="R5"):
        chk.count("cases")
        drive(chk, rule, name, repo.func(P + "loader." + fn).loc, f"from {P}loader import {fn} as F\ndef ref({args}):\n    return {call}\n", f"def ref({args}):\n" + want, given=given, facts=facts, norm=lambda t: rest_of(t), tweak=R.install)
    for dt, fun in (("'int'", "int"), ("'float'", "float"), ("'str'", "str"), ("fun", "fun")):
        for sep in ("default", "given"):
            for head in (0, 1, 3):
                pre = "".join("        f.readline()\n" for _ in range(head))
                s = "',| |\\t'" if sep == "default" else "sep"
                want = f"    p = Path(path)\n    assert p.exists()\n    with open(p, 'r') as f:\n{pre}        return [list(map({fun}, re.split({s}, x.strip()))) for x in f.readlines()]\n"
                extra = (", sep=sep" if sep == "given" else "") + (f", ignore_header={head}" if head else "")
                reading(f"load_from_txt dtype {dt}, separator {sep}, header {head}", "load_from_txt", f"F(path, {dt}{extra})", want, "path, sep, fun", facts=[(("isinstance", ("param", "fun"), ("str",)), False)])
    reading("load_from_txt with an unknown dtype", "load_from_txt", "F(path, 'complex')", "    raise ValueError\n", "path")
    reading("load_from_json", "load_from_json", "F(path)", "    with open(path, 'r') as f:\n        return json.load(f)\n", "path")
    reading("load_from_json options", "load_from_json", "F(path, parse_int=k)", "    with open(path, 'r') as f:\n        return json.load(f, parse_int=k)\n", "path, k")
    pk = "    with open(path, 'rb') as f:\n        d = pickle.load(f)\n"
    nl = [(("isinstance", ("param", "path"), ("list",)), False)]
    reading("load_from_pickle", "load_from_pickle", "F(path)", pk + "    return d\n", "path", facts=nl)
    reading("load_from_pickle one key", "load_from_pickle", "F(path, 'k')", pk + "    return d['k']\n", "path", facts=nl)
    reading("load_from_pickle several keys", "load_from_pickle", "F(path, ['k', 'm'])", pk + "    return {'k': d['k'], 'm': d['m']}\n", "path", facts=nl)
    reading("load_from_pickle any keys", "load_from_pickle", "F(path, keys)", pk + "    return {k: d[k] for k in keys}\n", "path, keys", given={"keys": lambda: listp_of("keys")}, facts=nl + [(tm.eq(("param", "keys"), NONE), False)])
    reading("load_from_pickle options", "load_from_pickle", "F(path, encoding=e)", pk.replace("(f)", "(f, encoding=e)") + "    return d\n", "path, e", facts=nl)
    reading("load_from_pickle of several files", "load_from_pickle", "F([path])", "    raise ValueError\n", "path")
    chk.floor("cases", 55)


def rank_facts(x, d):
    return ()


def rank_norm(t, x, d):
    """The rank of the input is fixed by the case."""
    def go(z):
        if z[0] == "attr" and len(z) == 3 and z[1] == x and z[2] == "ndim" or z == ("len", ("shape", x)):
            return N(d)
    return tm.subst(t, go)


def scale_norm(t):
    """Products distributed over sums."""
    def go(z):
        if z[0] in ("item", "float") and len(z) == 2:
            return tm.subst(z[1], go)
        if z[0] == "mul":
            fs = [tm.subst(x, go) for x in z[1:]]
            for i, f in enumerate(fs):
                if f[0] == "add":
                    return tm.subst(tm.add(*[tm.mul(x, *(fs[:i] + fs[i + 1:])) for x in f[1:]]), go)
    return tm.subst(t, go)


INFO = {
    "D04": {"technique": "value numbering of client programs against a reference dataset, with rejection sampling in normal form",
            "explanation": "Client programs over literal interaction lists with symbolic numbers of items are evaluated for the package's dataset and for a reference dataset by the same abstract interpreter; values, draws (domain, exclusion set, order), masks and rejections must agree on every path.",
            "assumptions": ASSUME, "note": "Interaction lists are literals of up to five pairs with symbolic identifiers where it matters; the draws stay symbolic, so every random outcome is covered."},
    "D05": {"technique": "value numbering against reference comprehensions over symbolic lists",
            "explanation": "Each remapping helper is evaluated on symbolic lists in all four modes and must give the same term as the definition (sorted distinct identifiers numbered from 0, one map for everything); worked examples with literal lists must fold to the hand-written constants.",
            "assumptions": ASSUME, "note": "Lists are unbounded in the symbolic part."},
    "D06": {"technique": "value numbering against reference splits, alternatives compared as truth tables",
            "explanation": "Every combination of label type, validation and test request is evaluated and must give the reference masks: per category one shuffle cut into consecutive slices, hence disjoint and of the requested size; user-item splits likewise per user.",
            "assumptions": ASSUME, "note": "random.shuffle is trusted to permute; relabelling by a constant shift is treated as idle."},
    "D07": {"technique": "value numbering of unrolled and symbolic lists",
            "explanation": "Edge and adjacency lists with symbolic identifiers covering repetition, loops, empty lines and unbounded lists are converted and converted back; results must equal the definition.",
            "assumptions": ASSUME, "note": "Grouping is decided on literal patterns of up to four edges with distinct constant sources; adjacency expansion on unbounded symbolic lists."},
    "D08": {"technique": "value numbering with dtype tags and consumed-line counters",
            "explanation": "Normalisation, scaling, conversion, composition and file loading are compared path by path with their formulas; casts are tracked as tags, file reading as (handle, lines consumed).",
            "assumptions": ASSUME, "note": "Floating-point rounding is outside; header counts 0, 1 and 3 are enumerated."},
}
