"""S01 cache freshness, S02 memo coherence."""
from .. import terms as tm
from ..interp import Undecided, V
from ..structs import CACHES, DEPTH, DRAWS, RAW, STRUCTS, SInterp, family, members, setup
from ..terms import NONE, is_const

INFO = {
    "S01": {
        "technique": "typestate analysis over interprocedural alias/effect dataflow (abstract interpretation of the syntax trees)",
        "note": "Sound for the modelled language up to the trusted raw-field table and the summary of loops; members whose path budget runs out are listed as undecided in the evidence, not claimed.",
        "explanation": "Typestate over every path of every public method/setter of the four structure classes (helpers inlined through the MRO): a write to "
                       "raw connectivity (rebinding or in-place mutation through any alias) puts the object in state dirty; only a later reset of the memo table "
                       "(and of the group's table) returns it to clean; a memo read or a return while dirty is the violation. Loops are summarised, all branches on unknown inputs explored.",
        "assumptions": ["raw connectivity of a structure lives in the fields listed in sa/structs.py RAW", "cached tensors are not mutated through aliases by callers"],
    },
    "S02": {
        "technique": "global value numbering of memo hit and miss paths (key/dependence analysis)",
        "note": "Decides that hit and miss values have the same value number and that keys separate all argument-dependent values; trusts the algebraic laws of sa/terms.py and that nobody mutates a returned tensor.",
        "explanation": "Each property/query is evaluated twice by value numbering: with an empty memo table and with every key present. The hit value, with each cached key replaced by what the miss run stores under it, "
                       "must be the same value number; a stored value may only depend on parameters that are part of its key; two members may not store different values under one key.",
        "assumptions": ["algebraic normalisation laws of sa/terms.py"],
    },
}


def affected_group(ev):
    """The hyperedge group a raw mutation touches: a term, or '*' when unknown."""
    t, detail, path = ev[4], ev[5], ev[6]
    if path:
        return path[0]
    if ev[2] in ("setitem", "delitem", "pop") and detail:
        return detail[0]
    return "*"


class Auto:
    """Per-object cache typestate along one path."""

    def __init__(self, I, st, hyper_keys):
        self.I, self.st = I, st
        self.dirty = {}  # objkey -> (loc, field) : global table stale
        self.gdirty = {}  # objkey -> {group: (loc, field)}
        self.nonempty = {}
        self.viol = []
        self.nmut = 0
        self.fields = set()  # (objkey, raw field) written so far

    def copy(self):
        a = Auto(self.I, self.st, None)
        a.dirty, a.nonempty = dict(self.dirty), dict(self.nonempty)
        a.gdirty = {k: dict(v) for k, v in self.gdirty.items()}
        a.viol, a.nmut, a.fields = self.viol, self.nmut, self.fields
        return a

    def ne(self, key):
        return self.nonempty.get(key, key[0] == "in")

    def rawmut(self, key, field, loc, group):
        self.nmut += 1
        self.fields.add((key, field))
        if not self.ne(key):
            return
        self.dirty.setdefault(key, (loc, field))
        cls = self.st.objs[key].cls if key in self.st.objs else None
        if cls is not None and family(self.I.repo, cls) == "Hypergraph":
            self.gdirty.setdefault(key, {}).setdefault(group, (loc, field))

    def step(self, ev):
        k = ev[0]
        if k == "loop":
            outs = []
            for conds, evs, kind in ev[2]:
                a = self.copy()
                for e in evs:
                    a.step(e)
                self.nmut = a.nmut
                outs.append(a)
            for a in outs:
                for key, d in a.dirty.items():
                    self.dirty.setdefault(key, d)
                for key, g in a.gdirty.items():
                    for n, d in g.items():
                        self.gdirty.setdefault(key, {}).setdefault(n, d)
                for key, n in a.nonempty.items():
                    if n:
                        self.nonempty[key] = True
            return
        if k == "write":
            _, key, field, t, loc, v = ev
            if key not in self.st.objs or not self.I.is_struct(self.st.objs[key].cls):
                return
            if field == "cache":
                if isinstance(v, V) and v.map is not None and not v.map and v.base is None:
                    self.dirty.pop(key, None)
                    self.nonempty[key] = False
                else:
                    self.nonempty[key] = True
            elif field == "group_cache":
                if isinstance(v, V) and v.map is not None and not v.map and v.base is None:
                    self.gdirty.pop(key, None)
            elif field in RAW.get(family(self.I.repo, self.st.objs[key].cls) or "", ()):
                if field == "_v_weight" and self.st.facts.get(tm.eq(("init", self.st.objs[key].name, "_v_weight"), NONE)) is True:
                    return  # materialising the documented default weights
                self.rawmut(key, field, loc, "*")
        elif k == "mut":
            for root, depth in ev[1]:
                if root[0] == "field" and root[2] in DEPTH and -DEPTH[root[2]] < depth <= 0:
                    self.rawmut(root[1], root[2], ev[3], affected_group(ev) if root[2] == "_raw_groups" else "*")
                elif root[0] == "field" and root[2] in CACHES:
                    self.nonempty[root[1]] = True
        elif k == "cache_clear":
            t = ev[1]
            for key in list(self.dirty):
                if t[0] == "cache" and len(t) == 2 and self.name(key) == t[1]:
                    self.dirty.pop(key, None)
            for key in list(self.gdirty):
                if self.name(key) == t[1]:
                    if t[0] == "gcache":
                        self.gdirty.pop(key, None)
                    elif len(t) == 3:
                        self.popg(key, t[2])
        elif k == "cache_pop":
            t, g = ev[1], ev[2]
            if t[0] == "gcache":
                for key in list(self.gdirty):
                    if self.name(key) == t[1]:
                        self.popg(key, g)

    def popg(self, key, g):
        d = self.gdirty[key]
        for n in list(d):
            if n == g or n != "*" and self.I.known(tm.eq(n, g), self.st) is True:
                d.pop(n)
        if not d:
            self.gdirty.pop(key)

    def name(self, key):
        o = self.st.objs.get(key)
        return o.name if o is not None else None


def runs(repo, cls, f, mode):
    """Every path of f; when there are too many, the public queries it calls are taken as one step (each is analysed on its own)."""
    def one(opaque):
        I = SInterp(repo, mode, opaque=opaque, maxstates=600)
        st, a, kw = setup(I, cls, f)
        return I, a, I.run(f, a, kw, st)
    try:
        return one(DRAWS)
    except Undecided as e:
        if "budget" not in str(e):
            raise
    return one(DRAWS | {g.qual for n, g, is_set in members(repo, cls) if g is not f and not is_set and n not in ("__init__", "to", "clear") and not n.startswith(("add_", "remove_", "reverse"))})


class Depends:
    """The raw fields a memoised query's value is computed from."""

    def __init__(self, repo, cls):
        self.repo, self.cls, self.memo = repo, cls, {}

    def __call__(self, k):
        if k[0] != "s":
            return None
        if k not in self.memo:
            self.memo[k] = self.find(k)
        return self.memo[k]

    def find(self, k):
        f = self.repo.lookup(self.cls, k[1])
        if f is None or not hasattr(f, "params") or [p for p in f.params() if p != "self"]:
            return None
        I = SInterp(self.repo, "miss", opaque=DRAWS, maxstates=600)
        try:
            st, a, kw = setup(I, self.cls, f)
            out = set()
            for kind, v, s in I.run(f, a, kw, st):
                for lvl, key, t in cache_entries(I, s, a[0]):
                    if lvl == ("g",) and key == k:
                        out |= {x[2] for x in tm.walk(t) if x[0] == "init" and x[1] == "self"}
            return out
        except (Undecided, RecursionError):
            return None


def carried(I, s, au, deps):
    """[(object, key, field)]: the final memo table holds a pre-existing entry of a written field."""
    out = []
    for key, fld in sorted(au.fields, key=repr):
        o = s.objs.get(key)
        c = o.fields.get("cache") if o is not None and key[0] == "in" else None
        if c is None:
            continue
        for k, v in s.cur(c).map or []:
            if s.term(v) == ("cached", o.name, k) and fld in (deps(k) or ()):
                out.append((key, k, fld))
    return out


def s01(chk):
    repo = chk.repo
    chk.rule("R1", "after any write to raw connectivity the memo table of that object is emptied before the method returns")
    chk.rule("R2", "after any write to a hyperedge group's raw data the memo table of that group is emptied before the method returns")
    chk.rule("R3", "no value memoised before a write is put back into the memo table after it when it depends on the written field")
    for cn in STRUCTS:
        cls = repo.cls(cn)
        deps = Depends(repo, cls)
        todo = members(repo, cls)
        got = {f for _, f, _ in todo}
        # setters hidden by a property without setter stay callable through the base class
        todo += [(n, f, True) for k in repo.mro(cls) if hasattr(k, "setters") for n, f in k.setters.items() if f not in got]
        for name, f, is_set in todo:
            if name == "__init__" or f.is_static:
                continue
            label = f"{cn}.{name}" + ("=" if is_set else "")
            chk.count("entry_points")
            try:
                I, a, outs = runs(repo, cls, f, "hit")
            except (Undecided, RecursionError) as e:
                chk.und(label, str(e))
                continue
            chk.analysed |= I.inlined
            nmut = 0
            bad = {}
            for kind, v, s in outs:
                chk.count("paths")
                au = Auto(I, s, None)
                for ev in s.events:
                    au.step(ev)
                nmut = max(nmut, au.nmut)
                if kind == "raise":
                    # raise before any mutation or half-way: an exception after a raw write must not leave stale caches either,
                    # but argument-validation raises interleaved in per-item loops are covered by the item helper's own reset
                    continue
                for key, k, fld in carried(I, s, au, deps):
                    bad[("R3", f"{fld}/{tm.show(k, 40)}")] = (f.loc, f"puts the value memoised under {tm.show(k, 60)} before the write to {fld} back into the memo table, although it depends on {fld}")
                for key, (loc, field) in au.dirty.items():
                    bad[("R1", field)] = (loc, f"returns with the memo table still holding values computed before the write to {field}")
                for key, g in au.gdirty.items():
                    for n, (loc, field) in g.items():
                        bad[("R2", field)] = (loc, f"returns with the group memo table still holding values computed before the write to {field} (group {tm.show(n) if n != '*' else 'any'})")
            if bad:
                for (r, field), (loc, msg) in bad.items():
                    chk.finding(r, f"{label}/{field}", loc, msg)
            else:
                if nmut:
                    chk.count("mutating_entry_points")
                chk.discharge(f"{label}: {len(outs)} paths, {nmut} raw writes" if nmut else None)
    chk.floor("entry_points", 150)
    chk.floor("mutating_entry_points", 15)


def cache_entries(I, st, selfv):
    """[(level, keyterm, valueterm)] stored in self's memo tables at path end."""
    o = st.objs[selfv.t[1]]
    out = []
    c = o.fields.get("cache")
    if c is not None:
        c = st.cur(c)
        for k, v in c.map or []:
            out.append((("g",), k, st.term(v)))
    g = o.fields.get("group_cache")
    if g is not None:
        g = st.cur(g)
        for gk, gv in g.map or []:
            gv = st.cur(gv)
            for k, v in gv.map or []:
                out.append((("grp", gk), k, st.term(v)))
    return out


def compat(I, st, facts):
    for c, b in facts.items():
        k = I.known(c, st)
        if k is not None and k != b:
            return False
    return True


def s02(chk):
    repo = chk.repo
    chk.rule("R1", "a memo hit returns the value the miss path stores under the same key")
    chk.rule("R2", "a stored value depends only on parameters that are part of its key (and on its own group)")
    chk.rule("R3", "no key is shared by two different values")
    chk.rule("R4", "nothing reachable from a memo table is changed in place after it was stored")
    chk.rule("R5", "a key determines the parameters its value depends on")
    r4 = MemoWrites()
    for cn in STRUCTS:
        cls = repo.cls(cn)
        store = {}
        for name, f, is_set in members(repo, cls):
            if f.is_static and not name.startswith("load"):
                Im = SInterp(repo, "miss", opaque=DRAWS, maxstates=600)
                try:
                    st, a, kw = setup(Im, cls, f)
                    for kind, v, s in Im.run(f, a, kw, st):
                        r4.path(Im, s, f"{cn}.{name}")
                    chk.count("static_members")
                except (Undecided, RecursionError) as e:
                    chk.und(f"{cn}.{name}", str(e))
            if is_set or f.is_static or name in ("__init__", "draw", "save", "to"):
                continue
            label = f"{cn}.{name}"
            try:
                Im, a, mo = runs(repo, cls, f, "miss")
                Ih, a2, ho = runs(repo, cls, f, "hit")
            except (Undecided, RecursionError) as e:
                chk.und(label, str(e))
                continue
            chk.analysed |= Im.inlined
            chk.count("members")
            bad = False
            nst = 0
            for kind, v, s in mo:
                if kind != "ret":
                    continue
                ents = cache_entries(Im, s, a[0])
                nst = max(nst, len(ents))
                for lvl, k, t in ents:
                    params = {x for x in tm.walk(t) if x[0] == "param"}
                    kp = {x for x in tm.walk(k) if x[0] == "param"} | ({x for x in tm.walk(lvl[1]) if x[0] == "param"} if lvl[0] == "grp" else set())
                    miss = params - kp
                    for p in sorted(params & kp):
                        how = injective(k, p) if not (lvl[0] == "grp" and injective(lvl[1], p) is True) else True
                        if how is False:
                            chk.finding("R5", f"{label}[{tm.show(k)}]/{p[1]}", f.loc, f"different values of argument {p[1]} are mapped to the same key {tm.show(k)}")
                            bad = True
                        elif how is None:
                            chk.und(label, f"cannot tell whether key {tm.show(k)} distinguishes values of {p[1]}")
                    if lvl[0] == "grp" and ("param", "group_name") in miss and False:
                        miss.discard(("param", "group_name"))
                    for p in sorted(miss):
                        chk.finding("R2", f"{label}[{tm.show(k)}]/{p[1]}", f.loc, f"value stored under key {tm.show(k)} depends on argument {p[1]}, which is not part of the key")
                        bad = True
                    if lvl[0] == "grp":
                        others = {x[2] for x in tm.walk(t) if x[0] == "sub" and x[1] == ("init", "self", "_raw_groups")} - {lvl[1]}
                        if others and is_plain(others):
                            chk.finding("R2", f"{label}[{tm.show(k)}]/group", f.loc, f"value stored in the memo table of group {tm.show(lvl[1])} is computed from group {tm.show(sorted(others, key=repr)[0])}")
                            bad = True
                    store.setdefault((lvl, k), []).append((t, dict(s.facts), label, f.loc))
                r4.path(Im, s, label)
                for kind2, v2, s2 in ho:
                    if kind2 != "ret" or not compat(Im, s, s2.facts):
                        continue
                    tbl = {}
                    for lvl, k, t in ents:
                        tbl[("cached", "self") + ((lvl[1],) if lvl[0] == "grp" else ()) + (k,)] = t
                    ht = s2.term(v2)
                    missing = []

                    def f_(x):
                        if x[0] == "cached" and x[1] == "self":
                            if x in tbl:
                                return tbl[x]
                            missing.append(x)
                        return None
                    # only when the whole result is a cached entry or contains one
                    hit = tm.subst(ht, f_)
                    mt = s.term(v)
                    if missing:
                        x = missing[0]
                        chk.finding("R1", f"{label}[{tm.show(x[-1])}]", f.loc, f"a hit returns key {tm.show(x[-1])}, which the miss path does not store (it stores {sorted(tm.show(k) for _, k, _ in ents)})")
                        bad = True
                    elif hit != mt and tm.contains(ht, lambda x: x[0] == "cached"):
                        if opaque_diff(hit, mt):
                            chk.und(label, "hit and miss values differ in uninterpreted terms")
                        else:
                            chk.finding("R1", f"{label}/value", f.loc, f"hit value {tm.show(hit, 300)} differs from miss value {tm.show(mt, 300)}")
                            bad = True
            if not bad:
                chk.discharge(f"{label}: {nst} memo entries")
                if nst:
                    chk.count("memoised_members")
        for (lvl, k), lst in store.items():
            base_t, base_f, base_l, base_loc = lst[0]
            for t, fct, lab, loc in lst[1:]:
                if t != base_t and not contradict(base_f, fct) and not opaque_diff(t, base_t):
                    chk.finding("R3", f"{cn}[{tm.show(k)}]:{lab.split('.')[-1]}", loc, f"{lab} stores a value under key {tm.show(k)} different from the one {base_l} stores")
            chk.count("memo_keys")
    r4.decide(chk)
    sequences(chk)
    chk.floor("members", 100)
    chk.floor("memoised_members", 60)


def sequences(chk):
    """Queries with other literal arguments made first must not change an answer."""
    from ..spec import Comparer, ref_func
    chk.rule("R6", "a query gives the same answer whether or not the same query was made before with another hop count")
    cls = chk.repo.cls("Graph")
    f = chk.repo.lookup(cls, "N_v")
    for name in ("N_v", "nbr_v"):
        for first, then in (((3,), 2), ((2,), 3), ((12,), 2), ((2,), 12), ((1,), 2), ((2,), 1), ((2, 4), 3), ((4, 3), 2)):
            res = []
            label = f"Graph.{name} hop {then} after {', '.join(map(str, first))}"
            C = Comparer(chk, maxstates=600)
            try:
                for before in (first, ()):
                    src = "def ref(self):\n" + "".join(f"    self.{name}(1, {h})\n" for h in before) + f"    return self.{name}(0, {then})\n"
                    res.append(C.outcomes(ref_func(chk.repo, src, cls), cls, {}, ()))
            except (Undecided, RecursionError) as e:
                chk.und(label, str(e) or type(e).__name__)
                continue
            C.match("R6", label, f.loc, res[0], res[1])
            chk.count("query_sequences")
    chk.floor("query_sequences", 16)


def flat(events):
    for ev in events:
        if ev[0] == "loop":
            for _, evs, _k in ev[2]:
                yield from flat(evs)
        else:
            yield ev


class MemoWrites:
    """In-place changes of memoised values, apart from the code that is still building the entry it just stored."""

    def __init__(self):
        self.mut, self.clean = {}, {}

    def name(self, I, s, root):
        o = s.objs.get(root[1])
        return (family(I.repo, o.cls) if o is not None else None,) + root[2:]

    def path(self, I, s, label):
        touched = set()
        for ev in flat(s.events):
            if ev[0] in ("mut", "mut?"):
                for root, depth in ev[1]:
                    if root[0] == "memo" and depth <= 0:
                        k = self.name(I, s, root)
                        touched.add(k)
                        self.mut.setdefault(k, []).append((label, ev[3], f"{label} changes the memoised value {tm.show(k[2])} in place ({ev[2]} on {tm.show(ev[4], 120)})", ev[2]))
        for key, o in s.objs.items():
            fam = family(I.repo, o.cls) if I.is_struct(o.cls) else None
            for fld in CACHES if fam else ():
                c = o.fields.get(fld)
                if c is None:
                    continue
                c = s.cur(c)
                tabs = [c] if fld == "cache" else [s.cur(x) for _, x in c.map or []]
                for tb in tabs:
                    for k, _ in tb.map or []:
                        if (fam, fld, k) not in touched:
                            self.clean.setdefault((fam, fld, k), set()).add(label)

    def decide(self, chk, rule="R4"):
        for k, lst in self.mut.items():
            if k in self.clean:
                for label, loc, msg, op in lst:
                    chk.finding(rule, f"{label}/{op}[{tm.show(k[2])}]", loc, msg)
        chk.count("memo_entries_never_changed_in_place", len(set(self.clean) - set(self.mut)))


LOSSY = {"mod", "floordiv", "abs", "min", "max", "bool", "lt", "eq", "len", "not", "and", "or", "round", "isinstance", "bitand", "shape", "in"}


def injective(k, p):
    """Does the key term k determine parameter p?  True / False / None (unknown)."""
    if k == p:
        return True
    if not tm.contains(k, lambda x: x == p):
        return False
    op = k[0]
    if op in ("str", "repr", "tuple", "tup", "fstr") or op == "add" and not any(x[0] not in ("n",) for x in k[1:] if not tm.contains(x, lambda y: y == p)):
        rs = [injective(x, p) for x in k[1:] if isinstance(x, tuple)]
        return True if True in rs else (None if None in rs else False)
    if op == "concat":
        # literal text separates the parts; two adjacent variable parts can run together
        rs = []
        for i, x in enumerate(k[1:]):
            r = injective(x, p)
            prev = k[i] if i else None
            if r is True and prev is not None and prev[0] != "s":
                r = None
            rs.append(r)
        return True if True in rs else (None if None in rs else False)
    if op == "mul":
        return injective(k[-1], p) if len(k) == 3 and k[1][0] == "n" and k[1][1] != 0 else None
    if op in LOSSY:
        return False
    return None


def is_plain(ts):
    return all(t[0] in ("param", "s", "elem") for t in ts)


def contradict(a, b):
    return any(c in b and b[c] != v for c, v in a.items())


OPAQUE_OPS = {"call", "mcall", "apply", "fold", "last", "mutcall", "inplace", "acc", "bacc", "attr", "missing", "mres", "rnd", "kwget", "exists"}


def opaque_ops(t):
    out = set()
    for x in tm.walk(t):
        if x[0] in OPAQUE_OPS:
            if x[0] == "call":
                out.add(("call", x[1]))
            elif x[0] in ("mcall", "mutcall", "inplace"):
                out.add((x[0], x[2]))
            else:
                out.add((x[0],))
    return out


def opaque_diff(a, b):
    """Do the two terms use different uninterpreted operators (so that inequality proves nothing)?"""
    oa, ob = opaque_ops(a), opaque_ops(b)
    return bool(oa ^ ob) or bool((oa | ob) & {("fold",), ("last",), ("acc",), ("bacc",)})
