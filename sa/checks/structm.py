"""S04 round trip, S05 copies, S06 purity of queries."""
import ast

from .. import terms as tm
from ..interp import Undecided, V
from ..ops import deep
from ..spec import Comparer, apply_facts, observe, ops_of, raw_obs, ref_func
from ..structs import DEPTH, DRAWS, RAW, STRUCTS, SInterp, family, members, setup, struct_self
from ..terms import N, NONE, S
from .cache import MemoWrites, flat

CONSTRUCTS = "construction, copying and mutation of structures"


def default_weight(obs, numv):
    """No vertex weights and the documented default weights are the same state."""
    out = []
    for f, x in obs:
        if f == "_v_weight" and x == NONE:
            x = ("repeat", ("list", N(1)), numv)
        out.append((f, x))
    return tuple(out)


def entry_obs(I, cls, name="self"):
    fam = family(I.repo, cls)
    return tuple((f, ("init", name, f)) for f in RAW[fam])


def dev_of(I, st, v):
    o = st.objs[v.t[1]]
    x = o.fields.get("device")
    return ("init", o.name, "device") if x is None else st.term(x)


def compare_obs(chk, rule, construct, loc, got, want, facts, what):
    bad = None
    for (f, x), (g, y) in zip(got, want):
        x2, y2 = apply_facts(x, facts), apply_facts(y, facts)
        if x2 == y2:
            continue
        if ops_of(x2) - ops_of(y2) and tm.contains(x2, lambda z: z == y2):
            chk.und(f"{construct}/{f}", f"{f} is {tm.show(x2, 200)}")
            return
        bad = (f, x2, y2)
        break
    if bad:
        chk.finding(rule, f"{construct}/{bad[0]}", loc, f"{what}: {bad[0]} is {tm.show(bad[1], 200)}, the source has {tm.show(bad[2], 200)}")
    else:
        chk.discharge(f"{construct}: {what}")


# ---------------------------------------------------------------------------------------------------- S04
class Disk:
    """pickle files: dump remembers the object graph, load hands back a deep copy."""

    def __init__(self, chk):
        self.chk = chk
        self.bad = []

    def install(self, I, data=None):
        def dump(I, a, kw, st, node):
            v = a[0] if a else kw.get("obj")
            fp = a[1] if len(a) > 1 else kw.get("file")
            st.ev("dump", v, st.term(fp), I.loc(node, st))
            return [(V(NONE), st)]

        def load(I, a, kw, st, node):
            fp = a[0] if a else kw.get("file")
            if data is not None:
                return [(data(st), st)]
            ds = [e for e in flat(st.events) if e[0] == "dump"]
            if len(ds) != 1:
                raise Undecided(f"{len(ds)} pickle.dump calls before the load")
            st.ev("loadf", st.term(fp), ds[0][2], I.loc(node, st))
            return [(deep(I, ds[0][1], st), st)]

        def dumps(I, a, kw, st, node):
            raise Undecided("serialisation other than pickle.dump/pickle.load")
        I.hooks_ext["pickle.dump"] = dump
        I.hooks_ext["pickle.load"] = load
        for n in ("pickle.dumps", "pickle.loads", "torch.save", "torch.load", "json.dump", "json.load"):
            I.hooks_ext[n] = dumps


def fp_parts(t):
    """(path, mode) of a file handle term."""
    if t[0] in ("call", "mcall") and t[1] in ("open", ("ext", "open")) or t[0] == "call" and "open" in str(t[1]):
        args = [x for x in t[2:] if x[0] != "kw"]
        kws = {k[0]: k[1] for x in t[2:] if x[0] == "kw" for k in x[1:]}
        path = args[0] if args else kws.get("file")
        mode = args[1] if len(args) > 1 else kws.get("mode", S("r"))
        return path, mode
    if t[0] == "mcall" and t[2] == "open":
        args = [x for x in t[3:] if x[0] != "kw"]
        kws = {k[0]: k[1] for x in t[3:] if x[0] == "kw" for k in x[1:]}
        return t[1], args[0] if args else kws.get("mode", S("r"))
    return None


def s04(chk):
    repo = chk.repo
    chk.rule("R1", "rebuilding from the exported state gives every raw field its old value")
    chk.rule("R2", "saving and loading (by class and by load_structure) gives an object of the same class with every raw field as before")
    chk.rule("R3", "a file holding another kind of structure is rejected by the class loaders")
    chk.rule("R4", "writer and reader open the same path, in binary write and binary read mode")
    disk = Disk(chk)
    for cn in STRUCTS:
        cls = repo.cls(cn)
        cases = [("R1", f"{cn}.from_state_dict(state_dict)", f"def ref(self):\n    return dhg.{cn}.from_state_dict(self.state_dict)\n"),
                 ("R2", f"{cn}.load(save)", f"def ref(self, file_path):\n    self.save(file_path)\n    return dhg.{cn}.load(file_path)\n"),
                 ("R2", f"load_structure({cn}.save)", "def ref(self, file_path):\n    self.save(file_path)\n    return load_structure(file_path)\n")]
        loader = repo.func("dhg.structure.base.load_structure")
        for rule, tag, src in cases:
            chk.count("round_trips")
            cmpr = Comparer(chk)
            cmpr.tweak = lambda I: disk.install(I)
            try:
                f = ref_func(repo, src, cls, extra="from dhg.structure.base import load_structure\n")
                I, a, outs = cmpr.outcomes(f, cls, {}, [])
            except (Undecided, RecursionError) as e:
                chk.und(tag, str(e))
                continue
            loc = repo.method(cls, "from_state_dict").loc if rule == "R1" else (loader.loc if tag.startswith("load_") else repo.method(cls, "load").loc)
            rets = [(v, s) for k, v, s in outs if k == "ret"]
            if not rets:
                chk.finding(rule, tag, loc, "no path completes: the exported state is never accepted back (" + "; ".join(sorted({str(v) for k, v, _ in outs if k == "raise"})) + ")")
            # raising is justified only by the state of the file system
            for k, v, s in outs:
                if k == "raise" and not any(b is False and tm.contains(c, lambda z: z[0] in ("mcall", "call") and "exists" in z) for c, b in s.facts.items()) \
                        and not any(c[0] == "exc" for c in s.facts):
                    chk.finding(rule, tag + "/raise", loc, f"a structure's own export is rejected with {v}")
            for v, s in rets:
                if v.t is None or v.t[0] != "obj" or not I.is_struct(s.objs[v.t[1]].cls):
                    chk.finding(rule, tag, loc, f"returns {tm.show(s.term(v), 100)} instead of a structure")
                    continue
                got_cls = s.objs[v.t[1]].cls.name
                if got_cls != cn:
                    chk.finding(rule, tag, loc, f"gives back a {got_cls}")
                    continue
                numv = ("init", "self", "_num_v")
                want = entry_obs(I, cls)
                got = raw_obs(I, s, v, device=False)
                wn = s.facts.get(tm.eq(("init", "self", "_v_weight"), NONE))
                if wn is True:
                    want = tuple((f, NONE if f == "_v_weight" else y) for f, y in want)
                compare_obs(chk, rule, tag, loc, default_weight(got, numv), default_weight(want, numv), s.facts, "same raw state after the round trip")
                if rule == "R2":
                    for e in flat(s.events):
                        if e[0] == "loadf":
                            r, w = fp_parts(e[1]), fp_parts(e[2])
                            if r is None or w is None:
                                chk.und(tag + "/file", f"file handles {tm.show(e[1], 80)} / {tm.show(e[2], 80)}")
                                continue
                            for side, (p, m), req in (("reader", r, "rb"), ("writer", w, "wb")):
                                if m[0] == "s" and m[1].replace("+", "").replace("t", "") not in (req, req[::-1], "xb" if req == "wb" else req):
                                    chk.finding("R4", f"{tag}/{side}", e[3], f"the {side} opens the file in mode {m[1]!r}")
                            if r[0] != w[0] and norm_path(r[0]) != norm_path(w[0]):
                                chk.finding("R4", f"{tag}/path", e[3], f"written to {tm.show(w[0], 80)} but read from {tm.show(r[0], 80)}")
        # foreign files
        for other in STRUCTS:
            if other == cn:
                continue
            chk.count("foreign_files")
            cmpr = Comparer(chk)
            cmpr.tweak = lambda I: disk.install(I, lambda st: V(None, "dict", map=[(S("class"), V(S(other))), (S("state_dict"), V(("param", "sd"), "dict"))]))
            f = ref_func(repo, f"def ref(self, file_path):\n    return dhg.{cn}.load(file_path)\n", cls)
            tag = f"{cn}.load({other} file)"
            try:
                I, a, outs = cmpr.outcomes(f, cls, {}, [])
            except (Undecided, RecursionError) as e:
                chk.und(tag, str(e))
                continue
            if any(k == "ret" for k, v, s in outs):
                chk.finding("R3", tag, repo.method(cls, "load").loc, f"a file whose class is {other} is accepted")
            else:
                chk.discharge(tag)
    chk.floor("round_trips", 12)


def norm_path(t):
    while t[0] == "path" or t[0] == "mcall" and t[2] in ("resolve", "absolute", "expanduser"):
        t = t[1]
    return t


# ---------------------------------------------------------------------------------------------------- S05
COPIES = {
    "Graph": ["clone", "drop_edges", "from_state_dict"],
    "DiGraph": ["clone", "drop_edges", "from_state_dict"],
    "BiGraph": ["clone", "drop_edges", "switch_uv", "from_state_dict"],
    "Hypergraph": ["clone", "drop_hyperedges", "drop_hyperedges_of_group", "subgraph", "from_state_dict"],
}
DROP = """
def ref(self, drop_rate, ord):
    if ord == "uniform":
        return dhg.{c}.from_state_dict({{"num_v": self._num_v, {u}"raw_e_dict": {{k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}}, {s}}}).to(self.device)
    raise ValueError()
"""
SELF = '"raw_selfloop_dict": {k: v for k, v in self._raw_selfloop_dict.items() if random.random() > drop_rate}, "has_extra_selfloop": self._has_extra_selfloop'
REBUILD = {
    "Graph": DROP.format(c="Graph", u="", s=SELF), "DiGraph": DROP.format(c="DiGraph", u="", s=SELF),
    "BiGraph": DROP.format(c="BiGraph", u='"num_u": self._num_u, ', s=""),
    "Hypergraph": """
def ref(self, drop_rate, ord):
    if ord == "uniform":
        g = {}
        for name in self._raw_groups:
            g[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate}
        return dhg.Hypergraph.from_state_dict({"num_v": self._num_v, "raw_groups": g, "v_weight": self._v_weight}).to(self.device)
    raise ValueError()
""",
    "Hypergraph.group": """
def ref(self, group_name, drop_rate, ord):
    if ord == "uniform":
        g = {}
        for name in self._raw_groups:
            if name == group_name:
                g[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate}
            else:
                g[name] = self._raw_groups[name]
        return dhg.Hypergraph.from_state_dict({"num_v": self._num_v, "raw_groups": g, "v_weight": self._v_weight}).to(self.device)
    raise ValueError()
""",
}


def shared_roots(I, st, v, depth_left, seen=()):
    """Aliases of pre-existing containers reachable from v: {(root, description)}"""
    out = set()
    v = st.cur(v)
    for root, d in v.org:
        if root[0] == "field" and root[2] in DEPTH:
            # d<=0: v is (inside) the source's container; d>0: shallow copy, containers below are still shared
            if -DEPTH[root[2]] < d <= 0 or d > 0 and d < DEPTH[root[2]]:
                out.add((root[1], root[2]))
        elif root[0] == "param" and d <= 0 and -3 < d:
            out.add(root)
    if depth_left and v.items is not None:
        for x in v.items:
            out |= shared_roots(I, st, x, depth_left - 1)
    if depth_left and v.map is not None:
        for _, x in v.map:
            out |= shared_roots(I, st, x, depth_left - 1)
    return out


def s05(chk):
    repo = chk.repo
    chk.rule("R1", "a clone has every raw field and the device of its source; dropping keeps exactly the surviving edges, weights and all other fields")
    chk.rule("R2", "no mutable container of the raw state is shared between the result and the source (or the exported state it was built from)")
    chk.rule("R3", "result and source do not share a memo table, and the result is not the source itself")
    for cn in STRUCTS:
        cls = repo.cls(cn)
        for m in COPIES[cn]:
            f = repo.method(cls, m)
            tag = f"{cn}.{m}"
            chk.count("copy_operations")
            cmpr = Comparer(chk, mode="hit" if m == "clone" else "miss")
            try:
                I, a, outs = cmpr.outcomes(f, cls, {}, [])
            except (Undecided, RecursionError) as e:
                chk.und(tag, str(e))
                continue
            rets = [(v, s) for k, v, s in outs if k == "ret"]
            if not rets:
                chk.finding("R1", tag, f.loc, "no path returns a structure")
            clean = True
            for v, s in rets:
                chk.count("paths")
                if v.t is None or v.t[0] != "obj" or not I.is_struct(s.objs[v.t[1]].cls):
                    chk.und(tag, f"returns {tm.show(s.term(v), 100)}")
                    continue
                if s.objs[v.t[1]].cls.name != cn:
                    chk.finding("R1", tag, f.loc, f"gives a {s.objs[v.t[1]].cls.name}")
                    continue
                key = v.t[1]
                if a and key == a[0].t[1]:
                    chk.finding("R3", tag, f.loc, "returns the object itself instead of a copy")
                    clean = False
                    continue
                o = s.objs[key]
                if m == "clone":
                    got = raw_obs(I, s, v)
                    want = entry_obs(I, cls) + (("device", ("init", "self", "device")),)
                    wn = s.facts.get(tm.eq(("init", "self", "_v_weight"), NONE))
                    if wn is True:
                        want = tuple((g, NONE if g == "_v_weight" else y) for g, y in want)
                    numv = ("init", "self", "_num_v")
                    compare_obs(chk, "R1", tag, f.loc, default_weight(got, numv), default_weight(want, numv), s.facts, "carries over the complete state")
                for fld in RAW[cn]:
                    if fld not in DEPTH:
                        continue
                    x = o.fields.get(fld)
                    if x is None:
                        continue
                    for r in sorted(shared_roots(I, s, x, 3), key=repr):
                        if r[0] == "param":
                            what = f"the caller's {r[1]}"
                        elif r[0] == key:
                            continue
                        else:
                            what = f"the source's {r[1]}"
                        chk.finding("R2", f"{tag}/{fld}", f.loc, f"{fld} of the result is (or contains) {what}")
                        clean = False
                for fld in ("cache", "group_cache"):
                    x = o.fields.get(fld)
                    if x is None:
                        continue
                    x = s.cur(x)
                    for root, d in x.org:
                        if root[0] == "field" and root[1] != key and root[2] in ("cache", "group_cache") and d <= (0 if fld == "cache" else 1):
                            chk.finding("R3", f"{tag}/{fld}", f.loc, f"{fld} of the result is the source's own table")
                            clean = False
                        if fld == "group_cache" and root[0] == "field" and root[1] != key and d == 1:
                            chk.finding("R3", f"{tag}/{fld}", f.loc, "the per-group tables of the result are the source's own")
                            clean = False
                    for other, oo in s.objs.items():
                        if other != key and I.is_struct(oo.cls) and fld in oo.fields and s.cur(oo.fields[fld]) is x:
                            chk.finding("R3", f"{tag}/{fld}", f.loc, f"{fld} is one object shared by two structures")
                            clean = False
            if clean and rets:
                chk.discharge(f"{tag}: {len(rets)} paths, no shared container")
            chk.analysed |= I.inlined
        ref = REBUILD[cn]
        m = "drop_hyperedges" if cn == "Hypergraph" else "drop_edges"
        Comparer(chk).compare("R1", f"{cn}.{m}", cls, repo.method(cls, m), ref)
        if cn == "Hypergraph":
            Comparer(chk).compare("R1", f"{cn}.drop_hyperedges_of_group", cls, repo.method(cls, "drop_hyperedges_of_group"), REBUILD["Hypergraph.group"], raises=False,
                                  facts=[(("in", ("param", "group_name"), ("init", "self", "_raw_groups")), True)])
    Comparer(chk).compare("R1", "BiGraph.switch_uv", repo.cls("BiGraph"), repo.method("BiGraph", "switch_uv"), """
def ref(self):
    g = dhg.BiGraph(self._num_v, self._num_u, device=self.device)
    g._raw_e_dict = {(v, u): w for (u, v), w in self._raw_e_dict.items()}
    return g
""")
    chk.floor("copy_operations", 15)


# ---------------------------------------------------------------------------------------------------- S06
MUTATOR = ("add_", "remove_", "clear", "reverse_direction")


def s06(chk):
    repo = chk.repo
    chk.rule("R1", "no path of a query, conversion or copy operation changes the raw state of the structure or of a structure argument")
    chk.rule("R2", "no operation changes a list, dict or structure the caller passed in")
    chk.rule("R3", "no operation changes an already computed (memoised) list or matrix in place")
    memo = MemoWrites()
    for cn in STRUCTS:
        cls = repo.cls(cn)
        for name, f, is_set in members(repo, cls):
            if f.is_abstract and name in ("load", "from_state_dict"):
                continue
            mutator = is_set or name.startswith(MUTATOR) or name == "__init__"
            tag = f"{cn}.{name}" + ("=" if is_set else "")
            try:
                runs = explore(repo, cls, f)
            except (Undecided, RecursionError) as e:
                chk.und(tag, str(e))
                continue
            chk.count("operations")
            bad = False
            for I, selfkey, kind, v, s in runs:
                chk.analysed |= I.inlined
                chk.count("paths")
                memo.path(I, s, tag)
                for ev in flat(s.events):
                    if ev[0] == "write":
                        _, key, field, t, loc, val = ev
                        o = s.objs.get(key)
                        if o is None or not I.is_struct(o.cls) or key[0] != "in" or field not in RAW.get(family(repo, o.cls), ()):
                            continue
                        if mutator and key == selfkey:
                            continue
                        init = ("init", o.name, field)
                        if field == "_v_weight" and s.facts.get(tm.eq(init, NONE)) is True:
                            continue
                        if not in_loop(s.events, ev):
                            x = o.fields.get(field)
                            if x is not None and observe(I, s, x) == init:
                                continue  # put back
                        chk.finding("R1", f"{tag}/{field}", loc, f"{'the structure' if key == selfkey else 'the structure argument'} has its {field} replaced by {tm.show(t, 120)}")
                        bad = True
                    elif ev[0] in ("mut", "mut?"):
                        for root, d in ev[1]:
                            if root[0] == "field" and root[2] in DEPTH and -DEPTH[root[2]] < d <= 0 and root[1][0] == "in" and not (mutator and root[1] == selfkey):
                                chk.finding("R1", f"{tag}/{root[2]}", ev[3], f"{root[2]} of {'the structure' if root[1] == selfkey else 'the structure argument'} is changed in place ({ev[2]})")
                                bad = True
                            elif root[0] == "param" and -2 < d <= 0 and not (ev[0] == "mut?" and (d < 0 or scalar(repo, f, root[1]))):
                                chk.finding("R2", f"{tag}/{root[1]}", ev[3], f"the caller's {root[1]} is changed in place ({ev[2]})")
                                bad = True
            if not bad:
                chk.discharge(tag)
    memo.decide(chk, "R3")
    chk.floor("operations", 180)


def explore(repo, cls, f):
    """Every path of f; when there are too many, the public queries it calls are taken as pure (each is checked on its own)."""
    def one(opaque):
        I = SInterp(repo, "miss", opaque=opaque, maxstates=600)
        st, a, kw = setup(I, cls, f)
        return [(I, a[0].t[1] if a else None) + o for o in I.run(f, a, kw, st)]
    try:
        return one(DRAWS)
    except Undecided as e:
        if "budget" not in str(e):
            raise
    return one(DRAWS | {g.qual for n, g, is_set in members(repo, cls) if g is not f and not n.startswith(MUTATOR) and not is_set and n != "__init__"})


def scalar(repo, f, name):
    """Rebinding arithmetic (x += 1) changes nothing for the caller when x is annotated as an immutable value."""
    a = f.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg == name and p.annotation is not None:
            names = {n.id for n in ast.walk(p.annotation) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(p.annotation) if isinstance(n, ast.Attribute)}
            return not names & {"List", "list", "Dict", "dict", "Tensor", "Set", "set", "Any", "Sequence"}
    return True


def in_loop(events, ev):
    return not any(e is ev for e in events)


ASSUME = ["the abstract semantics given to Python containers, pickle (dump stores the object graph, load returns a deep copy) and deepcopy",
          "class invariants of the structures: vertex counts are positive ints and a hypergraph's weight list has one entry per vertex (constructors/setters, see S17)"]
INFO = {
    "S04": {"technique": "value numbering of save/load and export/import compositions with pickle modelled as a deep copy",
            "explanation": "Three compositions per class (from_state_dict of state_dict, Class.load of save, load_structure of save) and every foreign-class file are evaluated path by path by the abstract interpreter; every raw field of the result must have the value number of the field it started from.",
            "assumptions": ASSUME, "note": "Every path of the export/import and save/load compositions gives back every raw field, the class and the file name; foreign files are rejected; the pickle byte format is assumed."},
    "S05": {"technique": "alias/ownership dataflow plus value numbering of copies",
            "explanation": "Every value the abstract interpreter produces carries the set of containers it may be (or shallow-copy); after each copy operation no raw container or memo table of the result may be reachable from the source or from a caller's argument, and clone/drop results must have the value number of a complete rebuild.",
            "assumptions": ASSUME, "note": "clone, edge dropping, side switching, sub-hypergraph and import: complete state, no shared mutable container at any nesting depth, no shared memo table."},
    "S06": {"technique": "interprocedural side-effect analysis with alias roots",
            "explanation": "Every public member of the four classes is evaluated on every path with its callees inlined; every assignment to a raw field and every in-place change of a container is attributed to the object or argument it may reach; a query may change neither the structure, nor a structure argument, nor a caller's list or dict.",
            "assumptions": ASSUME, "note": "No query/conversion/copy path writes raw state of self or of a structure argument or changes a caller's container; mutators change only the structure they are called on. Materialising the default vertex weights is not a change."},
}
