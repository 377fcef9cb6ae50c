"""S07: device typing of every tensor the structures hand out."""
import ast

from .. import terms as tm
from ..devs import ANY, NT, DevModel
from ..interp import Undecided, V
from ..structs import DRAWS, STRUCTS, SInterp, members, setup
from ..terms import S


def moved_keys(repo, cls):
    I = SInterp(repo, "miss")
    f = repo.method(cls, "vars_for_DL")
    st, a, kw = setup(I, cls, f)
    outs = [(v, s) for k, v, s in I.run(f, a, kw, st) if k == "ret"]
    if len(outs) != 1:
        raise Undecided(f"vars_for_DL has {len(outs)} paths")
    v, s = outs[0]
    t = s.term(v)
    if t[0] not in ("list", "tup", "setlit") or any(x[0] != "s" for x in t[1:]):
        raise Undecided("vars_for_DL is not a literal list")
    return {x[1] for x in t[1:]}


def move(I, func, args, kw, st, node):
    """to(): R3 checks its body; here it sets the device and moves the values of the table's keys."""
    s = args[0]
    o = st.objs[s.t[1]]
    d = args[1] if len(args) > 1 else kw.get("device")
    o.fields["device"] = d
    c = o.fields.get("cache")
    keys = I.devs.vars.get(o.cls.name, ())
    dev = I.devs.arg(I, st, d)
    for tab in (c, o.fields.get("group_cache")):
        if tab is not None:
            retag(I, st, st.cur(tab), keys, dev, 0)
    return [(s, st)]


def retag(I, st, tab, keys, dev, depth):
    if tab.map is None or depth > 1:
        return
    for k, x in tab.map:
        x = st.cur(x)
        if x.ty == "memo":
            retag(I, st, x, keys, dev, depth + 1)
        elif k[0] == "s" and k[1] in keys and x.dev is not None:
            st.forward(x, x.clone(dev=dev))


def tensorish(f):
    r = f.node.returns
    if r is None:
        return None
    txt = ast.unparse(r)
    return "Tensor" in txt


def s07(chk):
    repo = chk.repo
    chk.rule("R1", "every tensor returned, computed fresh or taken from a memo table filled before a move, is on the structure's current device (or on that of the features passed in)")
    chk.rule("R2", "no operation mixes tensors of two devices")
    chk.rule("R3", "moving transfers every tensor in the global and in every per-group memo table, and records the device")
    vars_ = {}
    for cn in STRUCTS:
        try:
            vars_[cn] = moved_keys(repo, repo.cls(cn))
        except Undecided as e:
            chk.und(f"{cn}.vars_for_DL", str(e))
            return
        chk.count("moved_keys", len(vars_[cn]))
    for cn in STRUCTS:
        cls = repo.cls(cn)
        tos = {repo.method(cls, "to").qual} | {c.methods["to"].qual for c in repo.mro(cls) if hasattr(c, "methods") and "to" in c.methods}
        for name, f, is_set in members(repo, cls):
            if is_set or f.is_abstract or name in ("__init__", "draw", "save", "load", "to", "clear", "__repr__", "vars_for_DL", "state_dict"):
                continue
            if tensorish(f) is False and not f.is_static:
                # lists and numbers; still evaluated for mixed operands
                pass
            tag = f"{cn}.{name}"
            if name.startswith(("R_v2e", "R_e2v")):
                continue  # per-incidence weights are never stored by Hypergraph: these members always raise
            clean, seen = True, 0
            for mode in ("miss", "hit"):
                try:
                    outs, I = paths(repo, cls, f, mode, vars_, tos)
                except (Undecided, RecursionError) as e:
                    chk.und(f"{tag}/{mode}", str(e))
                    clean = False
                    continue
                chk.analysed |= I.inlined
                chk.count("queries")
                for ds, loc, what, facts in I.devs.conflicts:
                    real = [d for d in ds if d != ANY]
                    if len(real) > 1:
                        clean = False
                        chk.finding("R2", f"{tag}/{what}", loc, "operands on " + " and ".join(sorted(show(d) for d in real)))
                for kind, v, s in outs:
                    if kind != "ret":
                        continue
                    home = s.objs.get(("in", "self"))
                    cur = None
                    if home is not None and not f.is_static:
                        x = home.fields.get("device")
                        cur = ("init", "self", "device") if x is None else I.devs.arg(I, s, x)
                    elif "device" in [p.arg for p in f.node.args.args + f.node.args.kwonlyargs]:
                        cur = ("param", "device")
                    for part, x in parts(I, s, v):
                        d = I.devs.of(I, s, x)
                        t = s.term(x)
                        if d is None:
                            if s.cur(x).dev == NT:
                                continue
                            if tensorish(f) and t[0] in ("coo", "mm", "inds", "vals", "rowsum", "T", "pow", "zeros", "guard", "cat", "hcat", "vcat", "mcall", "call"):
                                chk.und(f"{tag}/{mode}", f"device of {tm.show(t, 80)} not known")
                                clean = False
                            continue
                        if tensorish(f) is False and not any(y[0] in ("inds", "vals", "mm", "coo", "rowsum", "todense") for y in tm.walk(t)):
                            continue
                        seen += 1
                        if cur is None or d == ANY or I.devs.same(I, s, d, cur) or d[0] == "device_of":
                            continue
                        clean = False
                        chk.finding("R1", tag, f.loc, f"returns a tensor on {show(d)} while the structure is on {show(cur)}" + (" (memoised value)" if mode == "hit" else ""))
            if clean:
                chk.discharge(f"{tag}: {seen} tensor results")
                chk.count("tensor_results", seen)
    for cn in STRUCTS:
        move_tables(chk, repo, repo.cls(cn), vars_[cn])
    chk.floor("queries", 120)
    chk.floor("tensor_results", 60)


def show(d):
    if d[0] == "stale":
        return f"the device it had before the move (memo key {tm.show(d[1], 40)})"
    return tm.show(d, 60)


def parts(I, s, v, d=0):
    v = s.cur(v)
    if v.items is not None and d < 2:
        for x in v.items:
            yield from parts(I, s, x, d + 1)
    elif v.map is None and v.py is None and not (v.t is not None and v.t[0] == "obj"):
        yield None, v


def passing(I, func, args, kw, st, node):
    """v2e/e2v as checked on their own: the structure ends on the device of the features, so does the result."""
    i = [p.arg for p in func.node.args.args].index("X")
    x = args[i] if len(args) > i else kw.get("X")
    d = I.devs.of(I, st, x)
    st.objs[args[0].t[1]].fields["device"] = V(d) if d is not None else V(("device_of", st.term(x)))
    return [(V(("passed", func.name) + I.argterms(args[1:], kw, st), "tensor", dev=d), st)]


def paths(repo, cls, f, mode, vars_, tos):
    def one(split):
        I = SInterp(repo, mode, opaque=DRAWS, maxstates=600)
        I.devs = DevModel()
        I.devs.vars = vars_
        for q in tos:
            I.intercept[q] = move
        if split:
            for n, g, _ in members(repo, cls):
                if n.split("_")[0] in ("v2e", "e2v") and g is not f and "X" in [p.arg for p in g.node.args.args]:
                    I.intercept[g.qual] = passing
        st, a, kw = setup(I, cls, f)
        return I.run(f, a, kw, st), I
    try:
        return one(False)
    except Undecided:
        return one(True)


def move_tables(chk, repo, cls, keys):
    """R3: evaluate to() on concrete memo tables (every key, in the global and in two per-group tables, present or not)."""
    fam = "h" if cls.name == "Hypergraph" else "g"
    keys = sorted(keys)
    f = repo.method(cls, "to")
    cases = [(1, 1, 1), (0, 1, 1), (1, 0, 0), (1, 1, 0), (1, 0, 1), (0, 0, 0)] if fam == "h" else [(1,), (0,)]
    cases = [(c, keys) for c in cases] + [(tuple(1 for _ in cases[0]), [k]) for k in keys]
    clean = True
    for case, ks in cases:
        I = SInterp(repo, "miss", maxstates=300)
        I.devs = DevModel()
        try:
            st, a, kw = setup(I, cls, f)
        except Undecided as e:
            chk.und(f"{cls.name}.to", str(e))
            return
        key = a[0].t[1]

        def table(tag, full):
            m = [(S(k), V(("memoised", tag, k), "tensor", dev=("stale", S(k)))) for k in (ks if full else [])]
            for k, x in m:
                st.fact(tm.eq(x.t, tm.NONE), False)
            m.append((S("e"), V(("memoised", tag, "e"), "list")))
            return V(None, "dict", map=m, org=frozenset())
        o = st.objs[key]
        o.fields["cache"] = table("global", case[0])
        if fam == "h":
            names = ["g1", "g2"]
            o.fields["group_cache"] = V(None, "dict", map=[(S(n), table(n, c)) for n, c in zip(names, case[1:])], default="dict")
            o.fields["_raw_groups"] = V(None, "dict", map=[(S(n), V(("group", n), "dict")) for n in names])
        try:
            outs = I.run(f, a, kw, st)
        except (Undecided, RecursionError) as e:
            chk.und(f"{cls.name}.to", str(e))
            return
        chk.analysed |= I.inlined
        for kind, v, s in outs:
            if kind != "ret":
                continue
            chk.count("moves")
            o = s.objs[key]
            want = ("param", "device")
            if s.term(o.fields.get("device", V(None))) != want:
                clean = False
                chk.finding("R3", f"{cls.name}.to/device", f.loc, "the structure's device is not the requested one after the move")
            if not (v.t is not None and v.t == ("obj", key)):
                clean = False
                chk.finding("R3", f"{cls.name}.to/result", f.loc, f"returns {tm.show(s.term(v), 80)} instead of the structure")
            tabs = [("the global table", o.fields["cache"])]
            if fam == "h":
                g = s.cur(o.fields["group_cache"])
                tabs += [(f"the table of group {tm.show(k, 20)}", x) for k, x in (g.map or [])]
            for what, tab in tabs:
                tab = s.cur(tab)
                if tab.map is None:
                    chk.und(f"{cls.name}.to", f"{what} after the move: {tm.show(s.term(tab), 100)}")
                    return
                for k, x in tab.map:
                    x = s.cur(x)
                    if k[0] == "s" and k[1] in ks and x.t is not None and x.dev != want:
                        clean = False
                        if x.dev is None:
                            chk.und(f"{cls.name}.to", f"{what}: {tm.show(s.term(x), 100)}")
                            return
                        chk.finding("R3", f"{cls.name}.to/{k[1]}", f.loc, f"{k[1]} in {what} stays behind when the structure is moved")
    if clean:
        chk.discharge(f"{cls.name}.to: {len(cases)} table configurations")


INFO = {
    "S07": {"technique": "device-type inference by abstract interpretation over all query paths, in two memo states",
            "explanation": "Every public member of the four classes is evaluated path by path with a device attached to each tensor value (creation, sparse construction, transfer and mixing rules); once with empty memo tables and once with memo tables filled before a move, where only the keys listed by vars_for_DL follow the move. to() itself is evaluated on concrete memo-table configurations (each key alone, all keys, global/per-group present or absent).",
            "assumptions": ["torch's device rules: sparse constructors place indices and values on device=, other operators keep their operands' device", "caller-supplied weights are on the features' device"],
            "note": "Returned tensors are on the structure's (or features') device on every path, fresh or memoised, and no operator mixes two devices; per-incidence weight matrices (R_*), which Hypergraph never stores, are left out."},
}
