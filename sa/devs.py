"""Device typing on top of the abstract interpreter: which device a tensor value lives on.

A device is a term (an object's `device` field, a parameter, `device_of` a tensor parameter, a constant, or ("stale", key) for a memoised
tensor that moving the structure does not move).  None means: not a tensor, or not known.
"""
from . import terms as tm
from .terms import S

ANY = ("anydev",)
NT = ("notensor",)
CPU = ("call", "torch.device", S("cpu"))
CREATE = {"torch." + n for n in ("tensor", "arange", "ones", "zeros", "rand", "randn", "full", "eye", "empty", "randint", "randperm", "linspace", "as_tensor",
                                 "FloatTensor", "LongTensor", "Tensor")}
SPARSE = {"torch.sparse_coo_tensor", "torch.sparse.FloatTensor"}
NONTENSOR = {"numpy", "tolist", "item", "size", "dim", "numel", "get_device", "nelement", "stride", "is_coalesced", "is_floating_point", "keys", "values_", "items"}
SCALAR_TY = ("int", "float", "str", "bool")


class DevModel:
    def __init__(self):
        self.conflicts = []
        self.vars = {}

    def same(self, I, st, a, b):
        return a == b or I.known(tm.eq(a, b), st) is True

    def of(self, I, st, v):
        v = st.cur(v)
        if v.dev == NT:
            return None
        if v.dev is not None:
            return v.dev
        if v.items is not None:
            return self.join(I, st, list(v.items), None)
        if v.t is not None and v.t[0] == "param" and v.ty == "tensor":
            return ("device_of", v.t)
        return None

    def join(self, I, st, vs, node, what=""):
        ds = []
        flat = []
        for v in vs:
            v = st.cur(v)
            flat += list(v.items) if v.items is not None else [v]
        for v in flat:
            d = self.of(I, st, v)
            if d is None or d == ANY or self.scalar(st, v):
                continue
            if d[0] == "device_of" and d[1] != ("param", "X"):
                d = ANY
            if d == ANY:
                ds = ds or [ANY]
                continue
            if ds == [ANY]:
                ds = []
            if not any(self.same(I, st, d, x) for x in ds):
                ds.append(d)
        if not ds:
            return None
        if len(ds) > 1 and node is not None:
            self.conflicts.append((tuple(ds), I.loc(node, st), what, dict(st.facts)))
        return ds[0]

    def scalar(self, st, v):
        t = st.term(v)
        return isinstance(t, tuple) and t and t[0] in ("n", "b")

    def arg(self, I, st, x):
        """Device denoted by the argument of .to() / device=, or None when it is a dtype."""
        v = st.cur(x)
        t = st.term(v)
        d = self.of(I, st, v)
        if d is not None:
            return d
        if t[0] == "ext" or t[0] == "attr" and t[-1] == "dtype" or t == tm.NONE:
            return None
        if t[0] == "s":
            return ("call", "torch.device", t)
        return t

    # -- transfer functions ------------------------------------------------------------------------------------
    def ext(self, I, dotted, a, kw, st, node):
        if not dotted.startswith("torch"):
            if dotted == "copy.deepcopy" and a:
                return self.of(I, st, a[0])
            return None
        dev = kw.get("device")
        if dotted in SPARSE:
            if dev is not None:
                return self.arg(I, st, dev)
            vals = [x for x in (a[1] if len(a) > 1 else kw.get("values"),) if x is not None]
            return (self.of(I, st, vals[0]) if vals else None) or CPU
        if dotted in CREATE:
            if dev is not None:
                return self.arg(I, st, dev)
            if dotted in ("torch.tensor", "torch.as_tensor") and a:
                t = st.term(a[0])
                if t[0] in ("n", "b"):
                    return None
                if dotted == "torch.as_tensor":
                    return self.of(I, st, a[0]) or CPU
            return CPU
        if dotted.endswith("_like"):
            return self.arg(I, st, dev) if dev is not None else self.of(I, st, a[0]) if a else None
        if dotted in ("torch.from_numpy",):
            return CPU
        if dotted in ("torch.device", "torch.Size", "torch.is_tensor", "torch.finfo", "torch.no_grad"):
            return None
        return self.join(I, st, list(a) + list(kw.values()), node, dotted)

    def item(self, I, st, v, k):
        v = st.cur(v)
        if v.ty == "cachehit":
            return self.cached(I, st, v, st.term(k))
        return v.dev

    def cached(self, I, st, v, k):
        """A value memoised before the structure was last moved: only the keys that moving transfers are on its device."""
        name = v.t[1]
        for o in st.objs.values():
            if o.name == name and I.is_struct(o.cls):
                if k[0] == "s" and k[1] in self.vars.get(o.cls.name, ()):
                    d = o.fields.get("device")
                    return ("init", name, "device") if d is None else st.term(d)
                return ("stale", k)
        return None

    def method(self, I, recv, name, a, kw, st, node):
        if st.cur(recv).ty == "cachehit" and name == "get" and a:
            return self.cached(I, st, st.cur(recv), st.term(a[0]))
        d = self.of(I, st, recv)
        if name in NONTENSOR:
            return NT
        if d is None or name.startswith("__"):
            return None
        if name in ("get", "pop", "append", "extend", "index", "add_"):
            return None
        if name == "to":
            for x in list(a) + list(kw.values()):
                y = self.arg(I, st, x)
                if y is not None:
                    return y
            return d
        if name == "cpu":
            return CPU
        if name == "cuda":
            return ("call", "torch.device", S("cuda"))
        return self.join(I, st, [recv] + list(a) + list(kw.values()), node, name)

    def binop(self, I, a, b, st, node):
        return self.join(I, st, [a, b], node, "operator")

    # -- hooks -------------------------------------------------------------------------------------------------
    def mark(self, outs, dev, avoid, st):
        if dev is None:
            return outs
        res = []
        for v, s in outs:
            if not hasattr(v, "dev"):
                res.append((v, s))
                continue
            c = s.cur(v)
            if c.dev is None and c.py is None and not (c.t is not None and c.t[0] == "obj") and c.items is None and c.map is None:
                if any(c is s.cur(x) for x in avoid):
                    n = c.clone(dev=dev)
                    res.append((n, s))
                    continue
                c.dev = dev
            elif c.dev is not None and c.dev != dev and c.py is None:
                n = c.clone(dev=dev)
                res.append((n, s))
                continue
            res.append((v, s))
        return res
