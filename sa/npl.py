"""Literal numpy arrays: nested items of symbolic numbers, with the few operations that gather and average them."""
from . import terms as tm
from .interp import V
from .terms import N, NONE

NEW = ("ext", "numpy.newaxis")


def nd(items):
    return V(None, "ndarray", items=list(items))


def is_nd(v):
    return v.ty == "ndarray" and v.items is not None


class Literal:
    def __init__(self, I):
        self.I = I
        ext, mc = I.hooks_ext, I.hook_mcall
        for n in ("array", "asarray", "asanyarray"):
            ext["numpy." + n] = lambda I, a, kw, st, node: self.one(self.build(a[0], st), st) if a else None
        for n in ("vstack", "row_stack"):
            ext["numpy." + n] = lambda I, a, kw, st, node: self.join(a, dict(kw, axis=V(N(0))), st)
        ext["numpy.concatenate"] = lambda I, a, kw, st, node: self.join(a, kw, st)
        ext["numpy.hstack"] = lambda I, a, kw, st, node: self.join(a, kw, st, flat=True)
        for n in ("mean", "sum", "average"):
            ext["numpy." + n] = lambda I, a, kw, st, node, n=n: self.reduce({"average": "mean"}.get(n, n), self.build(a[0], st) if a else None, a[1:], kw, st)

        def mcall(I, v, name, args, kw, st, node):
            w = st.cur(v)
            if is_nd(w):
                if name in ("mean", "sum"):
                    return self.reduce(name, w, args, kw, st)
                if name == "item" and not args:
                    f = self.flat(w, st)
                    return [(f[0], st)] if len(f) == 1 else None
                if name == "tolist":
                    return [(self.tolist(w, st), st)]
                if name in ("copy",):
                    return [(w, st)]
                if name in ("ravel", "flatten") and not args:
                    return [(nd(self.flat(w, st)), st)]
                if name == "squeeze" and not args:
                    return [(self.squeeze(w, st), st)]
                if name == "reshape":
                    return self.reshape(w, args, st)
            return mc(I, v, name, args, kw, st, node) if mc else None
        I.hook_mcall = mcall
        ga, gi = I.getattr_, I.getitem

        def getattr_(v, name, st, node=None):
            w = st.cur(v)
            if is_nd(w):
                s = self.shape(w, st)
                if s is not None and name == "shape":
                    return [(V(None, "tuple", items=[V(N(x)) for x in s]), st)]
                if s is not None and name == "ndim":
                    return [(V(N(len(s))), st)]
                if name == "size":
                    return [(V(N(len(self.flat(w, st)))), st)]
            return ga(v, name, st, node)

        def getitem(v, i, st, node):
            w = st.cur(v)
            if is_nd(w):
                r = self.index(w, st.term(i), st)
                if r is not None:
                    return [(r, st)]
            return gi(v, i, st, node)
        I.getattr_, I.getitem = getattr_, getitem

    def one(self, v, st):
        return None if v is None else [(v, st)]

    def build(self, x, st):
        """The array of a (nested) list of numbers, None when it is something else."""
        w = st.cur(x)
        if is_nd(w):
            return w
        if w.items is None and (w.t is None or w.t[0] not in ("list", "tup")):
            return None
        xs = self.I.concrete_iter(w, st)
        if xs is None:
            return None
        out = []
        for e in xs:
            e = st.cur(e)
            if e.items is not None or e.t is not None and e.t[0] in ("list", "tup"):
                e = self.build(e, st)
                if e is None:
                    return None
            out.append(e)
        return nd(out)

    def shape(self, w, st):
        if not is_nd(w):
            return ()
        subs = {self.shape(st.cur(x), st) for x in w.items}
        if None in subs or len(subs) > 1:
            return None
        return (len(w.items),) + (subs.pop() if subs else ())

    def flat(self, w, st):
        w = st.cur(w)
        return [y for x in w.items for y in self.flat(x, st)] if is_nd(w) else [w]

    def tolist(self, w, st):
        w = st.cur(w)
        return V(None, "list", items=[self.tolist(x, st) for x in w.items]) if is_nd(w) else w

    def squeeze(self, w, st):
        w = st.cur(w)
        if not is_nd(w):
            return w
        xs = [self.squeeze(x, st) for x in w.items]
        return xs[0] if len(xs) == 1 else nd(xs)

    def reshape(self, w, args, st):
        ts = [st.term(a) for a in args]
        if len(ts) == 1 and ts[0][0] == "tup":
            ts = list(ts[0][1:])
        f = self.flat(w, st)
        if ts == [N(-1)]:
            return [(nd(f), st)]
        if ts == [N(-1), N(1)]:
            return [(nd(nd([x]) for x in f), st)]
        return None

    def index(self, w, t, st):
        full = ("slice", NONE, NONE, NONE)
        if t in (("tup", full, NEW), ("tup", full, NONE)):
            return nd(nd([x]) for x in w.items)
        if t[0] == "n" and t[1].denominator == 1 and -len(w.items) <= t[1] < len(w.items):
            return w.items[int(t[1])]
        if t[0] == "tup" and len(t) == 3 and t[1] == full and t[2][0] == "n":
            c = [self.index(st.cur(x), t[2], st) if is_nd(st.cur(x)) else None for x in w.items]
            return nd(c) if all(x is not None for x in c) else None
        return None

    def join(self, a, kw, st, flat=False):
        ps = self.I.concrete_iter(st.cur(a[0]), st) if a else None
        ps = [self.build(p, st) for p in ps] if ps is not None else [None]
        ax = st.term(a[1]) if len(a) > 1 else st.term(kw["axis"]) if "axis" in kw else N(0)
        if not ps or any(p is None for p in ps) or ax != N(0):
            return None
        if flat and any(len(self.shape(p, st) or (0, 0)) != 1 for p in ps):
            return None
        if "axis" in kw and any(len(self.shape(p, st) or ()) == 1 for p in ps) and not flat and len(a) == 1 and all(len(self.shape(p, st) or ()) == 1 for p in ps):
            # stacking vectors makes each of them a row
            return [(nd(ps), st)]
        return [(nd(x for p in ps for x in p.items), st)]

    def reduce(self, how, w, args, kw, st):
        if w is None or not is_nd(w) or set(kw) - {"axis"} or len(args) > 1 or not w.items:
            return None
        ax = st.term(args[0]) if args else st.term(kw["axis"]) if "axis" in kw else NONE
        s = self.shape(w, st)
        if s is None:
            return None

        def fold(xs):
            t = tm.add(*[st.term(x) for x in xs])
            return V(tm.mul(t, ("pow", N(len(xs)), N(-1))) if how == "mean" else t, "float")
        if ax == NONE or len(s) == 1 and ax in (N(0), N(-1)):
            return [(fold(self.flat(w, st)), st)]
        if len(s) == 2 and ax == N(0):
            return [(nd(fold([st.cur(r).items[j] for r in w.items]) for j in range(s[1])), st)]
        if len(s) == 2 and ax in (N(1), N(-1)):
            return [(nd(fold(st.cur(r).items) for r in w.items), st)]
        return None
