"""Value-numbering terms with normalising constructors.

A term is a nested tuple (op, args...).  Two terms that are equal after normalisation denote
the same value; the rewrite rules below are the algebraic laws the analysis trusts (listed as
assumptions in DESIGN.md).
"""
NONE = ("none",)
TRUE, FALSE = ("b", True), ("b", False)
EYE = ("I",)


def N(v):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v) and abs(v) < 2**53:
        v = int(v)
    return ("n", v)


def S(v):
    return ("s", v)


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        return N(v)
    if isinstance(v, str):
        return S(v)
    if v is Ellipsis:
        return ("ellipsis",)
    return ("const", repr(v))


def is_const(t):
    return t[0] in ("n", "s", "b", "none") or (t[0] == "tup" and all(is_const(x) for x in t[1:]))


def pyval(t):
    if t[0] in ("n", "s", "b"):
        return t[1]
    if t[0] == "none":
        return None
    if t[0] == "tup":
        return tuple(pyval(x) for x in t[1:])
    raise ValueError(t)


def key(t):
    return repr(t)


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def subst(t, f):
    """Bottom-up rebuild: f(term) -> replacement or None."""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        r = f(t)
        if r is not None:
            return r
        if t[0] in ("n", "s", "b", "none", "param", "init", "I"):
            return t
        return mk(t[0], *[subst(x, f) for x in t[1:]])
    return tuple(subst(x, f) for x in t)


# ------------------------------------------------------------------ constructors
def mk(op, *a):
    h = _RULES.get(op)
    if h is not None:
        return h(*a)
    return (op,) + a


def _is_num(t):
    return t[0] == "n"


def add(*xs):
    coef = {}
    order = {}
    c = 0

    def put(t, k):
        nonlocal c
        if t[0] in ("n", "b"):
            c += k * t[1]
        elif t[0] == "add":
            for x in t[1:]:
                put(x, k)
        elif t[0] == "mul" and t[1][0] == "n":
            put(mul(*t[2:]) if len(t) > 3 else t[2], k * t[1][1])
        else:
            coef[t] = coef.get(t, 0) + k
            order[t] = key(t)

    if any(x[0] in ("s", "list", "tup", "str", "fstr", "ref", "concat") for x in xs):
        # sequence / string concatenation is not commutative
        out = []
        for x in xs:
            out.extend(x[1:] if x[0] == "concat" else [x])
        if all(x[0] == "s" for x in out):
            return S("".join(x[1] for x in out))
        if all(x[0] == "list" for x in out):
            return ("list",) + tuple(e for x in out for e in x[1:])
        if all(x[0] == "tup" for x in out):
            return ("tup",) + tuple(e for x in out for e in x[1:])
        return ("concat",) + tuple(out)
    for x in xs:
        put(x, 1)
    items = [(t, k) for t, k in coef.items() if k != 0]
    if not items:
        return N(c)
    out = []
    for t, k in sorted(items, key=lambda z: order[z[0]]):
        out.append(t if k == 1 else mul(N(k), t))
    if c != 0:
        out.append(N(c))
    return out[0] if len(out) == 1 else ("add",) + tuple(out)


def neg(x):
    return mul(N(-1), x)


def sub_(a, b):
    return add(a, neg(b))


def mul(*xs):
    c = 1
    out = []

    def put(t):
        nonlocal c
        if t[0] in ("n", "b"):
            c *= t[1]
        elif t[0] == "mul":
            for x in t[1:]:
                put(x)
        else:
            out.append(t)

    if ("b", False) in xs and not any(x[0] in ("list", "s") for x in xs):
        return ("n", 0)
    if any(x[0] in ("list", "s") for x in xs):
        return ("repeat",) + tuple(sorted(xs, key=lambda t: (t[0] == "n", key(t))))
    for x in xs:
        put(x)
    if c == 0 and not out:
        return N(0)
    # col(v) * X  ==  diag(v) @ X
    cols = [x for x in out if x[0] == "col"]
    rest = [x for x in out if x[0] != "col"]
    if cols and len(rest) == 1:
        r = rest[0]
        for x in sorted(cols, key=key, reverse=True):
            r = mm(("diag", x[1]), r)
        out = [r] if r[0] != "mul" else list(r[1:])
    # merge powers of the same base
    base = {}
    for x in out:
        b, k = (x[1], x[2][1]) if x[0] == "pow" and x[2][0] == "n" else (x, 1)
        base[b] = base.get(b, 0) + k
    merged = []
    for b, k in base.items():
        if k == 0:
            continue
        merged.append(b if k == 1 else pow_(b, N(k)))
    m2 = []
    for x in merged:
        if x[0] == "n":
            c *= x[1]
        else:
            m2.append(x)
    m2.sort(key=key)
    if not m2:
        return N(c)
    if c == 0:
        return ("mul", N(0)) + tuple(m2)
    if c == 1:
        return m2[0] if len(m2) == 1 else ("mul",) + tuple(m2)
    if len(m2) == 1 and m2[0][0] == "add":
        return add(*[mul(N(c), x) for x in m2[0][1:]])
    return ("mul", N(c)) + tuple(m2)


def div(a, b):
    if a[0] == "n" and b[0] == "n" and b[1] != 0:
        return N(a[1] / b[1])
    return mul(a, pow_(b, N(-1)))


def pow_(x, k):
    if k[0] == "mul" and len(k) == 3 and k[1] == N(-1) and False:
        pass
    if x[0] == "n" and k[0] == "n":
        try:
            v = x[1] ** k[1]
            if not isinstance(v, complex):
                return N(v)
        except Exception:
            pass
        return ("pow", x, k)
    if k == N(1):
        return x
    if k == N(0):
        return N(1)
    if x[0] == "pow" and x[1][0] == "n" and x[1][1] > 0:
        return pow_(x[1], mul(x[2], k))
    if x[0] == "pow" and x[2][0] == "n" and k[0] == "n":
        return pow_(x[1], N(x[2][1] * k[1]))
    if x[0] == "pinv" and k[0] == "n" and k[1] > 0:
        return ("pinv", x[1], N(x[2][1] * k[1]))
    if x[0] == "col":
        return ("col", pow_(x[1], k))
    if x[0] == "mul" and k[0] == "n" and isinstance(k[1], int):
        return mul(*[pow_(y, k) for y in x[1:]])
    return ("pow", x, k)


def mm(*xs):
    out = []
    c = []

    def put(t):
        if t[0] == "mm":
            for x in t[1:]:
                put(x)
        elif t[0] == "mul" and t[1][0] == "n":
            c.append(t[1])
            put(mul(*t[2:]) if len(t) > 3 else t[2])
        elif t == EYE:
            pass
        else:
            out.append(t)

    for x in xs:
        put(x)
    for i, x in enumerate(out):
        if x[0] == "add":
            return add(*[mm(*(c + out[:i] + [y] + out[i + 1:])) for y in x[1:]])
    # merge adjacent diagonals
    i = 0
    while i + 1 < len(out):
        if out[i][0] == "diag" and out[i + 1][0] == "diag":
            out[i:i + 2] = [("diag", mul(out[i][1], out[i + 1][1]))]
        else:
            i += 1
    r = EYE if not out else (out[0] if len(out) == 1 else ("mm",) + tuple(out))
    return mul(*(c + [r])) if c else r


def T(x):
    if x[0] == "T":
        return x[1]
    if x[0] in ("diag", "I"):
        return x
    if x[0] == "mm":
        return mm(*[T(y) for y in reversed(x[1:])])
    if x[0] == "add":
        return add(*[T(y) for y in x[1:]])
    if x[0] == "mul" and x[1][0] == "n" and len(x) == 3:
        return mul(x[1], T(x[2]))
    if x[0] == "zeros":
        return ("zeros", ("tup",) + tuple(reversed(x[1][1:]))) if len(x) > 1 and x[1][0] == "tup" else x
    return ("T", x)


def diag(v):
    if v[0] == "ones":
        return EYE
    if v[0] == "mul" and v[1][0] == "n" and len(v) == 3:
        return mul(v[1], diag(v[2]))
    return ("diag", v)


def vals(A):
    if A[0] == "diag":
        return A[1]
    if A == EYE:
        return ("ones",)
    if A[0] == "coo":
        return A[2]
    if A[0] == "mul" and A[1][0] == "n" and len(A) == 3:
        return mul(A[1], vals(A[2]))
    return ("vals", A)


def inds(A):
    if A[0] == "coo":
        return A[1]
    if A[0] == "diag" or A == EYE:
        return ("diaginds",)
    if A[0] == "mul" and A[1][0] == "n" and len(A) == 3:
        return inds(A[2])
    return ("inds", A)


def coo(i, v):
    if i[0] == "diaginds":
        return diag(v)
    if i[0] == "hcat" and v[0] == "hcat" and len(i) == len(v):
        return add(*[coo(x, y) for x, y in zip(i[1:], v[1:])])
    if i[0] == "inds":
        A = i[1]
        va = vals(A)
        if v == va:
            return A
        if v[0] == "mul":
            fs = list(v[1:])
            if va in fs:
                fs.remove(va)
                if len(fs) == 1:
                    f = fs[0]
                    if f[0] == "n":
                        return mul(f, A)
                    if f[0] == "sub" and f[2] == ("sub", i, N(1)):
                        return mm(A, diag(f[1]))
                    if f[0] == "sub" and f[2] == ("sub", i, N(0)):
                        return mm(diag(f[1]), A)
    if i[0] == "list" and len(i) == 3 and v[0] == "mul":
        # values scaled by a vector gathered along the row/column index: product with a diagonal
        for f in v[1:]:
            if f[0] == "sub" and f[2] in (i[1], i[2]) and i[1] != i[2]:
                fs = list(v[1:])
                fs.remove(f)
                A = coo(i, mul(*fs))
                return mm(A, diag(f[1])) if f[2] == i[2] else mm(diag(f[1]), A)
    return ("coo", i, v)


def rowsum(A):
    if A[0] == "mul" and A[1][0] == "n" and len(A) == 3:
        return mul(A[1], rowsum(A[2]))
    if A[0] == "add":
        return add(*[rowsum(x) for x in A[1:]])
    if A[0] == "diag":
        return A[1]
    if A == EYE:
        return ("ones",)
    if A[0] == "mm" and A[1][0] == "diag":
        return mul(A[1][1], rowsum(mm(*A[2:])))
    return ("rowsum", A)


def not_(x):
    if x[0] == "b":
        return ("b", not x[1])
    if x[0] == "not":
        return x[1]
    return ("not", x)


def lt(a, b):
    if is_const(a) and is_const(b) and a[0] == b[0]:
        try:
            return ("b", pyval(a) < pyval(b))
        except TypeError:
            pass
    if a == b:
        return FALSE
    return ("lt", a, b)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a == b:
        return TRUE
    if is_const(a) and is_const(b):
        return ("b", pyval(a) == pyval(b))
    for z, w in ((a, b), (b, a)):
        # a - b == 0
        if z == N(0) and w[0] == "add" and len(w) == 3:
            for p, q in ((w[1], w[2]), (w[2], w[1])):
                m = neg(q)
                if m[0] != "mul" and not (is_const(m) or is_const(p)) and p[0] != "mul":
                    return eq(p, m)
    x, y = sorted((a, b), key=key)
    return ("eq", x, y)


def guard(x, cond, v):
    """x with v stored where cond holds."""
    if v == N(0):
        kinds = _nonfinite(cond, x)
        if kinds:
            return g0(x, kinds)
    return ("maskset", x, cond, v)


def _nonfinite(c, x):
    if c[0] == "isinf" and c[1] == x:
        return ("inf",)
    if c[0] == "isnan" and c[1] == x:
        return ("nan",)
    if c[0] == "not" and c[1] == ("isfinite", x):
        return ("inf", "nan")
    if c[0] in ("or", "bitor"):
        ks = [_nonfinite(y, x) for y in c[1:]]
        if all(ks):
            return tuple(sorted({k for y in ks for k in y}))
    if c[0] == "eq" and x[0] == "pow" and x[2][0] == "n" and x[2][1] < 0 and set(c[1:]) == {x[1], N(0)}:
        return ("inf",)
    if c[0] == "eq" and set(c[1:]) == {x, ("n", float("inf"))}:
        return ("inf",)
    return None


def g0(x, kinds):
    if x[0] == "pow" and x[2][0] == "n" and x[2][1] < 0 and "inf" in kinds:
        return ("pinv", x[1], x[2])
    if x[0] == "pinv":
        return x
    if x[0] == "col":
        return ("col", g0(x[1], kinds))
    if x[0] == "g0":
        kinds = tuple(sorted(set(kinds) | set(x[2])))
        x = x[1]
    return ("g0", x, kinds)


def col(v):
    if v[0] == "col":
        return v
    if v[0] == "n":
        return v
    return ("col", v)


_RULES = {
    "add": add, "mul": mul, "pow": pow_, "mm": mm, "T": T, "diag": diag, "vals": vals, "inds": inds,
    "coo": coo, "rowsum": rowsum, "not": not_, "lt": lt, "eq": eq, "g0": g0, "col": col,
}


def show(t, n=400):
    s = _show(t)
    return s if len(s) <= n else s[: n - 3] + "..."


def _show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    op, a = t[0], t[1:]
    if op in ("n", "b"):
        return str(a[0])
    if op == "s":
        return repr(a[0])
    if op == "none":
        return "None"
    if op == "param":
        return str(a[0])
    if op == "init" and len(a) == 2:
        return f"{a[0]}.{a[1]}"
    if op == "attr" and len(a) == 2:
        return f"{_show(a[0])}.{a[1]}"
    if op == "add":
        return "(" + " + ".join(map(_show, a)) + ")"
    if op == "mul":
        return "(" + " * ".join(map(_show, a)) + ")"
    if op == "mm":
        return "(" + " @ ".join(map(_show, a)) + ")"
    if op == "T":
        return _show(a[0]) + "^T"
    if op == "pow":
        return f"{_show(a[0])}**{_show(a[1])}"
    if op == "tup":
        return "(" + ", ".join(map(_show, a)) + ")"
    if not isinstance(op, str):
        return "(" + ", ".join(map(_show, t)) + ")"
    return f"{op}(" + ", ".join(map(_show, a)) + ")"
