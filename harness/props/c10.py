"""Reduced symmetric storage is a faithful, documented encoding."""

from .common import *


def data(n):
    return st.lists(gen.entries(), min_size=n, max_size=n)


def filled(values, shape, dtype="float"):
    "Array of the given shape from a short list of values, without a pattern."
    n = int(np.prod(shape))
    v = np.resize(np.array(values, dtype=float), n)
    v = v + 0.37 * (np.arange(n) // max(1, len(values)))
    v = v * np.where(np.arange(n) % 7 == 3, -1, 1)
    if dtype == "int":
        v = np.round(4 * v).astype(int)
    elif dtype == "int32":
        v = np.round(4 * v).astype("int32")
    elif dtype == "float32":
        v = v.astype("float32")
    return v.reshape(shape)


def check(case, ctx):
    m = ref.hel().math
    trax = case["shape"]
    ctx.label(f"trailing axes: {len(trax)}", "dtype: " + case["dtype"])
    a = filled(case["v"], (6, *trax), case["dtype"])
    c = filled(case["w"], (6, 6, *trax), case["dtype"])
    if case["again"]:  # the very same arrays held other values before
        A, C = full2(a), full4(c)
        held = [np.ones_like(v) for v in (A, a, C, c)]
        for v, w, mode in zip(held, (A, a, C, c), (2, 2, 4, 4)):
            f, name = (m.asvoigt, "asvoigt") if v is held[0] or v is held[2] else (m.astensor, "astensor")
            call(name, f, v, mode=mode)
            v[...] = w
            call(name, f, v, mode=mode)
        for v, w, mode in zip(held, (a, A, c, C), (2, 2, 4, 4)):
            f, name = (m.asvoigt, "asvoigt") if v is held[0] or v is held[2] else (m.astensor, "astensor")
            ctx.same(np.asarray(call(name, f, v, mode=mode), dtype=float), np.asarray(w, dtype=float), f"{name}, mode={mode}, of a changed array")
    A = full2(a)
    X = gen.layout(A, case["layout"])
    ctx.same(call("asvoigt", m.asvoigt, X), a, "asvoigt of a symmetric tensor")
    ctx.same(call("asvoigt", m.asvoigt, X, mode=2), a, "asvoigt, mode=2")
    b = gen.layout(a, case["layout"], 1)
    ctx.same(call("astensor", m.astensor, b), A, "astensor")
    ctx.same(call("astensor", m.astensor, b, mode=2), A, "astensor, mode=2")
    ctx.same(call("round trip", m.astensor, call("asvoigt", m.asvoigt, A)), A, "round trip, second order")
    ctx.same(call("round trip", m.asvoigt, call("astensor", m.astensor, a)), a, "round trip, reduced")
    ctx.same(X, A, "argument of asvoigt")
    ctx.same(b, a, "argument of astensor")

    if case["major"]:
        c = c + np.swapaxes(c, 0, 1)
    C = full4(c)
    Y, d = gen.layout(C, case["layout"], 4), gen.layout(c, case["layout"])
    ctx.same(call("asvoigt", m.asvoigt, Y, mode=4), np.asarray(c, dtype=float), "asvoigt, mode=4")
    ctx.same(call("astensor", m.astensor, d, mode=4), C, "astensor, mode=4")
    ctx.same(
        call("round trip", m.astensor, call("asvoigt", m.asvoigt, C, 4), 4),
        np.asarray(C, dtype=float),
        "round trip, fourth order",
    )
    ctx.same(Y, C, "argument of asvoigt, mode=4")
    ctx.same(d, c, "argument of astensor, mode=4")


def check_triangles(case, ctx):
    m = ref.hel().math
    n, trax = case["n"], case["shape"]
    A = filled(case["v"], (n, n, *trax), case["dtype"])
    i, j = np.indices((n, n))
    up = np.array(A)
    lo = np.array(A)
    for p in range(n):
        for q in range(n):
            if p > q:
                up[p, q] = A[q, p]
                lo[q, p] = A[p, q]
    for name, f, want in (("tril_from_triu", m.tril_from_triu, up), ("triu_from_tril", m.triu_from_tril, lo)):
        kw = {} if n == 6 and case["default"] else dict(dim=n)
        B = gen.layout(A, case["layout"])
        res = call(name, f, B, **kw)
        ctx.same(res, want, name)
        ctx.same(B, A, f"argument of {name}")
        B = A.copy()
        res = call(name, f, B, **kw)
        ctx.same(res, want, name)
        ctx.same(B, A, f"argument of {name}")
        res = call(name, f, B, out=B, **kw)
        ctx.same(B, want, f"{name}, in place")
        ctx.same(res, want, f"{name}, returned in place")
        # another output array already holding the kept triangle
        B, out = A.copy(), np.where((i <= j if name == "tril_from_triu" else i >= j).reshape(n, n, *[1] * len(trax)), A, 77)
        res = call(name, f, B, out=out, **kw)
        ctx.same(out, want, f"{name}, other output")
        ctx.same(B, A, f"argument of {name}, other output")
        # an output array with other content: the mirrored triangle comes from the argument
        B, out = A.copy(), np.full(A.shape, 55, dtype=A.dtype)
        res = call(name, f, B, out=out, **kw)
        far = (i > j) if name == "tril_from_triu" else (i < j)
        ctx.same(out[far], want[far], f"{name}, mirrored triangle of another output")
        ctx.same(res, out, f"{name}, returned output")
        ctx.same(B, A, f"argument of {name}, another output")


SUBS = [
    Sub(
        "storage",
        lambda: st.fixed_dictionaries(
            dict(
                v=data(6),
                w=data(9),
                shape=gen.anyshapes(),
                dtype=st.sampled_from(["float", "float", "int", "float32", "int32"]),
                layout=st.sampled_from(gen.LAYOUTS),
                again=st.sampled_from([False, False, True]),
                major=st.booleans(),
            )
        ),
        check,
        "the six values are not all equal",
        6000,
        lambda c: len(set(c["v"])) > 1,
    ),
    Sub(
        "triangles",
        lambda: st.fixed_dictionaries(
            dict(
                n=st.sampled_from([6, 6, 3, 1, 2, 4, 5, 9]),
                v=data(9),
                shape=gen.anyshapes(),
                dtype=st.sampled_from(["float", "float", "int", "float32", "int32"]),
                default=st.booleans(),
                layout=st.sampled_from(gen.LAYOUTS),
            )
        ),
        check_triangles,
        "dimension above one and values not all equal",
        3000,
        lambda c: c["n"] > 1 and len(set(c["v"])) > 1,
    ),
]
