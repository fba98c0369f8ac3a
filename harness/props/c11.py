"""Algebra in reduced storage equals full tensor algebra."""

from .c10 import filled
from .common import *

def accuracy(kinds):
    "Relative to the products of magnitudes."
    return 1e-5 if "single" in kinds else 1e-11


def operand(v, kind, unit, nd):
    "The values as whole numbers, in single precision or in some memory layout."
    if kind in ("int", "int32"):
        return v.astype("int64") if kind == "int" else (v % 199 - 99).astype("int32")
    if kind == "single":
        return v.astype(np.float32)
    return gen.layout(v * unit, kind, nd)


def values(data, shape, kind):
    return filled(data, shape, "int" if kind in ("int", "int32") else "float")


def change(arrays):
    "Other values in the very same arrays."
    for k, v in enumerate(arrays):
        if v.flags.writeable and not any(v is w for w in arrays[:k]):
            v[...] = v[::-1].copy() + np.asarray(k + 1, dtype=v.dtype)


def spd(values, trax):
    "A batch of invertible symmetric tensors (not all definite)."
    n = int(np.prod(trax))
    F = gen.fgrads(values, trax)
    C = np.einsum("kI...,kJ...->IJ...", F, F)
    sign = np.where(np.arange(n) % 3 == 1, -1.0, 1.0).reshape(trax)
    return voigt2(C * sign)


def bcast(trax, drop):
    "A shape of the same number of axes that broadcasts with trax."
    return tuple(1 if (drop >> i) & 1 else s for i, s in enumerate(trax))


def outarray(shape, kind):
    if kind == "nan":
        return np.full(shape, np.nan)
    if kind == "view":
        return np.full([2 * s for s in shape], 9.0)[tuple(slice(None, None, 2) for _ in shape)]
    return np.full(shape, 3.5)


def grown(shape):
    "The shape with several points along the trailing axes of length one."
    nd = 2 if shape[:2] == (6, 6) else 1
    return (*shape[:nd], *[3 if s == 1 else s for s in shape[nd:]])


def sup(X, nd):
    "Largest magnitude per point over the first nd axes."
    return np.abs(X).max(axis=tuple(range(nd)))


def units(case):
    "Magnitude of the components (other physical units)."
    return 1.0 if {"int", "int32", "single"} & set(case["kinds"]) else 10.0 ** case["e"]


UNITS = st.sampled_from([0, 0, 0, 0, -9, -13, 7])


def check_products(case, ctx):
    m = ref.hel().math
    trax = tuple(case["shape"])
    ta, tb = trax, bcast(trax, case["drop"])
    if case["swap"]:
        ta, tb = tb, ta
    same = case["relation"]
    kinds = case["kinds"]
    unit = units(case)
    if same == "overlapping" and len(trax):  # views of one array
        x = unit * filled(case["a"] + case["b"], (6, trax[0] + 1, *trax[1:]))
        a, b = x[:, :-1], x[:, 1:]
        ctx.label("operands: overlapping views")
    elif same == "overlapping":
        x = unit * filled(case["a"] + case["b"], (12,))
        a, b = x[::2], x[1::2]
        ctx.label("operands: overlapping views")
    else:
        a = operand(values(case["a"], (6, *ta), kinds[0]), kinds[0], unit, 1)
    if same == "overlapping":
        pass
    elif same == "identical":
        b = a
    elif same == "equal":
        b = a.copy()
    elif same == "near":  # almost equal
        b = a + 10.0 ** -(3 + len(case["b"]) % 2 + case["drop"] % 7) * unit * filled(case["b"], (6, *ta))
    else:
        b = operand(values(case["b"], (6, *tb), kinds[1]), kinds[1], unit, 1)
    ctx.label(*(f"operand: {k}" for k in kinds))
    ctx.label(f"operands: {same}", f"trailing axes: {len(trax)}", f"out: {case['out']}")
    products(case, ctx, m, a, b, unit, accuracy(kinds))
    if case["again"]:
        change([a, b])
        products(case, ctx, m, a, b, unit, accuracy(kinds))


def products(case, ctx, m, a, b, unit, TOL):
    ta = a.shape[1:]
    tout = np.broadcast_shapes(a.shape[1:], b.shape[1:])
    A, B = full2(a), full2(b)
    a0, b0 = a.copy(), b.copy()
    small = 1e-3 * unit
    size = (sup(a, 1) + small) * (sup(b, 1) + small)
    tol = TOL * size

    def unchanged(what):
        ctx.same(a, a0, f"first operand of {what}")
        ctx.same(b, b0, f"second operand of {what}")

    # one tensor
    ctx.close(call("trace", m.trace, a), np.einsum("ii...->...", A), TOL * (sup(a, 1) + small), "trace")
    d = np.linalg.det(np.moveaxis(A.astype(float), (0, 1), (-2, -1)))
    big = np.asarray(sup(a, 1), dtype=float)
    ctx.close(call("det", m.det, a), d, TOL * (big**3 + small**3), "det")
    trA = np.einsum("ii...->...", A) / 3
    dev = voigt2(A - trA * np.eye(3).reshape(3, 3, *[1] * len(ta)))
    ctx.close(call("dev", m.dev, a), dev, TOL * (sup(a, 1) + small), "dev")
    ey = call("eye", m.eye, a)
    ctx.close(ey, voigt2(np.eye(3)).reshape(6, *[1] * len(ta)) * np.ones((6, *ta)), 0.0 + 1e-300, "eye", broadcast=True)
    ctx.same(call("eye", m.eye), np.array([1.0, 1, 1, 0, 0, 0]), "eye without argument")
    ctx.true(ey.dtype.kind == "f" and m.eye().dtype.kind == "f", f"eye: dtype {ey.dtype}")
    if ey.flags.writeable:  # every call gives an identity of its own
        first = ey.copy()
        ey += 3.0
        ctx.same(call("eye", m.eye, a), first, "eye, after an earlier one was changed")
    unchanged("trace, det, dev, eye")

    # two tensors
    out = call("dot", m.dot, a, b)
    ctx.close(out, np.einsum("ik...,kj...->ij...", A, B), 3 * tol, "dot")
    ctx.close(call("dot", m.dot, a, b, mode=(2, 2)), np.einsum("ik...,kj...->ij...", A, B), 3 * tol, "dot")
    ctx.close(call("ddot", m.ddot, a, b), np.einsum("ij...,ij...->...", A, B), 9 * tol, "ddot (2, 2)")
    unchanged("dot, ddot")

    def outs(shape, more=True):
        if case["out"] == "none":
            return [None]
        # the operands broadcast to the output array, which may have more points
        large = grown(shape)
        return [None, outarray(shape, case["out"])] + [outarray(large, case["out"])] * (more and large != shape)

    dy = voigt4(np.einsum("ij...,kl...->ijkl...", A, B))
    for o in outs((6, 6, *tout)):
        kw = {} if o is None else dict(out=o)
        w = "" if o is None else " with out"
        res = call("dya" + w, m.dya, a, b, **kw)
        ctx.close(res, *[np.broadcast_to(v, dy.shape if o is None else o.shape) for v in (dy, tol)], "dya" + w)
        if o is not None:
            ctx.close(o, *[np.broadcast_to(v, o.shape) for v in (dy, tol)], "output array of dya")
        unchanged("dya")

    ik = np.einsum("ik...,jl...->ijkl...", A, B)
    il = np.einsum("il...,kj...->ijkl...", A, B)
    for name, f, X in (("cdya_ik", m.cdya_ik, ik), ("cdya_il", m.cdya_il, il)):
        for o in outs((6, 6, *tout), False):  # the location is scratch space of reduced shape
            kw = {} if o is None else dict(out=o)
            w = "" if o is None else " with out"
            ctx.close(call(name + w, f, a, b, **kw), X, tol, name + w)
            unchanged(name)

    X = (
        ik + il
        + np.einsum("ik...,jl...->ijkl...", B, A)
        + np.einsum("il...,kj...->ijkl...", B, A)
    ) / 4  # fmt: skip
    for o in outs((6, 6, *tout)):
        kw = {} if o is None else dict(out=o)
        w = "" if o is None else " with out"
        res = call("cdya" + w, m.cdya, a, b, **kw)
        X4 = [np.broadcast_to(v, dy.shape if o is None else o.shape) for v in (voigt4(X), 2 * tol)]
        ctx.close(res, *X4, "cdya" + w)
        if o is not None:
            ctx.close(o, *X4, "output array of cdya")
        unchanged("cdya")


def check_fourth(case, ctx):
    m = ref.hel().math
    trax = tuple(case["shape"])
    ta, tb = trax, bcast(trax, case["drop"])
    if case["swap"]:
        ta, tb = tb, ta
    ctx.label(f"trailing axes: {len(trax)}")
    kinds = case["kinds"]
    unit = units(case)
    c = operand(values(case["a"], (6, 6, *ta), kinds[0]), kinds[0], unit, 2)
    e = operand(values(case["b"], (6, 6, *tb), kinds[1]), kinds[1], unit, 2)
    if case["relation"] == "identical":
        e = c
    x = values(case["x"], (6, *(tb if case["relation"] != "identical" else ta)), kinds[1])
    x = operand(x, kinds[1] if "int" in kinds[1] or kinds[1] == "single" else "c", unit, 1)
    fourth(case, ctx, m, c, e, x, unit, accuracy(kinds))
    if case["again"]:
        change([c, e, x])
        fourth(case, ctx, m, c, e, x, unit, accuracy(kinds))


def fourth(case, ctx, m, c, e, x, unit, TOL):
    small = 1e-3 * unit
    C, E, X = full4(c), full4(e), full2(x)
    saved = [v.copy() for v in (c, e, x)]
    tol2 = 9 * TOL * (sup(c, 2) + small) * (sup(x, 1) + small)
    tol4 = 9 * TOL * (sup(c, 2) + small) * (sup(e, 2) + small)
    ctx.close(
        call("ddot", m.ddot, c, x, mode=(4, 2)),
        voigt2(np.einsum("ijkl...,kl...->ij...", C, X)), tol2, "ddot (4, 2)",
    )  # fmt: skip
    ctx.close(
        call("ddot", m.ddot, x, c, mode=(2, 4)),
        voigt2(np.einsum("ij...,ijkl...->kl...", X, C)), tol2, "ddot (2, 4)",
    )  # fmt: skip
    ctx.close(
        call("ddot", m.ddot, c, e, mode=(4, 4)),
        voigt4(np.einsum("ijkl...,klmn...->ijmn...", C, E)), tol4, "ddot (4, 4)",
    )  # fmt: skip
    t = call("transpose", m.transpose, c)
    ctx.close(t, voigt4(np.einsum("ijkl...->klij...", C)), 1e-300, "transpose")
    for v, s, n in zip((c, e, x), saved, ("first", "second", "vector")):
        ctx.same(v, s, f"{n} operand of ddot/transpose")


def check_inv(case, ctx):
    m = ref.hel().math
    trax = tuple(case["shape"])
    a = spd(case["pts"], trax)
    if case["layout"] == "int":  # diagonally dominant
        a = np.rint(3 * a).astype(int)
        a[:3] = 1 + np.abs(a[:3]) + 2 * np.abs(a[3:]).max(axis=0)
    else:
        a = gen.layout(a * 10.0 ** case["e"], case["layout"], 1)
    ctx.label("operand: " + case["layout"])
    inverse(case, ctx, m, a)
    if case["again"] and a.flags.writeable:
        a[...] = -a if case["layout"] == "int" else 2.5 * a
        inverse(case, ctx, m, a)


def inverse(case, ctx, m, a):
    trax = a.shape[1:]
    A = full2(a)
    mats = np.moveaxis(A, (0, 1), (-2, -1))
    want = voigt2(np.moveaxis(np.linalg.inv(mats), (-2, -1), (0, 1)))
    d = np.linalg.det(mats)
    lam = np.abs(np.linalg.eigvalsh(mats))
    kappa = (lam.max(axis=-1) ** 3) / np.abs(d)
    size = sup(want, 1)
    tol = (1e-10 + 1e3 * ref.EPS * kappa) * size * np.ones_like(want)
    how = case["det"]
    ctx.label("determinant: " + how, f"trailing axes: {len(trax)}", "out: " + case["out"])
    a0 = a.copy()
    args = {}
    if how != "none":
        det = d * (2.0 if how == "other" else 1.0)
        want = want / (2.0 if how == "other" else 1.0)
        args["determinant"] = det.copy() if det.ndim else float(det)
    ctx.close(call("inv", m.inv, a, **args), want, tol, "inv")
    ctx.same(a, a0, "operand of inv")
    if how not in ("none",):
        ctx.same(args["determinant"], det, "determinant given to inv")
    if case["out"] == "self" and (case["layout"] == "int" or not a.flags.writeable):
        return
    if case["out"] == "self":
        o = a
    elif case["out"] == "none":
        return
    else:
        o = outarray(a.shape, case["out"])
    res = call("inv with out", m.inv, a, out=o, **args)
    ctx.close(res, want, tol, "inv with out")
    ctx.close(o, want, tol, "output array of inv")
    if o is not a:
        ctx.same(a, a0, "operand of inv with out")
        if grown(a.shape) != a.shape:  # the operand broadcasts to the output array
            o = outarray(grown(a.shape), case["out"])
            res = call("inv with out", m.inv, a, out=o, **args)
            for v, what in ((res, "inv with out"), (o, "output array of inv")):
                ctx.close(v, np.broadcast_to(want, o.shape), np.broadcast_to(tol, o.shape), what)


def check_metamorphic(case, ctx):
    "Rotating the operands rotates every result; inverses and identities."
    m = ref.hel().math
    a, b = spd(case["pts"], tuple(case["shape"])), filled(case["b"], (6, *case["shape"]))
    n = len(case["shape"])
    # A : (X) with the symmetric identity, and with I (x) I
    I = call("eye", m.eye, a)
    I4 = call("cdya", m.cdya, I, I)
    size = 1e-10 * (sup(b, 1) + 1e-3)
    ctx.close(call("ddot", m.ddot, I4, b, mode=(4, 2)), b, size, "symmetric identity : B = B")
    ctx.close(
        call("ddot", m.ddot, call("dya", m.dya, I, I), b, mode=(4, 2)),
        call("trace", m.trace, b) * I, 3 * size, "(I dya I) : B = tr(B) I",
    )  # fmt: skip
    ai = call("inv", m.inv, a)
    mats = np.moveaxis(full2(a), (0, 1), (-2, -1))
    lam = np.abs(np.linalg.eigvalsh(mats))
    k = (lam.max(axis=-1) / lam.min(axis=-1)) ** 2
    tol = 1e-10 + 1e3 * ref.EPS * k
    dot = call("dot", m.dot, a, ai)
    ctx.close(dot, np.eye(3).reshape(3, 3, *[1] * n) * np.ones_like(dot), tol, "A inv(A) = I")
    ctx.close(call("ddot", m.ddot, a, ai), 3 + 0 * k, 3 * tol, "A : inv(A) = 3")
    # derivative of the inverse, d(inv A) : B = -inv(A) B inv(A)
    D = call("ddot", m.ddot, call("cdya", m.cdya, ai, ai), b, mode=(4, 2))
    W = mm(mm(full2(ai), full2(b)), full2(ai))
    ctx.close(D, voigt2(W), (1e-10 + 1e3 * ref.EPS * k) * sup(ai, 1) ** 2 * (sup(b, 1) + 1e-3) * 9, "inv(A) cdya inv(A) : B")


def data(n):
    return st.lists(gen.entries(), min_size=n, max_size=n)


KINDS = ["c", "c", *gen.LAYOUTS, "int", "int", "int32", "single"]


def operands(**extra):
    return st.fixed_dictionaries(
        dict(
            a=data(9),
            b=data(9),
            shape=gen.anyshapes(),
            drop=st.integers(0, 15),
            swap=st.booleans(),
            relation=st.sampled_from(["distinct", "distinct", "near", "equal", "identical", "overlapping"]),
            kinds=st.lists(st.sampled_from(KINDS), min_size=2, max_size=2),
            out=st.sampled_from(["none", "nan", "view", "value"]),
            e=UNITS,
            again=st.sampled_from([False, False, True]),
            **extra,
        )
    )


def distinct(c):
    return len(set(c["a"])) > 1


SUBS = [
    Sub("products", operands, check_products, "values of the operand are not all equal", 4000, distinct),
    Sub("fourth", lambda: operands(x=data(6)), check_fourth, "values of the operand are not all equal", 3000, distinct),
    Sub(
        "inverse",
        lambda: st.fixed_dictionaries(
            dict(
                pts=st.lists(gen.points(far=False), min_size=1, max_size=4),
                shape=gen.anyshapes(),
                det=st.sampled_from(["none", "given", "other"]),
                out=st.sampled_from(["none", "nan", "view", "self", "value"]),
                layout=st.sampled_from([k for k in KINDS if k not in ("int32", "single")]),
                e=UNITS,
                again=st.booleans(),
            )
        ),
        check_inv,
        "a tensor differs from the identity",
        3000,
        lambda c: not all(map(gen.is_trivial, c["pts"])),
    ),
    Sub(
        "identities",
        lambda: st.fixed_dictionaries(
            dict(pts=st.lists(gen.points(far=False), min_size=1, max_size=4), shape=gen.anyshapes(), b=data(9))
        ),
        check_metamorphic,
        "a tensor differs from the identity",
        1500,
        lambda c: not all(map(gen.is_trivial, c["pts"])),
    ),
]
