"""Spectral decomposition reproduces the tensor."""

from .common import *

FUNS = dict(
    none=None,
    sqrt=np.sqrt,
    square=np.square,
    log=np.log,
    exp=lambda x: np.exp(1e-3 * x),
    decreasing=lambda x: -x,
    affine=lambda x: 2 * x + 1,
)


def tensors(case):
    n = int(np.prod(case["shape"]))
    if case["kind"] == "definite":
        F = gen.fgrads(case["pts"], case["shape"])
        return np.einsum("kI...,kJ...->IJ...", F, F)
    out = []
    period = 12 * len(case["pts"])
    for i in range(min(n, period)):
        p = case["pts"][i % len(case["pts"])]
        R = gen.rot(case["a"])
        w = np.sort(np.array(case["w"]) + 0.1 * (i % 3))
        if p["k"] == "polar" and i % 2:
            w[1] = w[0]
        if case["zero"] and i % 4 == 2:
            w = w * 0
        out.append(R @ np.diag(w) @ R.T)
    S = np.moveaxis(np.array(out).reshape(-1, 3, 3)[np.arange(n) % period], 0, -1)
    S = (S + np.swapaxes(S, 0, 1)) / 2
    return S.reshape(3, 3, *case["shape"])


def check(case, ctx):
    m = ref.hel().math
    C = tensors(case)
    trax = C.shape[2:]
    c = voigt2(C)
    if case["layout"] == "integers":
        c = np.rint(c).astype(int)
        if case["kind"] == "definite":
            c[:3] = np.maximum(np.abs(c[:3]), 2 + np.abs(c[3:]).max(axis=0) * 2)
        C = full2(c).astype(float)
        unit = 1.0
    else:
        unit = 10.0 ** case["e"]  # other physical units
        C, c = C * unit, c * unit
        c = gen.layout(c, case["layout"], 1)
    ctx.label("layout: " + case["layout"])
    spectral(case, ctx, m, C, c, unit)
    if case["again"] and c.flags.writeable:  # other values in the very same array
        f = 3 if case["layout"] == "integers" else 1.5
        c[...] = c * f
        spectral(case, ctx, m, C * f, c, unit)
        c[:3] = c[:3] + np.asarray(2 * unit, dtype=c.dtype)
        spectral(case, ctx, m, full2(c).astype(float), c, unit)


def spectral(case, ctx, m, C, c, unit):
    trax = C.shape[2:]
    c0 = c.copy()
    name = case["fun"]
    if case["kind"] != "definite" and name in ("sqrt", "log"):
        name = "none"
    if name != "none" and case["e"]:
        name = "decreasing"  # a homogeneous one
    if name == "exp" and np.abs(C).max(initial=0) > 1e5:  # would overflow
        name = "affine"
    fun = FUNS[name]
    ctx.label("function: " + name, "tensor: " + case["kind"])
    args = {} if name == "none" and case["default"] else dict(fun=fun)
    out = call("eigh", m.eigh, c, **args)
    ctx.true(isinstance(out, (tuple, list)) and len(out) == 2, "eigh: not eigenvalues and bases")
    ctx.true(isinstance(out[0], np.ndarray) and isinstance(out[1], np.ndarray), "eigh: not arrays")
    w = ctx.array(out[0], "eigenvalues", shape=(3, *trax))
    M = ctx.array(out[1], "eigenbases", shape=(3, 6, *trax))
    ctx.same(c, c0, "argument of eigh")

    size = np.abs(C).max(axis=(0, 1)) + 1e-3 * unit
    tol = 1e-12 * size
    mats = np.moveaxis(C, (0, 1), (-2, -1))
    lam = np.moveaxis(np.linalg.eigvalsh(mats), -1, 0)  # ascending
    if name == "none":
        ctx.true(bool(np.all(np.diff(w, axis=0) >= 0)), "eigenvalues not in ascending order")
        ctx.close(w, lam, tol, "eigenvalues")
    else:
        # relative accuracy of a small eigenvalue is limited
        lo = np.abs(lam) if case["kind"] == "definite" else np.ones_like(lam)
        slope = dict(
            sqrt=lambda x: 1 / np.sqrt(x), square=lambda x: 2 * np.abs(x) + 1e-3, log=lambda x: 1 / x,
            exp=lambda x: np.exp(1e-3 * x), decreasing=lambda x: 1.0, affine=lambda x: 2.0,
        )[name](lo if name in ("sqrt", "log") else lam)  # fmt: skip
        ctx.close(w, fun(lam), tol * (slope + 1e-3) * 10 + 1e-13 * np.abs(fun(lam)) + 1e-300, f"function of the eigenvalues [{name}]")

    B = [full2(M[i]) for i in range(3)]
    I = np.eye(3).reshape(3, 3, *[1] * len(trax)) * np.ones((3, 3, *trax))
    ctx.close(B[0] + B[1] + B[2], I, 1e-12, "bases sum to the identity")
    ctx.close(sum(l * b for l, b in zip(lam, B)), C, 30 * tol, "bases weighted with eigenvalues")
    for i in range(3):
        for j in range(3):
            ctx.close(mm(B[i], B[j]), B[i] if i == j else 0 * I, 1e-12, "orthogonal projectors")
        ctx.close(np.einsum("ii...->...", B[i]), np.ones(trax), 1e-12, "trace of a projector")
        ctx.close(mm(C, B[i]), lam[i] * B[i], 30 * tol, "C M = lambda M")


SUBS = [
    Sub(
        "eigh",
        lambda: st.fixed_dictionaries(
            dict(
                kind=st.sampled_from(["definite", "definite", "general"]),
                pts=st.lists(gen.points(far=False), min_size=1, max_size=4),
                a=st.one_of(gen.angles(), gen.nearangles()),
                layout=st.sampled_from([*gen.LAYOUTS, "integers"]),
                w=st.lists(gen.fl(-5, 5), min_size=3, max_size=3),
                zero=st.booleans(),
                e=st.sampled_from([0, 0, 0, 0, -9, -14, 8]),
                shape=gen.anyshapes(),
                fun=st.sampled_from(sorted(FUNS)),
                default=st.booleans(),
                again=st.sampled_from([False, False, True]),
            )
        ),
        check,
        "a tensor is not a multiple of the identity",
        8000,
        lambda c: not all(map(gen.is_trivial, c["pts"])) or c["kind"] == "general",
    )
]
