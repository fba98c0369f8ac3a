"""Pieces shared by the property modules."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation, call  # noqa: F401

OLD = None  # state variables of models without any


def presentations():
    """How deformation gradients are handed over: arranged on some trailing shape, in some
    memory layout, by threads or not, to a fresh object or to one with a history."""
    return st.one_of(
        st.none(),
        st.fixed_dictionaries(
            dict(
                shape=gen.shapes(),
                layout=st.sampled_from(gen.LAYOUTS),
                odd=st.none() | st.integers(0, 10000),
                warm=st.sampled_from(["", "", "g", "h", "g in place", "h in place"]),
                near=st.none() | st.sampled_from(gen.CLOSE),
                parallel=st.sampled_from([False, False, True]),
            )
        ),
    )


def cases(model=None, space=None, points=(1, 4), wide=True, **extra):
    "Model x space x some points."
    return st.fixed_dictionaries(
        dict(
            spec=gen.models() if model is None else model,
            space=gen.spaces() if space is None else space,
            pts=st.lists(gen.points(wide), min_size=points[0], max_size=points[1]),
            how=presentations(),
            **extra,
        )
    )


def nontrivial(case):
    return gen.has_energy(case["spec"]) and not all(map(gen.is_trivial, case["pts"]))


RULE = "a modulus differs from zero and a deformation gradient from the identity"


def label(ctx, case):
    present(ctx, case)
    ctx.label(gen.about(case["spec"]), "space: " + case["space"])
    for p in case["pts"]:
        ctx.label(gen.classify(p))


def present(ctx, case):
    "All evaluations of this case are presented as it says; options of the space for that."
    ctx.how = case.get("how")
    ctx.opts = {}
    if ctx.how is not None:
        ctx.label("layout: " + ctx.how["layout"], "before: " + (ctx.how["warm"] or "-") + (" (near)" if ctx.how["warm"] and ctx.how.get("near") else ""))
        if ctx.how["parallel"]:
            ctx.opts = dict(parallel=True)


MILD = np.array([[1.1, 0.2, 0.0], [-0.1, 0.9, 0.3], [0.0, 0.1, 1.2]])


def arranged(how, F):
    "Trailing shape, and which point is where."
    m, n = int(np.prod(F.shape[2:])), int(np.prod(how["shape"]))
    if not 0 < m <= n:
        return F.shape[2:], np.arange(m)
    k = gen.arrangement(m, n, how["odd"])
    if len(np.unique(k)) < m:
        k = gen.arrangement(m, n)
    return tuple(how["shape"]), k


def evaluate(what, umat, method, F, ctx, lead, statevars, pick):
    """Stress or elasticity of all points of F.  If a point is evaluated at several places,
    then the one which deviates most from the first one counts."""
    fun, how = getattr(umat, method), ctx.how
    if how is None:
        return ctx.array(pick(call(f"{what} {method}", fun, [F, statevars])), what, shape=(*lead, *F.shape[2:]))
    shape, k = arranged(how, F)
    m = int(np.prod(F.shape[2:]))
    G = gen.layout(F.reshape(3, 3, m)[..., k].reshape(3, 3, *shape), how["layout"])
    if how["warm"]:
        first = umat.gradient if how["warm"][0] == "g" else umat.hessian
        if how.get("near"):  # like the former one of the last iterations of a Newton scheme
            mild = gen.near(G, how["near"])
        else:
            mild = np.array(np.broadcast_to(MILD.reshape(3, 3, *[1] * len(shape)), G.shape))
        if how["warm"].endswith("place") and G.flags.writeable:
            keep = G.copy()
            G[...] = mild
            call(f"{what}, before", first, [G, statevars])
            G[...] = keep
        else:
            call(f"{what}, before", first, [mild, statevars])
    out = ctx.array(pick(call(f"{what} {method}", fun, [G, statevars])), what, shape=(*lead, *shape))
    out = out.reshape(*lead, len(k))
    if m:
        one = np.unique(k, return_index=True)[1]
        dev = np.abs(out - out[..., one[k]]).max(axis=tuple(range(len(lead))))
        order = np.lexsort((dev, k))
        out = out[..., order[np.searchsorted(k[order], np.arange(m), side="right") - 1]]
    return out.reshape(*lead, *F.shape[2:])


def first_of_two(out):
    if not isinstance(out, (list, tuple)) or len(out) != 2:
        raise Violation("gradient: not a pair of stress and state variables")
    return out[0]


def only_one(out):
    if not isinstance(out, (list, tuple)) or len(out) != 1:
        raise Violation("hessian: not a list of one elasticity tensor")
    return out[0]


def stress(what, umat, F, ctx, lead=(3, 3), statevars=OLD):
    return evaluate(f"{what} stress", umat, "gradient", F, ctx, lead, statevars, first_of_two)


def tangent(what, umat, F, ctx, lead=(3, 3, 3, 3), statevars=OLD):
    return evaluate(f"{what} elasticity", umat, "hessian", F, ctx, lead, statevars, only_one)


def T(F):
    return np.swapaxes(F, 0, 1)


def mm(A, B):
    return np.einsum("ij...,jk...->ik...", A, B)


def invt(F):
    "Inverse over the first two axes."
    f = np.moveaxis(F, (0, 1), (-2, -1))
    return np.moveaxis(np.linalg.inv(f), (-2, -1), (0, 1))


def dett(F):
    return np.linalg.det(np.moveaxis(F, (0, 1), (-2, -1)))


VI = [0, 1, 2, 0, 1, 0]
VJ = [0, 1, 2, 1, 2, 2]


def voigt2(A):
    return A[VI, VJ]


def voigt4(A):
    B = np.empty((6, 6, *A.shape[4:]))
    for a in range(6):
        for b in range(6):
            B[a, b] = A[VI[a], VJ[a], VI[b], VJ[b]]
    return B


FULL = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])


def full2(a):
    return np.asarray(a)[FULL]


def full4(a):
    a = np.asarray(a)
    out = np.empty((3, 3, 3, 3, *a.shape[2:]))
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    out[i, j, k, l] = a[FULL[i, j], FULL[k, l]]
    return out
