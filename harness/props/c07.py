"""Batched evaluation equals pointwise evaluation."""

from .common import *


def check(case, ctx):
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    shape = case["shape"]
    n = int(np.prod(shape))
    F = gen.fgrads(case["pts"], shape, case["odd"])
    place = gen.arrangement(len(case["pts"]), n, case["odd"])
    opts = dict(parallel=case["parallel"], **case["opts"])
    ctx.label(f"trailing axes: {len(shape)}", f"layout: {case['layout']}", f"parallel: {case['parallel']}")
    r = ref.response(spec, sp, F, tangent=False)
    lmax, lmin = r.lam.max(axis=0), r.lam.min(axis=0)
    k = 30 * np.maximum(lmax, 1 / lmin) ** 5 if case["opts"] else 2.0
    tolP, tolA = (r.sameP * k).reshape(-1), (r.sameA * k).reshape(-1)

    fw = call("construction", ref.framework, spec, parallel=case["fwparallel"])
    u = call("construction", ref.umat, spec, sp, fw=fw, **opts)
    X = gen.layout(F, case["layout"])
    final = opts.get("finalize", True)
    lead = (3, 3) if final else (6,)
    lead4 = (3, 3, 3, 3) if final else (6, 6)

    def both(umat, G, trax, order="gh"):
        res = {}
        for c in order:
            f = umat.gradient if c == "g" else umat.hessian
            out = call(f"evaluation {G.shape}", f, [G, None])[0]
            res[c] = ctx.array(
                out, f"result for {trax}", shape=(*(lead if c == "g" else lead4), *trax),
                broadcast=not final,
            )  # fmt: skip
        return res["g"], res["h"]

    P, A = both(u, X, tuple(shape), case["order"])
    ctx.same(X, F, "deformation gradient argument")
    P, A = P.reshape(*lead, n), A.reshape(*lead4, n)

    serial = dict(opts, parallel=False)
    f = F.reshape(3, 3, n)
    for m in range(len(case["pts"])):
        i = np.flatnonzero(place == m)
        if not len(i):
            continue
        one = call("construction", ref.umat, spec, sp, **serial)
        G = np.ascontiguousarray(f[:, :, i[0]])
        tail = ((), (1,), (1, 1))[m % 3]
        p, a = both(one, G.reshape(3, 3, *tail), tail)
        ctx.close(P[..., i], np.broadcast_to(p.reshape(*lead, 1), P[..., i].shape), tolP[i], "stress, batched vs single")
        ctx.close(A[..., i], np.broadcast_to(a.reshape(*lead4, 1), A[..., i].shape), tolA[i], "elasticity, batched vs single")

    # another order of the points
    if n > 1:
        perm = np.roll(np.arange(n), 1)[::-1]
        v = call("construction", ref.umat, spec, sp, **serial)
        p, a = both(v, np.ascontiguousarray(f[:, :, perm]), (n,))
        ctx.close(p, P[..., perm], tolP[perm], "stress, other order of points")
        ctx.close(a, A[..., perm], tolA[perm], "elasticity, other order of points")


def strategy(shape):
    return st.fixed_dictionaries(
        dict(
            spec=gen.models(),
            space=gen.spaces(),
            pts=st.one_of(
                st.lists(gen.points(), min_size=1, max_size=5),
                st.tuples(st.lists(gen.points(), min_size=1, max_size=2), gen.repeated()).map(
                    lambda t: [*t[0], t[1]]
                ),
                gen.contrast(),
            ),
            shape=shape,
            layout=st.sampled_from(gen.LAYOUTS),
            parallel=st.booleans(),
            fwparallel=st.booleans(),
            odd=st.none() | st.integers(0, 10000),
            order=st.sampled_from(["gh", "hg"]),
            opts=st.sampled_from(
                [
                    {},
                    {},
                    {},
                    dict(force=0),
                    dict(area=None),
                    dict(force=0, area=None),
                    dict(finalize=False),
                ]
            ),
        )
    )


def check_integers(case, ctx):
    "Integer deformation gradients are the same as floating point ones."
    spec, sp = case["spec"], case["space"]
    ctx.label(gen.about(spec), "space: " + sp)
    F = []
    for d, o in case["F"]:
        U = np.diag(d) + np.array([[0, o[0], o[1]], [0, 0, o[2]], [0, 0, 0]])
        L = np.eye(3, dtype=int) + np.array([[0, 0, 0], [o[3], 0, 0], [o[4], o[5], 0]])
        F.append(L @ U)
    F = np.moveaxis(np.array(F), 0, -1)
    if case["scalar"]:
        F = F[..., 0]
    F = F.astype(case["dtype"])
    r = ref.response(spec, sp, F.astype(float), tangent=False)
    amp = np.maximum(r.lam.max(axis=0), 1 / r.lam.min(axis=0)) ** 5 if case["opts"] else 1.0
    u = call("construction", ref.umat, spec, sp, **case["opts"])
    v = call("construction", ref.umat, spec, sp, **case["opts"])
    for op in case["order"]:
        name = dict(g="gradient", h="hessian")[op]
        got = call(f"{name} at an integer deformation gradient", getattr(u, name), [F, None])[0]
        want = np.array(call(name, getattr(v, name), [F.astype(float), None])[0])
        tol = (r.sameP if op == "g" else r.sameA) * amp
        tol = tol if tol.ndim == 0 or want.shape[-tol.ndim :] == tol.shape else np.max(tol)
        ctx.close(got, want, tol, f"{name} at an integer deformation gradient")


def strategy_integers():
    one = st.tuples(
        st.lists(st.sampled_from([1, 1, 2, 3]), min_size=3, max_size=3),
        st.lists(st.sampled_from([0, 0, 0, 1, -1, 2]), min_size=6, max_size=6),
    ).map(list)
    return st.fixed_dictionaries(
        dict(
            spec=gen.models(),
            space=gen.spaces(),
            F=st.lists(one, min_size=1, max_size=3),
            scalar=st.booleans(),
            dtype=st.sampled_from(["int64", "int64", "int32"]),
            order=st.sampled_from(["gh", "hg"]),
            opts=st.sampled_from([{}, {}, dict(force=0), dict(area=None), dict(finalize=False)]),
        )
    )


def check_empty(case, ctx):
    "No points at all."
    spec, sp = case["spec"], case["space"]
    ctx.label(gen.about(spec), "space: " + sp)
    opts = case["opts"]
    u = call("construction", ref.umat, spec, sp, fw=ref.framework(spec), parallel=case["parallel"], **opts)
    final = opts.get("finalize", True)
    for shape in case["shapes"]:
        F = gen.layout(np.zeros((3, 3, *shape)), case["layout"])
        for c in case["order"]:
            name = dict(g="gradient", h="hessian")[c]
            lead = (3, 3) if final else (6,)
            lead = lead * 2 if c == "h" else lead
            out = call(f"{name} without points {shape}", getattr(u, name), [F, None])[0]
            # without finalisation, results that are the same for all points need no axes for them
            ctx.comparisons += 1
            ctx.array(out, f"{name} without points", shape=(*lead, *shape), broadcast=not final)


def check_single(case, ctx):
    """Deformation gradients in single precision: the results are those of the same numbers
    in double precision up to single precision round-off."""
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.layout(gen.fgrads(case["pts"], case["shape"]).astype(np.float32), case["layout"])
    r = ref.response(spec, sp, np.array(F, dtype=float))
    if r.scaleA.size and not (r.scaleP.max() < 1e15 and r.scaleA.max() < 1e15):
        ctx.label("out of the range of single precision")
        return
    cond = r.noiseP / r.scaleP / (1e3 * ref.EPS)
    eps = float(np.finfo(np.float32).eps)
    keep = np.array(F)
    u = call("construction", ref.umat, spec, sp)
    # differences over small gaps of squared stretches amplify the round-off
    steps = case["order"] if spec["kind"] not in ("ogden", "userstr", "gen") else "g"
    for op in steps:
        if op == "g":
            got = stress("single precision", u, F, ctx)
            ctx.close(got, r.P, 1e2 * eps * cond * r.scaleP + 1e-25, "stress in single precision")
        else:
            got = tangent("single precision", u, F, ctx)
            ctx.close(got, r.A, 1e2 * eps * cond * r.scaleA + 1e-25, "elasticity in single precision")
    ctx.same(F, keep, "deformation gradient in single precision")


BIG = [[200], [7, 60], [1, 1000], [4, 3, 50], [33, 33], [3000], [8, 1, 130], [4, 2500], [20011], [40009]]
VAST = [[70001], [66000, 1], [2, 40000], [140001], [70001]]

SUBS = [
    Sub(
        "shapes",
        lambda: strategy(gen.shapes()),
        check,
        RULE + ", and there is more than one point",
        1800,
        lambda c: nontrivial(c) and int(np.prod(c["shape"])) > 1,
    ),
    Sub(
        "large",
        lambda: strategy(st.sampled_from(BIG)),
        check,
        RULE,
        300,
        nontrivial,
    ),
    Sub(
        "vast",
        lambda: strategy(st.sampled_from(VAST)),
        check,
        RULE,
        75,
        nontrivial,
    ),
    Sub(
        "empty",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=gen.spaces(),
                shapes=st.lists(st.sampled_from([*gen.EMPTY, [1, 0], [3]]), min_size=1, max_size=2).map(
                    lambda s: [x for x in s if 0 in x] or [[0]]
                ),
                layout=st.sampled_from(gen.LAYOUTS),
                parallel=st.booleans(),
                order=st.sampled_from(["gh", "hg", "h"]),
                opts=st.sampled_from([{}, dict(force=0), dict(area=None), dict(force=0, area=None), dict(finalize=False)]),
            )
        ),
        check_empty,
        "a modulus differs from zero",
        200,
        lambda c: gen.has_energy(c["spec"]),
    ),
    Sub(
        "integers",
        strategy_integers,
        check_integers,
        "a modulus differs from zero and a deformation gradient from the identity",
        500,
        lambda c: gen.has_energy(c["spec"]) and any(any(o) or set(d) != {1} for d, o in c["F"]),
    ),
    Sub(
        "single",
        lambda: cases(
            shape=gen.shapes(),
            layout=st.sampled_from(gen.LAYOUTS),
            order=st.sampled_from(["gh", "hg"]),
            wide=False,
        ),
        check_single,
        RULE,
        400,
        nontrivial,
    ),
]
