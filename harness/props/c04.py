"""Distortional and dilatational projections separate shape and volume."""

from .common import *


def check_dist(case, ctx):
    label(ctx, dict(case, space="distortional"))
    spec = case["spec"]
    F = gen.fgrads(case["pts"])
    s = case["s"]
    u = call("construction", ref.umat, spec, "distortional", **ctx.opts)
    d = call("construction", ref.umat, spec, "deformation", **ctx.opts)
    r = ref.response(spec, "distortional", F, tangent=False)
    lmax, lmin = r.lam.max(axis=0), r.lam.min(axis=0)

    P = stress("", u, F, ctx)
    tr = np.einsum("iJ...,iJ...->...", P, F)
    ctx.close(tr, 0 * tr, 10 * r.tolP * lmax, "deviatoric Cauchy stress")

    ctx.close(stress("scaled", u, s * F, ctx), P / s, 2 * r.tolP / s, "P(sF) = P(F)/s")
    A = tangent("", u, F, ctx)
    ctx.close(
        tangent("scaled", u, s * F, ctx), A / s**2, 2 * r.tolA / s**2, "A(sF) = A(F)/s^2"
    )

    Q = gen.rot(case["Q"]).reshape(3, 3, 1)
    q = ref.response(spec, "distortional", s * Q, tangent=False)
    ctx.close(stress("volume change", u, s * Q, ctx), 0 * Q, q.tolP, "stress free at sQ")

    # unimodular: physically deviatoric part of the deformation-space stress
    Fu = F / dett(F) ** (1 / 3)
    ru = ref.response(spec, "deformation", Fu, tangent=False)
    Pd = stress("deformation space", d, Fu, ctx)
    p = np.einsum("iJ...,iJ...->...", Pd, Fu) / 3
    ctx.close(
        stress("unimodular", u, Fu, ctx),
        Pd - p * T(invt(Fu)),
        10 * ru.tolP * ru.lam.max(axis=0) / ru.lam.min(axis=0)
        + ref.response(spec, "distortional", Fu, tangent=False).tolP,
        "deviatoric part on unimodular deformations",
    )


def check_dil(case, ctx):
    label(ctx, dict(case, space="dilatational"))
    spec = case["spec"]
    F = gen.fgrads(case["pts"])
    s = case["s"]
    u = call("construction", ref.umat, spec, "dilatational", **ctx.opts)
    d = call("construction", ref.umat, spec, "deformation", **ctx.opts)
    r = ref.response(spec, "dilatational", F, tangent=False)
    lmax = r.lam.max(axis=0)

    tau = mm(stress("", u, F, ctx), T(F))
    p = np.trace(tau) / 3
    I = np.eye(3).reshape(3, 3, 1)
    tol = 10 * r.tolP * lmax
    ctx.close(tau, p * I, tol, "hydrostatic Cauchy stress")

    # another deformation with the same volume ratio
    G = gen.fgrad(case["iso"])
    G = G / np.linalg.det(G) ** (1 / 3)
    FG = np.einsum("ij,jK...->iK...", G, F)
    rg = ref.response(spec, "dilatational", FG, tangent=False)
    tau2 = mm(stress("isochoric superposed", u, FG, ctx), T(FG))
    ctx.close(
        tau2, p * I, tol + 10 * rg.tolP * rg.lam.max(axis=0), "function of the volume alone"
    )

    Q = gen.rot(case["Q"]).reshape(3, 3, 1)
    q = ref.response(spec, "deformation", s * Q, tangent=False)
    qd = ref.response(spec, "dilatational", s * Q, tangent=False)
    ctx.close(
        stress("volume change", u, s * Q, ctx),
        stress("deformation space", d, s * Q, ctx),
        q.tolP + qd.tolP,
        "equals the deformation space on volume changes",
    )


def strategy():
    s = st.one_of(st.sampled_from([0.5, 2.0, 1.0, 0.9]), gen.fl(0.3, 3.0))
    return st.fixed_dictionaries(
        dict(
            spec=gen.models(),
            pts=st.lists(gen.points(), min_size=1, max_size=3),
            s=s,
            Q=gen.angles(),
            iso=gen.points(wide=False),
            how=presentations(),
        )
    )


SUBS = [
    Sub("distortional", strategy, check_dist, RULE, 1800, nontrivial),
    Sub("dilatational", strategy, check_dil, RULE, 1800, nontrivial),
]
