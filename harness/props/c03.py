"""Frame indifference, isotropy and symmetric Cauchy stress."""

from .common import *


def check(case, ctx):
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.fgrads(case["pts"])
    Q = gen.rot(case["Q"])
    r = ref.response(spec, sp, F, tangent=False)
    u = call("construction", ref.umat, spec, sp, **ctx.opts)
    P = stress("", u, F, ctx)

    left = np.einsum("ij,jJ...->iJ...", Q, F)
    right = np.einsum("iJ...,JK->iK...", F, Q)
    tolP, tolA = 2 * r.tolP, 2 * r.tolA

    ctx.close(
        stress("rotated body", u, left, ctx),
        np.einsum("ij,jJ...->iJ...", Q, P), tolP, "P(QF) = Q P(F)",
    )  # fmt: skip
    ctx.close(
        stress("rotated reference", u, right, ctx),
        np.einsum("iJ...,JK->iK...", P, Q), tolP, "P(FQ) = P(F) Q",
    )  # fmt: skip

    tau = mm(P, T(F))
    lmax = r.lam.max(axis=0)
    ctx.close(tau, T(tau), 10 * r.tolP * lmax, "symmetric Cauchy stress")
    b = mm(F, T(F))
    ctx.close(mm(tau, b), mm(b, tau), 30 * r.tolP * lmax**3, "coaxial with left Cauchy-Green")

    A = tangent("", u, F, ctx)
    ctx.close(
        tangent("rotated body", u, left, ctx),
        np.einsum("ia,kc,aJcL...->iJkL...", Q, Q, A), tolA, "A(QF) rotated from the left",
    )  # fmt: skip
    ctx.close(
        tangent("rotated reference", u, right, ctx),
        np.einsum("iAkC...,AJ,CL->iJkL...", A, Q, Q), tolA, "A(FQ) rotated from the right",
    )  # fmt: skip


SUBS = [
    Sub(
        "rotations",
        lambda: cases(Q=gen.angles()),
        check,
        RULE + ", and the rotation is not the identity",
        3500,
        lambda c: nontrivial(c) and not np.allclose(gen.rot(c["Q"]), np.eye(3)),
    )
]
