"""Stress is the gradient of the strain energy."""

from .common import *


def check_stress(case, ctx):
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.fgrads(case["pts"])
    r = ref.response(spec, sp, F, tangent=False)
    u = call("construction", ref.umat, spec, sp, **ctx.opts)
    P = stress("", u, F, ctx)
    ctx.close(P, r.P, r.tolP, f"stress [{spec['kind']}, {sp}]")


def check_work(case, ctx):
    "dW along a straight path = P : dF, from energies only (no derivative of W)."
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.fgrads(case["pts"])
    H = np.array(case["dir"], dtype=float).reshape(3, 3, 1)
    H = H / max(1.0, float(np.abs(H).max()))
    r = ref.response(spec, sp, F, tangent=False)
    lmin = r.lam.min(axis=0)
    h = 4e-3 * lmin
    slope, bound = 0.0, 0.0
    for m, w in ref.STENCIL:
        for sign in (1, -1):
            q = ref.response(spec, sp, F + sign * m * h * H, tangent=False)
            slope = slope + sign * w * q.W / h
            bound = bound + abs(w) * q.absW / h * 1e2 * ref.EPS
    # truncation of the difference scheme, from the reference itself
    trunc = np.abs(slope - np.einsum("ij...,ij...->...", r.P, H * np.ones_like(F)))
    u = call("construction", ref.umat, spec, sp, **ctx.opts)
    P = stress("", u, F, ctx)
    dW = np.einsum("ij...,ij...->...", P, H * np.ones_like(F))
    ctx.close(dW, slope, 9 * r.tolP + bound + 2 * trunc, f"power [{spec['kind']}, {sp}]")


SUBS = [
    Sub("stress", lambda: cases(), check_stress, RULE, 5000, nontrivial),
    Sub(
        "work",
        lambda: cases(dir=st.lists(gen.fl(-1, 1), min_size=9, max_size=9)),
        check_work,
        RULE,
        1200,
        nontrivial,
    ),
]
