"""Elasticity tensor is the exact linearisation of the stress."""

from .common import *


def check_tangent(case, ctx):
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.fgrads(case["pts"])
    r = ref.response(spec, sp, F)
    lmin = r.lam.min(axis=0)
    h = 4e-3 * lmin
    X = ref.perturbed(F, h)
    q = ref.response(spec, sp, X, tangent=False)
    # what the difference scheme itself is off by, measured on the reference
    trunc = np.abs(ref.difference(q.P, h, 2) - r.A).max(axis=(0, 1, 2, 3))
    tol = r.tolA + 2 * trunc + 5 * q.noiseP.max(axis=-1) / h

    u = call("construction", ref.umat, spec, sp, **ctx.opts)
    P = stress("perturbed", u, X, ctx)
    expected = ref.difference(P, h, 2)
    A = tangent("", u, F, ctx)
    ctx.close(A, expected, tol, f"elasticity [{spec['kind']}, {sp}]")
    ctx.close(
        A, np.einsum("iJkL...->kLiJ...", A), 2 * r.tolA, f"major symmetry [{spec['kind']}, {sp}]"
    )


EQUAL = st.fixed_dictionaries(
    dict(k=st.just("polar"), l=gen.stretches(), a=gen.angles(), b=gen.angles())
)

SUBS = [
    Sub("tangent", lambda: cases(), check_tangent, RULE, 2600, nontrivial),
    Sub(
        "repeated",
        lambda: cases(
            model=gen.models(("ogden", "userstr", "gen")),
        ).map(lambda c: dict(c, pts=[merge(p, i) for i, p in enumerate(c["pts"])])),
        check_tangent,
        RULE,
        1000,
        nontrivial,
    ),
]


def merge(p, i):
    "Give a polar point two (nearly) equal stretches."
    if p["k"] != "polar":
        return p
    gap = [0.0, 1e-9, 3e-9, 1e-7, 1e-12][i % 5]
    a, b, c = p["l"]
    return dict(p, l=[a, a + gap, c])
