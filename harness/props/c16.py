"""Response is linear in the moduli and has the documented shear modulus."""

from .common import *


def scaled(spec, s):
    kind = spec["kind"]
    if kind == "gen":
        return dict(spec, inner=scaled(spec["inner"], s))
    if kind == "tod":
        return dict(spec, **{k: spec[k] * s for k in ("C10", "C01", "C11", "C20", "C30")})
    if kind == "ogden":
        return dict(spec, mu=[m * s for m in spec["mu"]])
    if kind == "user":
        return dict(spec, terms=[[c * s, e] for c, e in spec["terms"]], log=spec["log"] * s, fung=0)
    return dict(spec, terms=[[t[0], t[1] * s, *t[2:]] for t in spec["terms"]])


def added(a, b):
    "Sum of two energies of one kind (the second one takes over a's settings)."
    kind = a["kind"]
    if kind == "gen":
        return dict(a, inner=added(a["inner"], b))
    if kind == "tod":
        return dict(a, **{k: a[k] + b[k] for k in ("C10", "C01", "C11", "C20", "C30")})
    if kind == "ogden":
        return dict(a, mu=a["mu"] + b["mu"], alpha=a["alpha"] + b["alpha"])
    if kind == "user":
        return dict(a, terms=a["terms"] + b["terms"], log=a["log"] + b["log"], fung=0)
    return dict(a, terms=a["terms"] + b["terms"])


def linear(spec):
    if spec["kind"] == "gen":
        return dict(spec, inner=linear(spec["inner"]))
    return dict(spec, fung=0) if spec["kind"] == "user" else spec


def check_scale(case, ctx):
    label(ctx, case)
    spec, sp = linear(case["spec"]), case["space"]
    s = 10.0 ** case["e"] * case["m"]
    ctx.label(f"scale: 1e{int(round(case['e'] / 4)) * 4}")
    F = gen.fgrads(case["pts"])
    r = ref.response(spec, sp, F, tangent=False)
    u = call("construction", ref.umat, spec, sp, **{**ctx.opts, **case["opts"]})
    v = call("construction", ref.umat, scaled(spec, s), sp, **{**ctx.opts, **case["opts"]})
    k = 30 * np.maximum(r.lam.max(axis=0), 1 / r.lam.min(axis=0)) ** 5 if case["opts"] else 2.0
    P, A = stress("", u, F, ctx), tangent("", u, F, ctx)
    Ps, As = stress("scaled", v, F, ctx), tangent("scaled", v, F, ctx)
    ctx.close(Ps / s, P, k * r.tolP, "stress scales with the moduli")
    ctx.close(As / s, A, k * r.tolA, "elasticity scales with the moduli")


def check_sum(case, ctx):
    label(ctx, case)
    a, sp = linear(case["spec"]), case["space"]
    one = a["inner"] if a["kind"] == "gen" else a
    b = linear(case["other"][one["kind"]])
    if one["kind"] == "tod":
        b = dict(b, strain=one["strain"])
    if a["kind"] == "gen" and a["fun"][0] != "deformation" and one["kind"] == "user":
        b = dict(b, log=0)
    whole = added(a, b)
    part = dict(a, inner=b) if a["kind"] == "gen" else b
    F = gen.fgrads(case["pts"])
    tolP = tolA = 0.0
    P = A = 0.0
    for spec in (a, part):
        u = call("construction", ref.umat, spec, sp, **ctx.opts)
        P = P + stress("part", u, F, ctx)
        A = A + tangent("part", u, F, ctx)
        r = ref.response(spec, sp, F, tangent=False)
        tolP, tolA = tolP + r.tolP, tolA + r.tolA
    w = call("construction", ref.umat, whole, sp, **ctx.opts)
    ctx.close(stress("sum", w, F, ctx), P, 2 * tolP, "stress of the sum of energies")
    ctx.close(tangent("sum", w, F, ctx), A, 2 * tolA, "elasticity of the sum of energies")


def check_initial(case, ctx):
    "Initial response on the distortional space: isotropic with the shear modulus."
    spec = case["spec"]
    present(ctx, case)
    ctx.label(gen.about(spec))
    if spec["kind"] == "tod":
        spec = dict(spec, strain=False)
        mu = 2 * (spec["C10"] + spec["C01"])
        size = 2 * (abs(spec["C10"]) + abs(spec["C01"]))
        size += 20 * (abs(spec["C11"]) + abs(spec["C20"]) + abs(spec["C30"]))  # finite rounding of I1 - 3
    else:
        mu = sum(spec["mu"])
        size = sum(map(abs, spec["mu"])) * 3 + sum(abs(2 * m / a) for m, a in zip(spec["mu"], spec["alpha"]))
    Q = gen.rot(case["Q"])
    s = case["s"]
    F = (s * Q)[..., None] * np.ones(2)
    u = call("construction", ref.umat, spec, "distortional", **{**ctx.opts, **case["opts"]})
    P = stress("initial", u, F, ctx)
    A = tangent("initial", u, F, ctx)
    tol = 1e-9 * (size + 1e-300)
    ctx.close(P, 0 * P, tol / min(s, 1) ** 2, "stress free initial state")
    d = np.eye(3)
    iso = mu * (
        np.einsum("ik,JL->iJkL", d, d) + np.einsum("iL,Jk->iJkL", d, d)
        - 2 / 3 * np.einsum("iJ,kL->iJkL", d, d)
    )  # fmt: skip
    if not case["opts"]:
        # in the rotated frame: A_iJkL = Q_ia Q_kc iso_aJcL / s^2
        iso = np.einsum("ia,kc,aJcL->iJkL", Q, Q, iso) / s**2
    else:
        # Cauchy-type tangent: both legs are pushed forward, per deformed volume
        iso = iso / s**3
        iso = np.einsum("ia,jb,kc,ld,abcd->ijkl", Q, Q, Q, Q, iso)
    ctx.close(A, iso[..., None] * np.ones(2), tol * 10 / min(s, 1) ** 4, "initial elasticity of the shear modulus")


STATIC = st.sampled_from([{}, {}, {}, dict(force=0), dict(area=None), dict(parallel=True)])

SUBS = [
    Sub(
        "scaling",
        lambda: cases(
            points=(1, 3),
            e=st.one_of(st.integers(-12, 12), st.sampled_from([-12, -9, -8, -6, 6, 9, 12])),
            m=st.sampled_from([1.0, 2.5, 7.0]),
            opts=STATIC,
        ),
        check_scale,
        RULE + ", and the scale is not one",
        2000,
        lambda c: nontrivial(c) and (c["e"] != 0 or c["m"] != 1.0),
    ),
    Sub(
        "sums",
        lambda: cases(
            points=(1, 3),
            other=st.fixed_dictionaries(
                dict(tod=gen.tod(), ogden=gen.ogden(2), user=gen.user_inv(), userstr=gen.user_str())
            ),
        ),
        check_sum,
        RULE,
        1200,
        nontrivial,
    ),
    Sub(
        "shear-modulus",
        lambda: st.fixed_dictionaries(
            dict(
                spec=st.one_of(gen.tod(), gen.ogden(4)),
                Q=gen.angles(),
                s=st.sampled_from([1.0, 1.0, 1.0, 0.7, 1.6]),
                how=presentations(),
                opts=st.sampled_from([{}, {}, dict(area=None)]),
            )
        ),
        check_initial,
        "a modulus differs from zero",
        1500,
        lambda c: gen.has_energy(c["spec"]),
    ),
]
