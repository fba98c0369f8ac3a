"""Force/area configurations are Piola transformations of one response."""

from .common import *


def check(case, ctx):
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.layout(gen.fgrads(case["pts"], case["shape"]), case["layout"])
    ctx.opts = dict(parallel=True) if case["parallel"] else {}
    r = ref.response(spec, sp, F, tangent=False)
    fw = call("construction", ref.framework, spec) if case["share"] else None

    def make(**kw):
        return call("construction", ref.umat, spec, sp, fw=fw, **ctx.opts, **kw)

    base = make(force=None, area=0)
    P = stress("base", base, F, ctx)
    A = tangent("base", base, F, ctx)

    lmax, lmin = r.lam.max(axis=0), r.lam.min(axis=0)
    Fi = invt(F)
    J = dett(F)
    up, down = np.maximum(1, lmax), np.maximum(1, 1 / lmin)
    S = mm(Fi, P)
    I = np.eye(3).reshape(3, 3, *[1] * (F.ndim - 2))

    for force in (None, 0):
        for area in (None, 0):
            name = f"force={force}, area={area}"
            s, a = P, A
            k = 3.0
            if force == 0:
                s = mm(Fi, s)
                a = np.einsum("Ii...,Kk...,iJkL...->IJKL...", Fi, Fi, a)
                k = k * 9 * down**2
            if area is None:
                s = mm(s, T(F)) / J
                a = np.einsum("iJkL...,jJ...,lL...->ijkl...", a, F, F) / J
                k = k * 9 * up**2 / J
            u = make(force=force, area=area)
            order = (stress, tangent) if case["first"] == "g" else (tangent, stress)
            for f in order:
                if f is stress:
                    ctx.close(f(name, u, F, ctx), s, r.sameP * k, f"stress, {name}")
                else:
                    ctx.close(f(name, u, F, ctx), a, r.sameA * k, f"elasticity, {name}")

    # not finalised: reduced storage, no initial stress (area/force do not matter)
    off = {"False": False, "0": 0, "numpy": np.bool_(False)}[case["off"]]
    for force, area in ((None, 0), (0, None)):
        u = make(finalize=off, force=force, area=area)
        trax = F.shape[2:]
        out = call("not finalised gradient", u.gradient, [F, None])[0]
        out = ctx.array(out, "not finalised stress", shape=(6, *trax), broadcast=True)
        ctx.close(out, voigt2(S), r.tolP * 3 * down, "stress, not finalised")
        C4 = np.einsum(
            "Ii...,Kk...,iJkL...->IJKL...", Fi, Fi, A - np.einsum("ik...,JL...->iJkL...", I + 0 * F, S)
        )  # fmt: skip
        out = call("not finalised hessian", u.hessian, [F, None])[0]
        out = ctx.array(out, "not finalised elasticity", shape=(6, 6, *trax), broadcast=True)
        ctx.close(
            out, voigt4(C4), (r.tolA + r.tolP * down) * 30 * down**2, "elasticity, not finalised"
        )


SUBS = [
    Sub(
        "configurations",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=gen.spaces(),
                pts=st.lists(gen.points(), min_size=1, max_size=3),
                shape=gen.shapes(),
                layout=st.sampled_from(gen.LAYOUTS),
                parallel=st.booleans(),
                share=st.booleans(),
                first=st.sampled_from("gh"),
                off=st.sampled_from(["False", "False", "0", "numpy"]),
            )
        ),
        check,
        RULE,
        2000,
        nontrivial,
    )
]
