"""The same energy gives the same response in every formulation."""

from .common import *


def poly(*terms):
    return dict(kind="user", terms=[list(t) for t in terms if t[0] != 0] or [[0.0, [1, 0, 0]]], log=0, fung=0)


def mul(p, q):
    "Product of polynomials given as {exponents: coefficient}."
    out = {}
    for (a, b, c), x in p.items():
        for (d, e, f), y in q.items():
            k = (a + d, b + e, c + f)
            out[k] = out.get(k, 0.0) + x * y
    return out


def tod_poly(t, a, b):
    "Third-order deformation of a(..), b(..) as a user-defined polynomial."
    out = {}
    aa = mul(a, a)
    for c, p in (
        (t["C10"], a), (t["C01"], b), (t["C11"], mul(a, b)), (t["C20"], aa), (t["C30"], mul(aa, a)),
    ):  # fmt: skip
        for k, v in p.items():
            out[k] = out.get(k, 0.0) + c * v
    return poly(*[(v, list(k)) for k, v in sorted(out.items())])


TOD0 = dict(kind="tod", C10=0, C01=0, C11=0, C20=0, C30=0, strain=False)


def pair(case):
    "Two specifications of one energy and the spaces on which they agree."
    which, c, k = case["pair"], case["c"], case["k"]
    if which == "neo-hooke = ogden 2":
        return dict(TOD0, C10=c), dict(kind="ogden", mu=[2 * c], alpha=[2]), gen.SPACES
    if which == "neo-hooke = ogden 2.0, two halves":
        return dict(TOD0, C10=c), dict(kind="ogden", mu=[c, c], alpha=[2.0, 2.0]), gen.SPACES
    if which == "second invariant = ogden -2":
        o = dict(kind="ogden", mu=[2 * c], alpha=[-2])
        return dict(TOD0, C01=c), o, ["distortional"]
    if which == "mooney-rivlin = ogden 2, -2":
        o = dict(kind="ogden", mu=[2 * c, 2 * k], alpha=[2.0, -2.0])
        return dict(TOD0, C10=c, C01=k), o, ["distortional"]
    if which == "generalized 2 = invariants":
        return case["inner"], dict(kind="gen", inner=case["inner"], fun=["deformation", 2]), gen.SPACES
    if which == "generalized k of neo-hooke = ogden k":
        g = dict(kind="gen", inner=dict(TOD0, C10=c), fun=["deformation", k])
        return g, dict(kind="ogden", mu=[2 * c], alpha=[k]), gen.SPACES
    if which == "third-order deformation = polynomial":
        t = dict(case["tod"], strain=False)
        return t, tod_poly(t, {(1, 0, 0): 1.0}, {(0, 1, 0): 1.0}), gen.SPACES
    if which == "third-order deformation in strain mode = polynomial":
        t = dict(case["tod"], strain=True)
        a, b = {(1, 0, 0): 1.0, (0, 0, 0): 3.0}, {(0, 1, 0): 1.0, (0, 0, 0): 3.0}
        return t, tod_poly(t, a, b), gen.SPACES
    if which == "generalized green-lagrange = polynomial":
        t = dict(case["tod"], strain=True)
        a = {(1, 0, 0): 0.5}
        b = {(0, 1, 0): 0.25, (1, 0, 0): -0.5}
        g = dict(kind="gen", inner=t, fun=["strain", 2])
        return g, tod_poly(t, a, b), gen.SPACES
    if which == "mixed strain = strain 2 or 1":
        w = case["n"] % 2
        x = dict(kind="gen", inner=dict(case["inner"], log=0), fun=["mixed", float(w)])
        return x, dict(x, fun=["strain", [1, 2][w]]), gen.SPACES
    if which == "ogden permuted":
        o = case["ogden"]
        return o, dict(o, mu=o["mu"][::-1], alpha=o["alpha"][::-1]), gen.SPACES
    if which == "ogden merged":
        return (
            dict(kind="ogden", mu=[c, 0.3, 2 * c], alpha=[k, 2, k]),
            dict(kind="ogden", mu=[3 * c, 0.3], alpha=[k, 2]),
            gen.SPACES,
        )
    if which == "ogden = user powers":
        o = case["ogden"]
        t = [["pow", 2 * m / a**2, a] for m, a in zip(o["mu"], o["alpha"])]
        return o, dict(kind="userstr", terms=t), gen.SPACES
    if which == "squared sum of stretches":
        t = [["pow", c, 2.0], ["pair", 2 * c], ["pow", -6 * c, 1.0]]
        return dict(kind="userstr", terms=[["sq", c]]), dict(kind="userstr", terms=t), gen.SPACES
    if which == "volumetric invariants = stretches":
        # ln(J)^2 has no polynomial, but (J - 1)^2 = J^2 - 2 J + 1 and I3 = J^2
        a = dict(kind="userstr", terms=[["pow", c, 2.0]])
        return a, poly((c, [1, 0, 0])), gen.SPACES
    raise KeyError(which)


PAIRS = [
    "neo-hooke = ogden 2",
    "neo-hooke = ogden 2.0, two halves",
    "second invariant = ogden -2",
    "mooney-rivlin = ogden 2, -2",
    "generalized 2 = invariants",
    "generalized 2 = invariants",
    "generalized k of neo-hooke = ogden k",
    "third-order deformation = polynomial",
    "third-order deformation in strain mode = polynomial",
    "generalized green-lagrange = polynomial",
    "mixed strain = strain 2 or 1",
    "ogden permuted",
    "ogden merged",
    "ogden = user powers",
    "squared sum of stretches",
]


def compare(ctx, name, sp, F, specs, umats):
    rs = [ref.response(s, sp, F, tangent=False) for s in specs]
    tolP, tolA = rs[0].tolP + rs[1].tolP, rs[0].tolA + rs[1].tolA
    a, b = umats
    ctx.close(
        stress("first formulation", a, F, ctx),
        stress("second formulation", b, F, ctx),
        tolP,
        f"stress: {name}",
    )
    ctx.close(
        tangent("first formulation", a, F, ctx),
        tangent("second formulation", b, F, ctx),
        tolA,
        f"elasticity: {name}",
    )


def check(case, ctx):
    a, b, spaces = pair(case)
    sp = spaces[case["n"] % len(spaces)]
    ctx.label("pair: " + case["pair"], "space: " + sp)
    present(ctx, case)
    F = gen.fgrads(case["pts"])
    umats = [call("construction", ref.umat, s, sp, **ctx.opts) for s in (a, b)]
    compare(ctx, case["pair"], sp, F, (a, b), umats)


# -- other ways to write down the same thing --------------------------------------------


def check_forms(case, ctx):
    "Containers of parameters, framework built from parts, automatic differentiation."
    import torch

    from .c14 import torch_energy

    present(ctx, case)
    F = gen.fgrads(case["pts"])
    sp, form, o = case["space"], case["form"], case["ogden"]
    ctx.label("form: " + form, "space: " + sp)
    h = ref.hel()
    if form.startswith("ogden"):
        spec = o
        mu, al = o["mu"], o["alpha"]
        if form == "ogden tuples":
            mu, al = tuple(mu), tuple(al)
        elif form == "ogden arrays":
            mu, al = np.array(mu, dtype=float), np.array(al, dtype=float)
        obj = call("Ogden", h.models.stretches.Ogden, mu, al)
        fw = call("framework", h.StretchesFramework, obj)
    elif form == "generalized from parts":
        spec = dict(case["gen"])
        fun, kw = ref.strainfun(spec["fun"])
        m = call("model", ref.model, spec["inner"])
        g = call("generalized model", h.models.stretches.GeneralizedInvariantsModel, m, fun, **kw)
        fw = call("framework", h.StretchesFramework, g)
    elif form == "third-order deformation, positional":
        spec = case["tod"]
        args = [spec[k] for k in ("C10", "C01", "C11", "C20", "C30", "strain")]
        fw = h.InvariantsFramework(
            call("model", h.models.invariants.ThirdOrderDeformation, *args)
        )
    elif form == "third-order deformation, defaults":
        spec = case["tod"]
        args = {k: v for k, v in spec.items() if k != "kind" and v}
        fw = h.InvariantsFramework(
            call("model", h.models.invariants.ThirdOrderDeformation, **args)
        )
    else:
        spec = case["user"]
        old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float64)
        try:
            fw = h.InvariantsFramework(
                call("TorchModel", h.models.invariants.TorchModel, torch_energy(spec))
            )
            a, b = ref.umat(spec, sp, **ctx.opts), ref.umat(spec, sp, fw=fw, **ctx.opts)
            compare(ctx, form, sp, F, (spec, spec), (a, b))
        finally:
            torch.set_default_dtype(old)
        return
    a, b = ref.umat(spec, sp, **ctx.opts), call("space", ref.umat, spec, sp, fw=fw, **ctx.opts)
    compare(ctx, form, sp, F, (spec, spec), (a, b))


FORMS = [
    "ogden tuples",
    "ogden arrays",
    "generalized from parts",
    "third-order deformation, positional",
    "third-order deformation, defaults",
    "automatic differentiation",
]


SUBS = [
    Sub(
        "pairs",
        lambda: st.fixed_dictionaries(
            dict(
                pair=st.sampled_from(PAIRS),
                c=st.one_of(gen.fl(0.05, 2.0), gen.fl(-1.0, -0.05)),
                k=gen.exponent(),
                n=st.integers(0, 5),
                inner=st.one_of(gen.tod(), gen.user_inv()),
                tod=gen.tod(),
                ogden=gen.ogden(),
                pts=st.lists(gen.points(), min_size=1, max_size=3),
                how=presentations(),
            )
        ),
        check,
        "a deformation gradient differs from the identity",
        2500,
        lambda c: not all(map(gen.is_trivial, c["pts"])),
    ),
    Sub(
        "forms",
        lambda: st.fixed_dictionaries(
            dict(
                form=st.sampled_from(FORMS),
                space=gen.spaces(),
                ogden=gen.ogden(),
                gen=gen.generalized(),
                tod=gen.tod(),
                user=gen.user_inv(),
                pts=st.lists(gen.points(), min_size=1, max_size=3),
                how=presentations(),
            )
        ),
        check_forms,
        "a deformation gradient differs from the identity",
        300,
        lambda c: not all(map(gen.is_trivial, c["pts"])),
    ),
]
