"""Generalized strain measures and their normalisation."""

from ..jet import Jet
from .common import *


def check_measure(case, ctx):
    g = ref.hel().models.generalized
    name, k, trax = case["name"], case["k"], tuple(case["shape"])
    ctx.label("measure: " + name, f"stretch: {case['as']}")
    n = int(np.prod(trax))
    lam = np.resize(np.array(case["v"]), n).reshape(trax)
    if case["as"] == "number":
        lam = np.float64(case["v"][0])
        arg = float(lam)
    elif case["as"] == "whole":
        lam = np.ceil(lam)
        arg = lam.astype(int)
    elif case["as"] == "one":
        lam = np.float64(1.0)
        arg = 1
    else:
        arg = lam.copy()
    E = ref.measure([name, k], Jet.variables([lam])[0])
    f = getattr(g, name)
    if k == int(k) and case["integer"]:
        k = dict(plain=int, numpy=np.int64, zero=lambda v: np.array(int(v)))[case["integer"]](k)
    out = call(name, f, arg, k) if case["positional"] else call(name, f, stretch=arg, exponent=k)
    ctx.true(isinstance(out, (tuple, list)) and len(out) == 6, f"{name}: not six values")
    size = 1e-12 * (1 + abs(k) + 1 / abs(k))
    shape = np.shape(lam)
    ctx.close(out[0], E.v, size * (E.mv + 1e-3), f"{name}", shape=shape)
    ctx.close(out[1], E.g[0], size * (E.mg[0] + 1e-3), f"{name}, first derivative", shape=shape)
    ctx.close(out[2], E.h[0, 0], size * (E.mh[0, 0] + 1e-3), f"{name}, second derivative", shape=shape, broadcast=True)
    want = (1.0, 2.0, 2.0) if name == "deformation" else (0.0, 1.0, 1.0)
    for v, w, what in zip(out[3:], want, ("value", "first derivative", "second derivative")):
        ctx.close(v, np.broadcast_to(w, np.shape(v)), 1e-12, f"reference {what} at one")
    if case["as"] in ("array", "whole"):
        ctx.same(arg, lam, "stretch argument")


class Probe:
    "Records the invariants a model is called with."

    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def gradient(self, I1, I2, I3, statevars):
        self.seen.append([np.array(I1, dtype=float), np.array(I2, dtype=float), np.array(I3, dtype=float)])
        return self.inner.gradient(I1, I2, I3, statevars)

    def hessian(self, I1, I2, I3, statevars):
        self.seen.append([np.array(I1, dtype=float), np.array(I2, dtype=float), np.array(I3, dtype=float)])
        return self.inner.hessian(I1, I2, I3, statevars)


def check_invariants(case, ctx):
    "The model is called with the normalised invariants of the measure."
    spec = case["spec"]
    ctx.label(gen.about(spec))
    probe = Probe(ref.model(spec["inner"]))
    fun, kw = ref.strainfun(spec["fun"])
    fw = call("framework", ref.hel().GeneralizedInvariantsFramework, probe, fun, **kw)
    u = ref.space(case["space"], fw)
    F = gen.fgrads([dict(k="polar", l=[1.0] * 3, a=[0.0] * 3, b=[0.0] * 3), *case["pts"]])
    r = ref.response(spec, case["space"], F, tangent=False)
    lam = Jet.variables(list(r.lam))
    E, c1, c2 = ref.normalisation(spec["fun"])
    x, y, z = [ref.measure(spec["fun"], v) for v in ref.part(case["space"], *lam)]
    want = [
        (x + y + z - 3 * E) * c1 + 3 * E,
        (x * y + y * z + z * x - 3 * E**2) * c2 + 3 * E**2,
        x * y * z,
    ]
    call(case["op"], getattr(u, case["op"]), [F, None])
    ctx.true(len(probe.seen) > 0, "the model was not called")
    cond = (r.lam.max(axis=0) / r.lam.min(axis=0)) ** 2
    for seen in probe.seen:
        for i in range(3):
            tol = (1e-10 + 1e3 * ref.EPS * cond) * (want[i].mv + want[i].mg.sum(axis=0) * r.lam.max(axis=0) + 1e-3)
            ctx.close(seen[i], want[i].v, tol, f"invariant {i + 1}")
            ctx.close(seen[i][0], [3 * E, 3 * E**2, E**3][i], 1e-9, f"undeformed invariant {i + 1}")


def check_stiffness(case, ctx):
    "The initial stiffness is that of the quadratic reference measure."
    inner = case["inner"]
    name = case["name"]
    k = case["k"]
    ctx.label("measure: " + name)
    F = np.repeat(gen.rot(case["Q"])[..., None], 2, axis=-1)
    res = []
    for kk in (k, 2 if name != "mixed" else 1.0):
        spec = dict(kind="gen", inner=inner, fun=[name, kk])
        u = call("construction", ref.umat, spec, "distortional")
        r = ref.response(spec, "distortional", F, tangent=False)
        P = stress("initial", u, F, ctx)
        A = tangent("initial", u, F, ctx)
        ctx.close(P, 0 * P, r.tolP, "no initial stress")
        res.append((A, r))
    tol = 20 * (res[0][1].tolA + res[1][1].tolA)
    ctx.close(res[0][0], res[1][0], tol, f"initial elasticity [{name}]")
    if name == "deformation":
        # the plain invariants
        u = call("construction", ref.umat, inner, "distortional")
        A = tangent("plain", u, F, ctx)
        ctx.close(res[0][0], A, tol, "initial elasticity of the plain invariants")


def poly12():
    "Energies in the first two invariants (the third is not normalised)."
    t = st.tuples(gen.modulus(), st.sampled_from([e for e in gen.EXPONENTS if e[2] == 0])).map(list)
    return st.lists(t, min_size=1, max_size=3).map(
        lambda t: dict(kind="user", terms=t, log=0, fung=0)
    )


@st.composite
def stiffness(draw):
    name = draw(st.sampled_from(["deformation", "strain", "mixed"]))
    k = draw(gen.fl(-0.5, 3.0) if name == "mixed" else gen.exponent())
    return dict(
        name=name,
        k=k,
        inner=draw(st.one_of(gen.tod(), gen.tod(), poly12())),
        Q=draw(gen.angles()),
    )


SUBS = [
    Sub(
        "measures",
        lambda: st.fixed_dictionaries(
            dict(
                name=st.sampled_from(["deformation", "strain"]),
                k=st.one_of(gen.exponent(), st.sampled_from([1e-3, -1e-3, 2, 10.0, -1, -2, 1, -3, 3])),
                v=st.lists(
                    st.one_of(
                        gen.fl(0.15, 6.0),
                        gen.fl(0.15, 6.0),
                        gen.fl(-3.0, 3.0).map(lambda e: 10.0**e),
                        st.just(1.0),
                        st.tuples(st.sampled_from([1, -1]), st.sampled_from(gen.CLOSE)).map(lambda t: 1.0 + t[0] * t[1]),
                    ),
                    min_size=1,
                    max_size=5,
                ),
                shape=gen.shapes(),
                positional=st.booleans(),
                integer=st.sampled_from(["", "plain", "numpy", "zero"]),
                **{"as": st.sampled_from(["array", "array", "number", "one", "whole"])},
            )
        ),
        check_measure,
        "a stretch differs from one",
        4000,
        lambda c: any(v != 1.0 for v in c["v"]),
    ),
    Sub(
        "invariants",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.generalized(),
                space=gen.spaces(),
                pts=st.lists(gen.points(), min_size=1, max_size=3),
                op=st.sampled_from(["gradient", "hessian"]),
            )
        ),
        check_invariants,
        "a deformation gradient differs from the identity",
        2000,
        lambda c: not all(map(gen.is_trivial, c["pts"])),
    ),
    Sub(
        "stiffness",
        stiffness,
        check_stiffness,
        "a modulus differs from zero and the exponent from the reference",
        1800,
        lambda c: gen.has_energy(c["inner"]) and c["k"] != 2,
    ),
]
