"""The spaces apply any material formulation in the deformation tensor, also anisotropic ones."""

from ..jet import Jet, log
from .common import *

W2 = np.array([1.0, 1, 1, 2, 2, 2]).reshape(6, 1)
I2 = np.array([1.0, 1, 1, 0, 0, 0]).reshape(6, 1)


def square(K):
    return np.array(K, dtype=float).reshape(6, 6) + np.array(K, dtype=float).reshape(6, 6).T


def energy(terms, C):
    """Energy of the deformation tensor given by its six components (jets): sums of linear,
    quadratic and cubic terms of the strain, and of the stretches of families of fibres."""
    e = [(c - i) * w for c, i, w in zip(C, I2[:, 0], W2[:, 0])]
    out = e[0] * 0.0
    for t in terms:
        if t["k"] == "linear":
            out = out + sum((c * v for c, v in zip(t["c"], e)), e[0] * 0.0)
        elif t["k"] == "quadratic":
            K = square(t["K"])
            for a in range(6):
                for b in range(a, 6):
                    if K[a, b]:
                        out = out + e[a] * e[b] * ((0.5 if a == b else 1.0) * K[a, b])
        elif t["k"] == "cubic":
            s = sum((c * v for c, v in zip(t["c"], e)), e[0] * 0.0)
            out = out + s * s * s * t["m"]
        else:
            n = fibre(t["a"])
            s = sum((w * v for w, v in zip(n, e)), e[0] * 0.0)
            if t["k"] == "fibre":
                out = out + s * s * t["m"]
            else:  # softening
                out = out + log(s * s * 0.5 + 1.0) * t["m"]
    return out


def fibre(a):
    "Weights of the strain components in the strain of a fibre."
    n = gen.rot(a)[:, 0]
    return n[VI] * n[VJ]


class Solid:
    "The material formulation given to the spaces: derivatives in reduced storage."

    def __init__(self, terms, shape="full", isotropic=None, new=None, memory=False):
        self.terms, self.shape, self.isotropic, self.new = terms, shape, isotropic, new
        self.memory = {} if memory else None
        self.x = [np.eye(3), np.zeros(0)]
        self.received = []

    def _jet(self, C):
        e = Jet.variables(list(np.asarray(C)))
        return energy(self.terms, e)

    def _cut(self, out, C):
        "Constant derivatives, without repeating them for all the points."
        n = out.ndim - (C.ndim - 1)
        if self.shape == "cut" and C[0].size and all(t["k"] in ("linear", "quadratic")[: 1 if n == 1 else 2] for t in self.terms):
            return out[(Ellipsis, *[slice(0, 1)] * (C.ndim - 1))]
        return out

    def gradient(self, C, statevars):
        self.received.append(np.array(C))
        return self._known("g", C, self._gradient), (statevars if self.new is None else self.new)

    def hessian(self, C, statevars):
        self.received.append(np.array(C))
        return self._known("h", C, self._hessian)

    def _known(self, kind, C, fun):
        "The formulation may return what it evaluated before."
        if self.memory is None:
            return fun(C)
        key = kind, C.shape, np.array(C).tobytes()
        if key not in self.memory:
            out = fun(C)
            self.memory[key] = out, out.copy()
        out, copy = self.memory[key]
        if not np.array_equal(out, copy, equal_nan=True):
            raise Violation("an array of the material formulation was changed")
        return out

    def _gradient(self, C):
        W = self._jet(C)
        out = self._cut(W.g / W2.reshape(6, *[1] * (C.ndim - 1)), C)
        if self.isotropic is not None:
            out = out + self.isotropic.gradient(C, None)[0]
        return out

    def _hessian(self, C):
        W = self._jet(C)
        w = W2.reshape(6, *[1] * (C.ndim - 1))
        out = self._cut(W.h / w / w[:, None], C)
        if self.isotropic is not None:
            out = out + self.isotropic.hessian(C, None)
        return out


def response(terms, sp, F):
    "Stress and elasticity of the energy by derivatives in the nine components."
    trax = F.shape[2:]
    f = Jet.variables(list(F.reshape(9, -1)))
    f = [f[:3], f[3:6], f[6:]]
    C = [f[0][i] * f[0][j] + f[1][i] * f[1][j] + f[2][i] * f[2][j] for i, j in zip(VI, VJ)]
    if sp != "deformation":
        J = (
            f[0][0] * (f[1][1] * f[2][2] - f[1][2] * f[2][1])
            - f[0][1] * (f[1][0] * f[2][2] - f[1][2] * f[2][0])
            + f[0][2] * (f[1][0] * f[2][1] - f[1][1] * f[2][0])
        )
        if sp == "distortional":
            s = J ** (-2 / 3)
            C = [s * c for c in C]
        else:
            s = J ** (2 / 3)
            C = [s, s, s, s * 0.0, s * 0.0, s * 0.0]
    W = energy(terms, C)
    r = ref.Response()
    r.P = W.g.reshape(3, 3, *trax)
    r.A = W.h.reshape(3, 3, 3, 3, *trax)
    r.scaleP = W.mg.max(axis=0).reshape(trax) + 1e-300
    r.scaleA = W.mh.max(axis=(0, 1)).reshape(trax) + 1e-300
    r.C = np.array([c.v for c in C]).reshape(6, *trax)
    return r


def check(case, ctx):
    present(ctx, case)
    terms, sp = case["terms"], case["space"]
    ctx.label("space: " + sp, *("term: " + t["k"] for t in terms))
    for p in case["pts"]:
        ctx.label(gen.classify(p))
    F = gen.fgrads(case["pts"])
    r = response(terms, sp, F)
    P, A, scaleP, scaleA = r.P, r.A, r.scaleP, r.scaleA
    iso = None
    if case["spec"] is not None:
        iso = call("construction", ref.framework, case["spec"])
        q = ref.response(case["spec"], sp, F)
        ctx.label("added to a built-in framework: " + gen.about(case["spec"]))
        P, A = P + q.P, A + q.A
    lam = np.linalg.svd(np.moveaxis(F, (0, 1), (-2, -1)), compute_uv=False)
    lmax, lmin = lam[..., 0], lam[..., 2]
    cond = np.maximum(lmax**6 / np.prod(lam, axis=-1) ** 2, (lmax / lmin) ** 2)
    noise = 1e-9 + 5e3 * ref.EPS * cond
    tolP, tolA = noise * scaleP, 10 * noise * (scaleA + scaleP / lmin)
    if iso is not None:
        tolP, tolA = tolP + q.tolP, tolA + q.tolA

    Fi, J = invt(F), dett(F)
    up, down = np.maximum(1, lmax), np.maximum(1, 1 / lmin)
    k = 3.0
    opts = dict(case["opts"])
    if opts.get("force", None) == 0:
        P = mm(Fi, P)
        A = np.einsum("Ii...,Kk...,iJkL...->IJKL...", Fi, Fi, A)
        k = k * 9 * down**2
    if opts.get("area", 0) is None:
        P = mm(P, T(F)) / J
        A = np.einsum("iJkL...,jJ...,lL...->ijkl...", A, F, F) / J
        k = k * 9 * up**2 / J
    solid = Solid(terms, case["form"], iso, memory=case["memory"])
    u = call("construction", ref.space, sp, solid, **opts, **ctx.opts)
    for f in [dict(g=stress, h=tangent)[o] for o in case["order"]]:
        if f is stress:
            ctx.close(f("user-defined material", u, F, ctx), P, tolP * k, f"stress [{sp}]")
        else:
            ctx.close(f("user-defined material", u, F, ctx), A, tolA * k, f"elasticity [{sp}]")

    # the formulation is evaluated at the part of the deformation
    solid.received.clear()
    call("gradient", u.gradient, [F, None])
    got = np.broadcast_to(solid.received[-1], r.C.shape)
    ctx.close(got, r.C, (1e-12 + 1e2 * ref.EPS * cond) * np.maximum(lmax, 1) ** 2, "deformation tensor given to the material")
    if not case["finalize"]:
        v = call("construction", ref.space, sp, solid, finalize=False, **ctx.opts)
        S = mm(Fi, r.P + (q.P if iso is not None else 0))
        out = call("not finalised gradient", v.gradient, [F, None])[0]
        out = ctx.array(out, "not finalised stress", shape=(6, *F.shape[2:]), broadcast=True)
        ctx.close(out, voigt2(S), 9 * tolP * down, "stress, not finalised")


def vectors(n):
    return st.lists(st.sampled_from([0.0, 1.0, -0.5]) | gen.fl(-1.0, 1.0), min_size=n, max_size=n)


def terms():
    m = st.sampled_from([1.0, 0.1, 20.0]) | gen.fl(0.05, 2.0)
    return st.lists(
        st.one_of(
            st.fixed_dictionaries(dict(k=st.just("linear"), c=vectors(6))),
            st.fixed_dictionaries(dict(k=st.just("quadratic"), K=vectors(36))),
            st.fixed_dictionaries(dict(k=st.just("cubic"), c=vectors(6), m=m)),
            st.fixed_dictionaries(dict(k=st.just("fibre"), a=gen.angles(), m=m)),
            st.fixed_dictionaries(dict(k=st.just("softening"), a=gen.angles(), m=m)),
        ),
        min_size=1,
        max_size=3,
    )


def strategy():
    return st.fixed_dictionaries(
        dict(
            terms=terms(),
            spec=st.none() | st.none() | gen.models(),
            space=gen.spaces(),
            form=st.sampled_from(["full", "cut"]),
            pts=st.lists(gen.points(False), min_size=1, max_size=3),
            how=presentations(),
            opts=st.sampled_from([{}, {}, dict(force=0), dict(area=None), dict(force=0, area=None), dict(force=None, area=0)]),
            memory=st.booleans(),
            order=st.sampled_from(["gh", "hg", "hgh"]),
            finalize=st.booleans(),
        )
    )


def stretched(case):
    return any(any(np.ravel([t.get("c", t.get("K", t.get("m")))])) for t in case["terms"])


SUBS = [
    Sub(
        "anisotropic",
        strategy,
        check,
        "the energy is not constant and a deformation gradient differs from the identity",
        1500,
        lambda c: stretched(c) and not all(map(gen.is_trivial, c["pts"])),
    )
]
