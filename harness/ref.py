"""Objects of the code under test from plain specifications, and their reference energies.

The reference is written down once, as the strain energy in the principal stretches of
the space's part of the deformation.  Its exact first and second derivatives (forward
differentiation) and the singular value decomposition of F give the first Piola-Kirchhoff
stress and its derivative; neither C = F^T F nor any formula of the library is involved.
"""

import numpy as np

from . import jet
from .jet import Jet

EPS = float(np.finfo(float).eps)


def hel():
    import hyperelastic

    return hyperelastic


# -- strain energies -------------------------------------------------------------------


def energy_inv(spec, I1, I2, I3):
    "Energy in the invariants (numbers, arrays or jets)."
    if spec["kind"] == "tod":
        u = 0.0 if spec["strain"] else 3.0
        a, b = I1 - u, I2 - u
        return (
            a * spec["C10"] + b * spec["C01"] + a * b * spec["C11"]
            + a * a * spec["C20"] + a * a * a * spec["C30"]
        )  # fmt: skip
    a, b, c = I1 - 3.0, I2 - 3.0, I3 - 1.0
    W = I1 * 0.0
    for coeff, (i, j, k) in spec["terms"]:
        term = coeff
        for x, n in ((a, i), (b, j), (c, k)):
            for _ in range(n):
                term = x * term
        W = W + term
    if spec.get("log"):
        W = W + jet.log(I3) * spec["log"]
    if spec.get("fung"):
        W = W + jet.exp(jet.tanh((a + b * 0.5 - c * 0.25) * 0.05) * spec["fung"])
    return W


def energy_str(spec, l1, l2, l3):
    "Energy in the principal stretches."
    lam = [l1, l2, l3]
    W = l1 * 0.0
    if spec["kind"] == "ogden":
        for mu, k in zip(spec["mu"], spec["alpha"]):
            for x in lam:
                W = W + (x ** float(k) - 1.0) * (2.0 * mu / k**2)
        return W
    for term in spec["terms"]:
        t, c = term[:2]
        if t == "pow":
            for x in lam:
                W = W + x ** float(term[2]) * c
        elif t == "hencky":
            for x in lam:
                y = jet.log(x)
                W = W + y * y * c
        elif t == "pair":
            for x, y in ((l1, l2), (l2, l3), (l1, l3)):
                W = W + x * y * c
        elif t == "J":
            y = l1 * l2 * l3 - 1.0
            W = W + y * y * c
        elif t == "sq":
            y = l1 + l2 + l3 - 3.0
            W = W + y * y * c
        elif t == "logJ":
            y = jet.log(l1) + jet.log(l2) + jet.log(l3)
            W = W + y * y * c
        else:
            raise KeyError(t)
    return W


def measure(fun, x):
    "Generalized strain or deformation measure of a stretch."
    name, p = fun[:2]
    if name == "deformation":
        return x ** float(p)
    if name == "strain":
        return (x ** float(p) - 1.0) / p
    if name == "affine":
        return x ** float(p) * fun[2][0] + fun[2][1]
    return (x * x - 1.0) * (0.5 * p) + (x - 1.0) * (1.0 - p)  # mixed


def normalisation(fun):
    "E(1), c1, c2 of a strain-stretch relation."
    name, p = fun[:2]
    if name == "affine":
        a, b, E0, d0, dd0 = fun[2]
        E, d, dd = a + b, a * p, a * p * (p - 1)
    elif name == "deformation":  # quadratic: E=1, E'=2, E''=2
        E, d, dd, E0, d0, dd0 = 1.0, p, p * (p - 1), 1.0, 2.0, 2.0
    elif name == "strain":  # Green-Lagrange: E=0, E'=1, E''=1
        E, d, dd, E0, d0, dd0 = 0.0, 1.0, p - 1.0, 0.0, 1.0, 1.0
    else:
        E, d, dd, E0, d0, dd0 = 0.0, 1.0, float(p), 0.0, 1.0, 1.0
    c1 = (dd0 + d0) / (dd + d)
    c2 = (2 * E0 * (dd0 + d0) - d0**2) / (2 * E * (dd + d) - d**2)
    return E, c1, c2


def energy(spec, l1, l2, l3):
    "Strain energy of any specification in the principal stretches."
    kind = spec["kind"]
    if kind in ("ogden", "userstr"):
        return energy_str(spec, l1, l2, l3)
    if kind == "gen":
        fun = spec["fun"]
        E, c1, c2 = normalisation(fun)
        x, y, z = [measure(fun, v) for v in (l1, l2, l3)]
        I1 = (x + y + z - 3 * E) * c1 + 3 * E
        I2 = (x * y + y * z + z * x - 3 * E**2) * c2 + 3 * E**2
        return energy_inv(spec["inner"], I1, I2, x * y * z)
    a, b, c = l1 * l1, l2 * l2, l3 * l3
    return energy_inv(spec, a + b + c, a * b + b * c + c * a, a * b * c)


def part(space, l1, l2, l3):
    "Principal stretches of the space's part of the deformation."
    if space == "deformation":
        return l1, l2, l3
    J = l1 * l2 * l3
    if space == "distortional":
        s = J ** (-1.0 / 3.0)
        return l1 * s, l2 * s, l3 * s
    s = J ** (1.0 / 3.0)
    return s, s, s


# -- reference response ----------------------------------------------------------------


class Response:
    "Energy W, stress P, tangent A (full shape of F) with per-point tolerances."


def flat(F):
    "(3, 3, *trax) -> (3, 3, N)"
    return np.ascontiguousarray(F, dtype=float).reshape(3, 3, -1)


def response(spec, space, F, tangent=True):
    F = np.asarray(F, dtype=float)
    trax = F.shape[2:]
    f = flat(F)
    U, s, Vh = np.linalg.svd(np.moveaxis(f, -1, 0))
    lam = s.T  # (3, N), descending
    W = energy(spec, *part(space, *Jet.variables(lam)))

    r = Response()
    r.lam = lam.reshape(3, *trax)
    r.W, r.absW = W.v.reshape(trax), W.mv.reshape(trax)
    P = np.einsum("nia,an,naJ->iJn", U, W.g, Vh)
    r.P = P.reshape(3, 3, *trax)

    lmax, lmin = lam[0], lam[2]
    cond = lmax**6 / np.prod(lam, axis=0) ** 2
    cond = np.maximum(cond, (lmax / lmin) ** 2)
    noise = 1e3 * EPS * cond
    scale = np.max(W.mg, axis=0) + 1e-300
    r.scaleP = scale.reshape(trax)
    r.noiseP = (noise * scale).reshape(trax)
    r.tolP = ((1e-11 + 5 * noise) * scale).reshape(trax)
    r.sameP = ((1e-12 + 5 * noise) * scale).reshape(trax)  # of two evaluations of the code
    scaleA = np.max(W.mh, axis=(0, 1)) + scale / lmin
    r.scaleA = scaleA.reshape(trax)

    # differences over small gaps of squared stretches in the stretch frameworks
    gap = np.abs(np.array([1 - (lam[1] / lam[0]) ** 2, 1 - (lam[2] / lam[1]) ** 2]))
    loss = np.max(np.where(gap < 1e-2, 1.0 / np.maximum(gap, 1e-8), 0.0), axis=0)
    loss = loss * (spec["kind"] in ("ogden", "userstr", "gen"))
    near = EPS * loss
    r.tolA = ((1e-10 + 5 * noise + 20 * near) * scaleA).reshape(trax)
    r.sameA = ((1e-12 + 5 * noise + 20 * near) * scaleA).reshape(trax)
    if not tangent:
        return r

    H = W.h
    B = np.zeros((3, 3, 3, 3, lam.shape[1]))
    for i in range(3):
        for k in range(3):
            B[i, i, k, k] = H[i, k]
    for i, j in ((0, 1), (1, 2), (0, 2)):
        # quotients of small differences: Gauss quadrature of the derivative along the gap
        g = lam[i] - lam[j]
        small = np.abs(g) < 1e-3 * lam[i]
        mid = lam.copy()
        mid[i], mid[j] = (lam[i] + lam[j]) / 2 + g / 12**0.5, (lam[i] + lam[j]) / 2 - g / 12**0.5
        M = energy(spec, *part(space, *Jet.variables(mid)))
        minus = np.where(
            small,
            (M.h[i, i] + M.h[j, j]) / 2 - M.h[i, j],
            (W.g[i] - W.g[j]) / np.where(small, 1.0, g),
        )
        plus = (W.g[i] + W.g[j]) / (lam[i] + lam[j])
        B[i, j, i, j] = B[j, i, j, i] = (minus + plus) / 2
        B[i, j, j, i] = B[j, i, i, j] = (minus - plus) / 2
    A = np.einsum("nia,nbJ,nkc,ndL,abcdn->iJkLn", U, Vh, U, Vh, B, optimize=True)
    r.A = A.reshape(3, 3, 3, 3, *trax)
    return r


# -- code under test -------------------------------------------------------------------


class UserInv:
    "A user-defined model in the invariants, with exact derivatives."

    def __init__(self, spec):
        self.spec = spec

    def _jet(self, I1, I2, I3):
        I1, I2, I3 = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in (I1, I2, I3)])
        return energy_inv(self.spec, *Jet.variables([I1, I2, I3]))

    def gradient(self, I1, I2, I3, statevars):
        g = self._jet(I1, I2, I3).g
        return g[0], g[1], g[2], statevars

    def hessian(self, I1, I2, I3, statevars):
        h = self._jet(I1, I2, I3).h
        return h[0, 0], h[1, 1], h[2, 2], h[0, 1], h[1, 2], h[0, 2]


class UserStr:
    "A user-defined model in the principal stretches, with exact derivatives."

    def __init__(self, spec):
        self.spec = spec

    def _jet(self, stretches):
        return energy_str(self.spec, *Jet.variables(list(np.asarray(stretches))))

    def gradient(self, stretches, statevars):
        return self._jet(stretches).g, statevars

    def hessian(self, stretches, statevars):
        h = self._jet(stretches).h
        return [h[0, 0], h[1, 1], h[2, 2], h[0, 1], h[1, 2], h[0, 2]]


def mixed(stretch, weight):
    "A user-defined strain-stretch relation (of the documented form)."
    x, w = stretch, weight
    one = x * 0 + 1.0
    return (
        (x * x - 1) * (0.5 * w) + (x - 1) * (1 - w), w * x + (1 - w), w * one,
        0.0, 1.0, 1.0,
    )  # fmt: skip


def affine(stretch, exponent, a, b, E0, d0, dd0):
    "A user-defined strain-stretch relation with any values at the undeformed state."
    x, k = stretch, float(exponent)
    return (
        a * x**k + b, a * k * x ** (k - 1), a * k * (k - 1) * x ** (k - 2),
        E0, d0, dd0,
    )  # fmt: skip


def model(spec):
    m = hel().models
    kind = spec["kind"]
    if kind == "tod":
        return m.invariants.ThirdOrderDeformation(
            **{k: spec[k] for k in ("C10", "C01", "C11", "C20", "C30", "strain")}
        )
    if kind == "ogden":
        return m.stretches.Ogden(mu=list(spec["mu"]), alpha=list(spec["alpha"]))
    if kind == "user":
        return UserInv(spec)
    if kind == "userstr":
        return UserStr(spec)
    raise KeyError(kind)


def strainfun(fun):
    g = hel().models.generalized
    name, p = fun[:2]
    if name == "affine":
        kw = list(zip(("exponent", "a", "b", "E0", "d0", "dd0"), [p, *fun[2]]))
        k = int(abs(p) * 1000) % len(kw)  # keywords come in any order
        return affine, dict(kw[k:] + kw[:k])
    if name == "mixed":
        return mixed, dict(weight=p)
    return dict(deformation=g.deformation, strain=g.strain)[name], dict(exponent=p)


def framework(spec, obj=None, **kwargs):
    h = hel()
    if spec["kind"] == "gen":
        fun, kw = strainfun(spec["fun"])
        inner = model(spec["inner"]) if obj is None else obj
        return h.GeneralizedInvariantsFramework(inner, fun, **kw, **kwargs)
    obj = model(spec) if obj is None else obj
    cls = (
        h.StretchesFramework
        if spec["kind"] in ("ogden", "userstr")
        else h.InvariantsFramework
    )
    return cls(obj, **kwargs)


def space(name, fw, **kwargs):
    h = hel()
    cls = dict(
        deformation=h.DeformationSpace,
        distortional=h.DistortionalSpace,
        dilatational=h.DilatationalSpace,
    )[name]
    return cls(fw, **kwargs)


def umat(spec, name, fw=None, **kwargs):
    return space(name, framework(spec) if fw is None else fw, **kwargs)


# -- differences -----------------------------------------------------------------------

STENCIL = [(1, 3 / 4), (2, -3 / 20), (3, 1 / 60)]


def perturbed(F, h):
    """(3, 3, *trax) -> (3, 3, *trax, 54): central stencil in all nine components with
    the step sizes h (*trax)."""
    out = np.repeat(F[..., None], 54, axis=-1)
    n = 0
    for i in range(3):
        for j in range(3):
            for m, _ in STENCIL:
                for sign in (1, -1):
                    out[i, j, ..., n] += sign * m * h
                    n += 1
    return out


def difference(Y, h, ndim):
    "Derivative (*Y.shape[:ndim], 3, 3, *trax) from values at the perturbed points."
    lead = Y.shape[:ndim]
    out = np.zeros((*lead, 3, 3, *h.shape))
    n = 0
    for i in range(3):
        for j in range(3):
            for m, w in STENCIL:
                for sign in (1, -1):
                    idx = (slice(None),) * ndim + (i, j)
                    out[idx] += sign * w * Y[..., n] / h
                    n += 1
    return out
