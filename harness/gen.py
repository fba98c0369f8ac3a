"""Strategies for plain, JSON-able cases and their decoding into arrays and objects."""

import numpy as np
from hypothesis import strategies as st

PI = float(np.pi)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


# -- kinematics ----------------------------------------------------------------------

GAPS = [0.0, 1e-14, 1e-12, 1e-10, 1e-9, 4e-9, 2e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]


def logstretch(wide=True):
    parts = [fl(-0.5, 0.7), fl(-1.1, 1.1)]
    if wide:
        parts.append(fl(-1.8, 1.8))
    return st.one_of(*parts)


@st.composite
def stretches(draw, wide=True):
    "Three principal stretches with every multiplicity."
    kind = draw(
        st.sampled_from(
            ["generic"] * 5 + ["two", "near", "near3", "three", "unit"]
        )
    )
    a, b, c = [draw(logstretch(wide)) for _ in range(3)]
    if kind == "two":
        b = a
    elif kind == "near":
        b = a + draw(st.sampled_from(GAPS))
    elif kind == "three":
        b = c = a
    elif kind == "near3":
        b = a + draw(st.sampled_from(GAPS))
        c = a - draw(st.sampled_from(GAPS))
    elif kind == "unit":
        b, c = 0.0, 0.0
    lam = [a, b, c]
    i = draw(st.integers(0, 2))
    return [float(np.exp(v)) for v in lam[i:] + lam[:i]]


@st.composite
def nearly(draw):
    "Stretches of nearly (or exactly) isochoric, or of very small deformations."
    gap = st.sampled_from([0.0, *GAPS[4:], *[-g for g in GAPS[4:]]])
    if draw(st.booleans()):
        a, b = draw(logstretch(False)), draw(st.just(0.0) | logstretch(False))
        lam = [a, b, draw(gap) - a - b]
    else:
        lam = [draw(gap), draw(gap), draw(gap)]
    return [float(np.exp(v)) for v in lam]


def nearangles():
    "Rotations, also by very small angles."
    small = st.sampled_from([0.0, 1e-9, -1e-8, 1e-7, -1e-6, 1e-5, 1e-4, -1e-3])
    return st.one_of(st.lists(small, min_size=3, max_size=3), angles())


def angles():
    quarter = st.sampled_from([0.0, PI / 2, PI, -PI / 2, PI / 4])
    return st.one_of(
        st.just([0.0, 0.0, 0.0]),
        st.lists(quarter, min_size=3, max_size=3),
        st.lists(fl(-PI, PI), min_size=3, max_size=3),
        st.lists(fl(-PI, PI), min_size=3, max_size=3),
    )


def points(wide=True, far=True):
    "One deformation gradient, as data."
    polar = st.fixed_dictionaries(
        dict(k=st.just("polar"), l=stretches(wide), a=angles(), b=angles())
    )
    shear = st.fixed_dictionaries(
        dict(
            k=st.just("shear"),
            g=fl(-2.0, 2.0),
            ij=st.sampled_from([[0, 1], [1, 0], [0, 2], [2, 0], [1, 2], [2, 1]]),
            s=st.sampled_from([1.0, 1.0, 0.8, 1.5]),
        )
    )
    raw = st.fixed_dictionaries(
        dict(k=st.just("raw"), h=st.lists(fl(-0.6, 0.6), min_size=9, max_size=9))
    )
    ident = st.just(dict(k="polar", l=[1.0, 1.0, 1.0], a=[0.0] * 3, b=[0.0] * 3))
    special = st.fixed_dictionaries(
        dict(k=st.just("polar"), l=nearly(), a=nearangles(), b=nearangles())
    )
    return st.one_of(polar, polar, polar, polar, shear, raw, raw, special, special, ident, *[scaled(polar, far)] * wide)


def scaled(polar, far=True):
    "Very small and very large stretches."
    return st.builds(
        lambda p, s: dict(p, l=[s * v for v in p["l"]]), polar, st.sampled_from([0.02, 0.1, 10.0, 40.0, *[0.001, 1000.0] * far])
    )


@st.composite
def contrast(draw):
    "Points with close principal stretches next to points with extreme ones."
    out = []
    for _ in range(draw(st.integers(1, 2))):
        a, b = draw(logstretch(False)), draw(logstretch(False))
        lam = [a, a + draw(st.sampled_from([1e-7, 1e-6, 1e-5, 1e-4, 1e-3])), b]
        out.append(dict(k="polar", l=[float(np.exp(v)) for v in lam], a=draw(angles()), b=draw(angles())))
    s = draw(st.sampled_from([5.0, 20.0, 60.0, 200.0]))
    lam = draw(st.sampled_from([[s, 1.0, 1 / s], [s, s, s], [1 / s, 1 / s, 1 / s], [s, 1.2, 0.9], [1 / s, 1.0, 1.1]]))
    out.insert(draw(st.integers(0, len(out))), dict(k="polar", l=lam, a=draw(angles()), b=[0.0] * 3))
    return out


@st.composite
def repeated(draw):
    "One deformation gradient with (two or three) equal principal stretches."
    a, b = draw(logstretch(False)), draw(st.just(0.0) | logstretch(False))
    lam = draw(st.permutations([float(np.exp(v)) for v in draw(st.sampled_from([[a, a, b], [a, a, a], [0.0, 0.0, 0.0]]))]))
    return dict(k="polar", l=list(lam), a=draw(angles()), b=draw(angles()))


def rot(angles):
    "Rotation matrix from three angles (z-y-x), exact for multiples of pi/2."
    R = np.eye(3)
    for axis, t in zip((2, 1, 0), angles):
        c, s = np.cos(t), np.sin(t)
        if abs(t / (PI / 2) - round(t / (PI / 2))) < 1e-12:
            c, s = round(c), round(s)
        i, j = [(1, 2), (2, 0), (0, 1)][axis]
        Q = np.eye(3)
        Q[i, i] = Q[j, j] = c
        Q[i, j], Q[j, i] = -s, s
        R = R @ Q
    return R


def fgrad(p):
    "Deformation gradient of one point."
    if p["k"] == "polar":
        return rot(p["a"]) @ np.diag(p["l"]) @ rot(p["b"])
    if p["k"] == "shear":
        F = np.eye(3)
        F[tuple(p["ij"])] += p["g"]
        return F * p["s"]
    H = np.array(p["h"], dtype=float).reshape(3, 3)
    while np.linalg.det(np.eye(3) + H) < 0.1 or np.linalg.cond(np.eye(3) + H) > 20:
        H = H / 2
    return np.eye(3) + H


def arrangement(m, n, odd=None):
    "Which of m points is at which of n places: cycled, or the last one at all places but m - 1."
    if odd is None or m == 1:
        return np.arange(n) % m
    k = np.full(n, m - 1)
    for j in range(m - 1):
        if n:
            k[(odd + 7919 * j) % n] = j
    return k


def fgrads(ps, shape=None, odd=None):
    "Array (3, 3, *shape) of the arranged points; default shape (len(ps),)."
    F = np.array([fgrad(p) for p in ps]).reshape(-1, 3, 3)
    if shape is not None:
        F = F[arrangement(len(F), int(np.prod(shape)), odd)].reshape(-1, 3, 3)
    F = np.moveaxis(F, 0, -1)
    return np.ascontiguousarray(F.reshape(3, 3, *(shape if shape is not None else F.shape[2:])))


CLOSE = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8]


def near(F, size):
    "Slightly different deformation gradients."
    K = np.array([[1.0, 0.5, -0.3], [0.2, -0.6, 0.4], [-0.7, 0.1, 0.8]])
    return np.einsum("iJ...,JK->iK...", F, np.eye(3) + size * K)


def classify(p):
    "Label of a point's principal stretches."
    lam = np.sort(np.linalg.svd(fgrad(p), compute_uv=False))
    g = np.diff(lam**2)
    kind = ["distinct" if x > 1e-2 else "near" if x > 1e-8 else "equal" for x in g]
    if kind.count("equal") == 2:
        return "stretches: three equal"
    if "equal" in kind:
        return "stretches: two equal"
    if "near" in kind:
        return "stretches: nearly equal"
    return "stretches: distinct"


def is_trivial(p):
    return bool(np.allclose(fgrad(p), np.eye(3)))


# -- shapes and memory layouts ---------------------------------------------------------


FIXED_SHAPES = [
    [], [1], [1, 1], [3], [6], [3, 3], [2, 1, 3], [1, 5], [9], [17], [1, 2, 1, 2], [6, 6],
    [2, 1, 2, 1, 2], [1, 2, 1, 1, 2, 3], [2, 1, 1], [1, 1, 3], [1, 1, 1], [3, 1, 1, 2], [2, 2, 1, 1],
]  # fmt: skip


LARGE_SHAPES = [[65], [130], [40, 30], [2, 300], [520], [1030], [4100]]
VAST_SHAPES = [[12007], [3, 4001], [10001, 1], [12007], [3, 4001], [70001]]


def long(lists):
    "Now and then, a generated list is repeated up to a length of some hundred (seldom: thousand) items."
    return st.integers(0, 11).flatmap(
        lambda k: lists if k else st.builds(
            lambda v, n: (v * n)[:n], lists, st.sampled_from([30, 130, 300, 1100] * 2 + [12000])
        )
    )  # fmt: skip


def shapes(vast=False):
    "Trailing shapes, also such with lengths that equal tensor dimensions; seldom very many points."
    small = st.lists(st.integers(1, 4), min_size=1, max_size=3)
    large = st.sampled_from(LARGE_SHAPES)
    if vast:
        large = st.integers(0, 7).flatmap(lambda k: st.sampled_from(LARGE_SHAPES if k else VAST_SHAPES))
    many = st.integers(0, 7).flatmap(lambda k: small if k else large)
    return st.one_of(small, many, st.sampled_from(FIXED_SHAPES))


EMPTY = [[0], [2, 0], [0, 3]]


def anyshapes():
    "Trailing shapes, also without any points."
    return st.one_of(*[shapes(vast=True)] * 5, st.sampled_from(EMPTY))


LAYOUTS = ["c", "f", "moved", "strided", "reversed", "readonly", "transposed", "repeated"]


def layout(F, kind, nd=2):
    "The same values in another memory layout (nd: number of leading axes)."
    if not F.ndim:
        return F.copy()
    if nd == 1 and kind == "transposed":
        kind = "moved"
    if nd == 1 and kind == "moved":
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(F, 0, -1)), -1, 0)
    if kind == "f":
        return np.asfortranarray(F)
    if kind == "moved":  # trailing axes first in memory
        n = F.ndim - 2
        G = np.ascontiguousarray(np.moveaxis(F, (0, 1), (-2, -1)))
        return np.moveaxis(G, (-2, -1), (0, 1)) if n else F.copy()
    if kind == "strided":
        big = np.full([2 * s for s in F.shape], 7.25).astype(F.dtype)
        view = big[tuple(slice(None, None, 2) for _ in F.shape)]
        view[...] = F
        return view
    if kind == "reversed":
        sl = tuple(slice(None, None, -1) for _ in F.shape)
        return np.ascontiguousarray(F[sl])[sl]
    if kind == "repeated":  # values that do not change along an axis are stored once
        G = F.copy()
        for ax in range(nd, F.ndim):
            one = G[(slice(None),) * ax + (slice(1),)]
            if F.shape[ax] > 1 and np.array_equal(one + 0 * G, G):
                G = np.broadcast_to(np.ascontiguousarray(one), F.shape)
                break
        return G
    if kind == "readonly":
        G = F.copy()
        G.flags.writeable = False
        return G
    if kind == "transposed":
        return np.ascontiguousarray(np.swapaxes(F, 0, 1)).swapaxes(0, 1)
    return F.copy()


# -- materials -------------------------------------------------------------------------


def modulus():
    return st.one_of(
        st.sampled_from([0.5, 1.0, -0.1, 0.02, 2]),
        fl(-2.0, 2.0),
        fl(0.01, 2.0),
    )


def maybe(s):
    return st.one_of(st.just(0), s, s)


@st.composite
def tod(draw, strain=None):
    names = ("C10", "C01", "C11", "C20", "C30")
    p = dict(zip(names, related(draw, [draw(maybe(modulus())) for _ in names], opposite=True)))
    p["strain"] = draw(st.booleans()) if strain is None else strain
    return dict(kind="tod", **p)


def exponent():
    special = [1.0, 2.0, 3.0, 4.0, 0.5, 1, 2, 3]
    close = st.tuples(st.sampled_from([1.0, 2.0, 2.0, 3.0]), st.sampled_from(CLOSE), st.sampled_from([1, -1]))
    mag = st.one_of(
        st.sampled_from(special), fl(0.05, 5.0), fl(0.05, 5.0), close.map(lambda t: t[0] + t[1] * t[2])
    )
    return st.tuples(st.sampled_from([1, 1, -1]), mag).map(lambda t: t[0] * t[1])


def related(draw, values, opposite=False):
    "Sometimes makes one value (the opposite of) the sum or another one of the values."
    how = draw(st.sampled_from(["", "", "", "equal", "opposite", "sum"]))
    if how and len(values) > 1:
        i = draw(st.integers(0, len(values) - 1))
        rest = values[:i] + values[i + 1 :]
        j = draw(st.integers(0, len(rest) - 1))
        v = dict(equal=rest[j], opposite=-rest[j], sum=-sum(rest))[how]
        if how != "sum" or opposite:
            values = values[:i] + [v] + values[i + 1 :]
    return values


@st.composite
def ogden(draw, nmax=3):
    n = draw(st.one_of(*[st.integers(1, nmax)] * 6, st.integers(5, 12) if nmax > 2 else st.integers(1, nmax)))
    mu = related(draw, [draw(modulus()) for _ in range(n)], opposite=True)
    alpha = related(draw, [draw(exponent()) for _ in range(n)])
    return dict(kind="ogden", mu=mu, alpha=alpha)


EXPONENTS = [
    [1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0], [0, 2, 0], [0, 0, 2], [1, 1, 0],
    [1, 0, 1], [0, 1, 1], [3, 0, 0], [1, 1, 1], [2, 1, 0], [0, 2, 1], [1, 0, 2],
]  # fmt: skip


@st.composite
def user_inv(draw, coupled=None):
    "User-defined energy in the invariants: polynomial terms, logarithm, exponential."
    terms = draw(
        st.lists(
            st.tuples(modulus(), st.sampled_from(EXPONENTS)).map(list),
            min_size=1,
            max_size=4,
        )
    )
    return dict(
        kind="user",
        terms=terms,
        log=draw(maybe(modulus())),
        fung=draw(st.sampled_from([0, 0, 0.3, 1.0])),
    )


@st.composite
def user_str(draw):
    "User-defined symmetric energy in the principal stretches, with coupling."
    terms = []
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from(["pow", "hencky", "pair", "J", "sq", "logJ"]))
        term = [t, draw(modulus())]
        if t == "pow":
            term.append(draw(exponent()))
        terms.append(term)
    return dict(kind="userstr", terms=terms)


def strainfun():
    def user(w):
        return ["mixed", w]

    k = st.one_of(exponent(), st.sampled_from([2, 2.0, 1e-3, -2.0, 1.4]))

    def affine(t):
        k, a, c, *reference = t
        # E(1) = a + b with a + 2 b = c bounded away from zero (c2 is finite)
        return ["affine", k, [a, (c - a) / 2, *reference]]

    some = st.sampled_from([1.0, 2.0, 0.5, -0.7])
    return st.one_of(
        st.tuples(
            exponent(), some, some, st.sampled_from([0.0, 1.0, 1.5]), some, some
        ).map(affine),
        k.map(lambda k: ["deformation", k]),
        k.map(lambda k: ["strain", k]),
        fl(-0.5, 3.0).map(user),
    )


@st.composite
def generalized(draw):
    inner, fun = draw(st.one_of(tod(), user_inv())), draw(strainfun())
    if fun[0] != "deformation" and inner.get("log"):
        inner["log"] = 0  # the third invariant of a strain is not positive
    return dict(kind="gen", inner=inner, fun=fun)


def models(kinds=("tod", "ogden", "user", "userstr", "gen")):
    table = dict(
        tod=tod(), ogden=ogden(), user=user_inv(), userstr=user_str(), gen=generalized()
    )
    return st.sampled_from(list(kinds)).flatmap(lambda k: table[k])


SPACES = ["deformation", "distortional", "dilatational"]


def spaces():
    return st.sampled_from(SPACES)


def has_energy(spec):
    "True if at least one modulus differs from zero."
    kind = spec["kind"]
    if kind == "gen":
        return has_energy(spec["inner"])
    if kind == "tod":
        return any(spec[k] for k in ("C10", "C01", "C11", "C20", "C30"))
    if kind == "ogden":
        return any(spec["mu"])
    if kind == "user":
        return any(t[0] for t in spec["terms"]) or bool(spec["log"] or spec["fung"])
    return any(t[1] for t in spec["terms"])


def about(spec):
    "Label of a model."
    kind = spec["kind"]
    if kind == "gen":
        return f"model: generalized {spec['fun'][0]} of {spec['inner']['kind']}"
    return f"model: {kind}"


# -- tensors for the math module -------------------------------------------------------


def entries():
    return st.one_of(
        st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5]), fl(-3.0, 3.0), fl(-3.0, 3.0)
    )
