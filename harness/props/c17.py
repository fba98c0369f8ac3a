"""Load cases are isochoric and their traction-free face is free."""

from .common import *

CASES = ["Uniaxial", "Planar", "Biaxial"]
LABELS = dict(Uniaxial="Uniaxial Tension", Planar="Planar Tension", Biaxial="Biaxial Tension")


def transverse(name, x):
    if name == "Uniaxial":
        return x**-0.5, x**-0.5
    if name == "Planar":
        return np.ones_like(x), 1 / x
    return x, x**-2.0


def stretchdata(case):
    "Stretch(es) as a scalar or an array."
    v = case["x"]
    kind = case["form"]
    if kind == "float":
        return float(v[0])
    if kind == "int":
        return int(round(v[0])) or 1
    if kind == "npfloat":
        return np.float64(v[0])
    if kind == "zero-dimensional":
        return np.array(v[0])
    if kind == "intarray":
        return np.maximum(1, np.round(v)).astype(int)
    n = int(np.prod(case["shape"]))
    a = np.array(v)[np.arange(n) % len(v)].reshape(case["shape"])
    if kind in ("float32", "int32"):
        return np.maximum(1, np.round(a)).astype(kind) if kind == "int32" else a.astype(kind)
    return gen.layout(a, kind, 0) if kind in gen.LAYOUTS else a


def check_defgrad(case, ctx):
    lab = ref.hel().lab
    x = stretchdata(case)
    keep = np.array(x, copy=True)
    xx = np.asarray(x, dtype=float)
    for name in CASES:
        ctx.label("stretches: " + case["form"])
        lc = call("load case", getattr(lab, name), **({} if case["label"] is None else dict(label=case["label"])))
        want = LABELS[name] if case["label"] is None else case["label"]
        ctx.true(lc.label == want, f"{name}: label {lc.label!r}")
        F = call(f"{name} defgrad", lc.defgrad, x)
        F = ctx.array(F, f"{name} deformation gradient", shape=(3, 3, *xx.shape))
        want = np.zeros_like(F)
        want[0, 0] = xx
        want[1, 1], want[2, 2] = transverse(name, xx)
        eps = 1e-6 if case["form"] == "float32" else 1e-14
        ctx.close(F, want, eps * np.maximum(np.abs(want), 1e-300), f"{name} deformation gradient")
        ctx.close(F[0, 0] * F[1, 1] * F[2, 2], np.ones(xx.shape), 10 * eps, f"{name} volume ratio")
        ctx.same(np.asarray(x), keep, "stretches")
        if case["again"] and isinstance(x, np.ndarray) and x.flags.writeable:
            first = np.array(F)
            x[...] = keep + keep  # other stretches in the very same array
            G = call(f"{name} defgrad", lc.defgrad, x)
            want[0, 0] = xx + xx if xx is not x else x
            want[1, 1], want[2, 2] = transverse(name, np.array(want[0, 0]))
            ctx.close(G, want, eps * np.maximum(np.abs(want), 1e-300), f"{name} deformation gradient of changed stretches")
            ctx.same(F, first, f"{name} deformation gradient returned before")
            x[...] = keep


def check_force(case, ctx):
    lab = ref.hel().lab
    base = lab.IncompressibleHomogeneousStretch
    name = case["case"]
    shape = case["shape"]
    n = int(np.prod(shape))
    rng = np.random.default_rng(case["seed"])
    x = np.array(case["x"])[np.arange(n) % len(case["x"])].reshape(shape)
    lc = call("load case", getattr(lab, name))
    if name in CASES and not case["general"]:
        F = ctx.array(call("defgrad", lc.defgrad, x), "F", shape=(3, 3, *shape))
    else:
        # a user-defined load case: any diagonal, isochoric deformation gradient
        class Own(base):
            def __init__(self):
                self.label = "own"

        lc = Own()
        F = np.zeros((3, 3, *shape))
        F[0, 0], F[1, 1] = x, np.exp(rng.uniform(-0.5, 0.5, shape))
        F[2, 2] = 1 / (F[0, 0] * F[1, 1])
    P = rng.uniform(-3, 3, (3, 3, *shape)) * 10.0 ** case["e"]
    if case["integer"]:
        P = np.round(P / 10.0 ** case["e"]) * 10.0 ** case["e"]
    i, j = case["axes"]
    args = [(), dict(axis=i, traction_free=j)]
    if case["default"]:
        i, j = 0, 2
        args = [(), {}]
    elif case["positional"]:
        args = [(i, j), {}]
    ctx.label(f"axes {i}, {j}")
    if case["types"][0] != "float":
        if case["types"][0] == "int":  # whole numbers as stretches
            F = np.maximum(1, np.round(F)) * np.eye(3).reshape(3, 3, *[1] * len(shape))
        F = F.astype(case["types"][0])
    if case["types"][1] != "float" and not case["e"]:
        P = (3 * P).astype(case["types"][1])
    ctx.label("type of the deformation gradient: " + case["types"][0])
    if case["one"] and n:  # one deformation for all stresses
        F = F[(slice(None), slice(None), *[slice(0, 1)] * len(shape))]
    F, P = gen.layout(F, case["layouts"][0]), gen.layout(P, case["layouts"][1])
    F0, P0 = F.copy(), P.copy()
    eps = 1e-6 if F.dtype == np.float32 else 4e-14

    def formula(P):
        "The pressure makes the traction-free axis stress free."
        f, s = F.astype(float), P.astype(float)
        p = -s[j, j] * f[j, j]
        return s[i, i] + p / f[i, i], np.abs(s[i, i]) + np.abs(p / f[i, i]) + 1e-300

    want, size = formula(P)
    N = call("stress", lc.stress, F, P, *args[0], **args[1])
    ctx.close(N, want, eps * size, "force per undeformed area", shape=tuple(shape))
    ctx.same(F, F0, "deformation gradient")
    ctx.same(P, P0, "stress tensor")

    if case["again"] and P.flags.writeable:  # other stresses in the very same array
        first = np.array(N)
        P[...] = P0[::-1, ::-1]
        want2, size2 = formula(P)
        M = call("stress", lc.stress, F, P, *args[0], **args[1])
        ctx.close(M, want2, eps * size2, "force per undeformed area of changed stresses")
        ctx.same(N, first, "force per undeformed area returned before")
        P[...] = P0

    q = rng.uniform(-5, 5, shape) * 10.0 ** (case["e"] + case["dp"])
    Q = P.astype(float)
    for k in range(3):
        Q[k, k] += q / F[k, k]
    M = call("stress with pressure", lc.stress, F, Q, *args[0], **args[1])
    ctx.close(M, want, 2 * eps * (size + 4 * np.abs(q / F[i, i])), "force with a superposed pressure")


AXES = [[i, j] for i in range(-3, 3) for j in range(-3, 3)]
STRETCH = st.one_of(gen.fl(0.2, 6.0), st.sampled_from([1.0, 2.0, 0.5, 3.0, 1e-3, 1e3]))

SUBS = [
    Sub(
        "defgrad",
        lambda: st.fixed_dictionaries(
            dict(
                x=st.lists(STRETCH, min_size=1, max_size=5),
                shape=gen.shapes(vast=True),
                form=st.sampled_from(
                    ["array", "array", "array", "strided", "readonly", "float", "int", "npfloat",
                     "zero-dimensional", "intarray", "float32", "int32", "f", "reversed", "repeated"]
                ),
                again=st.booleans(),
                label=st.sampled_from([None, None, "", "A label", "ux λ"]),
            )
        ),  # fmt: skip
        check_defgrad,
        "a stretch differs from one",
        5000,
        lambda c: any(x != 1.0 for x in c["x"]),
    ),
    Sub(
        "force",
        lambda: st.fixed_dictionaries(
            dict(
                case=st.sampled_from(CASES),
                general=st.booleans(),
                x=st.lists(gen.fl(0.2, 6.0), min_size=1, max_size=5),
                shape=gen.shapes(vast=True),
                seed=st.integers(0, 2**31),
                integer=st.booleans(),
                e=st.sampled_from([0, 0, -6, 5]),
                dp=st.sampled_from([0, -3, 3]),
                axes=st.sampled_from(AXES),
                default=st.booleans(),
                positional=st.booleans(),
                layouts=st.lists(st.sampled_from(gen.LAYOUTS), min_size=2, max_size=2),
                again=st.sampled_from([False, False, True]),
                types=st.tuples(
                    st.sampled_from(["float", "float", "float", "float32", "int"]),
                    st.sampled_from(["float", "float", "float", "float32", "int"]),
                ).map(list),
                one=st.sampled_from([False, False, True]),
            )
        ),
        check_force,
        "a stretch differs from one",
        10000,
        lambda c: any(x != 1.0 for x in c["x"]),
    ),
]
