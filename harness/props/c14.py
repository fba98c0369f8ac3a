"""Automatic-differentiation model matches the analytical derivatives."""

import functools

from .. import jet
from ..jet import Jet
from .common import *


def torch_energy(spec):
    "The energy of a user specification, in the functions of the tensor library."
    import torch

    def fun(I1, I2, I3):
        a, b, c = I1 - 3.0, I2 - 3.0, I3 - 1.0
        W = 0.0
        for coeff, (i, j, k) in spec["terms"]:
            W = W + coeff * a**i * b**j * c**k
        if spec.get("log"):
            W = W + spec["log"] * torch.log(I3)
        if spec.get("fung"):
            W = W + torch.exp(torch.tanh((a + b * 0.5 - c * 0.25) * 0.05) * spec["fung"])
        return W

    return fun


# -- energy expressions ----------------------------------------------------------------


def expressions():
    leaf = st.one_of(
        st.integers(0, 2).map(lambda i: ["I", i]),
        st.integers(0, 2).map(lambda i: ["I", i]),
        st.integers(0, 2).map(lambda i: ["dI", i]),
        st.integers(0, 2).map(lambda i: ["p", i]),
        st.sampled_from([0.5, 2.0, -1.0]).map(lambda v: ["c", v]),
    )

    def grow(sub):
        two = st.tuples(st.sampled_from(["+", "-", "*", "+", "*"]), sub, sub).map(list)
        one = st.tuples(
            st.sampled_from(["sq", "cube", "exp", "log", "sqrt", "tanh", "rat", "neg"]), sub
        ).map(list)
        return st.one_of(two, two, one)

    tree = st.recursive(leaf, grow, max_leaves=7)
    fun = st.sampled_from(["sq", "cube", "exp", "log", "sqrt", "tanh", "rat", "neg"])
    inv = st.tuples(st.sampled_from(["I", "dI"]), st.integers(0, 2)).map(list)
    par = st.one_of(st.integers(0, 2).map(lambda i: ["p", i]), st.just(["c", 2.0]))
    one = st.one_of(inv, inv, st.tuples(fun, inv).map(list))
    term = st.one_of(
        st.tuples(st.just("*"), par, one).map(list),
        st.tuples(st.just("*"), one, one).map(list),
        st.tuples(fun, st.tuples(st.sampled_from("+-*"), one, one).map(list)).map(list),
    )
    two = st.tuples(st.sampled_from("++-*"), term, term).map(list)
    three = st.tuples(st.sampled_from("++-*"), two, term).map(list)
    return st.one_of(tree, term, two, three)


def evaluate(e, I, par, lib):
    op = e[0]
    if op == "I":
        return I[e[1]]
    if op == "dI":
        return I[e[1]] - (3.0, 3.0, 1.0)[e[1]]
    if op == "p":
        return par[f"k{e[1]}"]
    if op == "c":
        return e[1]
    if op in "+-*":
        x, y = evaluate(e[1], I, par, lib), evaluate(e[2], I, par, lib)
        return x + y if op == "+" else x - y if op == "-" else x * y
    x = evaluate(e[1], I, par, lib)
    if op == "neg":
        return -x
    if op == "sq":
        return x * x
    if op == "cube":
        return x * x * x
    x = x + 0.0 * I[0] if isinstance(x, float) else x
    if op == "tanh":
        return lib.tanh(x * 0.2)
    if op == "exp":
        return lib.exp(lib.tanh(x * 0.1))
    if op == "log":
        return lib.log(x * x * 0.01 + 1.0)
    if op == "sqrt":
        return lib.sqrt(x * x * 0.01 + 1.0)
    return 1.0 / (x * x * 0.01 + 1.0)


def uses(e):
    if e[0] in ("I", "dI"):
        return {e[1]}
    return set().union(*[uses(x) for x in e[1:] if isinstance(x, list)]) if e[0] not in "pc" else set()


def wrap(case):
    "Mostly, at least one invariant takes part; otherwise the energy is a number."
    if case["constant"] == 29:
        case = dict(case, e=["c", 0.5] if case["par"]["k0"] > 0 else ["+", ["p", 1], ["c", 1.0]])
    elif not uses(case["e"]):
        case = dict(case, e=["+", case["e"], ["*", ["c", 0.5], ["I", 0]]])
    return case


def reference(case, I):
    return constant(evaluate(case["e"], Jet.variables(I), case["par"], jet), Jet.variables(I)[0])


def constant(W, I1):
    return W if isinstance(W, Jet) else I1 * 0.0 + W


class use_dtype:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        import torch

        self.old = torch.get_default_dtype()
        torch.set_default_dtype(getattr(torch, self.name))

    def __exit__(self, *exc):
        import torch

        torch.set_default_dtype(self.old)


def as_callable(f, kind):
    "The energy function, or something else that is called alike."
    import torch

    class Energy:
        def __call__(self, *args, **kwargs):
            return f(*args, **kwargs)

        def energy(self, *args, **kwargs):
            return f(*args, **kwargs)

        __hash__ = None

    class Module(torch.nn.Module):
        def forward(self, *args, **kwargs):
            return f(*args, **kwargs)

    if kind == "lambda":
        return lambda *args, **kwargs: f(*args, **kwargs)
    if kind == "partial":
        return functools.partial(f)
    if kind == "object":
        return Energy()
    if kind == "method":
        return Energy().energy
    if kind == "module":
        return Module()
    return f


def torch_model(case):
    import torch

    par = case["par"]
    names = sorted(par)
    form = case["pform"]
    cls, kind = ref.hel().models.invariants.TorchModel, case["callable"]

    def model(f, /, **kwargs):
        return cls(as_callable(f, kind), **kwargs)

    def fun(I1, I2, I3, k0, k1, k2):
        return evaluate(case["e"], (I1, I2, I3), dict(k0=k0, k1=k1, k2=k2), torch)

    if form == "named":  # as the user likes
        own = case["names"]

        def named(I1, I2, I3, **kwargs):
            if sorted(kwargs) != sorted(own):
                raise TypeError(f"parameters {sorted(kwargs)} instead of {sorted(own)}")
            return fun(I1, I2, I3, *[kwargs[k] for k in own])

        return call("TorchModel", model, named, **dict(zip(own, [par[k] for k in names])))
    if form == "default":  # the function's own values

        def partial(I1, I2, I3, k2, k1=par["k1"], *, k0=par["k0"]):
            return fun(I1, I2, I3, k0, k1, k2)

        return call("TorchModel", model, partial, k2=par["k2"])
    if form == "halves":  # many parameters, pairs of equal ones

        def halves(I1, I2, I3, a, b, c, d, e, f):
            return fun(I1, I2, I3, a + b, c + d, e + f)

        return call("TorchModel", model, halves, **{k: par[names[i // 2]] / 2 for i, k in enumerate("abcdef")})
    if form == "numbers":
        return call("TorchModel", model, fun, **{k: par[k] for k in names})
    if form == "tensors":
        return call("TorchModel", model, fun, **{k: torch.tensor(par[k], dtype=torch.float64) for k in names})
    if form == "fitted":  # somebody else differentiates with respect to the parameters
        own = {k: torch.tensor(par[k], dtype=torch.float64, requires_grad=True) for k in names}
        m = call("TorchModel", model, fun, **own)
        m.own = list(own.values())
        return m
    # parameters in a container, and an option
    values = [par[k] for k in names]
    options = dict(reverse=True) if form == "dictionary" else "reverse"

    def collected(I1, I2, I3, p, options, *, offset=0.0):
        if isinstance(p, dict):
            p = [p[k] for k in names]
        if (options["reverse"] if isinstance(options, dict) else options == "reverse"):
            p = p[::-1]
        return fun(I1, I2, I3, *[float(v) for v in p]) + offset

    values = values[::-1]
    p = dict(list=list, tuple=tuple, array=np.array, dictionary=lambda v: dict(zip(names, v)))[form](values)
    return call("TorchModel", model, collected, p=p, options=options, offset=1.5)


GRAD = [0, 1, 2]
HESS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


def entry(value, shape, what, ctx):
    "A returned derivative as an array; a missing one means zero."
    if value is None:
        return np.zeros(shape)
    return ctx.array(value, what, shape=shape, broadcast=True)


def check_model(case, ctx):
    ctx.label("dtypes: " + ", ".join(case["dtypes"]), f"invariants used: {sorted(uses(case['e']))}")
    with use_dtype("float64"):
        m = torch_model(case)
    for call_no, (shape, dtype) in enumerate(zip(case["shapes"], case["dtypes"])):
        single = dtype == "float32"
        with use_dtype(dtype):
            n = int(np.prod(shape))
            vals = np.resize(np.array(case["I"]), (3, n)).reshape(3, *shape) if n else None
            I = [np.array(v) for v in vals]
            if call_no:  # some of the invariants keep their values
                for i in range(3):
                    if case["change"] >> i & 1:
                        I[i] = I[i] * 1.25 + 0.5
            if single:
                I = [v.astype("float32").astype(float) for v in I]
            form = case["form"]
            if form == "ints":  # of integer deformation gradients
                I = [np.round(v).astype(int) for v in I]
            elif form == "layouts" and shape:
                I = [gen.layout(v, k, 0) for v, k in zip(I, case["layouts"], strict=True)]
            elif form == "single":
                I = [v.astype("float32") for v in I]
            elif form == "same":  # one array for all of them
                I = [I[0]] * 3
            eps = 1.2e-7 if single else ref.EPS
            sv = object()
            for kind in "x" + case["order"]:
                if kind == "x":  # other values in the very same arrays
                    for i, v in enumerate(I if "x" in case["order"] else []):
                        if v.flags.writeable and not single:
                            v[...] = v + np.asarray(1 + i, dtype=v.dtype)
                    saved = [v.copy() for v in I]
                    W = reference(case, [v.astype(float) for v in I])
                    tg, th = 1e2 * eps * W.mg.max(axis=0), 1e2 * eps * W.mh.max(axis=(0, 1))
                    tg, th = tg + 1e2 * eps, th + 1e2 * eps
                elif kind == "g":
                    out = call("gradient", m.gradient, *I, sv)
                    ctx.true(len(out) == 4, "gradient: not three derivatives and state variables")
                    ctx.true(out[3] is sv, "gradient: state variables not passed through")
                    for i in GRAD:
                        got = entry(out[i], shape, f"dW/dI{i + 1}", ctx)
                        ctx.close(got, W.g[i], tg, f"dW/dI{i + 1} [{dtype}]")
                else:
                    out = call("hessian", m.hessian, *I, sv)
                    ctx.true(len(out) == 6, "hessian: not six derivatives")
                    for v, (i, j) in zip(out, HESS):
                        got = entry(v, shape, f"d2W/dI{i + 1}dI{j + 1}", ctx)
                        ctx.close(got, W.h[i, j], th, f"d2W/dI{i + 1}dI{j + 1} [{dtype}]")
            for a, b in zip(I, saved):
                ctx.same(a, b, "invariants argument")
            for p in getattr(m, "own", []):
                ctx.true(p.grad is None, "the caller's parameter got a derivative")


class Analytic:
    "The same energy as a user-defined model."

    def __init__(self, case):
        self.case = case

    def gradient(self, I1, I2, I3, statevars):
        g = reference(self.case, [I1, I2, I3]).g
        return g[0], g[1], g[2], statevars

    def hessian(self, I1, I2, I3, statevars):
        h = reference(self.case, [I1, I2, I3]).h
        return tuple(h[i, j] for i, j in HESS)


def check_umat(case, ctx):
    h = ref.hel()
    F = gen.fgrads(case["pts"], case["shape"])
    fun = case["fun"]
    kind = "invariants" if fun is None else f"generalized {fun[0]}"
    ctx.label("space: " + case["space"], f"invariants used: {sorted(uses(case['e']))}", kind)

    def framework(model):
        if fun is None:
            return h.InvariantsFramework(model)
        return call("framework", ref.framework, dict(kind="gen", fun=fun), model)

    with use_dtype("float64"):
        a = ref.space(case["space"], framework(torch_model(case)))
        b = ref.space(case["space"], framework(Analytic(case)))
        # magnitude of the response
        C = np.einsum("kI...,kJ...->IJ...", F, F)
        lam = np.linalg.svd(np.moveaxis(F, (0, 1), (-2, -1)), compute_uv=False)
        lam = Jet.variables(list(np.moveaxis(lam, -1, 0)))
        l = ref.part(case["space"], *lam)
        near = 0.0
        if fun is None:
            x, y, z = [v * v for v in l]
            I = x + y + z, x * y + y * z + z * x, x * y * z
        else:
            E, c1, c2 = ref.normalisation(fun)
            x, y, z = [ref.measure(fun, v) for v in l]
            I = (x + y + z) * c1, (x * y + y * z + z * x) * c2, x * y * z
            I = I[0] + 3 * E * (1 - c1), I[1] + 3 * E**2 * (1 - c2), I[2]
            gap = np.array([lam[0].v ** 2 - lam[1].v ** 2, lam[1].v ** 2 - lam[2].v ** 2])
            loss = np.where(np.abs(gap) < 1e-2, 1 / np.maximum(np.abs(gap), 1e-8), 0.0).max(axis=0)
            near = 20 * ref.EPS * loss * np.maximum(lam[0].v, 1 / lam[2].v) ** 2
        W = constant(evaluate(case["e"], I, case["par"], jet), I[0])
        lmax, lmin = lam[0].v, lam[2].v
        cond = lmax**6 / np.linalg.det(np.moveaxis(C, (0, 1), (-2, -1)))
        g, hh = W.mg.max(axis=0), W.mh.max(axis=(0, 1))
        tol = 1e-9 + 1e4 * ref.EPS * cond
        for op in case["order"]:
            if op == "g":
                ctx.close(
                    stress("torch", a, F, ctx), stress("analytical", b, F, ctx),
                    tol * (g + 1e-12), f"stress [{case['space']}, {kind}]",
                )  # fmt: skip
            else:
                ctx.close(
                    tangent("torch", a, F, ctx), tangent("analytical", b, F, ctx),
                    (tol + near) * (hh + g / lmin + 1e-12), f"elasticity [{case['space']}, {kind}]",
                )  # fmt: skip


PFORMS = ["numbers", "numbers", "numbers", "tensors", "fitted", "list", "tuple", "array", "dictionary", "named",
          "named", "default", "halves"]
CALLABLES = ["function", "function", "lambda", "partial", "object", "method", "module"]
NAMES = [
    ["C10", "C20", "C30"], ["mu", "lmbda", "K"], ["μ", "α", "_c"], ["tensor", "numpy", "create_graph"],
    ["statevars", "kwargs", "x"], ["dtype", "retain_graph", "args"], ["fn", "name", "C1_0"],
]  # fmt: skip


def params():
    return st.fixed_dictionaries(dict(k0=gen.fl(-2, 2), k1=gen.fl(0.1, 2), k2=gen.fl(0.5, 3)))


SHAPE = st.one_of(st.just([]), *[st.lists(st.integers(1, 3), min_size=1, max_size=3)] * 8, st.sampled_from(gen.LARGE_SHAPES))


def strategy_model():
    return st.fixed_dictionaries(
        dict(
            e=expressions(),
            constant=st.integers(0, 29),
            par=params(),
            pform=st.sampled_from(PFORMS),
            callable=st.sampled_from(CALLABLES),
            names=st.sampled_from(NAMES).flatmap(st.permutations).map(list),
            # generalized invariants vanish or are negative too
            I=st.one_of(
                st.lists(gen.fl(0.2, 6.0), min_size=3, max_size=9),
                st.lists(
                    st.one_of(gen.fl(0.2, 6.0), gen.fl(-2.0, 2.0), st.sampled_from([0.0, -1.0, 1e-9])),
                    min_size=3,
                    max_size=9,
                ),
            ),
            shapes=st.one_of(
                st.lists(SHAPE, min_size=1, max_size=2), SHAPE.map(lambda s: [s, s]), SHAPE.map(lambda s: [s, s])
            ),
            change=st.integers(0, 7),
            form=st.sampled_from(["", "", "ints", "layouts", "layouts", "single", "same"]),
            layouts=st.lists(
                st.sampled_from(["c", "f", "strided", "reversed", "readonly", "repeated"]), min_size=3, max_size=3
            ),
            dtypes=st.lists(st.sampled_from(["float64", "float64", "float32"]), min_size=2, max_size=2),
            order=st.sampled_from(["gh", "hg", "hh", "ghg", "gxg", "hxh", "gxh"]),
        )
    ).map(wrap)


def strategy_umat():
    return st.fixed_dictionaries(
        dict(
            e=expressions(),
            constant=st.integers(0, 29),
            par=params(),
            pform=st.sampled_from(PFORMS),
            callable=st.sampled_from(CALLABLES),
            names=st.sampled_from(NAMES).flatmap(st.permutations).map(list),
            space=gen.spaces(),
            fun=st.one_of(st.none(), gen.strainfun()),
            pts=st.lists(gen.points(), min_size=1, max_size=3),
            shape=gen.shapes(),
            order=st.sampled_from(["gh", "hg", "h"]),
        )
    ).map(wrap)


SUBS = [
    Sub(
        "model",
        strategy_model,
        check_model,
        "the energy combines at least two operations",
        1300,
        lambda c: str(c["e"]).count("[") > 2,
    ),
    Sub(
        "response",
        strategy_umat,
        check_umat,
        "the energy combines at least two operations and a point is deformed",
        1200,
        lambda c: str(c["e"]).count("[") > 2 and not all(map(gen.is_trivial, c["pts"])),
    ),
]
