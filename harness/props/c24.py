"""User-model protocol: the form of the returned derivatives does not matter."""

from .common import *
from ..jet import Jet

SHAPES = [[], [1], [4], [2, 3], [1, 4], [3, 3], [6], [2, 1, 2]]


class Forms:
    """Represents the values of an inner model's derivatives in chosen forms.

    ``dense`` models always return full arrays in a tuple; the other ones return numbers
    for values that are constant, nothing for values that are zero (if asked for), and
    their choice of a sequence."""

    def __init__(self, inner, forms=None, seq="tuple"):
        self.inner, self.forms, self.seq = inner, forms, seq
        self.args = []
        self.used = []
        self.single = False

    def form(self, slot, value, shape):
        full = np.array(np.broadcast_to(np.asarray(value, dtype=float), shape))
        f = "array" if self.forms is None else self.forms[slot]
        constant = full.size > 0 and bool(np.all(full == full.ravel()[0])) if full.size else True
        c = float(full.ravel()[0]) if full.size else 0.0
        if f in ("none", "nonezero") and constant and c == 0.0:
            self.used.append("nothing")
            return None
        if constant and f == "float":
            self.used.append("number")
            return c
        if constant and f == "int" and c == int(c):
            self.used.append("number")
            return int(c)
        if constant and f == "npfloat":
            self.used.append("number")
            return np.float64(c)
        if constant and f == "zero-dimensional":
            self.used.append("number")
            return np.array(c)
        if constant and f == "ones":
            self.used.append("array of length one")
            return np.full([1] * len(shape), c)
        if f == "broadcast" and constant:
            self.used.append("array of one number")
            return np.broadcast_to(np.float64(c), shape)
        if f == "single" and self.single:
            self.used.append("single precision")
            return full.astype(np.float32)
        if f == "reversed":
            return gen.layout(full, "reversed", 0)
        if f == "strided" and full.ndim:
            big = np.full([2 * n for n in full.shape], 3.5)
            view = big[tuple(slice(None, None, 2) for _ in full.shape)]
            view[...] = full
            return view
        if f == "readonly":
            full.flags.writeable = False
        return full

    def sequence(self, items):
        return list(items) if self.seq == "list" else tuple(items)


class InvForms(Forms):
    def gradient(self, I1, I2, I3, statevars):
        self.args.append(("g", [np.array(v) for v in (I1, I2, I3)]))
        out = self.inner.gradient(I1, I2, I3, statevars)
        shape = np.broadcast_shapes(np.shape(I1), np.shape(I2), np.shape(I3))
        items = [self.form(k, 0.0 if v is None else v, shape) for k, v in enumerate(out[:3])]
        return self.sequence([*items, statevars])

    def hessian(self, I1, I2, I3, statevars):
        self.args.append(("h", [np.array(v) for v in (I1, I2, I3)]))
        out = self.inner.hessian(I1, I2, I3, statevars)
        shape = np.broadcast_shapes(np.shape(I1), np.shape(I2), np.shape(I3))
        return self.sequence(
            [self.form(3 + k, 0.0 if v is None else v, shape) for k, v in enumerate(out)]
        )


class StrForms(Forms):
    "Gradient entries are arrays; hessian entries have any form."

    def gradient(self, stretches, statevars):
        self.args.append(("g", [np.array(v) for v in stretches]))
        g, _ = self.inner.gradient(stretches, statevars)
        shape = np.shape(stretches)[1:]
        items = [np.array(np.broadcast_to(np.asarray(v, dtype=float), shape)) for v in g]
        if self.forms is not None and self.forms[0] in ("float", "ones", "array"):
            return np.array(items).reshape(3, *shape), statevars
        out = self.sequence(items)
        return (out, statevars) if self.seq != "list" else [out, statevars]

    def hessian(self, stretches, statevars):
        self.args.append(("h", [np.array(v) for v in stretches]))
        h = self.inner.hessian(stretches, statevars)
        shape = np.shape(stretches)[1:]
        if self.forms is None or self.forms[0] == "ones":
            full = [np.broadcast_to(np.asarray(0.0 if v is None else v, dtype=float), shape) for v in h]
            return np.array(full).reshape(6, *shape)
        return self.sequence([self.form(3 + k, 0.0 if v is None else v, shape) for k, v in enumerate(h)])


def check(case, ctx):
    label(ctx, case)
    spec, sp = case["spec"], case["space"]
    F = gen.layout(gen.fgrads(case["pts"], case["shape"]), case["layout"])
    stretch = spec["kind"] in ("ogden", "userstr")
    inner = ref.model(spec["inner"] if spec["kind"] == "gen" else spec)
    cls = StrForms if stretch else InvForms
    dense, user = cls(inner), cls(inner, case["forms"], case["seq"])
    r = ref.response(spec, sp, F)
    # derivatives in single precision (differences over small gaps would amplify the errors)
    user.single = spec["kind"] in ("tod", "user") and np.max(r.scaleA, initial=0) < 1e15
    k = 1.0
    if case["opts"]:
        k = 1e3 * np.maximum(r.lam.max(axis=0), 1 / r.lam.min(axis=0)) ** 6
    out = []
    for m in (dense, user):
        u = call("construction", ref.umat, spec, sp, fw=call("framework", ref.framework, spec, m), **case["opts"])
        steps = ("g", "h") if case["first"] == "g" else ("h", "g")
        res = {}
        for s in steps:
            if s == "g":
                res[s] = stress("user model", u, F, ctx)
            else:
                res[s] = tangent("user model", u, F, ctx)
        out.append(res)
    ctx.label(*{"form: " + f for f in user.used}, "sequence: " + case["seq"])
    tolP, tolA = 1e-2 * k * r.tolP, 1e-2 * k * r.tolA
    if "single precision" in user.used:
        lost = 1e2 * float(np.finfo(np.float32).eps) * r.noiseP / r.scaleP / (1e3 * ref.EPS)
        tolP, tolA = tolP + k * lost * r.scaleP, tolA + k * lost * r.scaleA
    ctx.close(out[1]["g"], out[0]["g"], tolP, "stress of another form")
    ctx.close(out[1]["h"], out[0]["h"], tolA, "elasticity of another form")
    if not case["opts"]:
        ctx.close(out[0]["g"], r.P, r.tolP, "stress")
        ctx.close(out[0]["h"], r.A, r.tolA, "elasticity")

    # what the model is called with
    trax = F.shape[2:]
    l = np.array(ref.part(sp, *r.lam))
    cond = (r.lam.max(axis=0) / r.lam.min(axis=0)) ** 2
    for m in (dense, user):
        ctx.true({k for k, _ in m.args} == {"g", "h"}, "the model's gradient or hessian was not called")
        for _, args in m.args:
            if stretch:
                lam = ctx.array(np.array(args), "stretches", shape=(3, *trax))
                ctx.close(
                    np.sort(lam, axis=0), np.sort(l, axis=0), 1e-10 * cond * l.max(axis=0), "stretches given to the model"
                )
                continue
            if spec["kind"] == "gen":
                E, c1, c2 = ref.normalisation(spec["fun"])
                x = np.array([ref.measure(spec["fun"], v) for v in l])
                d = np.array([ref.measure(spec["fun"], Jet.variables([v])[0]).mg[0] * v for v in l])
                I = [
                    c1 * (x.sum(axis=0) - 3 * E) + 3 * E,
                    c2 * (x[0] * x[1] + x[1] * x[2] + x[2] * x[0] - 3 * E**2) + 3 * E**2,
                    x[0] * x[1] * x[2],
                ]
                big = np.abs(x).max(axis=0) + np.abs(d).max(axis=0) + 1 + 1 / abs(spec["fun"][1] or 1)
                tol = [1e-9 * cond * big ** (i + 1) * (abs(c) + 1) for i, c in enumerate((c1, c2, 1.0))]
            else:
                x = l**2
                I = [x.sum(axis=0), x[0] * x[1] + x[1] * x[2] + x[2] * x[0], x.prod(axis=0)]
                tol = [1e-10 * cond * v for v in (I[0], I[0] ** 2, I[0] ** 3)]
            for i in range(3):
                got = ctx.array(args[i], f"invariant {i + 1}", shape=trax, broadcast=True)
                ctx.close(got, I[i], tol[i], f"invariant {i + 1} given to the model")


def forms():
    return st.lists(
        st.sampled_from(
            ["none", "none", "float", "float", "int", "npfloat", "zero-dimensional", "ones", "array",
             "strided", "readonly", "reversed", "broadcast", "single"]
        ),
        min_size=9,
        max_size=9,
    )  # fmt: skip


def spec():
    "Energies with many constant or vanishing derivatives are of interest here."
    linear = st.builds(
        lambda t, c: dict(kind="user", terms=[[a, b] for a, b in zip(c, t)], log=0, fung=0),
        st.lists(
            st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0], [0, 2, 0], [0, 0, 2], [1, 1, 0], [1, 0, 1], [0, 1, 1]]),
            min_size=1, max_size=3, unique_by=tuple,
        ),
        st.lists(st.sampled_from([0.5, 1.0, 2.0, -0.3]), min_size=3, max_size=3),
    )  # fmt: skip
    quad = st.builds(
        lambda t: dict(kind="userstr", terms=t),
        st.lists(
            st.sampled_from([["pow", 0.5, 2.0], ["pow", 1.0, 1.0], ["pair", 0.5], ["sq", 0.7]]),
            min_size=1, max_size=2,
        ),
    )  # fmt: skip
    gen_ = st.builds(
        lambda inner, fun: dict(kind="gen", inner=inner, fun=fun), linear, gen.strainfun()
    )
    tod = gen.tod()
    return st.one_of(linear, linear, quad, quad, gen_, tod, gen.models())


SUBS = [
    Sub(
        "forms",
        lambda: st.fixed_dictionaries(
            dict(
                spec=spec(),
                space=gen.spaces(),
                pts=st.lists(gen.points(), min_size=1, max_size=3),
                shape=st.sampled_from(SHAPES),
                forms=forms(),
                seq=st.sampled_from(["tuple", "list"]),
                layout=st.sampled_from(gen.LAYOUTS),
                first=st.sampled_from("gh"),
                opts=st.sampled_from([{}, {}, {}, dict(force=0), dict(area=None), dict(parallel=True)]),
            )
        ),
        check,
        RULE,
        2800,
        nontrivial,
    )
]
