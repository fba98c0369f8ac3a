"""Simulated force equals the energy's derivative along the load path."""

import copy

from ..jet import Jet
from .common import *

PATHS = ["Uniaxial", "Planar", "Biaxial"]


def path(name, x):
    if name == "Uniaxial":
        y = x**-0.5
        return x, y, y
    if name == "Planar":
        return x, x * 0.0 + 1.0, x**-1.0
    return x, x, x**-2.0


def force(name, spec, space, x):
    "Derivative of the energy along the load path, per loaded direction; tolerance."
    (j,) = Jet.variables([x])
    W = ref.energy(spec, *ref.part(space, *path(name, j)))
    k = 0.5 if name == "Biaxial" else 1.0
    l = np.array(path(name, x))
    F = np.zeros((3, 3, len(x)))
    F[0, 0], F[1, 1], F[2, 2] = l
    r = ref.response(spec, space, F, tangent=False)
    lo, hi = l.min(axis=0), l.max(axis=0)
    tol = r.tolP * (1 + l[2] / l[0]) * 2 + 1e-12 * W.mg[0] * k
    if space != "deformation":
        # the projection's rounding relative to the unprojected stress
        tol = tol + 1e-10 * r.scaleP * (hi / lo) ** 2
    return W.g[0] * k, tol


# -- parameters by label ---------------------------------------------------------------


def slots(spec):
    "Paths to the numeric parameters of a specification."
    kind = spec["kind"]
    if kind == "tod":
        return [[k] for k in ("C10", "C01", "C11", "C20", "C30")]
    if kind == "ogden":
        return [["mu", i] for i in range(len(spec["mu"]))] + [
            ["alpha", i] for i in range(len(spec["alpha"]))
        ]
    if kind == "gen":
        return [["inner", *s] for s in slots(spec["inner"])] + [["fun", 1]]
    if kind == "user":
        return [["terms", i, 0] for i in range(len(spec["terms"]))] + [["log"]] * bool(spec["log"])
    return [["terms", i, 1] for i in range(len(spec["terms"]))]


def fetch(spec, slot):
    for k in slot:
        spec = spec[k]
    return spec


def store(spec, slot, value):
    for k in slot[:-1]:
        spec = spec[k]
    spec[slot[-1]] = value


class Material:
    "A function of labelled parameters, as asked for by the simulations."

    def __init__(self, spec, space, named, opts):
        self.spec, self.space, self.named, self.opts = spec, space, named, opts
        self.seen = []

    def __call__(self, **kwargs):
        self.seen.append(dict(kwargs))
        spec = copy.deepcopy(self.spec)
        for label, value in kwargs.items():
            store(spec, self.named[label], value)
        return ref.umat(spec, self.space, **self.opts)


def setup(case, ctx):
    spec = case["spec"]
    all_ = slots(spec)
    order = sorted(range(len(all_)), key=lambda i: case["perm"][i % len(case["perm"])] + i * 1e-9)
    m = 1 + case["count"] % len(all_)
    chosen = [all_[i] for i in order[:m]]
    names = [f"{'abcKµλ'[(i + case['perm'][0]) % 6]}{i if case['perm'][1] % 2 else 9 - i}" for i in range(m)]
    named = dict(zip(names, chosen))
    labels = names[: len(chosen)]
    values = [fetch(spec, s) for s in chosen]
    # the specification itself holds wrong values: only the labels can bring the right ones
    base = copy.deepcopy(spec)
    for s in chosen:
        store(base, s, 1.7)
    return spec, base, named, labels, values


def check(case, ctx):
    label(ctx, case)
    h = ref.hel()
    space, name = case["space"], case["case"]
    spec, base, named, labels, values = setup(case, ctx)
    ctx.label("load case: " + name)
    mat = Material(base, space, named, case["opts"])
    x = np.array(case["x"])
    if case["ones"]:
        values = [1.0] * len(labels)
        parameters = None
        spec = copy.deepcopy(base)
        for l in labels:
            store(spec, named[l], 1.0)
        sim = call("simulation", h.lab.Simulation, getattr(h.lab, name)(), x, labels, mat)
        ctx.close(sim.parameters, np.ones(len(labels)), 0.1e-15, "default parameters")
        if case["fresh"]:  # other values may be written to them
            for i in range(len(labels)):
                sim.parameters[i] = 1.0 + 0.25 * i
            ctx.close(sim.parameters, 1.0 + 0.25 * np.arange(len(labels)), 1e-15, "parameters written to the default ones")
            for i in range(len(labels)):
                sim.parameters[i] = 1.0
    else:
        form = case["form"]
        table = dict(zip(labels, values))
        parameters = table.values() if form == "views" else dict(list=list, tuple=tuple, array=np.array)[form](values)
        sim = call(
            "simulation", h.lab.Simulation, loadcase=getattr(h.lab, name)(), stretch=x,
            labels=table.keys() if form == "views" else dict(list=list, tuple=tuple, array=np.array)[case["lform"]](labels),
            material=mat, parameters=parameters,
        )  # fmt: skip
    views = not case["ones"] and case["form"] == "views"
    keep = (sim.parameters if views else copy.deepcopy(sim.parameters), x.copy(), list(labels))
    want, tol = force(name, spec, space, x)
    got = call("stress", sim.stress)
    ctx.close(got, want, tol, f"force [{name}]")
    ctx.true(mat.seen, "the simulation's material was not asked for")
    kw = mat.seen[-1]
    ctx.true(sorted(kw) == sorted(labels), f"the material got {sorted(kw)} instead of {sorted(labels)}")

    # other parameters and stretches through the fit function; nothing is altered
    other = [v * 1.25 for v in values]
    spec2 = copy.deepcopy(spec)
    for l, v in zip(labels, other):
        store(spec2, named[l], v)
    y = x[::-1][: max(1, len(x) - 1)]
    if case["fresh"]:
        want2, tol2 = force(name, spec2, space, y)
        got2 = call("fit function", sim.stress_curve_fit, y, *other)
        ctx.close(got2, want2, tol2, f"force, fit function [{name}]")
    again = call("stress", sim.stress)
    ctx.close(again, got, 1e-12 * (np.abs(got) + tol), "force, evaluated once more")
    ctx.same(np.array(list(sim.parameters), dtype=float), np.array(list(keep[0]), dtype=float), "parameters of the simulation")
    ctx.same(np.asarray(sim.stretch), keep[1], "stretches of the simulation")
    ctx.true(list(sim.labels) == keep[2], "labels of the simulation")
    ctx.same(x, keep[1], "the caller's stretches")

    if case["fresh"] and len(labels) and not views:
        # other parameters, assigned or written into the given ones, and back
        form = type(sim.parameters)
        ints = form is np.ndarray and sim.parameters.dtype.kind != "f"
        if form is tuple or ints or case["perm"][0] % 2:
            sim.parameters = np.array(other) if form is np.ndarray else form(other)
        else:
            for i, v in enumerate(other):
                sim.parameters[i] = v
        want3, tol3 = force(name, spec2, space, x)
        ctx.close(call("stress", sim.stress), want3, tol3, f"force after a change of parameters [{name}]")
        sim.parameters = keep[0]
        ctx.close(call("stress", sim.stress), want, tol, f"force after setting the parameters back [{name}]")

    # order and number of the stretches
    o = np.array(sorted(range(len(x)), key=lambda i: case["perm"][i % len(case["perm"])]))
    per = call("fit function", sim.stress_curve_fit, x[o], *values)
    ctx.close(per, got[o], 1e-3 * tol[o] + 1e-12 * np.abs(got[o]), "force at reordered stretches")
    one = call("fit function", sim.stress_curve_fit, x[:1], *values)
    ctx.close(one, got[:1], 1e-3 * tol[:1] + 1e-12 * np.abs(got[:1]), "force at a single stretch")
    none = call("fit function", sim.stress_curve_fit, x[:0], *values)
    ctx.close(none, got[:0], 1.0, "force without any stretch")


class Plain:
    "A material that returns one stress for all points (of any broadcastable shape)."

    def __init__(self, S, form):
        self.S, self.form = S, form

    def gradient(self, x):
        F, statevars = x
        P = np.diag(self.S).reshape(3, 3, *[1] * (F.ndim - 2))
        if self.form == "full":
            P = P * np.ones_like(F)
        return [P, statevars]


def check_plain(case, ctx):
    "Results of a user-defined material which do not depend on the point."
    lab = ref.hel().lab
    x = np.array(case["x"])
    for form in ("full", "broadcast"):
        sim = call(
            "simulation", lab.Simulation, getattr(lab, case["case"])(), x, ["a", "b", "c"],
            lambda a, b, c: Plain([a, b, c], form), case["S"],
        )  # fmt: skip
        l = path(case["case"], x)
        a, _, c = case["S"]
        want = a - c * l[2] / l[0]
        ctx.close(call("stress", sim.stress), want, 1e-13 * (abs(a) + abs(c) * l[2] / l[0] + 1e-300), f"force [{form}]")


def check_custom(case, ctx):
    "A user-defined load case: both in-plane stretches prescribed, free in one direction."
    h = ref.hel()
    label(ctx, case)
    spec, space = case["spec"], case["space"]
    axes, m, x = case["axes"], case["m"], np.array(case["x"])
    i, o, j = axes  # loaded, other, free
    sign = [a - 3 if neg else a for a, neg in zip((i, j), case["neg"])]

    class Custom(h.lab.IncompressibleHomogeneousStretch if case["base"] else h.lab.Uniaxial):
        def __init__(self, label):
            self.label = label

        def defgrad(self, stretch):
            F = np.zeros((3, 3, *np.shape(stretch)))
            F[i, i] = stretch
            F[o, o] = stretch**m
            F[j, j] = stretch ** (-1 - m)
            return F

        def stress(self, F, P):
            return super().stress(F, P, axis=sign[0], traction_free=sign[1])

    slots_ = slots(spec)
    labels = [f"p{k}" for k in range(len(slots_))]
    values = [fetch(spec, s) for s in slots_]
    mat = Material(spec, space, dict(zip(labels, slots_)), {})
    sim = call("simulation", h.lab.Simulation, Custom("mine"), x, labels, mat, values)
    ctx.true(sim.label == "mine", f"label of the simulation: {sim.label!r}")
    # derivative with respect to the loaded stretch at a fixed other stretch
    (v,) = Jet.variables([x])
    fixed = v * 0.0 + x**m
    lam = [None] * 3
    lam[i], lam[o], lam[j] = v, fixed, (v * fixed) ** -1.0
    W = ref.energy(spec, *ref.part(space, *lam))
    l = np.zeros((3, len(x)))
    l[i], l[o], l[j] = x, x**m, x ** (-1 - m)
    F = np.zeros((3, 3, len(x)))
    F[0, 0], F[1, 1], F[2, 2] = l
    r = ref.response(spec, space, F, tangent=False)
    tol = r.tolP * (1 + l[j] / l[i]) * 2 + 1e-12 * W.mg[0]
    if space != "deformation":
        tol = tol + 1e-10 * r.scaleP * (l.max(axis=0) / l.min(axis=0)) ** 2
    ctx.close(call("stress", sim.stress), W.g[0], tol, "force, user-defined load case")


def check_shared(case, ctx):
    "Several simulations that share one material function and one list of labels."
    lab = ref.hel().lab
    spec, space = case["spec"], case["space"]
    label(ctx, case)
    slots_ = slots(spec)
    labels = [f"p{i}" for i in range(len(slots_))]
    values = [fetch(spec, s) for s in slots_]
    mat = Material(spec, space, dict(zip(labels, slots_)), {})
    sims, wants = [], []
    for name, x, s in case["sims"]:
        v = [a * s for a in values]
        sp = copy.deepcopy(spec)
        for slot, a in zip(slots_, v):
            store(sp, slot, a)
        x = np.array(x)
        sims.append(call("simulation", lab.Simulation, getattr(lab, name)(), x, labels, mat, v))
        wants.append((name, *force(name, sp, space, x)))
    for i in case["order"]:
        i = i % len(sims)
        name, want, tol = wants[i]
        ctx.close(call("stress", sims[i].stress), want, tol, f"force, shared material [{name}]")


def check_history(case, ctx):
    "A simulation whose attributes are changed between evaluations."
    lab = ref.hel().lab
    label(ctx, case)
    space, specs = case["space"], [case["spec"], case["spec2"]]
    slots_ = [slots(s) for s in specs]
    labels = [[f"p{i}" for i in range(len(s))] for s in slots_]
    values = [[fetch(sp, k) for k in s] for sp, s in zip(specs, slots_)]
    mats = [Material(sp, space, dict(zip(l, s)), {}) for sp, l, s in zip(specs, labels, slots_)]
    state = dict(case=case["case"], x=np.array(case["x"]), k=0, f=1.0)
    sim = call(
        "simulation", lab.Simulation, getattr(lab, case["case"])(), state["x"].copy(), labels[0], mats[0],
        np.array(values[0]),
    )  # fmt: skip

    def verify():
        k = state["k"]
        sp = copy.deepcopy(specs[k])
        for slot, v in zip(slots_[k], values[k]):
            store(sp, slot, v * state["f"])
        want, tol = force(state["case"], sp, space, state["x"])
        ctx.close(call("stress", sim.stress), want, tol, f"force after {state.get('do', 'construction')}")

    verify()
    for step in case["steps"]:
        state["do"] = do = step["do"]
        ctx.label("changed: " + do)
        if do == "stretch assigned":
            state["x"] = np.array(step["x"])
            sim.stretch = state["x"].copy()
        elif do == "stretch written":
            state["x"] = np.resize(step["x"], state["x"].shape)
            sim.stretch[:] = state["x"]
        elif do == "load case":
            state["case"] = step["case"]
            sim.loadcase = getattr(lab, step["case"])()
        elif do == "parameters assigned":
            state["f"] = step["f"]
            sim.parameters = np.array(values[state["k"]]) * step["f"]
        elif do == "parameters written":
            state["f"] = step["f"]
            sim.parameters[:] = np.array(values[state["k"]]) * step["f"]
        else:
            k = state["k"] = 1 - state["k"]
            sim.material, sim.labels = mats[k], labels[k]
            sim.parameters = np.array(values[k]) * state["f"]
        if step["look"]:
            verify()
    verify()


STRETCHES = gen.long(st.lists(gen.fl(0.35, 4.0) | st.just(1.0), min_size=1, max_size=6))

SUBS = [
    Sub(
        "force",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=st.sampled_from(["deformation", "distortional", "deformation", "distortional", "dilatational"]),
                case=st.sampled_from(PATHS),
                x=STRETCHES,
                pts=st.just([]),
                perm=st.lists(st.integers(0, 1000), min_size=2, max_size=10),
                count=st.integers(0, 9),
                ones=st.sampled_from([False, False, False, True]),
                form=st.sampled_from(["list", "tuple", "array", "views"]),
                lform=st.sampled_from(["list", "list", "tuple", "array"]),
                fresh=st.booleans(),
                opts=st.sampled_from([{}, {}, dict(parallel=True)]),
            )
        ),
        check,
        "a modulus differs from zero and a stretch from one",
        3000,
        lambda c: gen.has_energy(c["spec"]) and any(x != 1 for x in c["x"]),
    ),
    Sub(
        "plain",
        lambda: st.fixed_dictionaries(
            dict(
                case=st.sampled_from(PATHS),
                x=STRETCHES,
                S=st.lists(gen.fl(-2, 2), min_size=3, max_size=3),
            )
        ),
        check_plain,
        "a stretch differs from one",
        1000,
        lambda c: any(x != 1 for x in c["x"]),
    ),
    Sub(
        "custom",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=st.sampled_from(["deformation", "distortional", "dilatational"]),
                pts=st.just([]),
                axes=st.permutations([0, 1, 2]),
                neg=st.lists(st.booleans(), min_size=2, max_size=2),
                m=st.sampled_from([-0.5, 0.0, 1.0, 0.5, -1.0, 0.25]),
                x=st.lists(gen.fl(0.5, 2.5) | st.just(1.0), min_size=1, max_size=5),
                base=st.booleans(),
            )
        ),
        check_custom,
        "a modulus differs from zero and a stretch from one",
        600,
        lambda c: gen.has_energy(c["spec"]) and any(x != 1 for x in c["x"]),
    ),
    Sub(
        "shared",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=st.sampled_from(["deformation", "distortional"]),
                pts=st.just([]),
                sims=st.lists(
                    st.tuples(st.sampled_from(PATHS), STRETCHES, st.sampled_from([1.0, 0.5, 1.5])).map(list),
                    min_size=2,
                    max_size=4,
                ),
                order=st.lists(st.integers(0, 3), min_size=3, max_size=7),
            )
        ),
        check_shared,
        "a modulus differs from zero and a stretch from one",
        1000,
        lambda c: gen.has_energy(c["spec"]) and any(x != 1 for s in c["sims"] for x in s[1]),
    ),
    Sub(
        "history",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                spec2=gen.models(),
                space=st.sampled_from(["deformation", "distortional"]),
                pts=st.just([]),
                case=st.sampled_from(PATHS),
                x=STRETCHES,
                steps=st.lists(
                    st.one_of(
                        st.builds(
                            lambda d, x, l: dict(do=d, x=x, look=l),
                            st.sampled_from(["stretch assigned", "stretch written"]), STRETCHES, st.booleans(),
                        ),
                        st.builds(lambda c, l: dict(do="load case", case=c, look=l), st.sampled_from(PATHS), st.booleans()),
                        st.builds(
                            lambda d, f, l: dict(do=d, f=f, look=l),
                            st.sampled_from(["parameters assigned", "parameters written"]),
                            st.sampled_from([1.0, 0.5, 1.25, 1 + 1e-6]), st.booleans(),
                        ),
                        st.builds(lambda l: dict(do="material", look=l), st.booleans()),
                    ),
                    min_size=1,
                    max_size=4,
                ),
            )
        ),
        check_history,
        "a modulus differs from zero and a stretch from one",
        700,
        lambda c: gen.has_energy(c["spec"]) and any(x != 1 for x in c["x"]),
    ),
]
