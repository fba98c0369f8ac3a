"""State variables are routed unchanged between caller and model."""

from .common import *

KINDS = ["none", "array", "array0", "array3", "intarray", "list", "dict", "object", "str", "tuple"]


class Token:
    "A caller-defined container of state variables."

    def __init__(self, n):
        self.n = n


def make(kind, n, trax):
    if kind == "none":
        return None
    if kind == "array":
        return np.linspace(n, n + 1, 3 * max(1, int(np.prod(trax)))).reshape(3, *trax)
    if kind == "array0":
        return np.array(float(n))
    if kind == "array3":
        return np.arange(12.0).reshape(2, 3, 2) + n
    if kind == "intarray":
        return np.arange(4) + n
    if kind == "list":
        return [n, np.ones(2) * n, None]
    if kind == "dict":
        return dict(n=n, a=np.ones((2, 2)) * n)
    if kind == "tuple":
        return (n, "x")
    if kind == "str":
        return f"state {n}"
    return Token(n)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Token) or isinstance(b, Token) or type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


class Recorder:
    "Passes evaluations on to a model, logs and replaces the state variables."

    def __init__(self, inner, container=tuple):
        self.inner, self.container = inner, container
        self.log = []
        self.new = None

    def gradient(self, *args):
        self.log.append(("g", args[-1]))
        out = self.inner.gradient(*args[:-1], None)
        return self.container((*out[:-1], self.new))

    def hessian(self, *args):
        self.log.append(("h", args[-1]))
        return self.container(self.inner.hessian(*args[:-1], None))


def case_sequence(case, x):
    "The variables in a list or in another sequence."
    return tuple(x) if case["tuple"] else x


def check_routing(case, ctx):
    spec, sp = case["spec"], case["space"]
    ctx.label(gen.about(spec), "space: " + sp)
    inner = ref.model(spec["inner"] if spec["kind"] == "gen" else spec)
    rec = Recorder(inner, list if case["list"] else tuple)
    fw = call("framework", ref.framework, spec, rec, nstatevars=case["n"])
    u = call("space", ref.space, sp, fw, **case["opts"])
    plain = call("space", ref.umat, spec, sp, **case["opts"])
    for i, (op, kind, newkind, b) in enumerate(case["ops"]):
        ctx.label("state variables: " + kind)
        shape = case["shapes"][b % len(case["shapes"])]
        F = gen.fgrads(case["pts"], shape)
        old, rec.new, rec.log = make(kind, i, shape), make(newkind, 100 + i, shape), []
        keep = make(kind, i, shape) if kind != "object" else old
        knew = make(newkind, 100 + i, shape) if newkind != "object" else rec.new
        # only the first and the last entry are looked at
        x = case_sequence(case, [F, *[np.full((1, 1), 7.5 + k) for k in range(case["extra"])], old])
        def value(out):  # the values are those of a model without state variables
            name = dict(g="gradient", h="hessian")[op]
            want = np.array(call(name, getattr(plain, name), [F, None])[0])
            ctx.close(out[0], want, 1e-8 * (np.abs(want).max(initial=0.0) + 1e-300), f"{name} with state variables")

        if op == "g":
            out = call("gradient", u.gradient, x)
            value(out)
            ctx.true(isinstance(out, (list, tuple)) and len(out) == 2, "gradient: not [P, statevars]")
            ctx.true(
                same(out[-1], knew), f"new state variables: {out[-1]!r:.100} not {knew!r:.100}"
            )
            ctx.true(any(k == "g" for k, _ in rec.log), "the model's gradient was not called")
        else:
            value(call("hessian", u.hessian, x))
            ctx.true(any(k == "h" for k, _ in rec.log), "the model's hessian was not called")
        for k, sv in rec.log:
            ctx.true(
                same(sv, keep),
                f"the model's {dict(g='gradient', h='hessian')[k]} received {sv!r:.100} "
                f"instead of the old state variables {keep!r:.100}",
            )
        ctx.true(same(old, keep), "the caller's state variables were changed")
        ctx.true(same(rec.new, knew), "the model's state variables were changed")
        ctx.true(x[0] is F and x[-1] is old, "the caller's argument list was changed")


# -- a history-dependent material ------------------------------------------------------


class Damage:
    """Softening: the stiffness drops with the largest first invariant met before the
    current step (explicit update), so the response depends on the old state only."""

    def __init__(self, c):
        self.c = c

    def gradient(self, I1, I2, I3, statevars):
        f = self.c * (1 + np.exp(-0.1 * statevars[0]))
        return f * (1 + 0 * I1), None, None, np.array([np.maximum(statevars[0], I1)])

    def hessian(self, I1, I2, I3, statevars):
        f = self.c * (1 + np.exp(-0.1 * statevars[0]))
        return f * 0.0 * I1, None, None, None, None, None


class Damage2(Damage):
    "The quadratic energy f (I1 - 3)^2 with the same softening."

    def gradient(self, I1, I2, I3, statevars):
        f = self.c * (1 + np.exp(-0.1 * statevars[0]))
        return 2 * f * (I1 - 3), None, None, np.array([np.maximum(statevars[0], I1)])

    def hessian(self, I1, I2, I3, statevars):
        f = self.c * (1 + np.exp(-0.1 * statevars[0]))
        return 2 * f + 0 * I1, None, None, None, None, None


class DamageStretch:
    "W = f/2 sum(l^2) in the principal stretches with a state of the largest stretch."

    def __init__(self, c):
        self.c = c

    def gradient(self, stretches, statevars):
        f = self.c * (1 + np.exp(-0.1 * statevars[0]))
        return f * stretches, np.array([np.maximum(statevars[0], stretches.max(axis=0))])

    def hessian(self, stretches, statevars):
        f = self.c * (1 + np.exp(-0.1 * statevars[0]))
        return [f + 0 * stretches[0]] * 3 + [None] * 3


def check_history(case, ctx):
    "A load history; the reference keeps its own state."
    h = ref.hel()
    sp, kind, c = case["space"], case["kind"], case["c"]
    ctx.label(f"history: {kind}", "space: " + sp)
    if kind == "stretch":
        fw = h.StretchesFramework(DamageStretch(c), nstatevars=1)
    else:
        fw = h.InvariantsFramework((Damage if kind == "linear" else Damage2)(c), nstatevars=1)
    u = call("space", ref.space, sp, fw)
    shape = case["shape"]
    ctx.same(u.x[0], np.eye(3), "advertised deformation gradient")
    ctx.same(np.asarray(u.x[-1]), np.zeros(1), "advertised state variables")
    sv = np.zeros((1, *shape))
    state = np.zeros(shape)
    for i, p in enumerate(case["path"]):
        F = gen.fgrads([p, *case["pts"]], shape)
        f = c * (1 + np.exp(-0.1 * state))
        lam = np.linalg.svd(np.moveaxis(F, (0, 1), (-2, -1)), compute_uv=False)
        l = np.array(ref.part(sp, *np.moveaxis(lam, -1, 0)))
        I1 = (l**2).sum(axis=0)
        one = dict(linear=poly1(1.0, 1), quadratic=poly1(1.0, 2), stretch=poly1(0.5, 1))[kind]
        r = ref.response(one, sp, F)
        new = l.max(axis=0) if kind == "stretch" else I1
        for op in case["order"]:
            if op == "g":
                out = call("gradient", u.gradient, case_sequence(case, [F, sv]))
                P = ctx.array(out[0], "stress", shape=F.shape)
                ctx.close(P, f * r.P, abs(c) * 3 * r.tolP, f"stress along a history [{kind}]")
                got = ctx.array(out[-1], "state variables", shape=(1, *shape))
                want = np.maximum(state, new)
                ctx.close(got[0], want, 1e-8 * (1 + want) * cond(lam), "state along a history")
                nxt = out[-1]
            else:
                A = ctx.array(call("hessian", u.hessian, case_sequence(case, [F, sv]))[0], "elasticity", (3, 3, *F.shape))
                ctx.close(A, f * r.A, abs(c) * 3 * r.tolA, f"elasticity along a history [{kind}]")
        sv, state = nxt, np.maximum(state, new)


def cond(lam):
    return np.maximum(1.0, 1e-6 * (lam[..., 0] / lam[..., -1]) ** 4)


def poly1(c, n):
    return dict(kind="user", terms=[[c, [n, 0, 0]]], log=0, fung=0)


# -- initial variables and built-in models ---------------------------------------------


class Own:
    "A formulation in the reduced components of C."

    def __init__(self, state):
        self.x = [np.eye(3), state]

    def gradient(self, C, statevars):
        return np.zeros_like(C), statevars

    def hessian(self, C, statevars):
        return np.zeros((6, *C.shape))


def check_initial(case, ctx):
    spec, sp, n = case["spec"], case["space"], case["n"]
    ctx.label(gen.about(spec), f"state variables: {n}")
    fw = call("framework", ref.framework, spec, nstatevars=n)
    u = call("space", ref.space, sp, fw)
    x = u.x
    for name, v in (("space", u.x), ("framework", fw.x)):
        ctx.true(len(v) == 2, f"{name}.x has {len(v)} entries")
        ctx.same(np.asarray(v[0], dtype=float), np.eye(3), f"{name}.x[0]")
        ctx.same(np.asarray(v[-1], dtype=float), np.zeros(n), f"{name}.x[-1]")
    r = ref.response(spec, sp, np.eye(3))
    P = stress("initial", u, x[0], ctx, statevars=x[-1])
    A = tangent("initial", u, x[0], ctx, statevars=x[-1])
    ctx.close(P, r.P, r.tolP, "stress at the initial variables")
    ctx.close(A, r.A, r.tolA, "elasticity at the initial variables")
    ctx.same(x[0], np.eye(3), "x[0] after the evaluation")

    # none are asked for by default
    fw0 = call("framework", ref.framework, spec)
    ctx.same(np.asarray(fw0.x[-1], dtype=float), np.zeros(0), "x[-1] of a framework by default")
    ctx.same(np.asarray(call("space", ref.space, sp, fw0).x[-1], dtype=float), np.zeros(0), "x[-1] by default")

    # a second material with another number is not affected
    fw2 = call("framework", ref.framework, spec, nstatevars=n + 2)
    ctx.same(np.asarray(fw2.x[-1]), np.zeros(n + 2), "x[-1] of another framework")
    ctx.same(np.asarray(u.x[-1], dtype=float), np.zeros(n), "x[-1] after another framework")

    # a formulation with initial state variables of its own
    own = Own(make(case["kind"], 3, case["shape"]))
    v = call("space", ref.space, sp, own)
    ctx.true(same(v.x[-1], own.x[-1]), f"x[-1] of a space is {v.x[-1]!r:.100} instead of {own.x[-1]!r:.100}")
    ctx.same(np.asarray(v.x[0]), np.eye(3), "x[0] of a formulation with state variables of its own")

    # the lists of different objects are different ones
    v = call("space", ref.space, sp, fw)
    v.x[0], v.x[-1] = np.zeros((3, 3)), np.ones(n + 1)
    for name, x in (("another space", u.x), ("the framework", fw.x)):
        what = f"of {name}, after the list of a space was changed"
        ctx.same(np.asarray(x[0], dtype=float), np.eye(3), "x[0] " + what)
        ctx.same(np.asarray(x[-1], dtype=float), np.zeros(n), "x[-1] " + what)

    # built-in models hand their state variables through
    shape = case["shape"]
    F = gen.fgrads(case["pts"], shape)
    old = make(case["kind"], 1, shape)
    if not isinstance(old, Token):
        keep = make(case["kind"], 1, shape)
    else:
        keep = old
    out = call("gradient", u.gradient, [F, old])
    ctx.true(same(out[-1], keep), f"state variables {out[-1]!r:.100} instead of {keep!r:.100}")


SUBS = [
    Sub(
        "routing",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=gen.spaces(),
                n=st.integers(0, 4),
                extra=st.sampled_from([0, 0, 0, 1, 2]),
                tuple=st.sampled_from([False, False, True]),
                list=st.booleans(),
                pts=st.lists(gen.points(), min_size=1, max_size=2),
                shapes=st.lists(gen.shapes(), min_size=1, max_size=2),
                opts=st.sampled_from([{}, {}, dict(force=0), dict(area=None), dict(finalize=False)]),
                ops=st.lists(
                    st.tuples(
                        st.sampled_from("gh"),
                        st.sampled_from(KINDS),
                        st.sampled_from(KINDS),
                        st.integers(0, 1),
                    ).map(list),
                    min_size=2,
                    max_size=5,
                ),
            )
        ),
        check_routing,
        "state variables other than None are used",
        1800,
        lambda c: any(o[1] != "none" for o in c["ops"]),
    ),
    Sub(
        "history",
        lambda: st.fixed_dictionaries(
            dict(
                kind=st.sampled_from(["linear", "quadratic", "stretch"]),
                c=gen.fl(0.1, 2.0),
                tuple=st.booleans(),
                space=gen.spaces(),
                shape=gen.shapes(),
                pts=st.lists(gen.points(False), min_size=0, max_size=2),
                path=st.lists(gen.points(False), min_size=2, max_size=5),
                order=st.sampled_from(["gh", "hg", "hgh"]),
            )
        ),
        check_history,
        "at least two different steps, one deformed",
        1200,
        lambda c: len({str(p) for p in c["path"]}) > 1,
    ),
    Sub(
        "initial",
        lambda: st.fixed_dictionaries(
            dict(
                spec=gen.models(),
                space=gen.spaces(),
                n=st.integers(0, 6),
                kind=st.sampled_from(KINDS),
                shape=gen.shapes(),
                pts=st.lists(gen.points(), min_size=1, max_size=2),
            )
        ),
        check_initial,
        "a modulus differs from zero",
        700,
        lambda c: gen.has_energy(c["spec"]),
    ),
]
