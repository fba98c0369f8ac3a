"""Drop-in use in FElupe: residual and tangent of a body are consistent."""

from .common import *

MESHES = ["cube", "cube", "tetra", "plane strain", "axisymmetric", "quadratic"]


def build(kind, seed, n):
    "Mesh with moved interior shape, region, field container."
    import felupe as fem

    rng = np.random.default_rng(seed)
    if kind in ("cube", "tetra", "quadratic"):
        m = fem.Cube(n=n)
        if kind == "tetra":
            m = fem.mesh.triangulate(m)
            region = lambda mesh: fem.RegionTetra(mesh)
        elif kind == "quadratic":
            m = fem.Cube(n=2)
            m = m.add_midpoints_edges() if hasattr(m, "add_midpoints_edges") else m
            region = lambda mesh: (
                fem.RegionQuadraticHexahedron(mesh)
                if mesh.cells.shape[1] == 20
                else fem.RegionHexahedron(mesh)
            )
        else:
            region = lambda mesh: fem.RegionHexahedron(mesh)
        A = np.eye(3) + rng.uniform(-0.15, 0.15, (3, 3))
        m.points[:] = m.points @ A.T
        r = region(m)
        return fem.FieldContainer([fem.Field(r, dim=3)])
    m = fem.Rectangle(n=n)
    A = np.eye(2) + rng.uniform(-0.15, 0.15, (2, 2))
    m.points[:] = m.points @ A.T
    if kind == "axisymmetric":
        m.points[:, 1] += 0.5 - m.points[:, 1].min()
    r = fem.RegionQuad(m)
    f = fem.FieldAxisymmetric(r, dim=2) if kind == "axisymmetric" else fem.FieldPlaneStrain(r, dim=2)
    return fem.FieldContainer([f])


def volumes(field, kind):
    dV = field.region.dV
    if kind == "axisymmetric":
        return 2 * np.pi * field[0].radius * dV
    return dV


def kinematics(field, values):
    field[0].values[:] = values
    return np.array(field.extract()[0])


def displacement(field, kind, case, rng):
    "Homogeneous part plus disturbances, such that no point is turned inside out."
    X = field.region.mesh.points
    dim = X.shape[1]
    H = np.array(case["H"], dtype=float).reshape(3, 3)[:dim, :dim]
    if kind == "axisymmetric":
        H = np.array([[H[0, 0], 0], [0, H[1, 1]]])
    if case["uniform"]:
        noise = 0
    else:
        noise = rng.uniform(-0.1, 0.1, X.shape)
    u = X @ H.T + noise
    for _ in range(60):
        F = kinematics(field, u)
        lam = np.linalg.svd(np.moveaxis(F, (0, 1), (-2, -1)), compute_uv=False)
        if dett(F).min() > 0.15 and lam.min() > 0.3 and lam.max() < 4:
            return u
        u = u * 0.8
    return u * 0


def check(case, ctx):
    import felupe as fem

    label(ctx, case)
    spec, sp, kind = case["spec"], case["space"], case["mesh"]
    ctx.label("mesh: " + kind, "body: " + case["body"])
    rng = np.random.default_rng(case["seed"])
    field = build(kind, case["seed"], case["n"])
    u = displacement(field, kind, case, rng)
    dV = volumes(field, kind)
    fw = call("construction", ref.framework, spec)
    umat = call("construction", ref.space, sp, fw, **case["opts"])
    mixed = case["body"] == "nearly incompressible"
    bulk = case["bulk"]
    values0 = np.zeros_like(u)
    F = kinematics(field, u)
    r = ref.response(spec, sp, F)

    field[0].values[:] = values0
    if mixed:
        body = call("body", fem.SolidBodyNearlyIncompressible, umat, field, bulk=bulk)
    else:
        body = call("body", fem.SolidBody, umat, field)

    # a history of other displacements before
    for k in range(case["before"]):
        field[0].values[:] = u * (1 - case["steps"][k] if case["steps"][k] else rng.uniform(0, 0.9))
        call("vector", body.assemble.vector, field)
        if case["order"] != "v":
            call("matrix", body.assemble.matrix, field)

    field[0].values[:] = u
    if mixed:  # settles the internal pressure and volume ratio
        call("vector", body.assemble.vector, field)
    order = dict(v=[0, 1], m=[1, 0], x=[1, 0, 1, 0])[case["order"]]
    for o in order:
        fun, name = [(body.assemble.vector, "vector"), (body.assemble.matrix, "matrix")][o]
        field[0].values[:] = u
        out = call(name, fun, field)
        if o:
            K = ctx.array(out.toarray(), "stiffness matrix", shape=(u.size, u.size))
        else:
            R = ctx.array(out.toarray(), "force vector", shape=(u.size, 1)).ravel()

    P, A, tolP, tolA = r.P, r.A, r.tolP, r.tolA
    extra = 0.0
    if mixed:
        J = dett(F)
        V, v = dV.sum(axis=0), (J * dV).sum(axis=0)
        p = bulk * (v / V - 1)
        Fit = T(invt(F))
        G = J * Fit  # derivative of the volume ratio
        P = P + p * G
        GG = (np.einsum("iJ...,kL...->iJkL...", Fit, Fit) - np.einsum("iL...,kJ...->iJkL...", Fit, Fit)) * J
        A = A + p * GG
        tolP = tolP + 1e-10 * bulk * np.abs(G).max(axis=(0, 1))
        tolA = tolA + 1e-10 * bulk * (np.abs(GG).max(axis=(0, 1, 2, 3)) + np.abs(G).max(axis=(0, 1)) ** 2)

    D, E = [], []
    for _ in range(3):
        d = rng.uniform(-1, 1, u.shape)
        D.append(d)
        E.append(kinematics(field, u + d) - F)
    field[0].values[:] = u
    for d, e in zip(D, E):
        size = np.abs(e).sum(axis=(0, 1))
        want = np.sum(np.einsum("iJ...,iJ...->...", P, e) * dV)
        tol = np.sum((tolP * size + 1e-13 * np.abs(P).max(axis=(0, 1)) * size) * dV) + 1e-300
        ctx.close(R @ d.ravel(), want, 2 * tol, f"virtual work of the internal forces [{case['body']}]")
        for d2, e2 in zip(D, E):
            size2 = size * np.abs(e2).sum(axis=(0, 1))
            want = np.sum(np.einsum("iJ...,iJkL...,kL...->...", e, A, e2) * dV)
            tol = np.sum((tolA + 1e-13 * np.abs(A).max(axis=(0, 1, 2, 3))) * size2 * dV) + 1e-300
            if mixed:
                g, g2 = [np.sum(np.einsum("iJ...,iJ...->...", G, q) * dV, axis=0) for q in (e, e2)]
                want = want + np.sum(bulk / V * g * g2)
            ctx.close(d.ravel() @ K @ d2.ravel(), want, 2 * tol, f"stiffness [{case['body']}]")
    scale = np.sum(tolA * dV) * 1e3 + 1e-12 * np.abs(K).max()
    hscale = np.abs(E[0]).max() ** 2 * 10
    ctx.close(K, K.T, scale * hscale, "symmetry of the stiffness matrix")

    # rigid motions
    if sp == "distortional" and kind in ("cube", "tetra", "quadratic") and not mixed:
        Q = gen.rot(case["Q"])
        X = field.region.mesh.points
        field[0].values[:] = X @ Q.T - X + 0.3
        out = call("vector", body.assemble.vector, field).toarray().ravel()
        Fq = np.array(field.extract()[0])
        rr = ref.response(spec, sp, Fq, tangent=False)
        ctx.close(out, 0 * out, 1e2 * np.sum((rr.tolP + 1e-10 * rr.scaleP) * dV), "forces of a rigid motion")
    if kind in ("cube", "tetra", "quadratic") and not mixed:
        # superposed rotation: the forces turn along, the energy does not change
        Q = gen.rot(case["Q"])
        X = field.region.mesh.points
        field[0].values[:] = (X + u) @ Q.T - X
        out = call("vector", body.assemble.vector, field).toarray().reshape(-1, 3)
        grad = np.abs(kinematics(field, u + 1.0 * (np.arange(u.size).reshape(u.shape) == 0)) - F).max() + 1
        ctx.close(out, R.reshape(-1, 3) @ Q.T, 20 * grad * np.sum(tolP * dV) + 1e-13 * np.abs(R).max(), "forces of a turned body")


@st.composite
def strategy(draw):
    spec = draw(gen.models())
    kind = draw(st.sampled_from(MESHES))
    return dict(
        spec=spec,
        space=draw(gen.spaces()),
        pts=[],
        mesh=kind,
        n=draw(st.sampled_from([2, 2, 2, 3, 3, 3, 4, 5] if kind == "cube" else [2, 2, 2, 3, 3, 3, 3, 4, 11] if kind in ("plane strain", "axisymmetric") else [2, 2, 3])),
        H=draw(st.lists(gen.fl(-0.5, 0.5), min_size=9, max_size=9)),
        uniform=draw(st.sampled_from([False, False, False, True])),
        seed=draw(st.integers(0, 2**31)),
        body=draw(st.sampled_from(["solid", "solid", "nearly incompressible"])),
        bulk=draw(st.sampled_from([1.0, 50.0, 5000.0])),
        opts=draw(st.sampled_from([{}, {}, dict(parallel=True), dict(force=None, area=0)])),
        before=draw(st.integers(0, 2)),
        # distances of the displacements before
        steps=draw(st.lists(st.just(0) | st.sampled_from(gen.CLOSE), min_size=2, max_size=2)),
        order=draw(st.sampled_from("vmx")),
        Q=draw(gen.angles()),
    )


# -- several bodies, history-dependent materials --------------------------------------


class Ageing:
    "Scales a model by the first state variable, which grows with each step."

    def __init__(self, inner):
        self.inner = inner

    def _scaled(self, s, values):
        return [None if v is None else v * (1 + s[0]) for v in values]

    def gradient(self, *args):
        *I, s = args
        out = self.inner.gradient(*I, None)
        new = 1.25 * np.asarray(s) + 0.125
        if len(I) == 1:  # in the principal stretches
            return self._scaled(s, out[0]), new
        return (*self._scaled(s, out[:3]), new)

    def hessian(self, *args):
        *I, s = args
        return self._scaled(s, self.inner.hessian(*I, None))


def check_shared(case, ctx):
    "Several bodies with one material, each one with its own state variables, in any order."
    import felupe as fem

    spec, sp = case["spec"], case["space"]
    label(ctx, case)
    aged, n = case["aged"], case["nstatevars"]
    ctx.label("state variables" if aged else "no state variables", f"bodies: {len(case['bodies'])}")
    model = ref.model(spec["inner"] if spec["kind"] == "gen" else spec)
    fw = call("framework", ref.framework, spec, Ageing(model), nstatevars=n) if aged else call("framework", ref.framework, spec)
    umat = call("space", ref.space, sp, fw, **case["opts"])
    rng = np.random.default_rng(case["seed"])
    bodies = []
    for k, kind in enumerate(case["bodies"]):
        field = build(kind, case["seed"] + k, 3 if kind in ("plane strain", "axisymmetric") else 2)
        u = displacement(field, kind, case, rng)
        field[0].values[:] = 0
        q = volumes(field, kind).shape
        kw, s = {}, np.zeros((n, *q))
        if aged and k % 2 == 0:
            s = rng.uniform(0, 1, (n, *q))
            kw = dict(statevars=s.copy())
        body = call("body", fem.SolidBody, umat, field, **kw)
        if aged:
            ctx.true(
                np.shape(body.results.statevars) == s.shape,
                f"state variables of the body: shape {np.shape(body.results.statevars)} instead of {s.shape}",
            )
        bodies.append(dict(kind=kind, field=field, u=u, s=s, new=None, body=body))

    for op, i in case["ops"]:
        b = bodies[i % len(bodies)]
        field, body, kind = b["field"], b["body"], b["kind"]
        if op == "d":  # another displacement
            b["u"] = b["u"] * 0.9
            continue
        if op == "u":  # the end of a step
            body.results.update_statevars()
            if b["new"] is not None:
                b["s"] = b["new"]
            continue
        F = kinematics(field, b["u"])
        r = ref.response(spec, sp, F)
        dV = volumes(field, kind)
        f = 1 + b["s"][0] if aged else np.ones(dV.shape)
        fun = dict(v=body.assemble.vector, m=body.assemble.matrix)[op]
        out = call(dict(v="vector", m="matrix")[op], fun, field).toarray()
        if op == "v":
            b["new"] = 1.25 * b["s"] + 0.125
        if aged:
            ctx.close(body.results.statevars, b["s"], 1e-12 * (1 + np.abs(b["s"]).max()), "state variables of the body")
        d = [rng.uniform(-1, 1, b["u"].shape) for _ in range(2)]
        e = [kinematics(field, b["u"] + q) - F for q in d]
        field[0].values[:] = b["u"]
        size = [np.abs(q).sum(axis=(0, 1)) for q in e]
        if op == "v":
            want = np.sum(np.einsum("iJ...,iJ...->...", r.P, e[0]) * f * dV)
            tol = np.sum((r.tolP + 1e-13 * np.abs(r.P).max(axis=(0, 1))) * size[0] * f * dV) + 1e-300
            got = out.ravel() @ d[0].ravel()
        else:
            want = np.sum(np.einsum("iJ...,iJkL...,kL...->...", e[0], r.A, e[1]) * f * dV)
            tol = np.sum((r.tolA + 1e-13 * np.abs(r.A).max(axis=(0, 1, 2, 3))) * size[0] * size[1] * f * dV) + 1e-300
            got = d[0].ravel() @ out @ d[1].ravel()
        ctx.close(got, want, 2 * tol, dict(v="virtual work of the internal forces", m="stiffness")[op] + " of one of several bodies")


@st.composite
def strategy_shared(draw):
    kinds = ["cube", "cube", "tetra", "plane strain", "axisymmetric"]
    return dict(
        spec=draw(gen.models()),
        space=draw(gen.spaces()),
        pts=[],
        aged=draw(st.sampled_from([True, True, False])),
        nstatevars=draw(st.integers(1, 3)),
        bodies=draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3)),
        H=draw(st.lists(gen.fl(-0.5, 0.5), min_size=9, max_size=9)),
        uniform=draw(st.sampled_from([False, False, True])),
        seed=draw(st.integers(0, 2**31)),
        opts=draw(st.sampled_from([{}, {}, dict(parallel=True)])),
        ops=draw(st.lists(st.tuples(st.sampled_from("vvvmmmdu"), st.integers(0, 2)).map(list), min_size=2, max_size=9)),
    )


SUBS = [
    Sub(
        "shared",
        strategy_shared,
        check_shared,
        "a modulus differs from zero, at least one vector or matrix is assembled",
        600,
        lambda c: gen.has_energy(c["spec"]) and any(o[0] in "vm" for o in c["ops"]),
    ),
    Sub(
        "bodies",
        strategy,
        check,
        "a modulus differs from zero and the displacement field from zero",
        1500,
        lambda c: gen.has_energy(c["spec"]) and (not c["uniform"] or any(c["H"])),
    )
]
