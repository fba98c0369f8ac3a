"""Results depend only on the arguments, not on the call history."""

import copy

from .common import *

SPACES = gen.SPACES


PARAMETERS = ["mu", "alpha", "C10", "C01", "C11", "C20", "C30", "strain", "undeformed"]


def freeze(obj):
    "Model parameters as plain data."
    return copy.deepcopy({k: v for k, v in vars(obj).items() if not callable(v)})


def check(case, ctx):
    specs = case["specs"]
    objs = [None if s["kind"] == "gen" else call("model", ref.model, s) for s in specs]
    inner = [ref.model(s["inner"]) if s["kind"] == "gen" else None for s in specs]
    fws = []
    for m, share in case["fws"]:
        m = m % len(specs)
        o = inner[m] if specs[m]["kind"] == "gen" else objs[m]
        fws.append((m, call("framework", ref.framework, specs[m], o if share else None)))
    umats = []
    for f, sp, opts in case["umats"]:
        f = f % len(fws)
        umats.append((fws[f][0], sp, opts, call("space", ref.space, sp, fws[f][1], **opts)))
    models = [o for o in objs + inner if o is not None and not hasattr(o, "spec")]
    before = [freeze(o) for o in models]

    # a pool of deformation gradients: buffers whose content may be overwritten
    shapes = case["shapes"]
    pts = case["pts"]
    buffers = [gen.fgrads(pts[i:] + pts[:i], s) for i, s in enumerate(shapes)]
    lists = [[b, None] for b in buffers]
    results = []

    for op in case["ops"]:
        kind, a, b = op
        u = umats[a % len(umats)]
        X = lists[b % len(lists)]
        F = X[0]
        if kind == "w":  # the caller re-uses the array for other values
            F[...] = gen.fgrads(pts[a % len(pts) :] + pts[: a % len(pts)], F.shape[2:])
            ctx.label("overwritten buffer")
            continue
        if kind == "n":  # slightly different ones
            F[...] = gen.near(F, gen.CLOSE[a % len(gen.CLOSE)])
            ctx.label("slightly changed buffer")
            continue
        if kind == "p":  # another one at one of the points
            if F[0, 0].size:
                f = F.reshape(3, 3, -1)
                f[..., (a * 7919) % f.shape[2]] = gen.fgrad(pts[b % len(pts)])
                ctx.label("one point of a buffer changed")
            continue
        if kind == "r":  # the caller changes a result in place
            if results:
                i = a % len(results)
                if results[i][0].flags.writeable:
                    ctx.label("result changed by the caller")
                    results[i][0][...] += 1.0 + b
                    results[i] = (results[i][0], np.array(results[i][0]))
            continue
        m, sp, opts, obj = u
        spec = specs[m]
        if kind == "x":  # a call which fails (or gives no numbers), caught by the caller
            if a % 2:  # a model which fails (once)
                o = inner[m] if spec["kind"] == "gen" else objs[m]
                name = ["gradient", "hessian"][b % 2]
                called = []

                def failing(*args, **kwargs):
                    called.append(name)
                    raise RuntimeError("failing model")

                try:
                    setattr(o, name, failing)
                except Exception:
                    continue
                try:
                    for fun in [obj.gradient, obj.hessian][a // 2 % 2 :]:
                        try:
                            fun([F, None])
                        except Exception:
                            ctx.label("after a failing model" if called else "after another failure")
                finally:
                    delattr(o, name)
                continue
            bad = [np.where(np.arange(F.size).reshape(F.shape) == 0, np.nan, F), F[:2], np.moveaxis(F, 0, -1), F * np.nan][a // 2 % 4]
            with np.errstate(all="ignore"):
                for fun in [obj.gradient, obj.hessian][b % 2 :]:
                    try:
                        fun([bad, None])
                    except Exception as e:
                        ctx.label("after a failing call: " + type(e).__name__)
            continue
        fresh = call("fresh objects", ref.umat, spec, sp, **opts)
        copyF = F.copy()
        r = ref.response(spec, sp, F, tangent=False)
        amp = np.maximum(r.lam.max(axis=0), 1 / r.lam.min(axis=0)) ** 5
        if kind in "gs":
            out = call("gradient", obj.gradient, X if kind == "g" else [F, None])[0]
            want = call("gradient of fresh objects", fresh.gradient, [copyF, None])[0]
            tol = r.sameP * amp
        else:
            out = call("hessian", obj.hessian, X if kind == "h" else (F, None))[0]
            want = call("hessian of fresh objects", fresh.hessian, [copyF, None])[0]
            tol = r.sameA * amp
        want = np.array(want)
        tol = tol if want.shape[-tol.ndim :] == tol.shape else np.max(tol)
        ctx.close(out, want, tol, "same as on fresh objects")
        ctx.same(F, copyF, "deformation gradient argument")
        ctx.true(len(X) == 2 and X[0] is F, "argument list changed by the call")
        results.append((out, np.array(out)))
        for k, (res, saved) in enumerate(results[:-1]):
            ctx.same(res, saved, f"result of call {k} after call {len(results) - 1}")

    for o, b in zip(models, before):
        after = freeze(o)
        for name in b:
            if name in PARAMETERS and name in after:
                if type(o).__name__ in ("Ogden", "ThirdOrderDeformation"):
                    ctx.true(
                        np.array_equal(np.asarray(after[name]), np.asarray(b[name])),
                        f"model parameter {name} changed from {b[name]} to {after[name]}",
                    )
    ctx.label(*(f"ops: {min(len(results), 10)}",))


@st.composite
def siblings(draw, most=4):
    "Points, sometimes with the same strains, stretches or some of the invariants."
    pts = draw(st.lists(gen.points(), min_size=2, max_size=most))
    how = draw(st.sampled_from(["", "", "rotated body", "rotated sample", "same volume", "same first", "same sum"]))
    if how and pts[0]["k"] == "polar":
        l, a, b = pts[0]["l"], draw(gen.angles()), draw(gen.angles())
        if how == "rotated body":
            b = pts[0]["b"]
        elif how == "same volume":
            l = [l[0] * 2.0, l[1] * 0.5, l[2]]
        elif how == "same first":  # equal sums of squares
            s = (l[0] ** 2 + l[1] ** 2) / 2
            l = [float(np.sqrt(1.5 * s)), float(np.sqrt(0.5 * s)), l[2]]
        elif how == "same sum":  # exactly equal sums of the components
            k = draw(st.sampled_from([1.0, 0.5, 2.0]))
            pts[0] = dict(k="polar", l=[k, k, 0.25 * k], a=[0.0] * 3, b=[0.0] * 3)
            l, a, b = [1.25 * k, 0.5 * k, 0.5 * k], [0.0] * 3, [0.0] * 3
        pts[1] = dict(k="polar", l=l, a=a, b=b)
    return pts


def strategy():
    idx = st.integers(0, 5)
    opts = st.sampled_from([{}, {}, {}, dict(force=0), dict(area=None), dict(finalize=False), dict(parallel=True)])
    return st.fixed_dictionaries(
        dict(
            specs=st.lists(gen.models(), min_size=1, max_size=2),
            fws=st.lists(st.tuples(idx, st.booleans()).map(list), min_size=1, max_size=3),
            umats=st.lists(st.tuples(idx, gen.spaces(), opts).map(list), min_size=1, max_size=4),
            pts=siblings(),
            shapes=st.lists(gen.shapes(), min_size=1, max_size=3),
            ops=st.lists(
                st.tuples(st.sampled_from("gggsshhhttwrnnpx"), idx, idx).map(list), min_size=3, max_size=10
            ),
        )
    )


# -- many calls -----------------------------------------------------------------------


def check_many(case, ctx):
    "All results of a long history are kept, and depend on their own arguments only."
    spec, sp = case["spec"], case["space"]
    ctx.label(gen.about(spec), "space: " + sp, f"calls: {case['calls'] // 10 * 10}+")
    u = call("space", ref.space, sp, call("framework", ref.framework, spec), **case["opts"])
    rng = np.random.default_rng(case["seed"])
    base = gen.fgrads(case["pts"], case["shape"])
    names = dict(g=["gradient"], h=["hessian"], b=["gradient", "hessian"])[case["kind"]]
    calls = []
    for k in range(case["calls"]):
        F = base * (1 + 0.02 * k) if case["grow"] else gen.near(base, float(rng.choice(gen.CLOSE)))
        for name in names:
            out = call(name, getattr(u, name), [F, None])[0]
            calls.append((name, F, F.copy(), out, np.array(out)))
    for k, (name, F, saved, out, old) in enumerate(calls):
        ctx.same(out, old, f"result of call {k} of {len(calls)}, afterwards")
        ctx.same(F, saved, "deformation gradient argument")
    for k in sorted({0, len(calls) - 1, *rng.integers(0, len(calls), 4).tolist()}):
        name, F, _, out, _ = calls[k]
        r = ref.response(spec, sp, F, tangent=False)
        amp = np.maximum(r.lam.max(axis=0), 1 / r.lam.min(axis=0)) ** 5
        tol = r.sameA * amp if name == "hessian" else r.sameP * amp
        fresh = call("fresh objects", ref.umat, spec, sp, **case["opts"])
        want = np.array(call("fresh objects", getattr(fresh, name), [F, None])[0])
        tol = tol if want.shape[-tol.ndim :] == tol.shape else np.max(tol)
        ctx.close(out, want, tol, f"{name} of one of many calls, same as on fresh objects")


def strategy_many():
    return st.fixed_dictionaries(
        dict(
            spec=gen.models(),
            space=gen.spaces(),
            opts=st.sampled_from([{}, {}, dict(force=0), dict(parallel=True)]),
            pts=siblings(),
            shape=st.sampled_from([[2], [3, 2], [8, 2], [1]]),
            calls=st.integers(11, 70),
            kind=st.sampled_from("ghb"),
            grow=st.booleans(),
            seed=st.integers(0, 2**31),
        )
    )


# -- the math functions and the frameworks --------------------------------------------


def check_framework(case, ctx):
    "Frameworks called directly, in any order, with changing states."
    spec = case["spec"]
    fw = call("framework", ref.framework, spec)
    pool = []
    for i, s in enumerate(case["shapes"]):
        F = gen.fgrads(case["pts"][i:] + case["pts"][:i], s)
        C = np.einsum("kI...,kJ...->IJ...", F, F)
        pool.append((voigt2(C).copy(), ref.response(spec, "deformation", F, tangent=False)))
    results = []
    for kind, b in case["ops"]:
        C, r = pool[b % len(pool)]
        if kind == "w":  # other values in the same array
            k = (b + 1) % len(case["pts"])
            F = gen.fgrads(case["pts"][k:] + case["pts"][:k], C.shape[1:])
            C[...] = voigt2(np.einsum("kI...,kJ...->IJ...", F, F))
            pool[b % len(pool)] = (C, ref.response(spec, "deformation", F, tangent=False))
            continue
        saved = C.copy()
        fresh = call("fresh framework", ref.framework, spec)
        lmin, lmax = r.lam.min(axis=0), r.lam.max(axis=0)
        amp = 10 * np.maximum(lmax, 1 / lmin) ** 5
        if kind == "g":
            out = call("framework gradient", fw.gradient, C, None)[0]
            want = call("fresh framework gradient", fresh.gradient, saved, None)[0]
            tol = r.sameP * amp
        else:
            out = call("framework hessian", fw.hessian, C, None)
            want = call("fresh framework hessian", fresh.hessian, saved, None)
            tol = r.sameA * amp
        want = np.array(want)
        ctx.close(out, want, np.max(tol), "framework same as fresh")
        ctx.same(C, saved, "right Cauchy-Green argument")
        results.append((out, np.array(out)))
        for k, (res, old) in enumerate(results):
            ctx.same(res, old, f"framework result {k} after call {len(results) - 1}")


def strategy_framework():
    return st.fixed_dictionaries(
        dict(
            spec=gen.models(),
            pts=siblings(3),
            shapes=st.lists(gen.shapes(), min_size=1, max_size=3),
            ops=st.lists(
                st.tuples(st.sampled_from("gghhw"), st.integers(0, 3)).map(list),
                min_size=3,
                max_size=8,
            ),
        )
    )


# -- models that keep and re-return their results -----------------------------------


def arrays(out):
    "The arrays in a model's result."
    out = [out] if isinstance(out, np.ndarray) else out
    return [a for v in out for a in (arrays(v) if isinstance(v, (list, tuple)) else [v]) if isinstance(a, np.ndarray)]


class Memo:
    "Gives the stored result (the same objects) when it is asked for the same once more."

    def __init__(self, f, form):
        self.f, self.form, self.stored, self.received = f, form, {}, []

    def __call__(self, *args, **kwargs):
        self.received += [(a, np.array(a)) for a in args if isinstance(a, np.ndarray)]
        key = tuple((np.shape(a), np.asarray(a).tobytes()) for a in (*args, *kwargs.values()) if a is not None)
        if key not in self.stored:
            out = self.f(*args, **kwargs)
            shape = np.broadcast_shapes(*[np.shape(a) for a in args if a is not None])
            if self.form == "list":
                out = out if isinstance(out, np.ndarray) else list(out)
            if self.form == "stacked" and len(out) == 6:  # of a model in the stretches
                out = np.array([np.broadcast_to(0.0 if v is None else v, shape[1:]) for v in out], dtype=float)
            self.stored[key] = (out, [np.array(a) for a in arrays(out)], list(out))
        return self.stored[key][0]

    def check(self, ctx, what):
        for out, saved, entries in self.stored.values():
            if isinstance(out, list):
                ctx.true(
                    len(out) == len(entries) and all(a is b for a, b in zip(out, entries)),
                    what + ": entries replaced",
                )
            for a, b in zip(arrays(out), saved):
                ctx.same(a, b, what)
        for a, b in self.received:
            ctx.same(a, b, what + ": received arrays")


class KeepingFramework:
    "Keeps the deformation tensors it is given."

    def __init__(self, fw):
        self.fw, self.received = fw, []
        self.x = fw.x

    def gradient(self, C, statevars):
        self.received.append((C, np.array(C)))
        return self.fw.gradient(C, statevars)

    def hessian(self, C, statevars):
        self.received.append((C, np.array(C)))
        return self.fw.hessian(C, statevars)

    def check(self, ctx):
        for a, b in self.received:
            ctx.same(a, b, "deformation tensors given to the framework, afterwards")


class Keeping:
    def __init__(self, inner, form):
        self.gradient, self.hessian = Memo(inner.gradient, "tuple"), Memo(inner.hessian, form)

    def check(self, ctx):
        self.gradient.check(ctx, "first derivatives returned by the model, afterwards")
        self.hessian.check(ctx, "second derivatives returned by the model, afterwards")


def check_keeping(case, ctx):
    "The arrays a user-defined model returns belong to the model."
    spec = case["spec"]
    ctx.label(gen.about(spec), "space: " + case["space"])
    form = case["form"]
    if form == "stacked" and spec["kind"] not in ("ogden", "userstr"):
        form = "tuple"
    model = Keeping(ref.model(spec["inner"] if spec["kind"] == "gen" else spec), form)
    keepers = [model]
    if spec["kind"] == "gen":
        fun, kw = ref.strainfun(spec["fun"])
        memo = Memo(fun, "tuple")
        fw = call("framework", ref.hel().GeneralizedInvariantsFramework, model, memo, **kw)
    else:
        fw = call("framework", ref.framework, spec, model)
    if case["kept"]:
        fw = KeepingFramework(fw)
        keepers.append(fw)
    u = call("space", ref.space, case["space"], fw)
    for kind, b in case["ops"]:
        pts = case["pts"][b % len(case["pts"]) :] + case["pts"][: b % len(case["pts"])]
        F = gen.fgrads(pts, case["shapes"][b % len(case["shapes"])])
        fresh = call("fresh objects", ref.umat, spec, case["space"])
        r = ref.response(spec, case["space"], F, tangent=False)
        amp = np.maximum(r.lam.max(axis=0), 1 / r.lam.min(axis=0)) ** 5
        name = dict(g="gradient", h="hessian")[kind]
        out = call(name, getattr(u, name), [F, None])[0]
        want = np.array(call(name + " of fresh objects", getattr(fresh, name), [F.copy(), None])[0])
        tol = r.sameA * amp if kind == "h" else r.sameP * amp
        tol = tol if want.shape[-tol.ndim :] == tol.shape else np.max(tol)
        ctx.close(out, want, tol, name + " with stored model results, same as on fresh objects")
        for k in keepers:
            k.check(ctx)
        if spec["kind"] == "gen":
            memo.check(ctx, "values returned by the strain function, afterwards")


def strategy_keeping():
    idx = st.integers(0, 3)
    return st.fixed_dictionaries(
        dict(
            spec=gen.models(),
            space=gen.spaces(),
            form=st.sampled_from(["tuple", "list", "stacked"]),
            kept=st.booleans(),
            pts=st.lists(gen.points(), min_size=1, max_size=3),
            shapes=st.lists(gen.shapes(), min_size=1, max_size=2),
            ops=st.lists(st.tuples(st.sampled_from("gghhh"), idx).map(list), min_size=2, max_size=6),
        )
    )


SUBS = [
    Sub(
        "many",
        strategy_many,
        check_many,
        "a modulus differs from zero",
        250,
        lambda c: gen.has_energy(c["spec"]),
    ),
    Sub(
        "keeping",
        strategy_keeping,
        check_keeping,
        "at least two evaluations, a modulus differs from zero",
        1000,
        lambda c: gen.has_energy(c["spec"]),
    ),
    Sub(
        "histories",
        strategy,
        check,
        "at least two evaluations, a modulus differs from zero",
        1600,
        lambda c: sum(o[0] in "ghst" for o in c["ops"]) > 1 and any(map(gen.has_energy, c["specs"])),
    ),
    Sub(
        "frameworks",
        strategy_framework,
        check_framework,
        "at least two evaluations, a modulus differs from zero",
        1000,
        lambda c: sum(o[0] != "w" for o in c["ops"]) > 1 and gen.has_energy(c["spec"]),
    ),
]
