"""Curve fit returns the least-squares optimum and reports it consistently."""

import copy

from .fits import *


def snapshot(opt):
    return copy.deepcopy(
        [np.array(v) for v in (opt.parameters, opt.errors, opt.residuals)]
        + [float(opt.norm_residuals()), float(opt.mean_relative_std())]
    )


def compare(ctx, opt, snap, what):
    for name, a, b in zip(
        ("parameters", "errors", "residuals", "norm", "mean relative deviation"), snapshot(opt), snap
    ):
        ctx.same(np.asarray(a), np.asarray(b), f"{name} of {what}")


def linear_problem(case):
    rng = np.random.default_rng(case["seed"])
    labels, space, scale = case["labels"], case["space"], case.get("scale", 1.0)
    ptrue = [v * scale for v in case["p"][: len(labels)]]  # in another unit of stress
    data = [Data(e, labels, ptrue, space, case["noise"], rng, scale=scale) for e in case["exps"]]
    return labels, space, ptrue, data


def check_linear(case, ctx):
    lab = ref.hel().lab
    labels, space, ptrue, data = linear_problem(case)
    # parameters in different units: a user starts from values of the right size
    units = np.array(case["units"][: len(labels)])
    ptrue = np.array(ptrue) / units
    ctx.label("units: " + ("different" if len(set(units)) > 1 else "the same"))
    X, y = np.concatenate([d.X for d in data]) * units, np.concatenate([d.y for d in data])
    sol = exact(X, y)
    spread = np.linalg.svd(X, compute_uv=False)
    if sol is None or len(y) < len(labels) + 2 or spread[-1] < 1e-11 * spread[0]:
        ctx.label("parameters not identifiable")
        return
    pe, re, cove = sol
    ctx.label("initial parameters: " + case["form"], "method: " + case["kwargs"].get("method", "-"))
    ctx.label(f"noise: {case['noise']}", f"experiments: {len(data)}", f"parameters: {len(labels)}")
    ctx.label(f"unit of the parameters: {case['scale']}")
    start, form, options = [v * case["scale"] / u for v, u in zip(case["p0"], units)], case["form"], case["kwargs"]
    if np.any(units != 1):
        start = [v * (1 + 0.5 * np.sin(w)) for v, w in zip(ptrue, case["p0"])]
        form, options = dict(list="list", tuple="tuple", readonly="readonly").get(form, "array"), {}
    p0 = initial(start, form)
    keep = copy.deepcopy(p0)
    t = twin(lambda p: X @ p, y, p0, options)
    size = np.abs(y).max() + np.abs(X @ pe).max()
    if t is None or not np.all(np.isfinite(t[1])) or np.linalg.norm(X @ (t[0] - pe)) > 1e-5 * np.linalg.norm(y):
        ctx.label("reference fit does not converge")
        return

    base = tod_material(space)
    mat = lambda **k: base(**{l: k[l] * u for l, u in zip(labels, units)})
    exps = [d.experiment(record=case["record"]) for d in data]
    ctx.label("records: " + case["record"])
    # the simulations may have stretches of their own (e.g. a fine grid for the plots)
    grid = [d.x if case["grid"] is None else np.linspace(0.7, 2.2, d.n + case["grid"]) for d in data]
    ctx.label("stretches of the simulations: " + ("measured" if case["grid"] is None else "own"))
    sims = [d.simulation(labels, mat, stretch=x.copy()) for d, x in zip(data, grid)]
    kw = dict(experiments=exps, simulations=sims, parameters=p0)
    opt = call("optimize", lab.Optimize, **kw)
    out = call("curve_fit", opt.curve_fit, **options)
    p, cov = report(ctx, opt, out, y, lambda p: X @ p, size)

    # the optimum
    slack = 20 * np.linalg.norm(X @ (t[0] - pe)) + 1e-6 * np.linalg.norm(y)
    miss = np.linalg.norm(X @ (p - pe))
    ctx.close(miss, 0.0, slack, "distance from the optimal prediction")
    s = np.linalg.norm(X, axis=0)
    sigma = np.linalg.svd(X / s, compute_uv=False)[-1] * s
    ctx.close(p, pe, slack / sigma, "optimal parameters")
    if case["noise"] == 0:
        ctx.close(p, ptrue, slack / sigma, "true parameters from exact data")
    else:
        dev = np.sqrt(np.diag(cove))
        off = np.abs(t[1] - cove)
        if np.linalg.norm(re) > 1e-5 * np.linalg.norm(y) and np.all(off < 0.05 * np.outer(dev, dev)):
            ctx.close(cov, cove, 20 * off + 2e-3 * np.outer(dev, dev), "covariance of the optimum")

    # nothing of the caller's has changed
    ctx.true(same_data(p0, keep), "the caller's initial parameters were changed")
    for d, e in zip(data, exps):
        ctx.same(np.asarray(e.force), d.force, "force record")
        ctx.same(np.asarray(e.displacement), d.displacement, "displacement record")
        ctx.same(np.asarray(e.stretch), d.x, "stretch record")
    for d, s, x in zip(data, sims, grid):
        ctx.same(np.asarray(s.stretch), x, "stretches of a simulation")
        f = call("stress", s.stress)
        Xs = np.array([column(d.name, l, space, x) for l in labels]).T * units
        ctx.close(f, Xs @ p, 1e-8 * (size + np.abs(Xs * p).sum(axis=1).max()), "fitted simulation")
    snap = snapshot(opt)
    compare(ctx, opt, snap, "a finished fit, asked for once more")

    # from the optimum on, nothing changes
    if case["again"]:
        out = call("curve_fit, once more", opt.curve_fit, **options)
        p, cov = report(ctx, opt, out, y, lambda p: X @ p, size)
        ctx.close(np.linalg.norm(X @ (p - pe)), 0.0, slack, "distance from the optimal prediction, fitted again")


# -- weights and bounds ----------------------------------------------------------------


def check_options(case, ctx):
    "Options of the least-squares routine: weights of the points, bounds."
    lab = ref.hel().lab
    labels, space, ptrue, data = linear_problem(case)
    X, y = np.concatenate([d.X for d in data]), np.concatenate([d.y for d in data])
    rng = np.random.default_rng(case["seed"] + 1)
    w = np.exp(rng.uniform(-1.5, 1.5, len(y))) if case["weights"] else np.ones(len(y))
    sol = exact(X / w[:, None], y / w)
    if sol is None or len(y) < len(labels) + 2:
        ctx.label("parameters not identifiable")
        return
    pe, _, cove = sol
    n = len(labels)
    p0 = np.array(case["p0"][:n], dtype=float)
    kw = {}
    if case["weights"]:
        kw["sigma"] = w * case["unit"]
        if case["absolute"]:
            kw["absolute_sigma"] = True
    if case["bounds"] == "wide":
        kw["bounds"] = (-np.abs(pe) * 50 - 200, np.abs(pe) * 50 + 200)
    elif case["bounds"] == "active":  # the optimum is cut off in one parameter
        lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
        lo[0] = pe[0] + 0.1 * abs(pe[0]) + 0.01
        p0[0] = lo[0] + 1.0
        kw["bounds"] = (lo, hi)
    else:
        kw["method"] = "lm"
    t = twin(lambda p: X @ p, y, p0, kw)
    if t is None or not np.all(np.isfinite(t[1])) or not np.all(np.isfinite(t[0])):
        ctx.label("reference fit does not converge")
        return
    cost = lambda p: np.linalg.norm((X @ p - y) / w)
    ynorm = np.linalg.norm(y / w)
    active = case["bounds"] == "active"
    if active:  # convex: the optimum is on the bound
        q = np.empty(n)
        q[0] = kw["bounds"][0][0]
        if n > 1:
            rest = exact(X[:, 1:] / w[:, None], (y - X[:, 0] * q[0]) / w)
            if rest is None:
                return
            q[1:] = rest[0]
    else:
        q = pe
    if np.linalg.norm(X @ (t[0] - q) / w) > 1e-3 * ynorm:
        ctx.label("reference fit does not converge")
        return
    ctx.label(f"weights: {case['weights']}", f"bounds: {case['bounds']}")
    exps = [d.experiment() for d in data]
    sims = [d.simulation(labels, tod_material(space)) for d in data]
    opt = call("optimize", lab.Optimize, exps, sims, p0)
    keep = copy.deepcopy(kw)
    if case["positional"]:  # in the order of the arguments of the least-squares routine
        names = ["sigma", "absolute_sigma", "check_finite", "bounds", "method"]
        default = dict(sigma=None, absolute_sigma=False, check_finite=True, bounds=(-np.inf, np.inf), method=None)
        n_ = max(names.index(k) for k in kw) + 1 if case["positional"] == 2 else 1
        first = names[:n_]
        rest = {k: v for k, v in kw.items() if k not in first}
        out = call("curve_fit", opt.curve_fit, *[kw.get(k, default[k]) for k in first], **rest)
        ctx.label(f"options by position: {n_}")
    else:
        out = call("curve_fit", opt.curve_fit, **kw)
    size = np.abs(y).max() + np.abs(X @ q).max()
    p, cov = report(ctx, opt, out, y, lambda p: X @ p, size)
    slack = 20 * np.linalg.norm(X @ (t[0] - q) / w) + 1e-5 * ynorm
    ctx.close(np.linalg.norm(X @ (p - q) / w), 0.0, slack, "distance from the optimal prediction")
    if "bounds" in kw:
        ctx.true(np.all(p >= kw["bounds"][0]) and np.all(p <= kw["bounds"][1]), "parameters out of bounds")
    if not active:
        U = np.linalg.inv((X / w[:, None]).T @ (X / w[:, None])) * case["unit"] ** 2
        want = U if case["weights"] and case["absolute"] else cove
        dev = np.sqrt(np.diag(want))
        off = np.abs(t[1] - want)
        if np.all(dev > 0) and np.all(off < 0.05 * np.outer(dev, dev)) and (case["noise"] or case["weights"] and case["absolute"]):
            ctx.close(cov, want, 20 * off + 2e-3 * np.outer(dev, dev), "covariance of the optimum")
    for k in kw:
        ctx.true(all(np.array_equal(a, b) for a, b in zip(np.atleast_1d(kw[k]), np.atleast_1d(keep[k]))), f"option {k} was changed")


def check_robust(case, ctx):
    "Options that change the optimum or the way to it: loss functions, scales, tolerances, jacobian."
    lab = ref.hel().lab
    labels, space, ptrue, data = linear_problem(case)
    X = np.concatenate([d.X for d in data])
    rng = np.random.default_rng(case["seed"] + 2)
    for d in data:  # some gross errors
        bad = rng.permutation(d.n)[: max(1, d.n // 6)]
        d.force = d.force.copy()
        d.force[bad] *= 1 + case["error"]
        d.y = d.force / d.area
    y = np.concatenate([d.y for d in data])
    sol = exact(X, y)
    if sol is None or len(y) < len(labels) + 3:
        ctx.label("parameters not identifiable")
        return
    kw = dict(case["options"])
    size = np.abs(y).max()
    if "f_scale" in kw:
        kw["f_scale"] = kw["f_scale"] * size
    if "x_scale" in kw:
        kw["x_scale"] = np.abs(ptrue) + 0.1
    if kw.get("jac") == "exact":
        kw["jac"] = lambda x, *p: X
    p0 = np.array(case["p0"][: len(labels)], dtype=float)
    fun = lambda p: X @ p
    twins = [twin(fun, y, v, kw) for v in (p0, np.array(ptrue), 1.3 * np.array(ptrue) + 0.1)]
    twins += [twin(fun, y, p0, kw, 0, 1e-14, k) for k in range(4)]
    if any(t is None or not np.all(np.isfinite(t[1])) for t in twins):
        ctx.label("reference fit does not converge")
        return
    t = twins[0]
    spread = max(np.linalg.norm(X @ (s[0] - t[0])) for s in twins[1:])
    if spread > 1e-4 * np.linalg.norm(y):
        ctx.label("reference fit not unique")
        return
    ctx.label(*[f"option {k}: {v if isinstance(v, str) else ''}" for k, v in kw.items()])
    sims = [d.simulation(labels, tod_material(space)) for d in data]
    opt = call("optimize", lab.Optimize, [d.experiment() for d in data], sims, p0)
    keep = copy.deepcopy({k: v for k, v in kw.items() if k != "jac"})
    out = call("curve_fit", opt.curve_fit, **kw)
    p, cov = report(ctx, opt, out, y, fun, size + np.abs(X * t[0]).sum(axis=1).max())
    slack = 20 * spread + 1e-5 * np.linalg.norm(y)
    ctx.close(np.linalg.norm(X @ (p - t[0])), 0.0, slack, "distance from the optimal prediction")
    for k, v in keep.items():
        ctx.true(np.array_equal(kw[k], v), f"option {k} was changed")


# -- few points ------------------------------------------------------------------------


def check_few(case, ctx):
    "As many points as parameters: everything is met, and the covariance is not determined."
    lab = ref.hel().lab
    labels, space, ptrue, data = linear_problem(case)
    X, y = np.concatenate([d.X for d in data]), np.concatenate([d.y for d in data])
    s = np.linalg.svd(X, compute_uv=False)
    if s[0] < 1e-3 or s[-1] < 1e-4 * s[0] or np.abs(y).max() < 1e-3:
        ctx.label("almost undeformed")
        return
    p0 = np.array(case["p0"][: len(labels)], dtype=float)
    t = twin(lambda p: X @ p, y, p0, dict(method="lm"))
    if t is None or np.all(np.isfinite(t[1])) or not np.all(t[0]) or not np.any(y):
        ctx.label("determined, or no reference fit")
        return
    ctx.label(f"points and parameters: {len(y)}")
    sims = [d.simulation(labels, tod_material(space)) for d in data]
    opt = call("optimize", lab.Optimize, [d.experiment() for d in data], sims, p0)
    out = call("curve_fit", opt.curve_fit, method="lm")
    size = np.abs(y).max() + np.abs(X * t[0]).sum(axis=1).max()
    p, cov = report(ctx, opt, out, y, lambda p: X @ p, size * (1 + np.abs(np.asarray(out[0]) / t[0]).max()), determined=False)
    miss = np.linalg.norm(X @ t[0] - y)
    ctx.close(np.linalg.norm(X @ p - y), 0.0, 20 * miss + 1e-5 * np.linalg.norm(y), "distance of the fit from the data")


# -- several fits ----------------------------------------------------------------------


def check_histories(case, ctx):
    lab = ref.hel().lab
    labels, space, ptrue, data = linear_problem(case)
    mat = tod_material(space)
    exps = [d.experiment() for d in data]
    sims = [d.simulation(labels, mat) for d in data]
    own = [d.simulation(labels, mat) for d in data]
    p0 = np.array(case["p0"][: len(labels)], dtype=float)
    opts, done = [], []

    def build(fit):
        idx = [i % len(data) for i in fit["idx"]]
        idx = list(dict.fromkeys(idx))
        X = np.concatenate([data[i].X for i in idx])
        y = np.concatenate([data[i].y for i in idx])
        sol = exact(X, y)
        if sol is None or len(y) < len(labels) + 2:
            return None
        pool = sims if fit["shared"] else own
        start = p0 if fit["sharedp0"] else p0 * fit["k"]
        opt = call(
            "optimize", lab.Optimize, [exps[i] for i in idx], [pool[i] for i in idx], start
        )
        return dict(opt=opt, X=X, y=y, pe=sol[0], start=start, keep=start.copy(), fit=fit)

    if case["before"]:
        opts = [build(f) for f in case["fits"]]
    keep = p0.copy()
    for k, fit in enumerate(case["fits"]):
        o = opts[k] if case["before"] else build(fit)
        if o is None:
            continue
        X, y = o["X"], o["y"]
        t = twin(lambda p: X @ p, y, o["start"], dict(method="lm"))
        if t is None or not np.all(np.isfinite(t[1])) or np.linalg.norm(X @ (t[0] - o["pe"])) > 1e-5 * np.linalg.norm(y):
            continue
        ctx.label("fit in a history")
        size = np.abs(y).max() + np.abs(X @ o["pe"]).max()
        out = call("curve_fit", o["opt"].curve_fit, method="lm")
        p, cov = report(ctx, o["opt"], out, y, lambda p: X @ p, size)
        slack = 20 * np.linalg.norm(X @ (t[0] - o["pe"])) + 1e-6 * np.linalg.norm(y)
        ctx.close(np.linalg.norm(X @ (p - o["pe"])), 0.0, slack, "distance from the optimal prediction")
        for d in done:
            compare(ctx, d["opt"], d["snap"], "an earlier fit")
            ctx.same(np.asarray(d["out"][0]), d["returned"][0], "returned parameters of an earlier fit")
            ctx.same(np.asarray(d["out"][1]), d["returned"][1], "returned covariance of an earlier fit")
        done.append(dict(opt=o["opt"], snap=snapshot(o["opt"]), out=out, returned=copy.deepcopy(out)))
        ctx.same(p0, keep, "the caller's initial parameters")
        ctx.same(o["start"], o["keep"], "the caller's initial parameters")


def check_restart(case, ctx):
    """The same object is prepared, fitted, given other parameters or masks, and fitted again:
    what it reports is always about its current parameters, data and masks."""
    lab = ref.hel().lab
    labels, space, ptrue, data = linear_problem(case)
    n = len(labels)
    exps = [d.experiment() for d in data]
    sims = [d.simulation(labels, tod_material(space)) for d in data]
    X, y = np.concatenate([d.X for d in data]), np.concatenate([d.y for d in data])
    size = np.abs(y).max() + np.abs(X).max() * 100 * n
    cuts = np.cumsum([0] + [len(d.y) for d in data])

    def rows(masks):
        return np.concatenate([np.arange(a, b)[m] for a, b, m in zip(cuts[:-1], cuts[1:], masks)])

    def masks(k):
        if not k:
            return [slice(None)] * len(data)
        out = []
        for i, d in enumerate(data):
            m = np.arange(len(d.y)) % (k + 1) != i % (k + 1)
            out.append(m)
        return out

    m = masks(0)
    opt = call("optimize", lab.Optimize, exps, sims, case["p0"][:n])
    current = np.array(case["p0"][:n], dtype=float)
    for step in case["steps"]:
        if step["do"] == "parameters":
            current = np.array(step["p"][:n], dtype=float)
            if step["write"]:
                opt.parameters[:] = current
            else:
                opt.parameters = current.copy()
        elif step["do"] == "mask":
            m = masks(step["k"])
            opt.mask = m
        elif step["do"] == "data":  # a correction of the records
            i = step["k"] % len(data)
            if step["write"]:
                exps[i].force *= step["f"]
            else:
                exps[i].area = exps[i].area / step["f"]
            data[i].y = data[i].y * step["f"]
            y = np.concatenate([d.y for d in data])
        elif step["do"] in ("init", "fail"):
            if step["do"] == "fail":  # the routine gives up, caught by the caller
                failed = False
                try:
                    opt.curve_fit(method="lm", maxfev=1)
                except RuntimeError:
                    failed = True
                except Exception as e:
                    if "number of func input parameters" not in str(e) and "must not exceed" not in str(e):
                        raise Violation(f"fit with one evaluation: {type(e).__name__}: {e}")
                    failed = True
                if not failed:  # started at an optimum
                    current = np.array(opt.parameters, dtype=float)
                    continue
                ctx.label("fit which gave up")
                out = opt.parameters
            else:
                ctx.label("prepared only")
                out = call("init_curve_fit", opt.init_curve_fit)
            ctx.close(out, current, 1e-15 * np.abs(current) + 1e-300, "initial parameters")
            ctx.close(opt.parameters, current, 1e-15 * np.abs(current) + 1e-300, "initial parameters")
            r = rows(m)
            ctx.close(opt.residuals, X[r] @ current - y[r], 1e-9 * size, "residuals of the initial parameters")
            want = np.sqrt(np.sum((X[r] @ current - y[r]) ** 2))
            ctx.close(call("norm", opt.norm_residuals), want, 1e-8 * size, "norm of the initial residuals")
            ctx.true(np.shape(opt.errors) == (n,) and np.all(np.isnan(opt.errors)), "errors without a fit")
            for d, s in zip(data, sims):
                ctx.close(call("stress", s.stress), d.X @ current, 1e-9 * size, "simulation with initial parameters")
        else:
            r = rows(m)
            sol = exact(X[r], y[r])
            if sol is None or len(r) < n + 2:
                continue
            kw, w, q = dict(method="lm"), np.ones(len(r)), sol[0]
            if step["how"] == "bounds":  # the optimum is cut off in one parameter
                lo = np.full(n, -np.inf)
                lo[0] = q[0] + 0.1 * abs(q[0]) + 0.01
                kw = dict(bounds=(lo, np.full(n, np.inf)))
                rest = exact(X[r][:, 1:], y[r] - X[r][:, 0] * lo[0]) if n > 1 else [[]]
                if rest is None:
                    continue
                q = np.array([lo[0], *rest[0]])
                current[0] = lo[0] + 1.0
                opt.parameters[:] = current
            elif step["how"] == "weights":
                w = np.exp(np.random.default_rng(case["seed"] + 2).uniform(-1.5, 1.5, len(y)))[r]
                kw["sigma"] = w
                sol = exact(X[r] / w[:, None], y[r] / w)
                if sol is None:
                    continue
                q = sol[0]
            t = twin(lambda p: X[r] @ p, y[r], current, kw)
            if t is None or not np.all(np.isfinite(t[1])):
                continue
            gap = np.linalg.norm(X[r] @ (t[0] - q) / w)
            ynorm = np.linalg.norm(y[r] / w)
            if gap > (1e-3 if step["how"] == "bounds" else 1e-5) * ynorm:
                continue
            ctx.label("fit with " + step["how"])
            out = call("curve_fit", opt.curve_fit, **kw)
            p, cov = report(ctx, opt, out, y[r], lambda p: X[r] @ p, size)
            slack = 20 * gap + 1e-5 * ynorm
            ctx.close(np.linalg.norm(X[r] @ (p - q) / w), 0.0, slack, "distance from the optimal prediction")
            current = p.copy()


# -- nonlinear models ------------------------------------------------------------------


def nonlinear_spec(kind, p):
    if kind == "ogden":
        return dict(kind="ogden", mu=[float(p[0])], alpha=[float(p[1])])
    inner = tod_spec(["C10", "C20"][: len(p) - 1], p[:-1])
    return dict(kind="gen", inner=inner, fun=["deformation", float(p[-1])])


def check_nonlinear(case, ctx):
    lab = ref.hel().lab
    kind, space = case["kind"], case["space"]
    rng = np.random.default_rng(case["seed"])
    if kind == "ogden":
        ptrue, labels = [case["m"], case["k"]], ["mu", "alpha"]
    elif kind == "one":
        ptrue, labels = [case["m"], abs(case["k"])], ["C10", "k"]
    else:
        ptrue, labels = [case["m"], 0.1 * case["m"] + 0.05, abs(case["k"])], ["C10", "C20", "k"]
    order = list(range(len(labels)))[:: -1 if case["flip"] else 1]

    def predict(name, x, p):
        return force(name, nonlinear_spec(kind, p), space, x)[0]

    data = [Data(e, None, ptrue, space, case["noise"], rng, predict) for e in case["exps"]]
    y = np.concatenate([d.y for d in data])

    def fun(p):
        q = np.empty(len(p))
        q[order] = p
        return np.concatenate([predict(d.name, d.x, q) for d in data])

    labels = [labels[i] for i in order]
    ptrue = np.array(ptrue)[order]
    p0 = ptrue * (1 + 0.15 * np.array(case["d"][: len(order)]))
    t = twin(fun, y, p0, dict(method="lm"), 1)
    if t is None or not np.all(np.isfinite(t[1])) or len(y) < len(p0) + 2:
        ctx.label("reference fit does not converge")
        return
    pt, covt = t
    dev = np.sqrt(np.diag(covt))
    rt = fun(pt) - y
    ynorm = np.linalg.norm(y)
    if case["noise"] == 0:
        good = np.all(np.abs(pt - ptrue) < 1e-5 * np.abs(ptrue)) and np.linalg.norm(rt) < 1e-6 * ynorm
    else:
        good = np.all(dev < 0.3 * np.abs(pt))
    if not good:
        ctx.label("parameters not identifiable")
        return
    ctx.label(f"model: {kind}", f"noise: {case['noise']}")

    def material(**kw):
        q = [0.0] * len(kw)
        names = ["mu", "alpha"] if kind == "ogden" else ["C10", "k"] if kind == "one" else ["C10", "C20", "k"]
        for i, n in enumerate(names):
            q[i] = kw[n]
        return ref.umat(nonlinear_spec(kind, q), space)

    exps = [d.experiment() for d in data]
    sims = [d.simulation(labels, material) for d in data]
    opt = call("optimize", lab.Optimize, exps, sims, p0)
    out = call("curve_fit", opt.curve_fit, method="lm")
    p, cov = report(ctx, opt, out, y, fun, np.abs(y).max() * 2)
    s, st_ = np.linalg.norm(fun(p) - y), np.linalg.norm(rt)
    ctx.close(max(s - st_, 0.0), 0.0, 1e-4 * st_ + 1e-5 * ynorm, "norm of the residuals above the optimum")
    if case["noise"] == 0:
        ctx.close(p, ptrue, 1e-3 * np.abs(ptrue), "true parameters from exact data")
    else:
        ctx.close(p, pt, 0.05 * dev + 1e-5 * np.abs(pt), "optimal parameters")
        ctx.close(cov, covt, 0.1 * np.outer(dev, dev), "covariance of the optimum")


def identifiable(case):
    labels, space, ptrue, data = linear_problem(case)
    X, y = np.concatenate([d.X for d in data]), np.concatenate([d.y for d in data])
    return len(y) >= len(labels) + 2 and exact(X, y) is not None


def p0values():
    return st.one_of(
        st.just([1.0] * 5),
        st.just([0.0] * 5),
        st.lists(st.sampled_from([1.0, 2.0, 5.0, -1.0, 0.0, 100.0, 0.3]), min_size=5, max_size=5),
        st.lists(gen.fl(-3, 3).map(lambda v: round(v, 2)), min_size=5, max_size=5),
    )


NOISE = [0, 0, 0.01, 0.05, 0.2]

SUBS = [
    Sub(
        "linear",
        lambda: st.fixed_dictionaries(
            dict(
                labels=label_sets(),
                space=st.sampled_from(["deformation", "distortional"]),
                p=parameters(5),
                p0=p0values(),
                form=st.sampled_from(FORMS),
                scale=st.sampled_from([1.0, 1.0, 1e-6, 1e6, 1e-9]),
                units=st.one_of(
                    st.just([1.0] * 5),
                    st.lists(st.sampled_from([1.0, 1e8]), min_size=5, max_size=5),
                    st.lists(st.sampled_from([1.0, 1.0, 1e-8]), min_size=5, max_size=5),
                ),
                exps=experiments(),
                noise=st.sampled_from(NOISE),
                seed=st.integers(0, 2**31),
                kwargs=st.sampled_from(KWARGS),
                again=st.booleans(),
                record=st.sampled_from(RECORDS),
                grid=st.sampled_from([None, None, 0, 0, 3]),
            )
        ),
        check_linear,
        "the parameters are identifiable from the data",
        900,
        identifiable,
    ),
    Sub(
        "histories",
        lambda: st.fixed_dictionaries(
            dict(
                labels=label_sets(),
                space=st.sampled_from(["deformation", "distortional"]),
                p=parameters(5),
                p0=p0values(),
                exps=experiments(2, 3),
                noise=st.sampled_from(NOISE),
                seed=st.integers(0, 2**31),
                before=st.booleans(),
                fits=st.lists(
                    st.fixed_dictionaries(
                        dict(
                            idx=st.lists(st.integers(0, 2), min_size=1, max_size=3),
                            shared=st.sampled_from([True, True, False]),
                            sharedp0=st.booleans(),
                            k=st.sampled_from([1.0, 2.0, 0.5]),
                        )
                    ),
                    min_size=2,
                    max_size=4,
                ),
            )
        ),
        check_histories,
        "the parameters are identifiable from all the data",
        400,
        identifiable,
    ),
    Sub(
        "options",
        lambda: st.fixed_dictionaries(
            dict(
                labels=label_sets(),
                space=st.sampled_from(["deformation", "distortional"]),
                p=parameters(5),
                p0=p0values(),
                exps=experiments(),
                noise=st.sampled_from(NOISE),
                seed=st.integers(0, 2**31),
                weights=st.sampled_from([True, True, False]),
                unit=st.sampled_from([1.0, 1.0, 0.1, 3.0]),
                absolute=st.booleans(),
                positional=st.sampled_from([0, 1, 2, 2]),
                bounds=st.sampled_from([None, None, "wide", "active"]),
            )
        ),
        check_options,
        "the parameters are identifiable from the data",
        300,
        identifiable,
    ),
    Sub(
        "robust",
        lambda: st.fixed_dictionaries(
            dict(
                labels=label_sets(),
                space=st.sampled_from(["deformation", "distortional"]),
                p=parameters(5),
                p0=p0values(),
                exps=experiments(1, 3, 8),
                noise=st.sampled_from([0, 0, 0.01]),
                seed=st.integers(0, 2**31),
                error=st.sampled_from([1.0, 0.5, -0.7, 3.0]),
                options=st.sampled_from(
                    [
                        dict(method="trf", loss="soft_l1", f_scale=0.01),
                        dict(method="trf", loss="huber", f_scale=0.02),
                        dict(method="dogbox", loss="soft_l1", f_scale=0.02),
                        dict(method="trf", loss="cauchy", f_scale=0.05),
                        dict(method="trf", x_scale=True),
                        dict(method="trf", jac="3-point"),
                        dict(method="trf", jac="exact", max_nfev=200),
                        dict(method="lm", jac="exact"),
                        dict(method="lm", ftol=1e-12, xtol=1e-12),
                        dict(jac="exact", check_finite=False),
                    ]
                ),
            )
        ),
        check_robust,
        "the parameters are identifiable from the data",
        200,
        identifiable,
    ),
    Sub(
        "few",
        lambda: label_sets().flatmap(
            lambda labels: st.fixed_dictionaries(
                dict(
                    labels=st.just(labels),
                    space=st.sampled_from(["deformation", "distortional"]),
                    p=parameters(5),
                    p0=p0values(),
                    exps=experiments(1, 1).map(lambda e: [dict(e[0], n=len(labels))]),
                    noise=st.sampled_from(NOISE),
                    seed=st.integers(0, 2**31),
                )
            )
        ),
        check_few,
        "as many points as parameters",
        100,
        lambda c: True,
    ),
    Sub(
        "restart",
        lambda: st.fixed_dictionaries(
            dict(
                labels=label_sets(),
                space=st.sampled_from(["deformation", "distortional"]),
                p=parameters(5),
                p0=p0values(),
                exps=experiments(),
                noise=st.sampled_from(NOISE),
                seed=st.integers(0, 2**31),
                steps=st.lists(
                    st.one_of(
                        st.sampled_from(["lm", "lm", "bounds", "weights"]).map(lambda h: dict(do="fit", how=h)),
                        st.sampled_from(["lm", "lm", "bounds", "weights"]).map(lambda h: dict(do="fit", how=h)),
                        st.just(dict(do="init")),
                        st.just(dict(do="fail")),
                        st.fixed_dictionaries(dict(do=st.just("mask"), k=st.integers(0, 3))),
                        st.fixed_dictionaries(
                            dict(
                                do=st.just("data"), k=st.integers(0, 2), f=st.sampled_from([0.5, 1.25, 2.0]),
                                write=st.booleans(),
                            )
                        ),
                        st.fixed_dictionaries(
                            dict(do=st.just("parameters"), p=p0values(), write=st.booleans())
                        ),
                    ),
                    min_size=2,
                    max_size=6,
                ),
            )
        ),
        check_restart,
        "the parameters are identifiable from the data, and a fit is made",
        300,
        lambda c: identifiable(c) and any(s["do"] == "fit" for s in c["steps"]),
    ),
    Sub(
        "nonlinear",
        lambda: st.fixed_dictionaries(
            dict(
                kind=st.sampled_from(["ogden", "ogden", "one", "two"]),
                space=st.sampled_from(["deformation", "distortional"]),
                m=gen.fl(0.3, 2.0),
                k=st.sampled_from([2.0, 1.3, 3.1, -2.0, -3.0]) | gen.fl(1.0, 4.0),
                d=st.lists(gen.fl(-1, 1), min_size=3, max_size=3),
                exps=experiments(1, 3, 7),
                noise=st.sampled_from([0, 0, 0.01, 0.05]),
                seed=st.integers(0, 2**31),
                flip=st.booleans(),
            )
        ),
        check_nonlinear,
        "a fit of at least five points",
        400,
        lambda c: True,
    ),
]
