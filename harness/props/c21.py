"""Masked data never influence a fit, and each mask belongs to its experiment."""

from .fits import *

GARBAGE = dict(nan=np.nan, huge=1e12, inf=np.inf, zero=0.0, negative=-1e6)


def selection(m, n):
    "Selected indices of a mask specification."
    kind = m["kind"]
    bits = [(m["bits"] >> (i % 24)) & 1 for i in range(n)]
    if kind == "all":
        return list(range(n))
    if kind == "empty":
        return []
    if kind in ("bool", "boollist"):
        return [i for i in range(n) if bits[i]]
    if kind in ("index", "indexlist"):
        idx = [i for i in range(n) if bits[i]]
        if m["reverse"]:
            idx = idx[::-1]
        if m["kind"] in ("index", "indexlist"):  # also in another order, and points that are taken repeatedly
            idx = idx[m["turn"] % (len(idx) + 1) :] + idx[: m["turn"] % (len(idx) + 1)]
            idx = (idx * n)[:n] if m["again"] == 99 else idx + idx[: m["again"]]
        return idx
    return list(range(n))[slice(*m["slice"])]


def mask(m, n):
    kind, idx = m["kind"], selection(m, n)
    if kind == "all":
        return slice(None) if m["reverse"] else np.ones(n, dtype=bool)
    if kind == "empty":
        return np.zeros(n, dtype=bool) if m["reverse"] else slice(0, 0)
    if kind in ("bool", "boollist"):
        b = np.zeros(n, dtype=bool)
        b[idx] = True
        return b if kind == "bool" else b.tolist()
    if kind == "index":
        if m["type"].startswith("u"):
            return np.array(idx, dtype=m["type"] if n < 256 else "uint16")
        a = np.array(idx, dtype=m["type"])
        return a - n if m["negative"] else a
    if kind == "indexlist" and not idx:
        return np.zeros(0, dtype=int)
    if kind == "indexlist":
        return [i - n if m["negative"] else i for i in idx]
    return slice(*m["slice"])


def build(case):
    rng = np.random.default_rng(case["seed"])
    labels, space = case["labels"], case["space"]
    data = [Data(e, labels, case["p"], space, case["noise"], rng) for e in case["exps"]]
    masks = [case["masks"][i % len(case["masks"])] for i in range(len(data))]
    sel = [selection(m, d.n) for m, d in zip(masks, data)]
    X = np.concatenate([d.X[s] for d, s in zip(data, sel)])
    y = np.concatenate([d.y[s] for d, s in zip(data, sel)])
    return labels, space, data, masks, sel, X, y


def check(case, ctx):
    lab = ref.hel().lab
    labels, space, data, masks, sel, X, y = build(case)
    sol = exact(X, y) if len(y) >= len(labels) + 2 else None
    if sol is None:
        ctx.label("parameters not identifiable")
        return
    pe = sol[0]
    p0 = np.array(case["p0"][: len(labels)], dtype=float)
    t = twin(lambda p: X @ p, y, p0, dict(method="lm"))
    if t is None or np.linalg.norm(X @ (t[0] - pe)) > 1e-5 * np.linalg.norm(y):
        ctx.label("reference fit does not converge")
        return
    for m in masks:
        ctx.label("mask: " + m["kind"])
    ctx.label("unselected: " + case["garbage"])
    mat = tod_material(space)
    size = np.abs(y).max() + np.abs(X @ pe).max()
    slack = 20 * np.linalg.norm(X @ (t[0] - pe)) + 1e-6 * np.linalg.norm(y)
    dev = np.sqrt(np.diag(sol[2]))
    covtol = 20 * np.abs(t[1] - sol[2]) + 2e-3 * np.outer(dev, dev)
    noisy = np.linalg.norm(sol[1]) > 1e-5 * np.linalg.norm(y) and np.all(np.abs(t[1] - sol[2]) < 0.05 * np.outer(dev, dev))

    def fit(exps, sims, masks_, X, y, what):
        kw = {} if masks_ is None else dict(mask=masks_)
        opt = call("optimize", lab.Optimize, exps, sims, p0.copy(), **kw)
        out = call(f"curve_fit, {what}", opt.curve_fit, method="lm")
        p, cov = report(ctx, opt, out, y, lambda p: X @ p, size)
        ctx.close(np.linalg.norm(X @ (p - pe)), 0.0, slack, f"distance from the optimum of the selected points [{what}]")
        if noisy:
            ctx.close(cov, sol[2], covtol, f"covariance of the selected points [{what}]")
        return np.array(p), np.array(cov), np.array(opt.residuals)

    used = [mask(m, d.n) for m, d in zip(masks, data)]
    keep = copy.deepcopy(used)
    sims = [d.simulation(labels, mat) for d in data]
    clean = [d.experiment(record=RECORDS[(case["seed"] + i) % len(RECORDS)]) for i, d in enumerate(data)]
    first = fit(clean, sims, used, X, y, "masks")
    for a, b in zip(used, keep):
        ctx.true(type(a) is type(b) and np.all(np.asarray(a == b)), "a mask was changed")

    # anything at the points that are not selected
    bad = GARBAGE[case["garbage"]]
    exps = []
    for d, s in zip(data, sel):
        f, u = d.force.copy(), d.displacement.copy()
        out = np.setdiff1d(np.arange(d.n), s)
        f[out] = bad
        if case["displacement"]:
            u[out] = 0.1 if case["garbage"] == "zero" else bad
        exps.append(d.experiment(displacement=u, force=f))
    second = fit(exps, [d.simulation(labels, mat) for d in data], used, X, y, "garbage at unselected points")
    for name, a, b in zip(("parameters", "covariance", "residuals"), second, first):
        scale = np.abs(b).max() + 1e-300
        if name == "covariance" and not noisy:
            continue
        tol = 1e-6 * scale if name != "residuals" else 1e-8 * size
        if name == "parameters":
            tol = tol + 1e-6 * np.linalg.norm(y) / np.linalg.svd(X, compute_uv=False)[-1]
        ctx.close(a, b, tol, f"{name} with garbage at unselected points")

    # experiments that contain only the selected points
    exps, sims = [], []
    for d, s in zip(data, sel):
        if len(s) == 0 and case["drop"]:
            continue
        exps.append(d.experiment(displacement=d.displacement[s], force=d.force[s]))
        sims.append(d.simulation(labels, mat, stretch=d.x[s].copy()))
    if exps:
        fit(exps, sims, None, X, y, "selected points only")

    # one experiment in several pairs, with masks of its own each
    d, e, s = data[0], clean[0], data[0].simulation(labels, mat)
    ms = [case["masks"][0], case["masks"][-1], dict(case["masks"][0], bits=~case["masks"][0]["bits"])]
    picked = [selection(m, d.n) for m in ms]
    Xs, ys = np.concatenate([d.X[i] for i in picked]), np.concatenate([d.y[i] for i in picked])
    if case["drop"] and len(ys) >= len(labels) + 2 and exact(Xs, ys) is not None:
        opt = call("optimize", lab.Optimize, [e] * 3, [s] * 3, p0.copy(), mask=[mask(m, d.n) for m in ms])
        best = exact(Xs, ys)[0]
        tw = twin(lambda p: Xs @ p, ys, p0, dict(method="lm"))
        if tw is not None and np.linalg.norm(Xs @ (tw[0] - best)) < 1e-5 * np.linalg.norm(ys):
            got = call("curve_fit, one experiment in several pairs", opt.curve_fit, method="lm")[0]
            tol = 20 * np.linalg.norm(Xs @ (tw[0] - best)) + 1e-6 * np.linalg.norm(ys)
            ctx.close(np.linalg.norm(Xs @ (got - best)), 0.0, tol, "distance from the optimum [one experiment in several pairs]")
            ctx.close(opt.residuals, Xs @ got - ys, 1e-8 * (size + np.abs(ys).max() + np.abs(Xs @ got).max()), "residuals [one experiment in several pairs]")

    # another order of the pairs
    o = sorted(range(len(data)), key=lambda i: (case["perm"][i % 3], -i))
    Xo = np.concatenate([data[i].X[sel[i]] for i in o])
    yo = np.concatenate([data[i].y[sel[i]] for i in o])
    fit([clean[i] for i in o], [data[i].simulation(labels, mat) for i in o], [used[i] for i in o], Xo, yo, "other order")

    # without masks
    Xa, ya = np.concatenate([d.X for d in data]), np.concatenate([d.y for d in data])
    ea = exact(Xa, ya)
    ta = twin(lambda p: Xa @ p, ya, p0, dict(method="lm"))
    if ta is not None and ea is not None and np.linalg.norm(Xa @ (ta[0] - ea[0])) < 1e-5 * np.linalg.norm(ya):
        opt = call("optimize", lab.Optimize, clean, [d.simulation(labels, mat) for d in data], p0.copy())
        p, cov = call("curve_fit, no masks", opt.curve_fit, method="lm")
        p = ctx.array(p, "parameters", shape=(len(labels),))
        slack = 20 * np.linalg.norm(Xa @ (ta[0] - ea[0])) + 1e-6 * np.linalg.norm(ya)
        ctx.close(np.linalg.norm(Xa @ (p - ea[0])), 0.0, slack, "distance from the optimum [no masks]")
        ctx.close(opt.residuals, Xa @ p - ya, 1e-8 * (np.abs(ya).max() + np.abs(Xa @ ea[0]).max()), "residuals [no masks]")


def nontrivial(case):
    labels, space, data, masks, sel, X, y = build(case)
    part = any(len(s) < d.n for s, d in zip(sel, data))
    return part and len(y) >= len(labels) + 2 and exact(X, y) is not None


MASK = st.fixed_dictionaries(
    dict(
        kind=st.sampled_from(["bool", "bool", "index", "slice", "boollist", "indexlist", "all", "empty"]),
        bits=st.one_of(*[st.integers(0, 2**24 - 1)] * 4, st.sampled_from([1, 2, 3, 3, 6])),
        slice=st.one_of(
            st.tuples(st.none() | st.integers(0, 3), st.none() | st.integers(4, 12), st.sampled_from([None, 1, 2])),
            st.tuples(st.none() | st.integers(-3, -1), st.none() | st.integers(0, 2), st.sampled_from([-1, -2])),
            st.tuples(st.integers(-6, -3), st.none() | st.just(-1), st.sampled_from([None, 2])),
        ).map(list),
        reverse=st.booleans(),
        negative=st.booleans(),
        turn=st.integers(0, 3),
        again=st.sampled_from([0, 0, 0, 1, 3, 99]),
        type=st.sampled_from(["int64", "int64", "int32", "int16", "uint8", "uint64"]),
    )
)

SUBS = [
    Sub(
        "masks",
        lambda: st.fixed_dictionaries(
            dict(
                labels=st.lists(st.sampled_from(TOD), min_size=1, max_size=3, unique=True),
                space=st.sampled_from(["deformation", "distortional"]),
                p=parameters(3),
                p0=st.sampled_from([[1.0, 1.0, 1.0], [0.0, 0.0, 0.0], [0.5, 2.0, -0.3]]),
                exps=experiments(1, 3, 6),
                masks=st.lists(MASK, min_size=1, max_size=3),
                noise=st.sampled_from([0, 0.02, 0.1, 0.3]),
                seed=st.integers(0, 2**31),
                garbage=st.sampled_from(sorted(GARBAGE)),
                displacement=st.booleans(),
                drop=st.booleans(),
                perm=st.lists(st.integers(0, 100), min_size=3, max_size=3),
            )
        ).map(lambda c: dict(c, p=(c["p"] * 2)[: len(c["labels"])])),
        check,
        "a mask leaves out a point and the parameters are identifiable from the rest",
        1400,
        nontrivial,
    )
]
