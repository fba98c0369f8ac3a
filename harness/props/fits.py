"""Curve fits of generated experiments with their reference solution."""

import copy

import scipy.optimize

from .c18 import PATHS, Material, force
from .common import *

TOD = ["C10", "C01", "C11", "C20", "C30"]


def tod_spec(labels, p):
    spec = dict(kind="tod", strain=False, **{k: 0 for k in TOD})
    spec.update(dict(zip(labels, [float(v) for v in p])))
    return spec


def column(name, label, space, x):
    return force(name, tod_spec([label], [1.0]), space, x)[0]


class Data:
    "One experiment: load case, stretches, stresses, reference geometry, design matrix."

    def __init__(self, e, labels, ptrue, space, noise, rng, predict=None, scale=1.0):
        self.name, self.n = e["case"], e["n"]
        lo, hi = e["lo"], e["hi"]
        self.x = np.linspace(lo, hi, self.n)
        if e["order"] == "down":
            self.x = self.x[::-1].copy()
        elif e["order"] == "shuffled":
            self.x = self.x[rng.permutation(self.n)]
        self.area, self.length = e["area"], e["length"]
        self.displacement = (self.x - 1) * self.length
        self.x = 1 + self.displacement / self.length
        if predict is None:
            self.X = np.array([column(self.name, l, space, self.x) for l in labels]).T
            y = self.X @ np.array(ptrue)
        else:
            y = predict(self.name, self.x, ptrue)
        self.size = np.abs(y).max() + 1e-3 * scale
        y = y + noise * self.size * rng.uniform(-1, 1, self.n)
        self.force = y * self.area
        self.y = self.force / self.area

    def experiment(self, label="experiment", displacement=None, force=None, record="array"):
        displacement = recorded(self.displacement, record) if displacement is None else displacement
        force = recorded(self.force, record) if force is None else force
        return call(
            "experiment", ref.hel().lab.Experiment, label=label,
            displacement=displacement, force=force, area=self.area, length=self.length,
        )  # fmt: skip

    def simulation(self, labels, material, stretch=None, parameters=None):
        lab = ref.hel().lab
        return call(
            "simulation", lab.Simulation, loadcase=getattr(lab, self.name)(),
            stretch=self.x.copy() if stretch is None else stretch, labels=labels,
            material=material, parameters=parameters,
        )  # fmt: skip


RECORDS = ["array", "array", "list", "tuple", "readonly", "strided", "reversed"]


def recorded(values, form):
    "A record of measured values."
    if form in ("list", "tuple"):
        return dict(list=list, tuple=tuple)[form](values.tolist())
    return gen.layout(values, form, 0)


def tod_material(space, names={}):
    "The material; optionally with other names of the parameters."
    base = tod_spec([], [])
    for k in TOD:
        base[k] = 0
    return Material(base, space, {names.get(k, k): [k] for k in TOD}, {})


def exact(X, y):
    "Linear least squares: optimum, covariance, condition of the scaled problem."
    s = np.linalg.norm(X, axis=0)
    if not np.all(s > 0):
        return None
    U, w, Vt = np.linalg.svd(X / s, full_matrices=False)
    if w[-1] < w[0] * 1e-4:
        return None
    p = (Vt.T @ ((U.T @ y) / w)) / s
    r = X @ p - y
    dof = len(y) - X.shape[1]
    cov = (Vt.T / w**2) @ Vt / np.outer(s, s) * (r @ r / dof)
    return p, r, cov


def twin(fun, y, p0, kwargs, repeats=2, noise=0.0, seed=0):
    """The same fit with the reference prediction; None if it does not converge well: far
    below the limit of evaluations, and also with predictions that have some round-off."""
    n, full = len(p0), kwargs
    if not {"max_nfev", "maxfev"} & set(kwargs):
        lm = kwargs.get("method", "trf" if "bounds" in kwargs else "lm") == "lm"
        full = dict(kwargs, **(dict(maxfev=60 * (n + 1)) if lm else dict(max_nfev=30 * n)))
    rng = np.random.default_rng(seed)

    def predict(x, *p):
        f = fun(np.array(p))
        return f * (1 + noise * rng.uniform(-1, 1, len(f))) if noise else f

    try:
        p, cov = scipy.optimize.curve_fit(
            predict, np.arange(len(y), dtype=float), y, np.array(p0, dtype=float), **full
        )
    except Exception:
        return None
    for k in range(repeats):
        other = twin(fun, y, p0, kwargs, 0, 3e-15, k)
        if other is None or np.all(np.isfinite(other[1])) != np.all(np.isfinite(cov)):
            return None
        if not np.linalg.norm(fun(other[0]) - fun(p)) <= 1e-5 * np.linalg.norm(y):
            return None
    return p, cov


def initial(values, form):
    if form == "list":
        return [float(v) for v in values]
    if form == "tuple":
        return tuple(float(v) for v in values)
    ints = [int(round(v)) for v in values]
    if form == "ints":
        return ints
    if form == "inttuple":
        return tuple(ints)
    if form == "intarray":
        return np.array(ints)
    if form == "float32":
        return np.array(values, dtype=np.float32)
    a = np.array(values, dtype=float)
    if form == "readonly":
        a.flags.writeable = False
    return a


FORMS = ["array", "array", "list", "tuple", "ints", "inttuple", "intarray", "float32", "readonly"]


def same_data(a, b):
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))


def experiments(min_size=1, max_size=3, nmin=5):
    one = st.fixed_dictionaries(
        dict(
            case=st.sampled_from(PATHS),
            n=st.integers(0, 15).flatmap(
                lambda k: st.integers(nmin, 12) if k else st.sampled_from([40, 150, 600])
            ),
            lo=gen.fl(0.6, 1.1),
            hi=gen.fl(1.5, 3.0),
            order=st.sampled_from(["up", "up", "down", "shuffled"]),
            area=st.sampled_from([1.0, 25.0, 0.5, 3.7]),
            length=st.sampled_from([1.0, 100.0, 8.0]),
        )
    )
    few = st.lists(one, min_size=min_size, max_size=max_size)
    many = st.lists(one, min_size=max_size + 1, max_size=max_size + 4)
    return st.integers(0, 15).flatmap(lambda k: few if k else many)


def parameters(n):
    return st.lists(
        st.tuples(st.sampled_from([1, 1, 1, -1]), gen.fl(0.05, 2.0)).map(lambda t: t[0] * t[1]),
        min_size=n,
        max_size=n,
    )


def label_sets():
    few, many = [st.lists(st.sampled_from(TOD), min_size=a, max_size=b, unique=True) for a, b in ((1, 3), (4, 5))]
    return st.one_of(few, few, few, many)


KWARGS = [{}, dict(method="lm"), dict(method="lm"), dict(method="trf"), dict(method="dogbox")]


def report(ctx, opt, out, y, fopt, size, determined=True):
    """Everything that is reported belongs to the returned parameters and covariance.
    ``fopt``: reference prediction at the returned parameters."""
    ctx.true(isinstance(out, (tuple, list)) and len(out) == 2, "curve_fit: not parameters and covariance")
    p, cov = out
    p = ctx.array(p, "parameters")
    n = len(p)
    if determined:
        cov = ctx.array(cov, "covariance", shape=(n, n))
    else:
        cov = np.asarray(cov)
        ctx.true(cov.shape == (n, n) and not np.all(np.isfinite(np.diag(cov))), f"covariance: {cov}")
    ctx.close(opt.parameters, p, 1e-14 * np.abs(p) + 1e-300, "stored parameters")
    err = np.sqrt(np.diag(cov))
    if determined:
        ctx.close(opt.errors, err, 1e-12 * err + 1e-300, "standard errors")
    else:
        ctx.true(np.array_equal(opt.errors, err, equal_nan=True), f"standard errors {opt.errors}, but a covariance of {cov.tolist()}")
    res = fopt(p) - y
    ctx.close(opt.residuals, res, 1e-8 * size, "residuals")
    norm = np.sqrt(np.sum(np.asarray(opt.residuals) ** 2))
    ctx.close(call("norm", opt.norm_residuals), norm, 1e-10 * norm + 1e-300, "norm of the residuals")
    if np.all(p != 0) and not determined:
        got = call("mean relative deviation", opt.mean_relative_std)
        ctx.true(not np.isfinite(got), f"mean relative deviation {got} of undetermined parameters")
    elif np.all(p != 0):
        want = float(np.mean(err / np.abs(p)) * 100)
        ctx.close(
            call("mean relative deviation", opt.mean_relative_std), want, 1e-10 * abs(want) + 1e-300,
            "mean relative deviation",
        )  # fmt: skip
    for i, s in enumerate(opt.simulations):
        ctx.close(
            np.array(s.parameters, dtype=float), p, 1e-14 * np.abs(p) + 1e-300, "parameters left in a simulation"
        )
    return p, cov
