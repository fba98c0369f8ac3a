"""Plots show exactly the recorded or simulated data."""

import copy
import re

import matplotlib
import matplotlib.colors as mcolors
import matplotlib.pyplot as plt

from . import c19
from .common import *
from .fits import experiments as fit_experiments
from .fits import Data, TOD, column, parameters, tod_material


def same(a, b):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def near(ctx, a, b, what, floor=1.0):
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).ravel()
    b = np.asarray(b, dtype=float).ravel()
    ctx.true(a.shape == b.shape, f"{what}: {a.shape} points instead of {b.shape}")
    bad = ~((np.abs(a - b) <= 4e-15 * (floor + np.abs(b))) | ((a != a) & (b != b)) | (a == b))
    ctx.true(not bad.any(), f"{what}: {a[bad][:3]} drawn instead of {b[bad][:3]}")


OPTIONS = dict(
    lw=[0.7, 3, 2.5],
    linewidth=[0.5, 4],
    color=["red", "C3", "#123456", "k"],
    marker=["o", "x", ""],
    linestyle=["--", ":", "-"],
    alpha=[0.25, 1.0],
    zorder=[7, 1.5],
    markersize=[3, 11],
)
FMT = ["C1", "C2--", "ko", "r:", "x-", "C0."]


def check_options(ctx, line, opts, fmt):
    get = dict(
        lw=line.get_linewidth, linewidth=line.get_linewidth, marker=line.get_marker,
        linestyle=line.get_linestyle, alpha=line.get_alpha, zorder=line.get_zorder,
        markersize=line.get_markersize,
    )  # fmt: skip
    for k, v in opts.items():
        if k == "color":
            ok = mcolors.to_rgba(line.get_color()) == mcolors.to_rgba(v)
            ctx.true(ok, f"option {k}={v!r}: line has {line.get_color()!r}")
        elif k == "marker" and v == "":
            ctx.true(line.get_marker() in ("", "None", None), f"option marker: {line.get_marker()!r}")
        else:
            ctx.true(get[k]() == v, f"option {k}={v!r}: line has {get[k]()!r}")
    if fmt:
        m = re.match(r"(C\d|[krgb])?", fmt)
        if m.group(0) and "color" not in opts:
            ok = mcolors.to_rgba(line.get_color()) == mcolors.to_rgba(m.group(0))
            ctx.true(ok, f"format {fmt!r}: line has color {line.get_color()!r}")
        rest = fmt[m.end() :]
        if "linestyle" not in opts:
            for style in ("--", ":"):
                if style in rest:
                    ctx.true(line.get_linestyle() == style, f"format {fmt!r}: line style {line.get_linestyle()!r}")
        if "marker" not in opts:
            for mark in ("o", "x", "."):
                if mark in rest:
                    ctx.true(line.get_marker() == mark, f"format {fmt!r}: marker {line.get_marker()!r}")


def build_object(o, ctx):
    "The object and its reference data."
    lab = ref.hel().lab
    if o["kind"] == "experiment":
        n = len(o["d"])
        d, f = o["d"], (o["f"] * n)[:n]
        if o["form"] == "ints":
            d, f = [v or 0 for v in d], [v or 0 for v in f]
        d, f = c19.record(d, o["form"]), c19.record(f, o["form"])
        e = call("experiment", lab.Experiment, o["label"], d, f, area=o["area"], length=o["length"])
        df, ff = np.array(d, dtype=float), np.array(f, dtype=float)
        return dict(
            obj=e, label=o["label"], disp=df, force=ff, stretch=1 + df / o["length"], stress=ff / o["area"],
        )
    x = np.array(o["x"])
    lc = call("load case", getattr(lab, o["case"]), label=o["label"] or None)
    mat = tod_material("deformation")
    s = call("simulation", lab.Simulation, lc, x, ["C10", "C01"], mat, [o["p"][0], o["p"][1]])
    stress_ = np.asarray(call("stress", s.stress), dtype=float)
    return dict(obj=s, label=lc.label, stretch=x, stress=stress_, disp=None, force=None)


def change(o, how):
    "The user corrects something between two plots."
    e = o["obj"]
    if how == "label":
        e.label = o["label"] = o["label"] + " 2"
    elif o["disp"] is not None:
        if how == "assigned":
            e.force = (-1.25 * o["force"]).tolist()
            o["force"], o["stress"] = -1.25 * o["force"], -1.25 * o["stress"]
        elif how == "written" and isinstance(e.force, np.ndarray) and e.force.flags.writeable and e.force.dtype.kind == "f":
            e.force *= 0.5
            o["force"], o["stress"] = 0.5 * o["force"], 0.5 * o["stress"]
        else:
            e.area = e.area * 2
            o["stress"] = o["stress"] / 2
    else:
        if how == "assigned":
            e.parameters = [2.0 * p for p in e.parameters]
            o["stress"] = 2.0 * o["stress"]
        elif how == "written":
            e.parameters[0], e.parameters[1] = 2.0 * e.parameters[0], 2.0 * e.parameters[1]
            o["stress"] = 2.0 * o["stress"]
        else:
            e.stretch = o["stretch"] = 1.0 * o["stretch"][::-1]
            o["stress"] = o["stress"][::-1]


def check_plots(case, ctx):
    try:
        with matplotlib.rc_context(case["rc"]):
            _check_plots(case, ctx)
    finally:
        plt.close("all")


def _check_plots(case, ctx):
    plt.close("all")
    objs = [build_object(o, ctx) for o in case["objs"]]
    axes = []
    drawn = {}
    if case["foreign"]:  # also several axes of one figure
        fig, ax = plt.subplots(1, case["foreign"], squeeze=False)
        ax[0, 0].plot([0, 1], [5, 6], label="foreign")
        for a in ax[0]:
            axes.append(a)
            drawn[id(a)] = len(a.lines)
    for step in case["steps"]:
        o = objs[step["obj"] % len(objs)]
        if step["change"]:
            change(o, step["change"])
        fd = step["what"] == "force" and o["disp"] is not None
        what = "force-displacement" if fd else "stress-stretch"
        ctx.label("plot: " + what + " of " + type(o["obj"]).__name__.lower())
        fun = o["obj"].plot_force_displacement if fd else o["obj"].plot_stress_stretch
        kw = dict(step["opts"])
        if step["label"] is not None:
            kw["label"] = step["label"]
        for k in ("xlabel", "ylabel"):
            if step[k] is not None:
                kw[k] = step[k]
        given = None
        if axes and step["ax"] is not None:
            given = axes[step["ax"] % len(axes)]
            kw["ax"] = given
        before = len(plt.get_fignums())
        args = [step["fmt"]] if step["fmt"] else []
        out = call(what, fun, *args, **kw)
        ctx.true(isinstance(out, tuple) and len(out) == 2, f"{what}: not figure and axes")
        fig, ax = out
        if given is not None:
            ctx.true(ax is given, f"{what}: not drawn on the given axes")
            ctx.true(len(plt.get_fignums()) == before, f"{what}: a figure was opened beside the given axes")
        else:
            ctx.true(all(ax is not a for a in axes), f"{what}: drawn on old axes instead of new ones")
            axes.append(ax)
            drawn[id(ax)] = 0
        ctx.true(fig is ax.get_figure(), f"{what}: figure does not belong to the axes")
        n = drawn[id(ax)] = drawn[id(ax)] + 1
        ctx.true(len(ax.lines) == n, f"{what}: {len(ax.lines)} lines instead of {n}")
        line = ax.lines[-1]
        xd, yd = (o["disp"], o["force"]) if fd else (o["stretch"], o["stress"])
        near(ctx, line.get_xdata(), xd, f"{what}, abscissa", 1e-300 if fd else 1.0)
        near(ctx, line.get_ydata(), yd, f"{what}, ordinate", 1e-300)
        want = o["label"] if step["label"] is None else step["label"]
        got = line.get_label()  # matplotlib replaces an empty label by a hidden one
        ok = got == want or (not want and str(got).startswith("_"))
        ctx.true(ok, f"{what}: label {got!r} instead of {want!r}")
        for k, get in (("xlabel", ax.get_xlabel), ("ylabel", ax.get_ylabel)):
            if step[k] is not None:
                ctx.true(get() == step[k], f"{what}: {k} {get()!r} instead of {step[k]!r}")
            else:  # the quantity is named
                names = {"xlabel": ("displacement", "stretch"), "ylabel": ("force", "area")}[k]
                name = names[0 if fd else 1]
                ok = name in get().lower() or (name == "area" and "stress" in get().lower())
                ctx.true(ok, f"{what}: {k} {get()!r} does not name the {name}")
        check_options(ctx, line, step["opts"], step["fmt"])
        for a in axes:
            ctx.true(len(a.lines) == drawn[id(a)], f"{what}: other axes were changed")
        # nothing but this line changed
        if case["foreign"]:
            first = axes[0].lines[0]
            ctx.true(same(first.get_ydata(), [5, 6]), "another line was changed")
    for o in objs:
        e = o["obj"]
        near(ctx, e.stretch, o["stretch"], "stretch after plotting")
        near(ctx, e.stress(), o["stress"], "stress after plotting")


# -- optimisation ----------------------------------------------------------------------


NUMBER = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"


def check_optimize(case, ctx):
    try:
        _check_optimize(case, ctx)
    finally:
        plt.close("all")


def _check_optimize(case, ctx):
    lab = ref.hel().lab
    plt.close("all")
    labels, space = case["labels"], "deformation"
    rng = np.random.default_rng(case["seed"])
    data = [Data(e, labels, case["p"][: len(labels)], space, case["noise"], rng) for e in case["exps"]]
    names = [case["as"][l] for l in labels]  # the user's names of the parameters
    mat = tod_material(space, case["as"])
    titles = [case["names"][i % len(case["names"])] + f" {i}" for i in range(len(data))]
    exps = [d.experiment(label=t) for d, t in zip(data, titles)]
    sims = []
    for i, d in enumerate(data):
        x = d.x.copy() if not case["own"] else np.linspace(0.8, 2.0, 4 + i)
        sims.append(d.simulation(names, mat, stretch=x))
    start = np.array(case["start"][: len(labels)])
    mask = [np.arange(d.n) % 4 != 1 for d in data] if case["mask"] else None
    opt = call("optimize", lab.Optimize, exps, sims, start, **({} if mask is None else dict(mask=mask)))
    ctx.label(f"pairs: {len(data)}", f"steps: {len(case['steps'])}")
    state = "new"
    if case["few"]:
        ctx.label("as many points as parameters")
    for step in case["steps"]:
        if step == "init":
            call("init_curve_fit", opt.init_curve_fit)
            state = "init"
        elif step == "fit":
            call("curve_fit", opt.curve_fit, method="lm")
            state = "fit"
        elif step == "single":  # a plot of one of the objects in between
            call("plot", sims[0].plot_stress_stretch)
            call("plot", exps[0].plot_stress_stretch)
        elif state != "new":
            _look(case, ctx, opt, data, exps, sims, titles, state)


def _look(case, ctx, opt, data, exps, sims, titles, state):
    labels, space = case["labels"], "deformation"
    p, err = np.array(opt.parameters), np.array(opt.errors)
    if state == "fit" and not (np.all(np.isfinite(p)) and not np.any(np.isnan(err))):
        ctx.label("parameters not identifiable")
        return
    ctx.label(f"plot after {state}")
    title = case["title"]
    before = {n: len(plt.figure(n).axes[0].lines) for n in plt.get_fignums()}
    fig, ax = call("plot", opt.plot, **({} if title is None else dict(title=title)))
    after = {n: len(plt.figure(n).axes[0].lines) for n in before}
    ctx.true(before == after and fig.number not in before, "optimisation plot: earlier figures were changed")
    ctx.true(fig is ax.get_figure(), "optimisation plot: figure does not belong to the axes")
    if title is not None:
        ctx.true(ax.get_title() == title, f"optimisation plot: title {ax.get_title()!r}")
    ctx.true(len(ax.lines) == 2 * len(data), f"optimisation plot: {len(ax.lines)} lines")
    byname = {l.get_label(): l for l in ax.lines}
    for d, e, s, t in zip(data, exps, sims, titles):
        for name in (t, f"{t} (Experiment)"):
            ctx.true(name in byname, f"optimisation plot: no line {name!r} in {sorted(byname)}")
        X = np.array([column(d.name, l, space, np.asarray(s.stretch)) for l in labels]).T
        f = X @ p
        sim, ex = byname[t], byname[f"{t} (Experiment)"]
        near(ctx, ex.get_xdata(), d.x, "experiment's stretches")
        near(ctx, ex.get_ydata(), d.y, "experiment's stresses")
        near(ctx, sim.get_xdata(), s.stretch, "simulation's stretches")
        for l in (sim, ex):
            ctx.true(l.get_visible() and (l.get_linewidth() > 0 or l.get_marker() not in ("", "None", None)), "invisible line")
        size = np.abs(X * p).sum(axis=1).max() + 1e-300
        ctx.close(np.asarray(sim.get_ydata(), dtype=float), f, 1e-8 * size, "simulation's stresses")
        ctx.true(
            mcolors.to_rgba(sim.get_color()) == mcolors.to_rgba(ex.get_color()),
            "the lines of a pair have different colors",
        )
    legend = ax.get_legend()
    ctx.true(legend is not None and len(legend.get_texts()) == 2 * len(data), "optimisation plot: legend")
    for t in ax.texts:
        x, y = t.get_transform().transform(t.get_position())
        inside = 0 <= x <= fig.bbox.width and 0 <= y <= fig.bbox.height
        ctx.true(inside and t.get_visible(), f"optimisation plot: text at ({x:.0f}, {y:.0f}) is not visible")
    text = "\n".join(t.get_text() for t in [*ax.texts, *fig.texts])
    for name, value, sd in zip([case["as"][l] for l in labels], p, err):
        m = re.search(re.escape(name) + r"\s*=\s*" + NUMBER + r"[^\n]*?\\pm\s*\$?\s*" + NUMBER, text)
        ctx.true(m is not None, f"optimisation plot: parameter {name} is not stated in {text!r}")
        got, two = float(m.group(1)), float(m.group(2))
        ctx.close(got, value, 0.06 * abs(value) + 1e-300, "stated parameter")
        if state == "init":
            ctx.true(two != two, f"deviation {two} of a parameter that was not fitted")
        else:
            ok = two == sd if np.isinf(sd) else abs(two - 2 * sd) <= 0.06 * 2 * sd + 1e-300
            ctx.true(ok, f"stated deviation {two} of a parameter instead of {2 * sd}")
    norm = float(np.linalg.norm(opt.residuals))
    found = list(re.finditer(r"(?i)norm of[^\n=]*residual[^\n=]*=\s*" + NUMBER, text))
    ctx.true(len(found) > 0, f"optimisation plot: the norm of the residuals is not stated in {text!r}")
    for m in found:
        ctx.close(float(m.group(1)), norm, 1e-3 * norm + 1e-300, "stated norm of the residuals")
    mean = float(np.mean(err / np.abs(p)) * 100) if np.all(p != 0) else np.nan
    for m in re.finditer(r"Deviation of Parameters\s*=\s*" + NUMBER, text):
        got = float(m.group(1))
        ok = got != got if mean != mean else got == mean or abs(got - mean) <= 0.06 * abs(mean) + 0.051
        ctx.true(ok or not np.all(p != 0), f"stated mean deviation {got} instead of {mean}")
    ctx.same(opt.parameters, p, "parameters after plotting")
    ctx.same(opt.errors, err, "errors after plotting")


LABEL = st.sampled_from([None, None, "A label", "λ", "x y", "", "test_07", r"$\mu_1$", "5% {a}", "LBL", " b "])
NAMES = ["UX", "Planar Tension", "λ", "test_07", "5% {a}", r"$\mu_1$"]
VALUE = st.one_of(c19.REAL, c19.REAL, c19.REAL, st.none())
OBJ = st.one_of(
    st.fixed_dictionaries(
        dict(
            kind=st.just("experiment"),
            label=st.sampled_from(["Uniaxial Tension", "E 1", "F", *NAMES]),
            d=gen.long(st.lists(VALUE, min_size=2, max_size=6)),
            f=gen.long(st.lists(VALUE, min_size=2, max_size=6)),
            form=st.sampled_from(["list", "tuple", "array", "ints", "readonly", "strided"]),
            area=gen.fl(0.1, 50.0),
            length=gen.fl(0.1, 50.0),
        )
    ),
    st.fixed_dictionaries(
        dict(
            kind=st.just("simulation"),
            label=st.sampled_from(["", "Sim", "sim_2"]),
            case=st.sampled_from(["Uniaxial", "Planar", "Biaxial"]),
            x=gen.long(st.lists(gen.fl(0.5, 3.0), min_size=1, max_size=6)),
            p=st.lists(gen.fl(-1, 1), min_size=2, max_size=2),
        )
    ),
)


@st.composite
def options(draw):
    keys = draw(st.lists(st.sampled_from(sorted(OPTIONS)), max_size=3, unique=True))
    if "lw" in keys and "linewidth" in keys:
        keys.remove("lw")
    return {k: draw(st.sampled_from(OPTIONS[k])) for k in keys}


def few(case):
    "As many points as parameters: the deviations are infinite."
    if case["few"]:
        case = dict(case, exps=[dict(case["exps"][0], n=len(case["labels"]))], mask=False)
    return case


SUBS = [
    Sub(
        "lines",
        lambda: st.fixed_dictionaries(
            dict(
                objs=st.lists(OBJ, min_size=1, max_size=3),
                foreign=st.sampled_from([0, 0, 1, 2, 3]),
                rc=st.sampled_from([{}, {}, {"lines.linewidth": 5.0}]),
                steps=st.lists(
                    st.fixed_dictionaries(
                        dict(
                            obj=st.integers(0, 2),
                            what=st.sampled_from(["force", "stress"]),
                            change=st.sampled_from([None, None, None, "label", "assigned", "written", "geometry"]),
                            ax=st.none() | st.integers(0, 3),
                            label=LABEL,
                            xlabel=st.sampled_from([None, None, "abscissa", ""]),
                            ylabel=st.sampled_from([None, None, "ordinate", ""]),
                            opts=options(),
                            fmt=st.sampled_from([None, None, *FMT]),
                        )
                    ),
                    min_size=1,
                    max_size=4,
                ),
            )
        ),
        check_plots,
        "several plots, or a label or option is given",
        1200,
        lambda c: len(c["steps"]) > 1 or c["steps"][0]["label"] or bool(c["steps"][0]["opts"]),
    ),
    Sub(
        "optimize",
        lambda: st.fixed_dictionaries(
            dict(
                few=st.integers(0, 9).map(lambda k: k == 9),
                labels=st.lists(st.sampled_from(TOD), min_size=1, max_size=3, unique=True),
                p=parameters(3),
                exps=st.one_of(*[fit_experiments(1, 3)] * 11, fit_experiments(11, 12)),
                names=st.lists(st.sampled_from(NAMES), min_size=1, max_size=3),
                noise=st.sampled_from([0.02, 0.1]),
                seed=st.integers(0, 2**31),
                title=st.sampled_from([None, "A title", r"$\mu$ of test_1 (5%)", ""]),
                own=st.booleans(),
                start=st.lists(st.sampled_from([1.0, 0.5, -0.2, 3.0]), min_size=3, max_size=3),
                **{
                    "as": st.one_of(
                        st.just(TOD), st.permutations(["mu_1", "μ", "c 2", "K10", "d"])
                    ).map(lambda names: dict(zip(TOD, names)))
                },
                mask=st.booleans(),
                steps=st.one_of(
                    st.just(["fit", "plot"]),
                    st.just(["init", "plot", "fit", "plot"]),
                    st.lists(st.sampled_from(["init", "fit", "plot", "plot", "single"]), min_size=2, max_size=5),
                ),
            )
        ).map(few),
        check_optimize,
        "a plot after a fit or its preparation",
        300,
        lambda c: "plot" in c["steps"][1:] and c["steps"][0] != "plot",
    ),
]
