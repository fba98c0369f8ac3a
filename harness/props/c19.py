"""Experiment data are converted by the reference geometry."""

import array
import copy
import datetime

from .common import *

FORMS = [
    "list", "tuple", "array", "array", "ints", "intarray", "readonly", "strided", "nested", "float32", "scalar",
    "uint8", "int16", "range", "buffer", "wrapped",
]  # fmt: skip


class Wrapped:
    "Somebody's own record, which converts to an array."

    def __init__(self, values):
        self.values = [float(v) for v in values]

    def __array__(self, dtype=None, copy=None):
        return np.array(self.values, dtype=dtype)

    def __len__(self):
        return len(self.values)


def record(values, form):
    values = [float("nan") if v is None else v for v in values]
    if form == "list":
        return list(values)
    if form == "tuple":
        return tuple(values)
    if form == "ints":
        return [int(round(v)) for v in values]
    if form == "intarray":
        return np.round(values).astype(int)
    if form == "uint8":
        return (np.abs(np.round(values)) % 256).astype(np.uint8)
    if form == "int16":
        return np.round(values).astype(np.int16)
    if form == "range":
        start = int((values or [0])[0])
        return range(start, start + 2 * len(values), 2)
    if form == "buffer":
        return array.array("d", values)
    if form == "wrapped":
        return Wrapped(values)
    if form == "dates":
        return np.datetime64("2024-02-28T23:59") + np.array(np.round(np.nan_to_num(values)), dtype="timedelta64[s]")
    if form == "durations":
        return np.array(np.round(np.nan_to_num(values)), dtype="timedelta64[ms]")
    if form == "texts":
        return [f"t{i}" for i in range(len(values))]
    if form == "objects":
        return [datetime.datetime(2024, 2, 28, 23) + datetime.timedelta(hours=i) for i in range(len(values))]
    if form == "text":
        return "room temperature"
    if form == "nested":
        return [list(values), list(values)[::-1]]
    if form == "float32":
        return np.array(values, dtype=np.float32)
    if form == "scalar":
        return float(values[0])
    a = np.array(values, dtype=float)
    if form == "readonly":
        a.flags.writeable = False
    if form == "strided":
        b = np.full(2 * len(a), 3.25)
        b[::2] = a
        a = b[::2]
    return a


def scale(value, form):
    if form == "int":
        return max(1, int(round(value)))
    if form == "npfloat":
        return np.float64(value)
    if form == "npint":
        return np.int64(max(1, int(round(value))))
    if form == "zero-dimensional":
        return np.array(value)
    return float(value)


def same(a, b):
    return np.asarray(a).shape == np.asarray(b).shape and bool(
        np.all((np.asarray(a) == np.asarray(b)) | ((np.asarray(a) != np.asarray(a)) & (np.asarray(b) != np.asarray(b))))
    )


def elementwise(ctx, actual, values, expected, what):
    "Element by element, exactly the scalar formula (missing values stay missing)."
    out = np.asarray(actual)
    ctx.true(out.dtype.kind == "f" or out.dtype.kind in "iu", f"{what}: dtype {out.dtype}")
    d = np.asarray(values)
    ctx.true(out.shape == d.shape, f"{what}: shape {out.shape} instead of {d.shape}")
    ctx.comparisons += 1
    # results below the smallest normal number of the data type may be rounded or flushed
    eps, tiny = (1e-6, 1e-37) if d.dtype == np.float32 else (2e-15, 1e-307)
    for i in np.ndindex(*d.shape):
        want, size = expected(float(d[i]))
        got = float(out[i])
        if want != want:
            ok = got != got
        else:
            ok = abs(got - want) <= eps * size + tiny
        if not ok:
            raise Violation(f"{what}: entry {i} is {got!r}, expected {want!r}")


def check(case, ctx):
    lab = ref.hel().lab
    ctx.label("displacement: " + case["forms"][0], "force: " + case["forms"][1])
    n = len(case["d"])
    if n == 0 and "scalar" in case["forms"]:
        n, case = 1, dict(case, d=[1.0])
    d = record(case["d"], case["forms"][0])
    f = record(((case["f"] or [2.0]) * n)[:n], case["forms"][1])
    opt = {}
    if case["area"] is not None:
        opt["area"] = scale(*case["area"])
    if case["length"] is not None:
        opt["length"] = scale(*case["length"])
    for key in ("time", "temperature"):
        if case[key] is not None:
            opt[key] = record(((case["f"] or [2.0]) * n)[:n], case[key])
    given = copy.deepcopy((d, f, opt))
    A, L = float(opt.get("area", 1.0)), float(opt.get("length", 1.0))
    if case["positional"]:
        args = [case["label"], d, f]
        for k, default in (("area", 1.0), ("length", 1.0), ("time", None), ("temperature", None)):
            args.append(opt.get(k, default))
        e = call("experiment", lab.Experiment, *args)
    else:
        e = call("experiment", lab.Experiment, label=case["label"], displacement=d, force=f, **opt)

    for again in range(2):
        elementwise(ctx, e.stretch, d, lambda v: (1 + v / L, 1 + abs(v / L)), "stretch")
        elementwise(ctx, call("stress", e.stress), f, lambda v: (v / A, abs(v / A)), "stress")
    ctx.true(e.label == case["label"], f"label {e.label!r}")
    ctx.true(same(e.displacement, given[0]), "displacement record changed")
    ctx.true(same(e.force, given[1]), "force record changed")
    for key in ("time", "temperature"):
        want = given[2].get(key)
        got = getattr(e, key)
        ctx.true((got is None) if want is None else got is not None and same(got, want), f"{key} record changed")
    ctx.true(float(e.area) == A and float(e.length) == L, "area or length changed")
    ctx.true(same(d, given[0]) and same(f, given[1]), "the caller's data were changed")
    ctx.true(type(d) is type(given[0]) and type(f) is type(given[1]), "the caller's data were changed")

    # a second experiment is independent of the first one
    e2 = call("experiment", lab.Experiment, "other", displacement=f, force=d, area=2.0, length=4.0)
    elementwise(ctx, e2.stretch, f, lambda v: (1 + v / 4, 1 + abs(v / 4)), "stretch of another experiment")
    elementwise(ctx, call("stress", e2.stress), d, lambda v: (v / 2, abs(v / 2)), "stress of another experiment")
    elementwise(ctx, e.stretch, d, lambda v: (1 + v / L, 1 + abs(v / L)), "stretch")
    elementwise(ctx, call("stress", e.stress), f, lambda v: (v / A, abs(v / A)), "stress")

    # corrections of the record follow
    A2 = A * 1.5
    e.area = A2
    elementwise(ctx, call("stress", e.stress), f, lambda v: (v / A2, abs(v / A2)), "stress for another area")
    if case["positional"] and isinstance(e.force, np.ndarray) and e.force.flags.writeable and e.force.dtype.kind == "f":
        e.force *= 2.0
        elementwise(ctx, call("stress", e.stress), e.force, lambda v: (v / A2, abs(v / A2)), "stress for written forces")
    f2 = [[-v for v in r] if isinstance(r, list) else -r for r in np.asarray(given[1]).tolist()] if np.ndim(f) else -f
    e.force = f2
    elementwise(ctx, call("stress", e.stress), f2, lambda v: (v / A2, abs(v / A2)), "stress for other forces")
    elementwise(ctx, e.stretch, d, lambda v: (1 + v / L, 1 + abs(v / L)), "stretch after a change of the forces")


VALUE = st.one_of(
    gen.fl(-5, 5), gen.fl(-1e4, 1e4), st.sampled_from([0.0, 1.0, -1.0, 100.0, 1e-9, -0.0]), st.none()
)
REAL = st.one_of(gen.fl(-5, 5), gen.fl(-1e4, 1e4), st.sampled_from([0.0, 1.0, -1.0, 100.0, 1e-9]))
POSITIVE = st.one_of(gen.fl(0.01, 200.0), st.sampled_from([1.0, 25.0, 100.0, 0.5, 1e-6, 1e6]))
SCALES = st.tuples(POSITIVE, st.sampled_from(["float", "float", "int", "npfloat", "zero-dimensional", "npint"])).map(list)


def strategy():
    @st.composite
    def s(draw):
        forms = [draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))]
        isint = [f in ("ints", "intarray", "uint8", "int16", "range") for f in forms]
        least = draw(st.sampled_from([1, 1, 1, 1, 0]))
        extra = st.sampled_from(
            [None, None, None, None, "list", "array", "tuple", "dates", "durations", "texts", "objects", "text"]
        )
        return dict(
            label=draw(st.sampled_from(["Uniaxial Tension", "", "λ 1"])),
            d=draw(gen.long(st.lists(REAL if isint[0] else VALUE, min_size=least, max_size=8))),
            f=draw(gen.long(st.lists(REAL if isint[1] else VALUE, min_size=least, max_size=8))),
            forms=forms,
            area=draw(st.none() | SCALES),
            length=draw(st.none() | SCALES),
            time=draw(extra),
            temperature=draw(extra),
            positional=draw(st.booleans()),
        )

    return s()


SUBS = [
    Sub(
        "conversion",
        strategy,
        check,
        "a displacement and a force differ from zero, and area or length from one",
        4000,
        lambda c: any(c["d"]) and any(c["f"]) and any(c[k] and c[k][0] != 1 for k in ("area", "length")),
    )
]
