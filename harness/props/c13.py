"""Built-in models return the derivatives of their documented energies."""

import copy

from ..jet import Jet
from .c09 import KINDS, Token, make, same
from .c14 import GRAD, HESS, entry
from .common import *


def values(vals, rows, trax):
    n = int(np.prod(trax))
    v = np.resize(np.array(vals, dtype=float), rows * n).reshape(rows, n)
    v = v * (1 + 0.01 * (np.arange(n) // max(1, len(vals))))
    return v.reshape(rows, *trax)


LAYOUTS = ["f", "moved", "strided", "reversed", "readonly", "repeated"]


def given(v, form):
    "Whole numbers in an array of integers, or the values as they are."
    if form in ("int64", "int32"):
        return np.maximum(np.round(v), 1).astype(form)
    return v


def tokens(case, trax):
    old = make(case["sv"], 3, trax)
    return old, old if isinstance(old, Token) else make(case["sv"], 3, trax)


def evaluate(ctx, obj, args, case, energy, n, trax, rel):
    """First and second derivatives; in between, the values of the very same arguments are
    changed now and then."""
    for op in "x" + case["order"]:
        if op == "x":
            for k, a in enumerate(args if "x" in case["order"] else []):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = a + (1 + k) if a.dtype.kind == "i" else a * (1.1 + 0.2 * k)
            saved = copy.deepcopy(args)
            W = energy([np.array(v, dtype=float) for v in (args if n == 3 else args[0])])
            tg = rel * (W.mg.max(axis=0) + 1e-12)
            th = rel * (W.mh.max(axis=(0, 1)) + 1e-12)
            continue
        old, keep = tokens(case, trax)
        if op == "g":
            out = call("gradient", obj.gradient, *args, old)
            ctx.true(same(out[-1], keep), f"state variables {out[-1]!r:.80} instead of {keep!r:.80}")
            g = out[:-1] if n == 3 else list(out[0])
            ctx.true(len(g) == 3, "gradient: not three derivatives")
            for i in GRAD:
                ctx.close(entry(g[i], trax, f"derivative {i + 1}", ctx), W.g[i], tg, "first derivative")
        else:
            out = call("hessian", obj.hessian, *args, old)
            ctx.true(len(out) == 6, "hessian: not six derivatives")
            for v, (i, j) in zip(out, HESS):
                got = entry(v, trax, f"derivative {i + 1}{j + 1}", ctx)
                ctx.close(got, W.h[i, j], th, f"second derivative {i + 1}{j + 1}")
        for a, s in zip(args, saved):
            ctx.same(np.asarray(a), np.asarray(s), "argument")


def check_tod(case, ctx):
    spec, trax = case["spec"], tuple(case["shape"])
    h = ref.hel().models.invariants
    kw = {k: v for k, v in spec.items() if k != "kind"}
    if case["omit"]:
        kw = {k: v for k, v in kw.items() if v}
    if "strain" in kw:  # whatever is true or false
        kw["strain"] = dict(bool=bool, npbool=np.bool_, int=int)[case["truth"]](kw["strain"])
    obj = call("ThirdOrderDeformation", h.ThirdOrderDeformation, **kw)
    ctx.label(f"strain mode: {spec['strain']}", *[k for k, v in kw.items() if v])
    form = case["form"]
    ctx.label("values: " + form)
    I = given(values(case["v"], 3, trax), form)
    args = [gen.layout(v, form, 1) if form in LAYOUTS and v.ndim else np.array(v) for v in I]
    if case["same"]:  # one array for all of them
        args = args[:1] * 3
    if not trax and form in ("floats", "int64"):  # plain numbers
        args = [a.item() for a in args]
    evaluate(ctx, obj, args, case, lambda v: ref.energy_inv(spec, *Jet.variables(v)), 3, trax, 1e-12)


def check_ogden(case, ctx):
    spec, trax = case["spec"], tuple(case["shape"])
    h = ref.hel().models.stretches
    kind = dict(list=list, tuple=tuple, array=np.array)[case["container"]]
    mu, al = kind(spec["mu"]), kind(spec["alpha"])
    if case["container"] == "array":
        mu, al = mu.astype(float), al.astype(float)
    obj = call("Ogden", h.Ogden, mu=mu, alpha=al)
    ctx.label(f"terms: {len(spec['mu'])}", "parameters: " + case["container"])
    form = case["form"]
    ctx.label("values: " + form)
    arg = given(values(case["v"], 3, trax), form)
    arg = gen.layout(arg, form, 1) if form in LAYOUTS else arg
    evaluate(ctx, obj, [arg], case, lambda v: ref.energy_str(spec, *Jet.variables(v)), 1, trax, 1e-12)


def check_generalized(case, ctx):
    spec, trax, form = case["spec"], tuple(case["shape"]), case["form"]
    fun, kw = ref.strainfun(spec["fun"])
    obj = call(
        "GeneralizedInvariantsModel", ref.hel().models.stretches.GeneralizedInvariantsModel,
        ref.model(spec["inner"]), fun, **kw,
    )  # fmt: skip
    ctx.label(gen.about(spec), "values: " + form)
    arg = given(values(case["v"], 3, trax), form)
    arg = gen.layout(arg, form, 1) if form in LAYOUTS else arg
    evaluate(ctx, obj, [arg], case, lambda v: ref.energy(spec, *Jet.variables(v)), 1, trax, 1e-11)


def common():
    return dict(
        v=st.lists(st.one_of(gen.fl(0.15, 6.0), st.sampled_from([1.0, 3.0, 2.0])), min_size=3, max_size=7),
        shape=gen.shapes(vast=True),
        sv=st.sampled_from(KINDS),
        same=st.integers(0, 9).map(lambda k: k == 0),
        order=st.sampled_from(["gh", "hg", "hh", "ghg", "gxg", "hxh", "gxh", "hxgh"]),
        form=st.sampled_from(["floats", "floats", "floats", "int64", "int32", *LAYOUTS]),
    )


@st.composite
def spread(draw):
    "Moduli and exponents of very different size."
    n = draw(st.integers(1, 4) | st.sampled_from([6, 9]))
    size = st.sampled_from([1.0, 1.0, 1e-3, 1e-9, 1e-14, 1e-17, 1e6])
    mu = [draw(gen.modulus()) * draw(size) for _ in range(n)]
    large = st.sampled_from([12.0, -9.0, 25.0, -20.0, 1e-3, -1e-4])
    return dict(kind="ogden", mu=mu, alpha=[draw(st.one_of(gen.exponent(), large)) for _ in range(n)])


SUBS = [
    Sub(
        "third-order-deformation",
        lambda: st.fixed_dictionaries(dict(
                spec=gen.tod(), omit=st.booleans(), truth=st.sampled_from(["bool", "bool", "npbool", "int"]), **common()
            )),
        check_tod,
        "a modulus differs from zero and the invariants are not all equal",
        4500,
        lambda c: gen.has_energy(c["spec"]) and len(set(c["v"])) > 1,
    ),
    Sub(
        "ogden",
        lambda: st.fixed_dictionaries(
            dict(
                spec=st.one_of(gen.ogden(4), gen.ogden(4), spread()),
                container=st.sampled_from(["list", "tuple", "array"]),
                **common(),
            )
        ),
        check_ogden,
        "a modulus differs from zero and the stretches are not all equal",
        4500,
        lambda c: gen.has_energy(c["spec"]) and len(set(c["v"])) > 1,
    ),
    Sub(
        "generalized-invariants",
        lambda: st.fixed_dictionaries(dict(spec=gen.generalized(), **common())),
        check_generalized,
        "a modulus differs from zero and the stretches are not all equal",
        2500,
        lambda c: gen.has_energy(c["spec"]) and len(set(c["v"])) > 1,
    ),
]
