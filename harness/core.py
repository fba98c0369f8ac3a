"""Runner: generated cases -> oracle -> evidence, replay files, exit codes.

A property module (``harness/props/cNN.py``) provides ``SUBS``, a list of :class:`Sub`.
Each sub-check has a hypothesis strategy that yields a plain JSON-able case, an oracle
``check(case, ctx)`` which raises :class:`Violation`, and a rule for non-trivial cases.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 error of
the check itself.
"""

import argparse
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import boot

ROOT = boot.ROOT


class Violation(Exception):
    "The code under test broke the property."


class Sub:
    def __init__(self, name, strategy, check, rule, quick, nontrivial=None, thorough=None,
                 explicit=()):
        self.name = name
        self.strategy = strategy  # callable returning a hypothesis strategy
        self.check = check
        self.rule = rule
        self.quick = 2 * quick  # case counts of the property modules are half of the quick tier's
        self.thorough = thorough or 30 * quick
        self.nontrivial = nontrivial or (lambda case: True)
        self.explicit = explicit


class Ctx:
    "Per-run statistics, filled by the oracles."

    def __init__(self):
        self.labels = collections.Counter()
        self.ratios = {}
        self.comparisons = 0
        self.how, self.opts = None, {}  # presentation of the current case

    def label(self, *names):
        for name in names:
            self.labels[str(name)] += 1

    # -- comparison ------------------------------------------------------------------
    def array(self, value, what, shape=None, broadcast=False):
        "Result of the code under test as a finite float array of the given shape."
        import numpy as np

        try:
            out = np.asarray(value)
            if out.dtype == object or out.dtype.kind not in "fiub":
                raise TypeError(f"dtype {out.dtype}")
            out = out.astype(float)
        except Exception as exc:
            raise Violation(f"{what}: not a real numeric array ({exc}): {value!r:.200}")
        if shape is not None and out.shape != tuple(shape):
            if broadcast:
                try:
                    out = np.broadcast_to(out, shape)
                except ValueError:
                    raise Violation(
                        f"{what}: shape {out.shape} does not broadcast to {tuple(shape)}"
                    )
            else:
                raise Violation(f"{what}: shape {out.shape} instead of {tuple(shape)}")
        if not np.all(np.isfinite(out)):
            raise Violation(f"{what}: not finite")
        return out

    def close(self, actual, expected, tol, what, shape=None, broadcast=False):
        """|actual - expected| <= tol, elementwise (tol broadcasts)."""
        import numpy as np

        expected = np.asarray(expected, dtype=float)
        shape = expected.shape if shape is None else shape
        actual = self.array(actual, what, shape=shape, broadcast=broadcast)
        if not np.all(np.isfinite(expected)):
            raise AssertionError(f"{what}: reference not finite (harness)")
        self.comparisons += 1
        if actual.size == 0:
            return
        err = np.abs(actual - expected)
        ratio = err / np.broadcast_to(tol, err.shape)
        worst = np.unravel_index(np.argmax(ratio), ratio.shape)
        r = float(ratio[worst])
        key = what.split(" [")[0]
        if r > self.ratios.get(key, -1.0):
            self.ratios[key] = r
        if not r <= 1.0:
            raise Violation(
                f"{what}: component {tuple(int(i) for i in worst)} is "
                f"{float(actual[worst])!r}, expected {float(expected[worst])!r} "
                f"(error {float(err[worst]):.3g}, tolerance "
                f"{float(np.broadcast_to(tol, err.shape)[worst]):.3g})"
            )

    def true(self, condition, what):
        self.comparisons += 1
        if not condition:
            raise Violation(what)

    def same(self, actual, expected, what):
        "Bitwise equal arrays (shape and values, NaN allowed)."
        import numpy as np

        self.comparisons += 1
        a, b = np.asarray(actual), np.asarray(expected)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            raise Violation(f"{what}: changed from {b!r:.300} to {a!r:.300}")


def call(what, fun, /, *args, **kwargs):
    "Call the code under test; an exception on a valid input breaks the property."
    try:
        return fun(*args, **kwargs)
    except Violation:
        raise
    except MemoryError:
        raise
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(
            f"{what}: raised {type(exc).__name__}: {exc} "
            f"({os.path.basename(tb.filename)}:{tb.lineno})"
        )


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def digest(case):
    return hashlib.sha1(dumps(case).encode()).hexdigest()[:16]


def run_check(sub, case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.how, ctx.opts = None, {}
        try:
            sub.check(case, ctx)
        except (Violation, MemoryError, OSError):
            raise
        except Exception as exc:  # what the code under test returned is not usable
            tb = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation(
                f"results not usable: {type(exc).__name__}: {exc} "
                f"({os.path.basename(tb.filename)}:{tb.lineno})"
            )


def run_sub(sub, n, seed, deadline):
    "Explore one sub-check; returns a result dictionary."
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40

    ctx = Ctx()
    t0 = time.process_time()
    seen, nontrivial, samples = set(), set(), []
    state = dict(evaluations=0, skipped=0, failure=None, shrink_from=None)

    def execute(case):
        if time.monotonic() > deadline and state["failure"] is None:
            state["skipped"] += 1
            return
        state["evaluations"] += 1
        key = digest(case)
        seen.add(key)
        if sub.nontrivial(case):
            due = len(samples) < 3 and len(nontrivial) >= (0, 7, 50)[len(samples)]
            if due and key not in nontrivial and len(dumps(case)) < 4000:
                samples.append(case)
            nontrivial.add(key)
        try:
            run_check(sub, case, ctx)
        except Violation as exc:
            size = len(dumps(case))
            if state["failure"] is None or size <= state["failure"][0]:
                state["failure"] = (size, case, str(exc))
            raise

    try:
        for case in sub.explicit:
            execute(case)
    except Violation:
        pass

    if state["failure"] is None and n > 0:

        @hypothesis.seed(seed)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.data_too_large,
                HealthCheck.large_base_example,
            ],
        )
        @given(sub.strategy())
        def test(case):
            execute(case)

        try:
            test()
        except Violation:
            pass
        except Exception:
            if state["failure"] is None:
                raise

    return dict(
        name=sub.name,
        rule=sub.rule,
        cpu=time.process_time() - t0,
        evaluations=state["evaluations"],
        skipped=state["skipped"],
        distinct=sorted(seen),
        nontrivial=sorted(nontrivial),
        samples=samples[:2],
        labels=dict(ctx.labels),
        ratios=ctx.ratios,
        comparisons=ctx.comparisons,
        failure=None if state["failure"] is None else state["failure"][1:],
    )


def load(pid):
    boot.deps()
    boot.repo()
    return importlib.import_module(f"harness.props.{pid.lower()}")


def worker(args):
    "One shard in its own process; writes its results as JSON."
    module = load(args.property)
    deadline = time.monotonic() + args.budget
    results = []
    for k, sub in enumerate(module.SUBS):
        if args.sub and sub.name not in args.sub.split(","):
            continue
        n = sub.quick if args.tier == "quick" else sub.thorough
        n = int(n * args.scale)
        share = n // args.of + (1 if args.shard < n % args.of else 0)
        sub.explicit = list(sub.explicit)[args.shard :: args.of]
        seed = (args.seed * 1000 + args.shard) * 100 + k
        results.append(run_sub(sub, share, seed, deadline))
        if results[-1]["failure"]:
            break
    with open(args.out, "w") as f:
        json.dump(results, f)
    return 0


def replay(args):
    module = load(args.property)
    with open(args.replay) as f:
        data = json.load(f)
    sub = {s.name: s for s in module.SUBS}[data["sub"]]
    try:
        run_check(sub, data["case"], Ctx())
    except Violation as exc:
        print(f"{data['sub']}: {exc}")
        print(f"VIOLATION property={args.property} replay={args.replay}")
        return 1
    print(f"replay passes: property={args.property} sub={data['sub']}")
    return 0


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--shards", type=int, default=0)
    parser.add_argument("--budget", type=float, default=0.0)
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--sub", default="")
    parser.add_argument("--replay")
    parser.add_argument("--calibrate", action="store_true")
    parser.add_argument("--shard", type=int, default=-1)
    parser.add_argument("--of", type=int, default=1)
    parser.add_argument("--out")
    args = parser.parse_args(argv)
    args.property = args.property.upper()

    try:
        if args.replay:
            return replay(args)
        quick = args.tier == "quick"
        if not args.budget:
            args.budget = 480.0 if quick else 3000.0
        if args.shard >= 0:
            return worker(args)
        return parent(args, quick)
    except Exception:
        traceback.print_exc()
        return 2


def parent(args, quick):
    t0 = time.monotonic()
    shards = args.shards or (8 if quick else max(4, os.cpu_count() or 4))
    procs, results = [], []
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        for i in range(shards):
            out = os.path.join(tmp, f"{i}.json")
            cmd = [sys.executable, "-m", "harness", args.property, "--tier", args.tier]
            cmd += ["--seed", str(args.seed), "--shard", str(i), "--of", str(shards)]
            cmd += ["--out", out, "--budget", str(args.budget), "--scale", str(args.scale)]
            cmd += ["--sub", args.sub]
            log = open(os.path.join(tmp, f"{i}.log"), "wb+")
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, cwd=ROOT), out, log))
        broken = []
        for i, (proc, out, log) in enumerate(procs):
            rc = proc.wait()
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                log.seek(0)
                broken.append(f"shard {i} ended with {rc}\n" + log.read().decode()[-4000:])
            log.close()

    merged = {}
    for shard in results:
        for r in shard:
            m = merged.setdefault(
                r["name"],
                dict(rule=r["rule"], evaluations=0, skipped=0, distinct=set(),
                     nontrivial=set(), samples=[], labels=collections.Counter(),
                     ratios={}, comparisons=0, failures=[], cpu=0.0),
            )
            for key in ("evaluations", "skipped", "comparisons", "cpu"):
                m[key] += r[key]
            m["distinct"].update(r["distinct"])
            m["nontrivial"].update(r["nontrivial"])
            m["samples"] += r["samples"]
            m["labels"].update(r["labels"])
            for key, value in r["ratios"].items():
                m["ratios"][key] = max(value, m["ratios"].get(key, 0.0))
            if r["failure"]:
                m["failures"].append(r["failure"])

    failures = []
    for name, m in merged.items():
        if m["failures"]:
            case, message = min(m["failures"], key=lambda f: len(dumps(f[0])))
            failures.append((name, case, message))

    if not broken or failures:
        write_evidence(args, merged, failures, time.monotonic() - t0)

    for name, m in merged.items():
        print(
            f"{args.property}/{name}: {m['evaluations']} cases, "
            f"{len(m['nontrivial'])} distinct non-trivial, {m['comparisons']} comparisons"
            + (f", {m['skipped']} skipped (time budget)" if m["skipped"] else "")
        )
        if args.calibrate:
            print(f"      cpu {m['cpu']:.1f} s, {1e3 * m['cpu'] / max(1, m['evaluations']):.1f} ms per case")
            for key, value in sorted(m["ratios"].items()):
                print(f"      error/tolerance {value:9.2e}  {key}")
            for key, value in sorted(m["labels"].items()):
                print(f"      {value:7d}  {key}")

    for name, case, message in failures:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{args.property}-{name}-{digest(case)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=args.property, sub=name, message=message, case=case,
                           replay_cmd=f"bash run.sh {args.property} --replay {path}"),
                      f, indent=1, ensure_ascii=False)
        print(f"{name}: {message}")
        print(f"VIOLATION property={args.property} replay={path}")
    if failures:
        return 1
    if broken:
        print("\n".join(broken), file=sys.stderr)
        return 2
    print(f"{args.property}: held on everything explored ({time.monotonic() - t0:.1f} s)")
    return 0


def write_evidence(args, merged, failures, wall):
    subs = {}
    for name, m in merged.items():
        subs[name] = dict(
            rule=m["rule"],
            evaluations=m["evaluations"],
            distinct=len(m["distinct"]),
            distinct_nontrivial=len(m["nontrivial"]),
            comparisons=m["comparisons"],
            skipped_by_time_budget=m["skipped"],
            labels=dict(sorted(m["labels"].items())),
            largest_error_over_tolerance={k: float(f"{v:.3g}") for k, v in sorted(m["ratios"].items())},
        )
    evidence = dict(
        property=args.property,
        tier="quick" if args.tier == "quick" else "thorough",
        seed=args.seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(m["evaluations"] for m in merged.values()),
            distinct_nontrivial=sum(len(m["nontrivial"]) for m in merged.values()),
            rule="; ".join(f"{k}: {m['rule']}" for k, m in merged.items()),
            samples=[dict(sub=k, case=c) for k, m in merged.items() for c in m["samples"][:2]],
            sub_checks=subs,
        ),
        assumptions=[
            "deformation gradients with stretches between about 0.15 and 7 and det F > 0",
            "hypothesis pseudo-random search; absence of violations is not established",
        ],
        wall_s=round(wall, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", f"{args.property}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)
