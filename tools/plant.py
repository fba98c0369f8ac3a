"""Creates, verifies and registers planted bugs:  python tools/plant.py bugs.py [ids...]

``bugs.py`` holds a list ``BUGS`` of dictionaries with the keys id, property, edits (tuples of
file, old text, new text), needs, breaks, demo (Python text using ``expect``) and optionally
also (further properties to check).  Works on clones under /tmp/plant/w."""
import importlib.util, json, os, shutil, subprocess, sys, textwrap, re
from concurrent.futures import ThreadPoolExecutor
PRE = '''"""Exits 0 if the behaviour is right, 1 otherwise.  Run with cwd = repository."""
import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True

import numpy as np

import hyperelastic as hel
from hyperelastic import lab, math as hm


def expect(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# Run with cwd = repository after the build.
export MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def one(bug):
    id_ = bug["id"]
    top = f"/tmp/plant/w/{id_}"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    repo = top + "/repo"
    sh(f"git -C /repo worktree prune; git clone -q /repo {repo}", "/tmp")
    dst = f"/verif/seeded/{id_}"
    tmp = top + "/out"; os.makedirs(tmp)
    open(tmp + "/demo.py", "w").write(PRE + textwrap.dedent(bug["demo"]).strip() + "\n")
    open(tmp + "/demo.sh", "w").write(SH)
    json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
    rc0, o0 = sh(f"bash {tmp}/demo.sh", repo)
    for f, old, new in bug["edits"]:
        p = f"{repo}/src/hyperelastic/{f}"
        s = open(p).read()
        if s.count(old) != 1: return id_, f"EDIT {s.count(old)} matches for {old!r}"
        open(p, "w").write(s.replace(old, new))
    _, d = sh("git diff", repo)
    open(tmp + "/patch.diff", "w").write(d)
    # lines changed must be original ones
    rc1, o1 = sh(f"bash {tmp}/demo.sh", repo)
    rct, ot = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml={top}/j.xml tests", repo, dict(PYTHONPATH=repo + "/src"))
    x = open(top + "/j.xml").read()
    import xml.etree.ElementTree as ET
    ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.fromstring(x).iter("testcase") if not any(k.tag in ("failure","error","skipped") for k in c)}
    failed = [t for t in BASE if t not in ok]
    # check
    v = top + "/verif"
    sh(f"mkdir {v} && cp -a /verif/harness /verif/run.sh /verif/.deps /verif/properties.jsonl {v}/ && sed -i 's#^REPO = .*#REPO = \"{repo}\"#' {v}/harness/boot.py", "/tmp")
    props = [bug["property"]] + bug.get("also", [])
    res = {}
    for pr in props:
        rcc, oc = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash run.sh {pr}", v)
        res[pr] = (rcc, [l for l in oc.splitlines() if "VIOLATION" not in l][-2:] if rcc else oc.splitlines()[-1:])
    good = rc0 == 0 and rc1 != 0 and not failed
    shutil.rmtree(dst, ignore_errors=True)
    msg = f"demo {rc0}->{rc1} tests-failed {failed} check {res}"
    if good:
        shutil.copytree(tmp, dst)
    else:
        msg = "NOT KEPT " + msg + "\n   " + o0[-600:] + "\n   " + o1[-600:]
    shutil.rmtree(top, ignore_errors=True)
    return id_, msg
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
todo = [b for b in m.BUGS if not want or b["id"] in want]
with ThreadPoolExecutor(int(os.environ.get("J","2"))) as ex:
    for id_, msg in ex.map(one, todo):
        print(id_, msg, flush=True)
