"""Runs checks against planted bugs of /verif/seeded:  python tools/retest.py [-j N] [ids ...]

Each bug is applied to a clone of /repo under /tmp/retest; its demonstration and the check of its
property (or those given as ID:C01,C02) are run there."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900):
    e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", MPLBACKEND="Agg")
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(arg):
    id_, _, props = arg.partition(":")
    src, top = f"{V}/seeded/{id_}", f"/tmp/retest/{id_}"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    sh(f"git clone -q /repo {top}/repo", "/tmp")
    d0, _ = sh(f"bash {src}/demo.sh", top + "/repo")
    a, out = sh(f"git apply {src}/patch.diff", top + "/repo")
    if a:
        return id_, "DOES NOT APPLY " + out
    d1, _ = sh(f"bash {src}/demo.sh", top + "/repo")
    sh(f"mkdir {top}/verif && cp -a {V}/harness {V}/run.sh {V}/.deps {V}/properties.jsonl {top}/verif/ && "
       f"sed -i 's#^REPO = .*#REPO = \"{top}/repo\"#' {top}/verif/harness/boot.py", "/tmp")
    res = {}
    for pr in props.split(",") if props else [json.load(open(src + "/meta.json"))["property"]]:
        rc, o = sh(f"bash run.sh {pr}", top + "/verif")
        lines = [l for l in o.splitlines() if "VIOLATION" not in l]
        res[pr] = (rc, [l[:220] for l in (lines[-2:] if rc else lines[-1:])])
    shutil.rmtree(top, ignore_errors=True)
    return id_, f"demo {d0}->{d1} check {res}"


if __name__ == "__main__":
    args = sys.argv[1:]
    j = int(args.pop(1)) if args[:1] == ["-j"] else 2
    args = [a for a in args if a != "-j"]
    with ThreadPoolExecutor(j) as ex:
        for id_, msg in ex.map(one, args or sorted(os.listdir(V + "/seeded"))):
            print(id_, msg, flush=True)
