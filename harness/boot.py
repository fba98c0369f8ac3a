"""Process set-up: dependencies, import of the code under test from /repo."""

import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WHEELS = "/opt/veriftools/wheels"


def deps():
    "Make hypothesis importable (unpacked from the offline wheelhouse)."
    target = os.path.join(ROOT, ".deps")
    if not os.path.isfile(os.path.join(target, "hypothesis", "__init__.py")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        for pattern in ("hypothesis-*-cp312-*x86_64.whl", "sortedcontainers-*.whl"):
            (wheel,) = glob.glob(os.path.join(WHEELS, pattern))
            with zipfile.ZipFile(wheel) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, target)
        except OSError:  # another process was faster
            shutil.rmtree(tmp, ignore_errors=True)
    if target not in sys.path:
        sys.path.append(target)


def repo():
    "Import hyperelastic from /repo's working tree, ignoring any stored byte code."
    os.environ.setdefault(
        "MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "verif-mpl")
    )
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import scipy.optimize  # noqa: F401

    sys.path.insert(0, os.path.join(REPO, "src"))

    # stale byte code can never be used: look-ups go to a directory without any
    prefix, write = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pycache")
    sys.dont_write_bytecode = True
    try:
        import hyperelastic
    finally:
        sys.pycache_prefix, sys.dont_write_bytecode = prefix, write

    where = os.path.realpath(hyperelastic.__file__)
    assert where == os.path.join(REPO, "src", "hyperelastic", "__init__.py"), where
    return hyperelastic
