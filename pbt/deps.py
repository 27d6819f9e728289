"""Make Hypothesis importable without a network.

/opt/venv (which has torch, gym and the editable pfrl) has no Hypothesis; the
offline wheelhouse has the wheel for this Python.  It is unpacked into
/verif/.deps (ignored by git); every check calls ensure() itself, so a missing
or stale .deps never matters.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"
PATTERNS = [
    "hypothesis-*-cp{}{}-*.whl".format(*sys.version_info[:2]),
    "sortedcontainers-*.whl",
    "attrs-*.whl",
]


def _unpack(dest):
    for pat in PATTERNS:
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError("no wheel matching %s in %s" % (pat, WHEELS))
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(dest)


def ensure():
    if not os.path.exists(os.path.join(DEPS, "hypothesis", "__init__.py")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        try:
            _unpack(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:  # another process was faster
                shutil.rmtree(tmp, ignore_errors=True)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__, "from", hypothesis.__file__)
