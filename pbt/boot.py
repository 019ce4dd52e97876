"""Process set-up: makes hypothesis (installed in the tools venv) importable from the project's
interpreter without exposing anything else of that venv, and keeps /repo free of bytecode."""
import importlib.abc
import importlib.machinery
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("TURMS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOWED = ("hypothesis", "_hypothesis", "sortedcontainers")


class _VtFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and (top in ("hypothesis", "sortedcontainers") or top.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, [_VT])
        return None


def boot():
    for var in [v for v in os.environ if v.upper().startswith("TURMS_") and v != "TURMS_REPO"]:
        del os.environ[var]
    if not any(isinstance(f, _VtFinder) for f in sys.meta_path):
        sys.meta_path.append(_VtFinder())
    # the editable install already points at /repo; TURMS_REPO lets the same harness run on a copy
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # hypothesis must not leave anything in the working directory
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/tmp/vpbt-hypothesis")
    import warnings
    warnings.simplefilter("ignore")
    import turms
    got = os.path.realpath(os.path.dirname(os.path.dirname(turms.__file__)))
    assert got == os.path.realpath(REPO), (got, REPO)
