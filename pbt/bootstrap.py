"""Process set-up: environment, code under test, and Hypothesis.

The code under test is installed (editable) in /opt/venv; Hypothesis lives in another
virtual environment with the same Python version.  Only Hypothesis and its pure
dependencies are taken from there, through a finder that serves exactly those
top-level names, so that numpy, scipy, numba, ... always come from /opt/venv.
"""
import importlib.machinery
import importlib.util
import os
import sys

ENV = {
    "NUMBA_OPT": "0",  # compile time dominates; results do not depend on it
    "NUMBA_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent-hypothesis",
}

TOOL_SITES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]
TOOL_WHEELS = "/opt/veriftools/wheels"
NAMES = (
    "hypothesis",
    "sortedcontainers",
    "attr",
    "attrs",
    "_hypothesis_globals",
    "_hypothesis_ftz_detector",
    "_hypothesis_pytestplugin",
)


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in NAMES:
            return importlib.machinery.PathFinder.find_spec(name, TOOL_SITES)
        return None


def setup():
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if importlib.util.find_spec("hypothesis") is None:
        sys.meta_path.append(_ToolFinder)
    import warnings

    warnings.filterwarnings("ignore")
