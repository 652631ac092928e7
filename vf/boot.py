"""Process set-up shared by every worker: thread limits, import paths, hypothesis, quiet logging.

Must be imported before numpy.  The code under test is imported from /repo's working tree
(no byte code is read from or written to it), hypothesis from the interpreter's own
site-packages if it has it, else from the tools interpreter, else from the offline wheelhouse.
"""
import importlib.abc
import importlib.machinery
import os
import sys
import tempfile

for _v in ("NUMBA_NUM_THREADS", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
sys.dont_write_bytecode = True

REPO = os.environ.get("VF_REPO", "/repo")
PKG_ROOT = os.path.join(REPO, "scikit-topt")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_ALLOWED = {"hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "_hypothesis_globals",
            "sortedcontainers", "attr", "attrs", "_hypothesis_rust", "hypothesis_rust"}
_TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _ToolFinder(importlib.abc.MetaPathFinder):
    """Offers only hypothesis and its two dependencies from another site-packages directory."""

    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in _ALLOWED and not top.startswith("_hypothesis"):
            return None
        if path is None:
            return importlib.machinery.PathFinder.find_spec(name, [self.root])
        return None


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Compiles the code under test from its source every time (never from cached byte code)."""

    def get_code(self, fullname):
        return compile(self.get_data(self.path), self.path, "exec", dont_inherit=True)


class _FreshFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "sktopt" and not name.startswith("sktopt."):
            return None
        for root in (path if path is not None else [PKG_ROOT]):
            spec = importlib.machinery.FileFinder(root, (_FreshLoader, [".py"])).find_spec(name)
            if spec is not None:
                return spec
        return None


def _ensure_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    for root in (os.path.join(VERIF, ".deps"), _TOOL_SITE):
        if os.path.isdir(os.path.join(root, "hypothesis")):
            sys.meta_path.append(_ToolFinder(root))
            try:
                import hypothesis  # noqa: F401
                return
            except ImportError:
                sys.meta_path.pop()
    import subprocess
    d = tempfile.mkdtemp(prefix="vf_deps_")
    subprocess.run([sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links",
                    "/opt/veriftools/wheels", "--target", d, "hypothesis"], check=True,
                   stdout=subprocess.DEVNULL)
    sys.meta_path.append(_ToolFinder(d))
    import hypothesis  # noqa: F401


def setup():
    _ensure_hypothesis()
    sys.path.insert(0, PKG_ROOT)
    sys.meta_path.insert(0, _FreshFinder())
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    import sktopt
    if not os.path.abspath(sktopt.__file__).startswith(os.path.abspath(PKG_ROOT) + os.sep):
        raise RuntimeError(f"sktopt imported from {sktopt.__file__}, expected {PKG_ROOT}")
    warnings.simplefilter("ignore")
    return sktopt
