"""Process set-up shared by every check: where the code under test and Hypothesis come from.

The code under test is always imported from /repo's working tree.  Its interpreter
(/opt/venv/bin/python) has no Hypothesis, so the few pure modules that Hypothesis needs are
taken from the verification venv; nothing else (numpy, scipy, jax ...) is taken from there.
"""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT_CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]
_WHEELS = "/opt/veriftools/wheels"
_NAMES = ("hypothesis", "_hypothesis_globals", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
          "sortedcontainers", "attr", "attrs")


class _OnlyThese(importlib.abc.MetaPathFinder):
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in _NAMES or path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(name, self.paths)


def child_env():
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO,
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(env.get("TMPDIR", "/tmp"), "hypothesis-unused"),
    )
    env.pop("JAX_ENABLE_X64", None)
    return env


def install():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        paths = [p for p in _VT_CANDIDATES if os.path.isdir(os.path.join(p, "hypothesis"))]
        if not paths:
            import glob
            import tempfile
            import zipfile

            target = tempfile.mkdtemp(prefix="verif-wheels-")
            for pat in ("hypothesis-*cp312*", "sortedcontainers-*", "attrs-*"):
                for w in glob.glob(os.path.join(_WHEELS, pat)):
                    zipfile.ZipFile(w).extractall(target)
            paths = [target]
        sys.meta_path.append(_OnlyThese(paths))
        import hypothesis  # noqa: F401
