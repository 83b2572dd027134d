"""Process set-up shared by every check.  Import this before numpy.

`fast()` hides the heavyweight autodiff packages so that importing pymanopt
takes half a second; checks that need those backends do not call it.
"""
import os
import sys

REPO_SRC = os.environ.get("PYMANOPT_SRC", "/repo/src")

_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "CUDA_VISIBLE_DEVICES": "",
    "JAX_PLATFORMS": "cpu",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


def setup(fast=True):
    for key, value in _ENV.items():
        os.environ.setdefault(key, value)
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if fast:
        for name in ("tensorflow", "torch", "jax"):
            if name not in sys.modules:
                sys.modules[name] = None
    _stub_version()
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def _stub_version():
    """`_version.py` is generated by the build and ignored by git."""
    import types

    if not os.path.exists(os.path.join(REPO_SRC, "pymanopt", "_version.py")):
        module = types.ModuleType("pymanopt._version")
        module.__version__ = module.version = "0.0.0"
        sys.modules.setdefault("pymanopt._version", module)
