"""Finds the interpreter, Hypothesis and the code under test.  Everything works offline."""
import glob
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GCHECK_REPO", "/repo")
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def interpreter():
    for p in ("/opt/venv/bin/python", sys.executable):
        if os.path.exists(p):
            return p
    return "python3"


def worker_env(base=None):
    env = dict(os.environ if base is None else base)
    env.update(
        KERAS_BACKEND="jax",
        JAX_PLATFORMS="cpu",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        PYTHONPATH=VERIF,
    )
    return env


def unpack_deps():
    """Unpack Hypothesis for the interpreter of the repository from the offline wheelhouse."""
    if os.path.isdir(os.path.join(DEPS, "hypothesis")) and os.path.isfile(os.path.join(DEPS, "ok")):
        return DEPS
    wheels = []
    for pattern in ("hypothesis-[0-9]*cp312-cp312*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not found:
            return None
        wheels.append(found[-1])
    tmp = DEPS + f".tmp{os.getpid()}"
    for w in wheels:
        with zipfile.ZipFile(w) as z:
            z.extractall(tmp)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, DEPS)
    except OSError:  # somebody else was faster
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return DEPS


def import_hypothesis():
    deps = unpack_deps()
    if deps:
        sys.path.insert(1, deps)
    else:
        sys.path.append(PYVENV)
    import hypothesis  # noqa: F401


def use_backend(name):
    """Select the Keras backend.  Keras' NumPy backend borrows one function of its PyTorch backend, which needs PyTorch
    to import: that function is replaced by the NumPy one it would amount to."""
    os.environ["KERAS_BACKEND"] = name
    if name == "numpy":
        import types

        import numpy as np

        package, core = types.ModuleType("keras.src.backend.torch"), types.ModuleType("keras.src.backend.torch.core")
        package.__path__, package.core = [], core
        core.convert_to_tensor = lambda x, dtype=None: np.asarray(x, dtype)
        sys.modules[package.__name__], sys.modules[core.__name__] = package, core


def import_groco(backend="jax"):
    """Import the groco of /repo's working tree, never from stale byte code."""
    use_backend(backend)
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.getLogger("absl").setLevel(logging.ERROR)
    import keras  # noqa: F401
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"gcheck-pyc-{os.getpid()}-none")
    sys.path.insert(0, REPO)
    import groco
    import groco.groups, groco.layers, groco.utils  # noqa: E401,F401
    path = os.path.realpath(groco.__file__ or list(groco.__path__)[0])
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"imported groco from {path}, not from {REPO}")
    return groco
