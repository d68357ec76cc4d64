"""Process set-up shared by every entry point (import this first)."""
import os
import sys

sys.dont_write_bytecode = True
REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_WANT = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
}


def reexec():
    """Restart the interpreter once with a pinned environment and the right binary."""
    py = "/opt/venv/bin/python"
    same = os.path.realpath(sys.executable) == os.path.realpath(py) and sys.prefix == "/opt/venv"
    if same and all(os.environ.get(k) == v for k, v in _WANT.items()):
        return
    if os.environ.get("VERIF_REEXEC") == "1":
        return
    env = dict(os.environ, VERIF_REEXEC="1", **_WANT)
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py] + sys.argv, env)


def setup_paths():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)  # hypothesis; after the venv, so numpy/scipy stay the venv's


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    import numpy

    numpy.seterr(all="ignore")
    import infomeasure  # noqa: F401

    logging.getLogger("infomeasure").setLevel(logging.CRITICAL + 10)
    real = os.path.realpath(infomeasure.__file__)
    assert real.startswith(REPO + "/infomeasure/"), real
    if os.environ.get("VERIF_TRACE"):
        trace(os.environ["VERIF_TRACE"])


def trace(path):
    """Development aid: record the reach of the generators (class, sample sizes, dtypes, parameters) of every estimator built."""
    import json

    import numpy as np
    from infomeasure.estimators import base

    def shape(v):
        if isinstance(v, tuple):
            return ["tuple"] + [shape(u) for u in v]
        a = np.asarray(v)
        return [list(a.shape), str(a.dtype)]

    seen = set()

    def wrap(cls):
        init = cls.__init__

        def new(self, *a, **k):
            if type(self) is not cls or not a:
                return init(self, *a, **k)
            try:
                rec = {"c": cls.__name__, "d": [shape(v) for v in a], "k": {x: (shape(v) if x == "cond" and v is not None else repr(v)) for x, v in k.items()}}
                with open(f"{path}.{os.getpid()}", "a") as f:
                    f.write(json.dumps(rec) + "\n")
            except Exception:  # noqa: BLE001
                pass
            return init(self, *a, **k)

        cls.__init__ = new

    def walk(c):
        for s in c.__subclasses__():
            if s not in seen:
                seen.add(s)
                walk(s)
                wrap(s)

    import importlib

    for m in ("entropy", "mutual_information", "transfer_entropy"):
        importlib.import_module(f"infomeasure.estimators.{m}")
    walk(base.Estimator)
