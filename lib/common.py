"""Helpers shared by the check modules."""
import copy
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import infomeasure as im

from . import gen, oracles as O
from .harness import (HarnessError, Known, Sub, Violation, check_array, check_close, close,  # noqa: F401
                      require)

DISC = ["discrete", "miller_madow", "grassberger", "shrink", "chao_shen", "chao_wang_jost", "bayes", "zhang",
        "bonachela", "ansb"]
DISC_NSB = DISC + ["nsb"]
LOCAL_DISC = ["discrete", "miller_madow", "grassberger", "zhang", "shrink"]
CONT = ["kernel", "metric", "renyi", "tsallis"]
ALL = DISC_NSB + ["ordinal"] + CONT

SEED, BASES = gen.SEED, gen.BASES


@st.composite
def disc_params(draw, approach, with_k=True):
    if approach == "bayes":
        p = {"alpha": draw(st.sampled_from(["jeffrey", "laplace", "sch-grass", "min-max", 0.01, 0.3, 1, 2.5, 10.0]))}
        if with_k and draw(st.integers(0, 3)) == 0:
            p["K"] = draw(st.integers(1, 60))
        return p
    return {}


@st.composite
def app_params(draw, approaches=tuple(DISC), with_k=True):
    a = draw(st.sampled_from(list(approaches)))
    return a, draw(disc_params(a, with_k))


@st.composite
def cont_params(draw, approach, n_max_k=5):
    if approach == "kernel":
        return {"kernel": draw(st.sampled_from(["gaussian", "box"])),
                "bandwidth": draw(st.sampled_from([0.25, 0.5, 1, 1.5, 2.0, 3, 0.7]))}
    if approach == "metric":
        return {"k": draw(st.integers(1, n_max_k)), "noise_level": 0,
                "minkowski_p": draw(st.sampled_from([float("inf"), float("inf"), 1, 2, 3.0]))}
    if approach == "renyi":
        k = draw(st.integers(1, n_max_k))
        return {"k": k, "alpha": draw(st.sampled_from([a for a in (0.3, 0.5, 0.9, 1, 1.0, 1.1, 1.5, 1.9, 2.5, 3.2) if a < k + 1]))}
    if approach == "tsallis":
        k = draw(st.integers(1, n_max_k))
        return {"k": k, "q": draw(st.sampled_from([a for a in (0.3, 0.5, 0.9, 1, 1.0, 1.1, 1.5, 1.9, 2.5, 3.2) if a < k + 1]))}
    raise HarnessError(approach)


def kw(base, **extra):
    """base None -> leave out"""
    d = dict(extra)
    if base is not None:
        d["base"] = base
    return d


def fnum(x, what="result"):
    try:
        return float(x)
    except Exception:
        raise Violation(f"{what} is not a number: {x!r}")


def config_state():
    """the configuration as its public reader reports it"""
    return {k: im.Config.get(k) for k in ("base", "statistical_test_method", "statistical_test_n_tests")}


def recalculated(e):
    """the value of an estimator asked to calculate again"""
    e.calculate()
    return fnum(e.global_val())


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e} instead of {exc}")
    raise Violation(f"{what}: answered {r!r} instead of raising")


def sym(c):
    """hashable python symbols"""
    return [x.item() if hasattr(x, "item") else x for x in c]


def nontrivial_counts(symbols):
    c = Counter(symbols)
    return len(c) > 1 and max(c.values()) > 1


def fix_inf(d):
    """JSON has Infinity via python's json; keep as is."""
    return d


def freeze(x):
    return copy.deepcopy(x)


def arr(x):
    return np.asarray(x)


def disc_params_rng(r, a):
    if a == "bayes":
        p = {"alpha": gen.pick(r, ["jeffrey", "laplace", "sch-grass", "min-max", 0.01, 0.3, 1, 2.5, 10.0])}
        if r.random() < 0.25:
            p["K"] = int(r.integers(1, 60))
        return p
    return {}
