"""One random call of any measure with any approach, as a JSON-able case; used by the cross-cutting checks.

case = {"m": measure, "a": approach, "p": approach parameters, "w": window/offset parameters, "d": data spec, "nv": number of variables,
        "base": base}
"""
import numpy as np

import infomeasure as im

from . import gen
from .common import ALL, CONT, DISC, DISC_NSB, disc_params_rng

pick = gen.pick
MEASURES = ["h", "hj", "mi", "cmi", "te", "cte", "hx", "kld", "jsd"]
HX = ["discrete", "miller_madow", "bayes", "ordinal", "kernel", "metric", "renyi", "tsallis"]
JSD = ["discrete", "bayes", "shrink", "ordinal", "kernel"]
SUPPORT = {"h": ALL, "hj": ALL, "mi": ALL, "cmi": ALL, "te": ALL, "cte": ALL, "hx": HX, "kld": HX, "jsd": JSD}
FULL = {"h": "entropy", "hj": "entropy", "mi": "mutual_information", "cmi": "conditional_mutual_information", "te": "transfer_entropy",
        "cte": "conditional_transfer_entropy", "hx": "cross_entropy", "kld": "kullback_leiber_divergence", "jsd": "jensen_shannon_divergence"}


def build(r, measures=MEASURES, approaches=None, n_hi=60, offsets=True, nvmax=4, long=True):
    while True:
        m = pick(r, measures)
        al = [a for a in SUPPORT[m] if approaches is None or a in approaches]
        if al:
            break
    a = pick(r, al)
    if a == "nsb" and r.random() < 0.5:
        a = pick(r, al)
    c = {"m": m, "a": a, "base": gen.base_rng(r), "w": {}}
    if m in ("h",):
        nv = 1
    elif m == "hj":
        nv = int(pick(r, list(range(2, nvmax + 1)) * 3 + [5, 6]))
    elif m == "mi":
        nv = int(pick(r, [2, 2, 2, 3, 4] * 3 + [5, 6]))
    elif m == "cmi":
        nv = int(pick(r, [3, 3, 3, 4] * 3 + [5, 6]))
    elif m == "te":
        nv = 2
    elif m == "cte":
        nv = 3
    elif m in ("hx", "kld"):
        nv = 2
    else:
        nv = int(pick(r, [2, 2, 3, 4] * 3 + [5, 6]))
    if m == "mi" and a == "kernel" and nv > 3:
        nv = 3
    if m == "cmi" and a in ("kernel", "metric"):
        nv = 3
    c["nv"] = nv
    c["p"] = params(r, m, a)
    te = m in ("te", "cte")
    if te:
        c["w"] = {"src_hist_len": int(r.integers(1, 4)), "dest_hist_len": int(r.integers(1, 4)), "step_size": int(pick(r, [1, 1, 2, 3]))}
        if a == "kernel":
            c["w"].update(src_hist_len=int(r.integers(1, 3)), dest_hist_len=int(r.integers(1, 3)))
        if m == "cte":
            c["w"]["cond_hist_len"] = int(r.integers(1, 4))
        elif offsets and r.random() < 0.3:
            c["w"]["prop_time"] = int(r.integers(1, 4))
    elif m == "mi" and nv == 2 and offsets and r.random() < 0.3:
        c["w"]["offset"] = int(r.integers(-4, 5))
    lo = 12 if a in DISC_NSB and not te else 24
    if te:
        lo = 40
    n = int(r.integers(lo, n_hi + 1))
    if te and long and a not in ("nsb", "kernel") and r.random() < 0.06:  # a long history, sometimes with a wide step, and room for it
        c["w"][pick(r, [q for q in c["w"] if q.endswith("hist_len")])] = int(r.integers(5, 13))
        if r.random() < 0.3:
            s = int(r.integers(4, 13))
            n = n * s // c["w"]["step_size"]
            c["w"]["step_size"] = s
        n += (max(v for q, v in c["w"].items() if q.endswith("hist_len")) + c["w"].get("prop_time", 0)) * c["w"]["step_size"]
    if a in DISC_NSB:
        c["d"] = gen.disc_rng(r, nv, n, n, (2, 2, 3, 4, 6) if a not in ("nsb", "ansb") else (2, 2, 3))
    else:
        if m in ("h", "hx", "kld") and a not in ("ordinal",):
            dims = [int(pick(r, [1, 1, 2, 3]))] * nv
        elif m in ("mi", "cmi") and a not in ("ordinal",):
            dims = [int(pick(r, [1, 1, 2])) for _ in range(nv)]
        else:
            dims = [1] * nv
        c["d"] = {"rng": int(r.integers(2**31)), "n": n, "dims": dims, "dep": pick(r, [0.0, 0.3, 0.8, 0.95]), "grid": 0, "scale": pick(r, [1.0, 1.0, 0.1, 20.0]), "shift": pick(r, [0.0, 3.0])}
        if a == "ordinal" and c["p"].get("stable") and r.random() < 0.6:
            c["d"]["grid"] = 0.5
        if a == "kernel":
            c["p"]["bandwidth"] = c["p"]["bandwidth"] * c["d"]["scale"] if c["p"]["kernel"] == "box" else c["p"]["bandwidth"]
    if m in ("hx", "kld", "jsd"):
        c["cut"] = [int(r.integers(0, n // 3)) for _ in range(nv)]  # samples of different lengths
    return c


TOP = {"kernel": 2200, "metric": 8000, "ordinal": 15000, "renyi": 15000, "tsallis": 15000, "zhang": 6000, "bonachela": 12000}


def build_big(r, approaches=None, top=1.0, huge=0.15, **kw):
    """As build, with thousands of samples."""
    if approaches is None:
        approaches = [a for a in ALL if a != "nsb"]
    c = build(r, approaches=[a for a in approaches if a != "nsb"], **kw)
    a, m = c["a"], c["m"]
    cheap = a in DISC_NSB and (a not in TOP or m in ("h", "hj", "hx", "kld", "jsd"))
    n = gen.big_n(r, max(1500, int((TOP.get(a, 20000) if not cheap else 20000) * top)), huge if cheap else 0)
    if a in DISC_NSB:
        c["d"] = gen.big_disc(r, c["nv"], n)
    else:
        c["d"]["n"] = n
    if "cut" in c:
        c["cut"] = [int(r.integers(0, n // 3)) for _ in range(c["nv"])]
    if m in ("te", "cte") and r.random() < 0.4:
        c["w"]["step_size"] = int(r.integers(1, 13))
    return c


def big_cases(**kw):
    return gen.uniform(lambda r: build_big(r, **kw))


def params(r, m, a):
    if a in DISC_NSB:
        p = disc_params_rng(r, a)
        if a == "bayes" and m in ("hx", "kld", "jsd"):
            p.pop("K", None)
        return p
    if a == "ordinal":
        p = {"embedding_dim": int(pick(r, [1, 2, 2, 3, 3, 4])), "stable": bool(r.random() < 0.6)}
        if m in ("h", "hj", "mi", "cmi", "hx", "kld", "jsd"):
            p["step_size"] = int(pick(r, [1, 1, 2, 3]))
        return p
    if a == "kernel":
        return {"kernel": pick(r, ["gaussian", "box"]), "bandwidth": pick(r, [0.5, 1, 1.5, 2.0])}
    if a == "metric":
        p = {"k": int(r.integers(1, 6)), "noise_level": 0, "minkowski_p": pick(r, [float("inf"), float("inf"), 2, 1])}
        if m in ("mi", "cmi", "te", "cte"):
            p["ksg_id"] = pick(r, [1, 2])
        return p
    k = int(r.integers(1, 6))
    order = pick(r, [q for q in (0.3, 0.5, 0.9, 1, 1.1, 1.5, 1.9, 2.5) if q < k + 1])
    p = {"k": k, ("alpha" if a == "renyi" else "q"): order}
    if m in ("mi", "cmi", "te", "cte"):
        p["noise_level"] = 0
    return p


def data(c):
    xs = gen.cols(c["d"]) if c["a"] in DISC_NSB else gen.points(c["d"])
    if "cut" in c:
        xs = [x[: len(x) - k] for x, k in zip(xs, c["cut"])]
    return xs


def args_of(c, xs):
    """positional args and cond keyword"""
    m = c["m"]
    if m == "hj":
        return (tuple(xs),), {}
    if m in ("cmi", "cte"):
        return tuple(xs[:-1]), {"cond": xs[-1]}
    return tuple(xs), {}


def kwargs_of(c, base=True):
    k = {"approach": c["a"], **c["p"], **c["w"]}
    if base is True:
        k["base"] = c["base"]
    elif base is not None:
        k["base"] = base
    return k


def est(c, xs=None, base=True, **extra):
    """An estimator object (composite divergences have none)."""
    pos, kw = args_of(c, data(c) if xs is None else xs)
    meas = {"h": "entropy", "hj": "entropy", "hx": "cross_entropy"}.get(c["m"], FULL[c["m"]])
    return im.estimator(*pos, **kw, measure=meas, **kwargs_of(c, base), **extra)


FN = {"h": "entropy", "hj": "entropy", "mi": "mutual_information", "cmi": "cmi", "te": "transfer_entropy", "cte": "cte", "hx": "hx", "kld": "kld", "jsd": "jsd"}


def value(c, xs=None, base=True, **extra):
    """Functional call."""
    pos, kw = args_of(c, data(c) if xs is None else xs)
    return getattr(im, FN[c["m"]])(*pos, **kw, **kwargs_of(c, base), **extra)


def cases(**kw):
    return gen.uniform(lambda r: build(r, **kw))


def has_local(c):
    a, m = c["a"], c["m"]
    if m in ("hx", "kld", "jsd"):
        return False
    return a in ("discrete", "miller_madow", "grassberger", "shrink", "zhang", "ordinal", "kernel", "metric") or a in CONT and a not in ("renyi", "tsallis")
