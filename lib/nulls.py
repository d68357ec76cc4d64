"""Every value a permutation or bootstrap surrogate can take, by enumeration on small data."""
from itertools import permutations, product

import numpy as np

import infomeasure as im

from . import calls, cont as C, gen, ordi, oracles as O
from .common import DISC, DISC_NSB


def small_call(r, measures=("mi", "cmi", "te", "cte"), approaches=None, nw=None):
    """A random call on so few samples (windows) that all surrogates can be listed."""
    c = calls.build(r, measures=list(measures), approaches=approaches, offsets=False)
    while c["m"] == "mi" and c["nv"] != 2 or c["m"] == "cmi" and c["nv"] != 3:
        c = calls.build(r, measures=list(measures), approaches=approaches, offsets=False)
    m, a = c["m"], c["a"]
    nw = nw or int(gen.pick(r, [4, 5, 6] if a in DISC else [4, 5]))
    if m in ("te", "cte") and a in DISC_NSB and r.random() < 0.6:
        c["w"].update({k: 1 for k in c["w"] if "hist" in k})
    c["method"] = gen.pick(r, ["permutation_test", "bootstrap"])
    if c["method"] == "bootstrap":
        nw = 4
    if a == "kernel" and c["p"]["kernel"] == "gaussian":
        c["method"], nw = "permutation_test", 6
        c["w"] = {k: 1 for k in c["w"]}
    for k in ("k",):
        if k in c["p"]:
            c["p"][k] = int(gen.pick(r, [1, 1, 2]))
    for k in ("alpha", "q"):
        if a in ("renyi", "tsallis") and k in c["p"]:
            c["p"][k] = gen.pick(r, [q for q in (0.5, 0.9, 1, 1.5) if q < c["p"]["k"] + 1])
    if a == "metric":
        c["p"]["minkowski_p"] = float("inf")
    if a == "ordinal":
        c["p"]["embedding_dim"] = int(gen.pick(r, [2, 2, 3]))
    if m in ("te", "cte"):
        s = c["w"]["step_size"]
        n = max(v for k, v in c["w"].items() if "hist" in k) * s + (nw - 1) * s + 1 + int(r.integers(0, s))
        if m == "te" and r.random() < 0.3:
            c["w"]["prop_time"] = int(gen.pick(r, [1, 2]))
            n += c["w"]["prop_time"] * s
        if a == "ordinal":
            n += (c["p"]["embedding_dim"] - 1) * s
    else:
        n = nw
        if m == "mi" and r.random() < 0.3:
            c["w"]["offset"] = int(gen.pick(r, [-2, -1, 1, 2]))
            n += abs(c["w"]["offset"])
        if a == "ordinal":
            c["p"]["step_size"] = int(gen.pick(r, [1, 1, 2]))
            o = abs(c["w"].get("offset", 0))
            n = max(n - o, 3 + (c["p"]["embedding_dim"] - 1) * c["p"]["step_size"]) + o
            if n - o > (6 if c["method"] == "permutation_test" else 4):
                c["p"].update(embedding_dim=2, step_size=1)
                n = 4 + o
    d = c["d"]
    if a in DISC_NSB:
        for _ in range(12):  # look for data whose surrogates differ (judged by the reference models only)
            c["d"] = {"cols": [r.integers(0, int(gen.pick(r, [2, 2, 3, 4])), n).tolist() for _ in range(c["nv"])]}
            if m in ("mi", "cmi") or a == "nsb":
                if all(len(set(v)) > 1 for v in c["d"]["cols"][:2]):
                    break
            else:
                k, f = evaluator(c)
                if len({round(f(r.permutation(k)), 9) for _ in range(5)}) > 1:
                    break
    else:
        d["n"] = n
        if a == "ordinal":
            d["grid"] = 0.5 if c["p"]["stable"] and r.random() < 0.5 else 0
            d["dep"] = 0.3
        if m in ("te", "cte"):
            d["dims"] = [1] * c["nv"]
    c["seed"] = int(r.integers(2**31))
    return c


def shifted(c, xs):
    o = c["w"].get("offset", 0)
    if o > 0:
        return [xs[0][:-o], xs[1][o:]] + xs[2:]
    if o < 0:
        return [xs[0][-o:], xs[1][:o]] + xs[2:]
    return list(xs)


def evaluator(c, xs=None):
    """(number of exchangeable rows, value as a function of the row selection of the source)"""
    xs = calls.data(c) if xs is None else xs
    m, a, p, b = c["m"], c["a"], c["p"], c["base"]
    if m in ("mi", "cmi"):
        xs = shifted(c, xs)
        c0 = dict(c, w={})
        return len(xs[0]), lambda idx: float(calls.value(c0, [xs[0][list(idx)]] + list(xs[1:])))
    w = c["w"]
    sh, dh, s, pt = w["src_hist_len"], w["dest_hist_len"], w["step_size"], w.get("prop_time", 0)
    z = xs[2] if m == "cte" else None
    ch = w.get("cond_hist_len", 1)
    if a in DISC_NSB or a == "ordinal":
        ls = [x.tolist() for x in xs]
        if a == "ordinal":
            if pt > 0:
                ls = [ls[0][: -pt * s], ls[1][pt * s:]] + ls[2:]
                pt = 0
            ls = [ordi.pats(x, p["embedding_dim"], s) for x in ls]
        X, Z, Y = O.te_windows(ls[0], ls[1], sh, dh, s, pt, *((ls[2], ch) if z is not None else ()))
        ZY = list(zip(Z, Y))

        def f(idx):
            XX = [X[i] for i in idx]
            plus, minus = [ZY, list(zip(XX, Z))], [list(zip(XX, ZY)), Z]
            if a == "nsb":
                code = lambda q: np.array([{v: i for i, v in enumerate(sorted(set(q)))}[v] for v in q])
                return float(im.cmi(code(XX), code(Y), cond=code(Z), approach="nsb", base=b))
            return O.combine("discrete" if a == "ordinal" else a, plus, minus, b, **({} if a == "ordinal" else p))
        return len(X), f
    X, Z, Y = C.te_parts(xs[0], xs[1], sh, dh, s, pt, z, ch)
    if a == "kernel":
        def f(idx):
            loc = C.kernel_cmi([X[list(idx)], Y], Z, p["kernel"], p["bandwidth"])
            return float(np.mean(loc)) / O.ln_base(b)
    elif a == "metric":
        def f(idx):
            loc, _ = C.ksg_cmi([X[list(idx)], Y], Z, p["k"], p["ksg_id"], p["minkowski_p"])
            return float(np.mean(loc)) / O.ln_base(b)
    else:
        H = lambda *q: C.lps(C.blocks(*q), p["k"], p.get("alpha", p.get("q")), a, b)
        def f(idx):
            XX = X[list(idx)]
            return H(Z, Y) + H(XX, Z) - H(XX, Z, Y) - H(Z)
    return len(X), f


def key(v):
    return "nan" if np.isnan(v) else v


def attainable(c, xs=None, method=None):
    """List of (value, number of selections giving it), values within 1e-9 merged; None if too degenerate to decide."""
    n, f = evaluator(c, xs)
    sel = permutations(range(n)) if (method or c["method"]) == "permutation_test" else product(range(n), repeat=n)
    vals = {}
    cache = {}
    src = None
    if c["m"] in ("mi", "cmi"):
        x0 = shifted(c, calls.data(c) if xs is None else xs)[0]
        src = [tuple(np.ravel(v).tolist()) for v in x0]
    for idx in sel:
        k = tuple(src[i] for i in idx) if src is not None else idx
        if k not in cache:
            cache[k] = f(idx)
        v = cache[k]
        vals[key(v)] = vals.get(key(v), 0) + 1
    nums = sorted(v for v in vals if v != "nan")
    out = []
    for v in nums:
        if out and v - out[-1][0] <= 1e-8 * (1 + abs(v)):
            out[-1][1] += vals[v]
        else:
            out.append([v, vals[v]])
    if "nan" in vals:
        out.append([float("nan"), vals["nan"]])
    return out


def find(table, v, tol=1e-7):
    for i, (w, _) in enumerate(table):
        if np.isnan(v) and np.isnan(w) or abs(v - w) <= tol * (1 + abs(v)):
            return i
    return None


def degenerate(c, xs=None):
    """Gaussian densities on nearly rank-deficient point sets hinge on a threshold."""
    if c["a"] != "kernel" or c["p"]["kernel"] != "gaussian":
        return False
    xs = calls.data(c) if xs is None else xs
    n, _ = evaluator(c, xs)
    dims = [C.as2d(x).shape[1] for x in xs]
    if c["m"] in ("te", "cte"):
        w = c["w"]
        dims = [w["src_hist_len"], w["dest_hist_len"] + 1, w.get("cond_hist_len", 0)]
    return sum(dims) > n - 2
