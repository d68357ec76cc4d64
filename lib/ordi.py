"""Ordinal patterns, naively: the stable argsort of each window."""
import math

import numpy as np

from . import gen


def pats(x, m, step=1):
    x = [v.item() if hasattr(v, "item") else v for v in x]
    n = len(x) - (m - 1) * step
    out = []
    for t in range(n):
        w = [x[t + i * step] for i in range(m)]
        out.append(tuple(sorted(range(m), key=lambda i: w[i])))
    return out


DTYPES = ["f8", "f8", "i8", "f4", "i4", "u1", "i1", "u2", "big", "tiny", "list", "strided", "bool", "ulp", "u8", "ends", "neg0"]


def twins(n, m, step, rng):
    """tie-free; stretches of two patterns whose lexicographic ranks agree in the last 8, 16, 32 bits or the first 53"""
    widths = [b for b in (8, 16, 32, 53) if 2**b < math.factorial(m)]
    if not widths:
        return rng.permutation(n)
    b = int(rng.choice(widths))
    top = math.factorial(m)
    if b == 53:
        lo = 2**53 + 2 * int(rng.integers(0, (top - 2**53) // 2 - 1))
        ranks = [lo, lo + 1]
    else:
        lo = int(rng.integers(0, top - 2**b))
        ranks = [lo, lo + 2**b * (1 + int(rng.integers(0, max(1, (top - 1 - lo) // 2**b))))]
        ranks = ranks if ranks[1] < top else [lo, lo + 2**b]
    vals = []
    for k in ranks:
        left, pat = list(range(m)), []
        for i in range(m):
            q, k = divmod(k, math.factorial(m - 1 - i))
            pat.append(left.pop(q))
        vals.append(np.argsort(pat))
    blocks = n // (m * step) + 1
    v = np.concatenate([np.repeat(vals[int(t)], step) for t in rng.integers(0, 2, blocks)])[:n]
    return np.argsort(np.argsort(v * n + np.arange(n)))


def series(r_or_spec, n, mode, rng, win=None):
    """mode 'free': no ties; 'ties': few distinct values; 'walk': ties by rounding; 'mono+'/'mono-': monotone; 'periodic'."""
    if mode == "twin":
        return twins(n, *win, rng)
    if mode == "free":
        return rng.permutation(n)
    if mode == "ties":
        return rng.integers(0, int(rng.integers(1, 5)) + 1, n)
    if mode == "walk":
        return np.round(np.cumsum(rng.normal(0, 1, n))).astype(int)
    if mode == "mono+":
        return np.arange(n)
    if mode == "mono-":
        return -np.arange(n)
    if mode == "flat":
        return np.zeros(n, int)
    if mode == "periodic":
        return np.arange(n) % int(rng.integers(2, 7))
    if mode == "ar":  # tie-free with memory
        x = rng.normal(0, 1, n)
        for i in range(1, n):
            x[i] += 0.7 * x[i - 1]
        return np.argsort(np.argsort(x))
    raise ValueError(mode)


FREE = ("free", "ar", "mono+", "mono-", "twin")


def add_twins(r, d, m, step, prob=0.25):
    """With some probability (wide windows only): some series consist of two patterns whose codes are easily confused"""
    if m >= 6 and "modes" in d and r.random() < prob:
        d["win"] = [m, step]
        d["n"] = max(d["n"], int(r.integers(5, 9)) * m * step)
        d["couple"] = False
        for i in range(len(d["modes"])):
            if i == 0 or r.random() < 0.4:
                d["modes"][i] = "twin"
    return d


def couple(a, b, rng, mode):
    """b partly driven by the past of a, tie-free if both are"""
    n = len(a)
    c = np.roll(a, 1) * 0.8 + b * 0.2 + 0.0
    return np.argsort(np.argsort(c + 1e-6 * np.arange(n) / n)) if mode in FREE else np.where(rng.random(n) < 0.7, np.roll(a, 1), b)


def cast(x, how):
    """Order- and tie-preserving change of type."""
    x = np.asarray(x).astype(np.int64)
    lo, hi = int(x.min()), int(x.max())
    if how == "i8":
        return x
    if how == "f4":
        return x.astype(np.float32)
    if how == "i4":
        return (x * 1000 - 7).astype(np.int32)
    if how == "u1" and hi - lo < 250:
        return (x - lo + (250 - (hi - lo))).astype(np.uint8)
    if how == "i1" and hi - lo < 250:
        return (x - lo - 125).astype(np.int8)
    if how == "u2" and hi - lo < 60000:
        return (x - lo).astype(np.uint16)
    if how == "big":  # neighbouring values indistinguishable as floats
        return x + 2**60
    if how == "tiny":
        return x * 1e-300
    if how == "ulp":
        return 1.0 + (x - lo) * 2.0**-52
    if how == "u8":
        return (x - lo).astype(np.uint64) + np.uint64(2**64 - 1 - (hi - lo))
    if how == "ends":  # differences overflow
        m = (lo + hi) // 2
        return np.where(x <= m, x - lo + np.iinfo(np.int64).min, 2**63 - 1 - (hi - x))
    if how == "neg0":  # the two zeros are equal
        y = (x - lo).astype(float)
        y[(y == 0) & (np.arange(len(y)) % 2 == 1)] = -0.0
        return y
    if how == "list":
        return [int(v) for v in x]
    if how == "strided":
        return np.repeat(x.astype(float), 3)[::3]
    if how == "bool" and hi - lo <= 1:
        return (x - lo).astype(bool)
    return x.astype(float)


def build_series(r, nv, lo, hi, stable):
    n = int(r.integers(lo, hi + 1))
    if stable:
        modes = [gen.pick(r, ["free", "ties", "ties", "walk", "ar", "periodic", "mono+", "flat"]) for _ in range(nv)]
    else:
        modes = [gen.pick(r, ["free", "free", "ar", "ar", "mono+", "mono-"]) for _ in range(nv)]
    return {"rng": int(r.integers(2**31)), "n": n, "modes": modes, "types": [gen.pick(r, DTYPES) for _ in range(nv)], "couple": bool(r.random() < 0.5)}


def decode(d):
    """integer-ranked base series and their typed versions"""
    if "xs" in d:
        xs = [np.array(x) for x in d["xs"]]
    else:
        r = np.random.default_rng(d["rng"])
        xs = []
        for m in d["modes"]:
            s = series(None, d["n"], m, r, d.get("win"))
            if xs and d["couple"]:
                s = couple(xs[-1], s, r, m if d["modes"][len(xs) - 1] in FREE else "ties")
            xs.append(s)
        if "cut" in d:
            xs = [x[: len(x) - c] for x, c in zip(xs, d["cut"])]
    return xs, [cast(x, t) for x, t in zip(xs, d.get("types", ["f8"] * len(xs)))]


def tie_free(xs):
    return all(len(set(np.asarray(x).tolist())) == len(x) for x in xs)
