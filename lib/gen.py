"""Case strategies (JSON-able) and their decoding into arrays.

Discrete data: {"cols": [[int,...],...]}                          explicit, shrinkable
            or {"rng": seed, "n": n, "vars": [[k, src, noise, lag], ...]}   compact, for longer data
Real data   : {"pts": [[[num,...],...],...]}  variables x samples x dims (dim 1 -> flat list)
            or {"rng": seed, "n": n, "dims": [d,...], "dep": f, "grid": g, "scale": s}
"""
import numpy as np
from hypothesis import strategies as st

SALT = [0]  # set per worker from VERIF_SEED, test and shard: Hypothesis always starts from the same simplest example
SEED = st.integers(0, 2**31 - 1)
BASES = st.sampled_from(["e", "e", "e", 2, 10, 3, 1.5, 7, 2.0, 16, 2.718281828459045, 5, 100])


def size(lo, hi):
    """Sample size: mostly away from the lower end (plain integers() favours small values)."""
    spread = sorted({int(lo + (hi - lo) * f) for f in (0, 0.03, 0.08, 0.13, 0.2, 0.27, 0.35, 0.45, 0.6, 0.8, 1)})
    return st.one_of(st.sampled_from(spread), st.sampled_from(spread[len(spread) // 2:]), st.integers(lo, hi))


# ------------------------------------------------------------------ discrete
@st.composite
def disc(draw, nvars, min_n=1, max_n=30, max_k=6, rng_max=300, p_rng=0.35):
    """nvars: int or strategy of ints"""
    nv = nvars if isinstance(nvars, int) else draw(nvars)
    if draw(st.floats(0, 1)) < p_rng:
        n = draw(size(max(min_n, 2), rng_max))
        vs = []
        for i in range(nv):
            k = draw(st.sampled_from([2, 1, 2, 3, 3, 4, 5, 8, 12, 40, 1000]))
            src = draw(st.integers(-1, i - 1)) if i else -1
            noise = draw(st.sampled_from([0.0, 0.1, 0.3, 0.7]))
            lag = draw(st.integers(0, 3))
            vs.append([k, src, noise, lag])
        return {"rng": draw(SEED), "n": n, "vars": vs}
    n = draw(st.integers(min_n, max_n))
    cols = []
    for _ in range(nv):
        k = draw(st.integers(1, max_k))
        cols.append(draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n)))
    return {"cols": cols}


def cols(d):
    """Decode to a list of int64 arrays."""
    if "cols" in d:
        return [np.array(c, dtype=np.int64) for c in d["cols"]]
    r = np.random.default_rng(d["rng"])
    out = []
    n = d["n"]
    for k, src, noise, lag in d["vars"]:
        if src < 0:
            mode = r.integers(0, 4)
            if mode == 0:
                v = r.integers(0, k, n)
            elif mode == 1:
                v = np.minimum(r.geometric(0.4, n) - 1, k - 1)
            elif mode == 2:  # sticky
                v = r.integers(0, k, n)
                keep = r.random(n) < 0.6
                for i in range(1, n):
                    if keep[i]:
                        v[i] = v[i - 1]
            else:
                v = np.minimum(np.abs(r.normal(0, max(1, k / 4), n)).astype(np.int64), k - 1)
        else:
            v = np.roll(out[src], lag) % k
            m = r.random(n) < noise
            v = np.where(m, r.integers(0, k, n), v)
        out.append(v.astype(np.int64))
    return out


HARD = ["huge", "uint64", "ulp", "prefix", "int8range", "int64range", "tiny", "accents", "bytes"]  # distinct only to the last bit or character, or at the ends of a type
ENCODINGS = HARD + ["int", "int", "int32", "int8", "uint8", "neg", "big", "float", "negfloat", "str", "strlong", "list",
             "strlist", "shuffled", "bool"]


def encode(col, enc):
    """Injective renaming of an integer column (values 0..k-1), possibly changing the type."""
    col = np.asarray(col)
    k = int(col.max()) + 1 if len(col) else 1
    if enc == "bool":
        return col.astype(bool) if k <= 2 else col
    if enc == "int8":
        return (col - 3).astype(np.int8) if k <= 100 else col
    if enc == "uint8":
        return (col + 7).astype(np.uint8) if k <= 240 else col
    if enc == "int32":
        return (col * 3 + 1).astype(np.int32)
    if enc == "neg":
        return -5 * col + 2
    if enc == "big":
        return col * (2**40) - 2**45
    if enc == "float":
        return col / 4.0 + 0.1
    if enc == "negfloat":
        return -(col.astype(float) ** 2) - 0.5
    if enc == "str":
        return np.array([chr(97 + int(v) % 26) + ("" if v < 26 else str(int(v) // 26)) for v in col])
    if enc == "strlong":
        return np.array(["symbol-%d-%s" % (int(v), "x" * (int(v) % 5)) for v in col])
    if enc == "list":
        return [int(v) for v in col]
    if enc == "strlist":
        return ["s%d" % int(v) for v in col]
    if enc == "huge":
        return col + 2**60
    if enc == "uint64":
        return col.astype(np.uint64) + np.uint64(2**64 - 1 - k)
    if enc == "ulp":  # neighbouring floats
        return 1.0 + col * 2.0**-52
    if enc == "tiny":
        return (col - k // 2) * 5e-324
    if enc == "prefix":
        return np.array(["a common prefix of more than sixty-four characters, whatever follows: %d" % int(v) for v in col])
    if enc == "accents":
        return np.array(["\u00e9\u4e2d" + chr(0x1F600 + int(v)) for v in col])
    if enc == "bytes":
        return np.array([b"sym%d" % int(v) for v in col])
    if enc == "int8range":
        return (col * (255 // max(1, k - 1)) - 128).astype(np.int8) if k <= 250 else col
    if enc == "int64range":
        return np.where(col % 2, col // 2 + (2**63 - 1 - k), -(2**63) + col // 2)
    if enc == "shuffled":  # order-scrambling bijection
        return (col * 7919 + 13) % 1000003
    return col


# ------------------------------------------------------------------ real-valued
@st.composite
def real(draw, dims, min_n=2, max_n=25, rng_max=120, p_rng=0.6, grid=None, ties=True, far=False):
    """dims: list of dimensions per variable (or strategy for such a list)."""
    ds = dims if isinstance(dims, list) else draw(dims)
    if draw(st.floats(0, 1)) < p_rng:
        n = draw(size(min_n, rng_max))
        d = {"rng": draw(SEED), "n": n, "dims": ds, "dep": draw(st.sampled_from([0.0, 0.3, 0.8, 0.99])),
             "grid": draw(st.sampled_from([0, 0, 0, 0.5, 0.125] if ties else [0])) if grid is None else grid,
             "scale": draw(st.sampled_from([1.0, 1.0, 0.01, 30.0])),
             "shift": draw(st.sampled_from([0.0, 0.0, -7.0, 100.0]))}
        return spread(np.random.default_rng(d["rng"]), d) if far else d
    n = draw(st.integers(min_n, max_n))
    pts = []
    for d in ds:
        if d == 1:
            pts.append(draw(st.lists(st.integers(-24, 24), min_size=n, max_size=n,
                                     unique=not ties and n <= 45)))
        else:
            pts.append(draw(st.lists(st.lists(st.integers(-16, 16), min_size=d, max_size=d), min_size=n, max_size=n)))
    return {"pts": pts, "div": draw(st.sampled_from([1, 2, 8]))}


def points(c):
    """Decode to a list of float arrays, (n,) for d=1 and (n, d) otherwise."""
    if "pts" in c:
        return [np.array(p, dtype=float) / c.get("div", 1) for p in c["pts"]]
    r = np.random.default_rng(c["rng"])
    n, dep = c["n"], c["dep"]
    common = r.normal(0, 1, n)
    # a little memory, so that histories carry information
    for i in range(1, n):
        common[i] += 0.5 * common[i - 1]
    out = []
    for i, d in enumerate(c["dims"]):
        x = dep * np.roll(common, i)[:, None] + np.sqrt(1 - min(dep, 1) ** 2) * r.normal(0, 1, (n, d))
        if i % 2:
            x = x * 1.7
        if c.get("grid"):
            x = np.round(x / c["grid"]) * c["grid"]
        if c.get("wide"):  # many orders of magnitude
            x = x * np.exp(c["wide"] * np.abs(x))
        x = x * c.get("scale", 1.0) + c.get("shift", 0.0)
        if c.get("far"):  # far from the origin, on a fine dyadic lattice: differences stay exact
            x = np.round(x * 2.0**20) / 2.0**20 + c["far"] * (1 if i % 2 else -0.75)
        out.append(x[:, 0].copy() if d == 1 else x)
    return out


def spread(r, d, prob=0.25, wide=(1.0, 3.0, 6.0, 12.0)):
    """Sometimes: data over many orders of magnitude, or far from the origin."""
    if "rng" in d and r.random() < prob:
        if r.random() < 0.5:
            d["wide"] = pick(r, wide)
        else:
            d["far"] = pick(r, [2.0**12, 2.0**24, 2.0**30])
    return d


def as2d(x):
    x = np.asarray(x, float)
    return x[:, None] if x.ndim == 1 else x


def uniform(fn):
    """Cases spread evenly over a parameter space: only a seed is drawn, `fn(rng)` builds the (JSON-able) case."""
    return st.integers(0, 2**48 - 1).map(lambda s: fn(np.random.default_rng([s, SALT[0]])))


def pick(r, seq):
    return seq[int(r.integers(len(seq)))]


def disc_rng(r, nvars, n_lo, n_hi, ks=(2, 2, 3, 4, 6)):
    return {"rng": int(r.integers(2**31)), "n": int(r.integers(n_lo, n_hi + 1)),
            "vars": [[pick(r, ks), int(r.integers(-1, i)) if i else -1, pick(r, (0.1, 0.3, 0.6)), int(r.integers(0, 6))] for i in range(nvars)]}


def base_rng(r):
    return pick(r, ["e", "e", 2, 10, 3, 1.5, 7, 2.0, 16, 5])


def long_hists(r, c, prob=0.12, hs="h", step="step"):
    """With some probability: one long history, sometimes a wide step, and a series that has room for them."""
    if r.random() >= prob or not c.get(hs):
        return c
    c[hs][int(r.integers(len(c[hs])))] = int(r.integers(6, 17))
    if r.random() < 0.3:
        s = int(r.integers(6, 21))
    else:
        s = c[step]
    d = c["d"] if "d" in c else c["data"]
    if "n" in d:
        d["n"] = d["n"] * s // c[step]  # one window per step
        c[step] = s
        d["n"] += (max(c[hs]) + abs(c.get("prop", 0) or 0)) * c[step]
        if "at" in c:
            c["at"] = d["n"]
    return c


def many_neighbours(r, k, n, prob=0.12):
    """Sometimes: far more neighbours than usual, up to all the other samples."""
    if r.random() >= prob or n < 12:
        return k
    return int(pick(r, [n - 1, n - 2, n // 2, int(r.integers(9, n)), int(r.integers(9, n))]))


def big_n(r, top=20000, huge=0.0):
    """A sample size where implementations switch to chunks, narrower types or other algorithms."""
    if r.random() < huge:
        return int(r.integers(66000, 140001))
    return int(np.exp(r.uniform(np.log(600), np.log(top))))


def big_disc(r, nvars, n):
    ks = (2, 2, 3, 4, 6, 30) if nvars > 2 else (2, 2, 3, 4, 6, 30, 400)
    return disc_rng(r, nvars, n, n, ks)
