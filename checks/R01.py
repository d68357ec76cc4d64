from lib.common import *
from infomeasure.utils.data import DiscreteData, StatisticalTestResult
import dataclasses
import math

RULE = ("Null samples of 2-300 values (ties, constants, negative, infinite-free, several magnitudes) with levels in (0,100), scalar and array percentages and nine interpolation methods against order statistics; "
        "symbol-count containers from data of every coding, from counts, integer count types of every width with zeros and totals they cannot hold, and inconsistent requests. Non-trivial: at least two different values / symbols.")
METHODS = ["linear", "lower", "higher", "midpoint", "nearest", "inverted_cdf", "averaged_inverted_cdf", "closest_observation", "hazen", "weibull", "median_unbiased", "normal_unbiased", "interpolated_inverted_cdf"]


def order_stat(s, q, method):
    """percentile q of the sorted list s after Hyndman and Fan"""
    from fractions import Fraction as F

    n, p = len(s), F(q) / 100
    if method in ("linear", "lower", "higher", "midpoint", "nearest"):
        v = p * (n - 1)
        i = math.floor(v)
        g = v - i
        j = min(i + 1, n - 1)
        if method == "linear":
            return float(s[i] + float(g) * (s[j] - s[i]))
        if method == "lower":
            return s[i]
        if method == "higher":
            return s[math.ceil(v)]
        if method == "midpoint":
            return s[i] if g == 0 else (s[i] + s[j]) / 2
        return None
    ab = {"inverted_cdf": None, "averaged_inverted_cdf": None, "closest_observation": None, "interpolated_inverted_cdf": (F(0), F(1)), "hazen": (F(1, 2), F(1, 2)), "weibull": (F(0), F(0)),
          "median_unbiased": (F(1, 3), F(1, 3)), "normal_unbiased": (F(3, 8), F(3, 8))}[method]
    if ab is None:
        v = p * n
        if method == "inverted_cdf":
            return s[max(0, math.ceil(v) - 1)]
        if method == "averaged_inverted_cdf":
            if v == math.floor(v) and 0 < v < n:
                return (s[int(v) - 1] + s[int(v)]) / 2
            return s[max(0, math.ceil(v) - 1)]
        return None
    a, b = ab
    h = n * p + a + p * (1 - a - b) - 1
    h = min(max(h, F(0)), F(n - 1))
    i = math.floor(h)
    return float(s[i] + float(h - i) * (s[min(i + 1, n - 1)] - s[i]))


def build(r):
    n = int(gen.pick(r, [2, 3, 4, 7, 10, 20, 101, 300]))
    kind = gen.pick(r, ["normal", "ties", "const", "tiny", "big", "int"])
    v = r.normal(0, 1, n)
    v = {"normal": v, "ties": np.round(v), "const": np.full(n, 0.25), "tiny": v * 1e-9, "big": v * 1e7 + 5, "int": np.round(v * 10)}[kind]
    return {"v": v.tolist(), "q": [int(x) for x in r.integers(0, 101, 3)] + [gen.pick(r, [0, 100, 50, 2.5, 97.5, 12.5])], "lv": [int(r.integers(1, 100)), gen.pick(r, [95, 99, 90, 50, 99.5, 0.5, 68.75])],
            "m": gen.pick(r, METHODS), "aslist": bool(r.random() < 0.2)}


def result(v):
    v = np.asarray(v, float)
    return StatisticalTestResult(p_value=0.5, t_score=1.0, test_values=v, observed_value=0.0, null_mean=float(v.mean()), null_std=1.0, n_tests=len(v), method="bootstrap")


def check(c):
    v = np.array(c["v"])
    keep = v.copy()
    res = result(v)
    s = sorted(c["v"])
    tol = 1e-12 * (1 + max(map(abs, s)))
    for m in {c["m"], "linear"}:
        arr = np.asarray(res.percentile(c["q"], method=m), float)
        require(arr.shape == (len(c["q"]),), f"percentile of {len(c['q'])} levels has shape {arr.shape}")
        for q, a in zip(c["q"], arr):
            one = fnum(res.percentile(q, method=m))
            check_close(one, a, f"percentile {q} alone and in a list", 0, 0)
            require(s[0] - tol <= one <= s[-1] + tol, f"percentile {q} ({m}) = {one} outside the values")
            w = order_stat(s, q, m)
            if w is not None:
                if m in ("linear", "hazen", "weibull", "median_unbiased", "normal_unbiased", "interpolated_inverted_cdf"):
                    check_close(one, w, f"percentile {q} ({m})", 1e-9, tol * 10)
                else:  # a step function: a level on a step may round either way
                    near = {w, order_stat(s, min(100, q + 1e-9), m), order_stat(s, max(0, q - 1e-9), m)}
                    require(any(abs(one - x) <= tol for x in near), f"percentile {q} ({m}): {one} is none of {sorted(near)}")
        for lv in c["lv"]:
            lo, hi = (fnum(x) for x in res.confidence_interval(lv, method=m))
            require(lo <= hi + tol, f"{lv}% interval [{lo}, {hi}]")
            y = (100 - lv) / 2
            check_close(lo, fnum(res.percentile(y, method=m)), f"lower {lv}% bound ({m})", 0, tol)
            check_close(hi, fnum(res.percentile(100 - y, method=m)), f"upper {lv}% bound ({m})", 0, tol)
            if m == "linear":
                check_close(lo, order_stat(s, y, m), f"lower {lv}% bound", 1e-9, tol * 10)
                check_close(hi, order_stat(s, 100 - y, m), f"upper {lv}% bound", 1e-9, tol * 10)
    ps = [fnum(res.percentile(q)) for q in (0, 25, 50, 75, 100)]
    require(all(a <= b + tol for a, b in zip(ps, ps[1:])), f"percentiles are not ordered: {ps}")
    check_close(ps[0], s[0], "percentile 0", 0, tol)
    check_close(ps[-1], s[-1], "percentile 100", 0, tol)
    for bad in (0, 100, -5, 100.1, 1000, float("inf"), float("nan")):
        raises(ValueError, lambda: res.confidence_interval(bad), f"confidence level {bad}")
    for bad in (-1, 100.5, 1000):
        raises(ValueError, lambda: res.percentile(bad), f"percentile {bad}")
    raises(ValueError, lambda: res.percentile(50, method="nonsense"), "unknown interpolation method")
    require(np.array_equal(v, keep) and np.array_equal(res.test_values, keep), "the summary changed the values")
    try:
        res.p_value = 3
        raise Violation("a result can be modified")
    except dataclasses.FrozenInstanceError:
        pass
    return [c["m"], f"n {len(s)}"] if s[0] < s[-1] else None


@st.composite
def data_case(draw):
    return {"d": draw(gen.disc(1, min_n=1, max_n=40, max_k=8)), "enc": draw(st.sampled_from(gen.ENCODINGS)), "zero": draw(st.booleans()), "perm": draw(st.integers(0, 10**6))}


def check_data(c):
    (x,) = gen.cols(c["d"])
    v = gen.encode(x, c["enc"])
    cn = Counter(np.asarray(v).tolist())
    d = DiscreteData.from_data(v)

    def same(d, what, cn, N):
        require(d.N == N and d.N == int(sum(d.counts)), f"{what}: N={d.N}, counts sum {sum(d.counts)}, {N} samples")
        require(d.K == len(cn) == len(d.uniq) == len(d.counts), f"{what}: K={d.K} for {len(cn)} symbols")
        require(dict(zip(np.asarray(d.uniq).tolist(), np.asarray(d.counts).tolist())) == dict(cn), f"{what}: counts")
        p = np.asarray(d.probabilities, float)
        check_close(p.sum(), 1.0, f"{what}: sum of probabilities", 0, 1e-12)
        check_array(p, [cn[s] / N for s in np.asarray(d.uniq).tolist()], f"{what}: probabilities", 0, 1e-15)
        dd = {(k.item() if hasattr(k, "item") else k): w for k, w in d.distribution_dict.items()}
        require(set(dd) == set(cn), f"{what}: symbols of the distribution")
        for s, w in dd.items():
            check_close(w, cn[s] / N, f"{what}: probability of {s!r}", 0, 1e-15)

    same(d, "from data", cn, len(x))
    require(d.data is not None and np.array_equal(np.asarray(d.data), np.asarray(v)), "data kept")
    r = np.random.default_rng(c["perm"])
    u = list(cn)
    o = r.permutation(len(u))
    u = [u[i] for i in o]
    ks = [cn[s] for s in u]
    for mk in (np.array, list):
        d2 = DiscreteData.from_counts(mk(u), mk(ks))
        same(d2, "from counts", cn, len(x))
        require(np.asarray(d2.uniq).tolist() == u and np.asarray(d2.counts).tolist() == ks, "order of symbols and counts kept")
    if len(u) > 1:
        i = int(r.integers(len(u)))
        neg = list(ks)
        neg[i] = -neg[i]
        raises(ValueError, lambda: DiscreteData.from_counts(u, neg), f"negative count {neg}")
        raises(ValueError, lambda: DiscreteData.from_counts(u, ks[:-1]), "fewer counts than symbols")
        raises(ValueError, lambda: DiscreteData.from_counts(u[:-1], ks), "fewer symbols than counts")
    raises(ValueError, lambda: DiscreteData.from_counts(u, [k + 0.5 for k in ks]), "fractional counts")
    raises(ValueError, lambda: DiscreteData.from_counts(u, [float(k) for k in ks]), "floating-point counts")
    raises(ValueError, lambda: DiscreteData.from_counts(u, [0] * len(u)), "counts all zero")
    raises(ValueError, lambda: DiscreteData.from_counts([], []), "no symbols")
    raises(ValueError, lambda: DiscreteData.from_data([]), "no data")
    raises(ValueError, lambda: DiscreteData(uniq=np.array(u), counts=np.array(ks), data=np.concatenate([np.asarray(v), np.asarray(v)])), "data longer than the counts")
    raises(ValueError, lambda: DiscreteData(uniq=np.array(u), counts=np.array(ks), data=np.asarray(v)[:-1]), "data shorter than the counts")
    try:
        d.N = 3
        raise Violation("a container can be modified")
    except dataclasses.FrozenInstanceError:
        pass
    return [c["enc"], f"K {min(len(u), 9)}"] if len(u) > 1 else None


COUNT_TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def build_counts(r):
    dt = gen.pick(r, COUNT_TYPES)
    top = min(int(np.iinfo(dt).max), 1 << 48)  # every total stays exact in a float
    k = int(gen.pick(r, [1, 2, 3, 5, 9, 30]))
    ks = [int(r.integers(0, top + 1)) if r.random() < 0.5 else int(top - r.integers(0, 5)) for _ in range(k)]
    ks = [0 if r.random() < 0.15 else x for x in ks]
    if not any(ks):
        ks[0] = 1
    return {"ks": ks, "dt": dt, "perm": int(r.integers(10**6)), "names": bool(r.random() < 0.3)}


def check_counts(c):
    """any integer type of the counts, zeros among them, totals that the type cannot hold"""
    ks = np.array(c["ks"], dtype=c["dt"])
    keep = ks.copy()
    u = np.random.default_rng(c["perm"]).permutation(len(ks))
    u = np.array([f"s{i}" for i in u]) if c["names"] else u
    d = DiscreteData.from_counts(u, ks)
    N = sum(c["ks"])
    require(d.N == N, f"counts {c['ks']} ({c['dt']}): N={d.N} instead of {N}")
    require(d.K == len(u), f"counts {c['ks']}: K={d.K}")
    require(d.data is None, "there is no data")
    w = [k / N for k in c["ks"]]
    check_array(np.asarray(d.probabilities, float), w, f"probabilities of {c['ks']} ({c['dt']})", 1e-14, 0)
    dd = d.distribution_dict
    require([str(x) for x in dd] == [str(x) for x in u], "symbols of the distribution")
    check_array(np.array([float(x) for x in dd.values()]), w, f"distribution of {c['ks']} ({c['dt']})", 1e-14, 0)
    require(np.array_equal(ks, keep) and ks.dtype == keep.dtype, "the counts were changed")
    if np.iinfo(c["dt"]).min < 0:
        bad = ks.copy()
        bad[int(c["perm"]) % len(ks)] = -1
        raises(ValueError, lambda: DiscreteData.from_counts(u, bad), f"negative count {bad}")
    return [c["dt"], "total " + ("too large for the type" if N > np.iinfo(c["dt"]).max else "fits")] if len(ks) > 1 else None


SUBS = [Sub("count types", gen.uniform(build_counts), check_counts, 1500, 50000), Sub("test result", gen.uniform(build), check, 3000, 100000), Sub("counts", data_case(), check_data, 2500, 80000)]
