from lib.common import *
from lib import calls, ordi
import math

WARM = True
RULE = ("Ordinal entropy, joint entropy, cross-entropy, KLD, JSD, MI, CMI, TE, CTE (global and local) on data and on the data mapped by random strictly increasing functions (affine, power, "
        "exponential, random monotone tables, type changes) per variable; negation of tie-free data; bounds; monotone series; embedding dimension one. Non-trivial: the measure's value or its entropy is not zero.")
MAPS = ["affine", "cube", "table", "exp", "big", "rank", "f4", "int", "ulp", "near", "denormal", "uint64", "ends"]


def mono(x, how, rng):
    """strictly increasing function of the integer-valued series x"""
    u = np.unique(x)
    r = np.searchsorted(u, x)
    k = len(u)
    if how == "affine":
        return x * 2.5 - 11.0
    if how == "cube":
        return (x.astype(float)) ** 3 + x
    if how == "table":
        return np.sort(rng.permutation(k * 50)[:k].astype(float) / 7)[r]
    if how == "exp":
        return np.exp(np.clip(0.5 * r, 0, 700)) if k < 1000 else x * 1.0
    if how == "big":
        return r + 2**55
    if how == "rank":
        return r
    if how == "f4":
        return r.astype(np.float32)
    if how == "ulp":  # neighbouring floats
        return 1.0 + r * 2.0**-52
    if how == "near":
        return 1e6 + r * 1e-6
    if how == "denormal":
        return (r - k // 2) * 5e-324
    if how == "uint64":
        return r.astype(np.uint64) + np.uint64(2**64 - 1 - k)
    if how == "ends":  # of the signed 64-bit integers
        return np.where(r < k // 2, r + np.iinfo(np.int64).min, (2**63 - 1 - k) + r)
    if how == "int":
        return (r * 3).astype(np.int32)
    return x


def build(r, big=False):
    stable = bool(r.random() < 0.6)
    m = int(gen.pick(r, [1, 2, 3, 3, 4, 5]))
    if r.random() < 0.06:
        m = int(gen.pick(r, [6, 7, 8, 9, 12, 13, 19, 20]))
    meas = gen.pick(r, ["h", "h", "hj", "hx", "kld", "jsd", "mi", "mi", "cmi", "te", "te", "cte"])
    nv = {"h": 1, "hj": 2, "hx": 2, "kld": 2, "jsd": int(gen.pick(r, [2, 3])), "mi": int(gen.pick(r, [2, 2, 3])), "cmi": int(gen.pick(r, [3, 3, 4])), "te": 2, "cte": 3}[meas]
    c = {"m": meas, "p": {"embedding_dim": m, "stable": stable}, "w": {}, "base": gen.base_rng(r), "nv": nv, "a": "ordinal", "d": ordi.build_series(r, nv, *([gen.big_n(r, 8000)] * 2 if big else (40, 150)), stable), "maps": [gen.pick(r, MAPS) for _ in range(nv)]}
    c["d"]["types"] = ["f8"] * nv
    c["d"]["n"] += 12 * max(0, m - 5)
    step = int(gen.pick(r, [1, 1, 2, 3]))
    if meas in ("te", "cte"):
        c["w"] = {"src_hist_len": int(r.integers(1, 3)), "dest_hist_len": int(r.integers(1, 3)), "step_size": step}
        if meas == "cte":
            c["w"]["cond_hist_len"] = int(r.integers(1, 3))
    else:
        c["p"]["step_size"] = step
        if meas == "mi" and nv == 2 and r.random() < 0.3:
            c["w"]["offset"] = int(r.integers(-3, 4))
    return c


def check(c):
    xs, _ = ordi.decode(c["d"])
    r = np.random.default_rng(c["d"]["rng"] + 1)
    ys = [mono(x, h, r) for x, h in zip(xs, c["maps"])]
    fs = [x.astype(float) for x in xs]
    v = calls.value(c, fs)
    check_close(calls.value(c, ys), v, f"ordinal {c['m']} under strictly increasing maps", 1e-11, 1e-11)
    if c["m"] not in ("hx", "kld", "jsd"):
        check_array(calls.est(c, ys).local_vals(), calls.est(c, fs).local_vals(), f"local ordinal {c['m']} under strictly increasing maps", 1e-11, 1e-11)
    m, step = c["p"]["embedding_dim"], c["p"].get("step_size", 1)
    if m == 1:
        check_close(v, 0.0, f"ordinal {c['m']} with embedding dimension one", 0, 1e-12)
        return ["embedding_dim 1"]
    v = fnum(v)
    if c["m"] in ("h", "hj"):
        lb = O.ln_base(c["base"])
        nw = len(xs[0]) - (m - 1) * step
        require(-1e-12 <= v <= math.log(min(nw, math.factorial(m) ** len(xs))) / lb + 1e-9, f"ordinal entropy {v} outside [0, log(min(windows, m!))]")
        if c["m"] == "h" and c["d"]["modes"][0] in ("mono+", "mono-", "flat"):
            check_close(v, 0.0, "ordinal entropy of a monotone series", 0, 1e-12)
            return ["monotone"]
        if ordi.tie_free(xs):
            check_close(calls.value(c, [-f for f in fs]), v, "ordinal entropy of the negated series", 1e-11, 1e-11)
            check_close(calls.value(c, [f[::-1].copy() for f in fs]), v, "ordinal entropy of the reversed series", 1e-11, 1e-11)
    elif c["m"] in ("mi", "cmi", "te", "cte") and c["nv"] <= 3 and not (c["m"] == "mi" and c["nv"] > 2):
        require(v >= -1e-9, f"ordinal {c['m']} negative: {v}")
    return [c["m"], f"m{m}", "ties" if not ordi.tie_free(xs) else "tie-free"] if abs(v) > 1e-9 else None


SUBS = [Sub("maps", gen.uniform(build), check, 4000, 150000), Sub("large", gen.uniform(lambda r: build(r, True)), check, 40, 2000)]
