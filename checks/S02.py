from lib.common import *
from lib import calls, nulls
from infomeasure import Config

WARM = True
RULE = ("TE and CTE of every approach. 'attainable': series so short that every permutation (or resample) of the source-history windows is enumerated by window-level reference models; effective value = TE - one of "
        "those; it differs from TE when all are non-zero; method from the argument or the configuration. 'longer': 25-40 effective values of coupled series against hand-made surrogates, null values vary ('large': thousands of samples); data, global "
        "and local values unchanged afterwards. Non-trivial: at least two surrogate values are possible.")


def check(c):
    if nulls.degenerate(c):
        return None
    xs = calls.data(c)
    keep = [x.copy() for x in xs]
    table = nulls.attainable(c, xs)
    what = f"effective {c['a']} {c['m']} {c['method']}"
    conf = Config.get("statistical_test_method")
    e = calls.est(c, xs, seed=c["seed"])
    try:
        if c["seed"] % 2:
            Config.set("statistical_test_method", c["method"])
            args = {}
        else:
            Config.set("statistical_test_method", "bootstrap" if c["method"] == "permutation_test" else "permutation_test")
            args = {"method": c["method"]}
        if c["seed"] % 3 == 0:
            obs = fnum(e.global_val())
        eff = [fnum(e.effective_val(**args)) for _ in range(12)]
        obs = fnum(e.global_val())
    finally:
        Config.set("statistical_test_method", conf)
    total = sum(w for _, w in table)
    if c["m"] == "cte" and all(abs(v) <= 1e-9 * (1 + abs(obs)) for v in eff):
        i = nulls.find(table, obs)
        if ((0 if i is None else table[i][1]) / total) ** 12 < 1e-9:
            Known.hit("cte-effective-zero", f"{what}: always 0")
        return None
    for v in eff:
        if np.isnan(obs) and np.isnan(v):
            continue
        k = nulls.find(table, obs - v)
        require(k is not None, f"{what} = {v}: TE {obs} minus {obs - v}, which is no surrogate's value ({len(table)} possible, e.g. {[t[0] for t in table[:6]]})")
        if all(abs(t) > 1e-6 for t, _ in table):
            require(abs(v - obs) > 1e-9, f"{what}: {v} equals the plain value although every surrogate differs from zero")
    kinds = {nulls.find(table, obs - v) for v in eff}
    top = max(w for _, w in table) / total
    if len(table) > 1 and len(kinds) == 1 and top ** 12 < 1e-9:
        raise Violation(f"{what}: twelve effective values use the same surrogate value out of {len(table)}")
    require(all(np.array_equal(x, k) for x, k in zip(xs, keep)), f"{what}: data changed")
    fresh = calls.est(c, keep)
    check_close(obs, fnum(fresh.global_val()), f"{what}: global value afterwards", 1e-12, 1e-12)
    if calls.has_local(c):
        check_array(e.local_vals(), fresh.local_vals(), f"{what}: local values afterwards", 1e-10, 1e-10)
    return len(table) > 1 and [c["a"], c["m"], c["method"]]


def build(r):
    from checks import S01

    c = S01.build_dep(r)
    while c["m"] != "te":
        c = S01.build_dep(r)
    return c


def build_large(r):
    from checks import S01

    c = S01.build_large(r)
    while c["m"] != "te":
        c = S01.build_large(r)
    return c


def check_long(c):
    from scipy import stats

    xs = calls.data(c)
    n, f = nulls.evaluator(c, xs)
    r = np.random.default_rng([c["seed"], 9])
    R = 30 if c["a"] != "nsb" else 8
    what = f"effective {c['a']} TE {c['method']}"
    e = calls.est(c, xs, seed=c["seed"])
    te = fnum(e.global_val())
    sur = np.array([te - fnum(e.effective_val(method=c["method"])) for _ in range(R)])
    hand = np.array([f(r.permutation(n) if c["method"] == "permutation_test" else r.integers(0, n, n)) for _ in range(R)])
    if not np.isfinite(hand).all() or c["a"] in ("ansb", "nsb") and not np.isfinite(sur).all():
        return None
    require(np.isfinite(sur).all(), f"{what}: surrogates {sur}")
    a, h = np.round(sur, 8), np.round(hand, 8)
    hl = h.tolist()
    if max(hl.count(x) for x in set(hl)) <= R // 2 and R >= 30:
        require(np.ptp(sur) > 0, f"{what}: the same surrogate every time")
        for p in (stats.ks_2samp(a, h).pvalue, stats.mannwhitneyu(a, h).pvalue):
            if p < 1e-7:
                sur = np.array([te - fnum(e.effective_val(method=c["method"])) for _ in range(4 * R)])
                p = stats.ks_2samp(np.round(sur, 8), h).pvalue
                require(p > 1e-9, f"{what}: subtracted values (mean {sur.mean():.4f}) are distributed differently from surrogates made by hand (mean {hand.mean():.4f}, p={p:.1e})")
    check_close(e.global_val(), te, f"{what}: TE afterwards", 0, 0)
    return [c["a"], c["method"], "varies"] if np.ptp(hand) > 1e-9 else None


def check_refused(c):
    xs = calls.data(c)
    e = calls.est(c, xs)
    for meth in ("permutation", "", "boot", 5):
        raises((ValueError, TypeError), lambda: e.effective_val(method=meth), f"effective_val(method={meth!r})")
    check_close(e.global_val(), fnum(calls.value(c)), "TE after a refused effective value", 1e-10, 1e-10)
    check_close(recalculated(e), fnum(calls.value(c)), "TE recalculated after a refused effective value", 1e-10, 1e-10)
    return [c["a"], c["m"]]


small = gen.uniform(lambda r: nulls.small_call(r, measures=("te", "te", "te", "te", "cte")))
SUBS = [Sub("attainable", small, check, 800, 30000), Sub("longer", gen.uniform(build), check_long, 220, 6000),
        Sub("large", gen.uniform(build_large), check_long, 16, 1200), Sub("refused", calls.cases(measures=["te", "cte"], n_hi=60), check_refused, 100, 1000)]
