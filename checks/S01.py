from lib.common import *
from lib import calls, nulls
from infomeasure import Config
import copy

WARM = True
RULE = ("MI, CMI, TE, CTE of every approach. 'attainable': data so short that every permutation (4-6 rows) or resample (4 rows) of the source rows is enumerated; each null value must be one of the "
        "enumerated values. 'uniform': the same with 600-1500 draws, frequencies against the enumerated multiplicities (chi-square, p < 1e-10 fails). 'summary': every figure of the result recomputed from the "
        "null values, defaults from the configuration, estimator and data unchanged. 'dependent': longer coupled data, null values vary and match surrogates made by hand. "
        "Non-trivial: at least two different null values are attainable.")
ASSUMPTIONS = ["transfer-entropy surrogates are judged against window-level reference models, MI/CMI surrogates against the library's own value of the rearranged data (that value is judged by I01, I02, D02, K02, K04, O03)"]


def estimator(c, xs=None, **extra):
    return calls.est(c, xs, seed=c.get("seed"), **extra)


def cte_constant(c, e, vals, obs):
    """All CTE estimators ignore the surrogate request (pinned by the test suite)."""
    return c["m"] == "cte" and np.ptp(vals) <= 1e-9 * (1 + abs(obs)) and abs(vals[0] - obs) <= 1e-9 * (1 + abs(obs))


def check_attain(c, n_tests=12, dist=False):
    if nulls.degenerate(c):
        return None
    xs = calls.data(c)
    table = nulls.attainable(c, xs)
    e = estimator(c, xs)
    res = e.statistical_test(n_tests=n_tests, method=c["method"])
    vals = np.array(res.test_values, float)
    obs = fnum(e.global_val())
    what = f"{c['a']} {c['m']} {c['method']}"
    require(vals.shape == (n_tests,), f"{what}: {vals.shape} null values for {n_tests} tests")
    if len(table) > 1 and n_tests >= 12 and cte_constant(c, e, vals, obs):
        top = max(w for _, w in table) / sum(w for _, w in table)
        i = nulls.find(table, obs)
        share = 0 if i is None else table[i][1] / sum(w for _, w in table)
        if share ** n_tests < 1e-9:
            Known.hit("cte-null-constant", f"{what}: all {n_tests} null values equal the observed value")
        return None
    cl = [nulls.find(table, v) for v in vals]
    for v, k in zip(vals, cl):
        if k is None:
            raise Violation(f"{what}: null value {v} is not the measure of any rearrangement of the source ({len(table)} possible values, e.g. {[t[0] for t in table[:6]]})")
    if dist and len(table) > 1:
        from scipy import stats

        tot = sum(w for _, w in table)
        exp = np.array([w / tot * n_tests for _, w in table])
        obs_c = np.bincount(cl, minlength=len(table)).astype(float)
        big = exp >= 20
        eb, ob = list(exp[big]), list(obs_c[big])
        if (~big).any() and exp[~big].sum() >= 20:
            eb.append(exp[~big].sum())
            ob.append(obs_c[~big].sum())
        elif (~big).any() and eb:
            eb[-1] += exp[~big].sum()
            ob[-1] += obs_c[~big].sum()
        if len(eb) < 2:
            return None
        p = stats.chisquare(ob, eb).pvalue
        require(p > 1e-10, f"{what}: rearrangements are not drawn uniformly (p={p:.1e}): {ob} draws where {np.round(eb, 1).tolist()} are expected")
    return len(table) > 1 and [c["a"], c["m"], c["method"]]


def check_uniform(c):
    return check_attain(c, 600, True)


def same_state(e, before, what):
    for k, v in before.items():
        w = getattr(e, k)
        ok = all(np.array_equal(p, q) for p, q in zip(v, w)) if isinstance(v, (tuple, list)) else np.array_equal(v, w)
        require(ok, f"{what}: attribute {k} of the estimator changed")


def build_summary(r):
    c = calls.build(r, measures=["mi", "cmi", "te", "cte"], n_hi=60)
    while c["m"] == "mi" and c["nv"] != 2 or c["m"] == "cmi" and c["nv"] != 3:
        c = calls.build(r, measures=["mi", "cmi", "te", "cte"], n_hi=60)
    c["method"] = gen.pick(r, ["permutation_test", "bootstrap", None])
    c["n"] = gen.pick(r, [None, 2, 3, 7, 20])
    c["conf"] = [gen.pick(r, ["permutation_test", "bootstrap"]), int(r.integers(2, 30))]
    c["first"] = gen.pick(r, ["none", "global", "local"])
    c["seed"] = int(r.integers(2**31))
    c["q"] = [round(float(v), 3) for v in r.uniform(0, 100, 3)] + [0, 50, 100]
    c["lv"] = [gen.pick(r, [50, 80, 90, 95, 99, 99.9, 33.3, 1])]
    if c["a"] in ("nsb",):
        c["n"] = 2
    return c


def check_summary(c):
    from infomeasure.utils.data import StatisticalTestResult

    xs = calls.data(c)
    keep = [x.copy() for x in xs]
    what = f"{c['a']} {c['m']}"
    conf0 = config_state()
    loc = calls.has_local(c)
    fresh = calls.est(c, [x.copy() for x in xs])
    obs = fnum(fresh.global_val())
    floc = np.array(fresh.local_vals(), float) if loc else None
    Config.set("statistical_test_method", c["conf"][0])
    Config.set("statistical_test_n_tests", c["conf"][1])
    try:
        e = estimator(c, xs)
        if c["first"] == "global":
            e.global_val()
        elif c["first"] == "local" and loc:
            e.local_vals()
        kw = {k: v for k, v in (("n_tests", c["n"]), ("method", c["method"])) if v is not None}
        res = e.statistical_test(**kw)
        n = c["n"] or c["conf"][1]
        meth = c["method"] or c["conf"][0]
        require(Config.get("statistical_test_method") == c["conf"][0] and Config.get("statistical_test_n_tests") == c["conf"][1], f"{what}: the test changed the configuration")
        # reproducible from the seed, and the omitted arguments are the configured ones
        e2 = estimator(c, [x.copy() for x in xs])
        if c["first"] == "global":
            e2.global_val()
        elif c["first"] == "local" and loc:
            e2.local_vals()
        r2 = e2.statistical_test(n_tests=n, method=meth)
        check_array(res.test_values, r2.test_values, f"{what}: null values with the defaults of the configuration and the same seed", 0, 0)
    finally:
        for k, v in conf0.items():
            Config.set(k, v)
    require(isinstance(res, StatisticalTestResult), f"{what}: result {type(res)}")
    v = np.array(res.test_values, float)
    require(v.shape == (n,) and res.n_tests == n and res.method == meth, f"{what}: {v.shape} values, n_tests {res.n_tests}, method {res.method} for {n} {meth}")
    check_close(res.observed_value, obs, f"{what}: observed value", 1e-12, 1e-12)
    o = res.observed_value
    check_close(res.p_value, float(sum(1 for t in v if t > o)) / n, f"{what}: p-value", 0, 1e-12)
    if np.isfinite(v).all():
        mean = float(sum(v)) / n
        sd = float(np.sqrt(sum((t - mean) ** 2 for t in v) / (n - 1)))
        check_close(res.null_mean, mean, f"{what}: mean of the null", 1e-9, 1e-12)
        check_close(res.null_std, sd, f"{what}: standard deviation of the null", 1e-7, 1e-12 * (1 + float(np.abs(v).max())))
        if res.null_std > 0:
            check_close(res.t_score, (o - float(res.null_mean)) / float(res.null_std), f"{what}: t-score", 1e-9, 1e-9)
        else:
            require(np.isnan(res.t_score), f"{what}: t-score {res.t_score} of a constant null")
        sv = sorted(v.tolist())

        def pc(q):
            h = (n - 1) * q / 100
            i = min(int(h), n - 2)
            return sv[i] + (h - i) * (sv[i + 1] - sv[i])

        for q in c["q"]:
            check_close(res.percentile(q), pc(q), f"{what}: percentile {q}", 1e-9, 1e-10)
        for lv in c["lv"]:
            lo, hi = res.confidence_interval(lv)
            check_close(lo, pc((100 - lv) / 2), f"{what}: lower {lv}% bound", 1e-9, 1e-10)
            check_close(hi, pc(100 - (100 - lv) / 2), f"{what}: upper {lv}% bound", 1e-9, 1e-10)
    # nothing is left behind
    for x, k in zip(xs, keep):
        require(np.array_equal(x, k), f"{what}: the test changed the caller's data")
    check_close(e.global_val(), obs, f"{what}: global value after the test", 1e-12, 1e-12)
    if loc:
        check_array(e.local_vals(), floc, f"{what}: local values after the test", 1e-10, 1e-10)
    e3 = estimator(c, [x.copy() for x in xs])
    e3.statistical_test(n_tests=2, method=gen.pick(np.random.default_rng(c["seed"]), ["permutation_test", "bootstrap"]))
    if loc:
        check_array(e3.local_vals(), floc, f"{what}: local values read first after a test", 1e-10, 1e-10)
    check_close(recalculated(e3), obs, f"{what}: recalculation after a test", 1e-10, 1e-10)
    return [c["a"], c["m"], meth, "default n" if c["n"] is None else "n given", "default method" if c["method"] is None else "method given"] if np.ptp(v) > 0 else None


def build_dep(r):
    a = gen.pick(r, ALL)
    if a == "nsb":
        a = gen.pick(r, ALL)
    m = gen.pick(r, ["mi", "cmi", "te", "te"])
    c = calls.build(r, measures=[m], approaches=[a], offsets=True, n_hi=60, long=False)
    while c["nv"] != (3 if m == "cmi" else 2):
        c = calls.build(r, measures=[m], approaches=[a], offsets=True, n_hi=60, long=False)
    n = int(r.integers(60, 110)) if a != "nsb" else 30
    if a in DISC_NSB:
        c["d"] = {"rng": int(r.integers(2**31)), "n": n, "vars": [[3, -1, 0, 0], [3, 0, 0.15, 1 if m == "te" else 0], [2, -1, 0, 0]][: c["nv"]]}
    else:
        c["d"].update(n=n, dep=0.9, grid=0)
    if a == "metric":
        c["p"]["minkowski_p"] = float("inf")
    c["method"] = gen.pick(r, ["permutation_test", "bootstrap"])
    c["seed"] = int(r.integers(2**31))
    return c


def build_large(r):
    """thousands of samples"""
    c = build_dep(r)
    while c["a"] in ("nsb", "zhang", "bonachela"):
        c = build_dep(r)
    c["d"]["n"] = gen.big_n(r, 1200 if c["a"] == "kernel" else 5000)
    if c["m"] == "te" and r.random() < 0.4:
        c["w"]["step_size"] = int(r.integers(1, 9))
    if "vars" in c["d"] and r.random() < 0.4:  # hardly a value occurs twice: any rearrangement has the same value, resamples have not
        c["d"]["vars"][0][0] = 50 * c["d"]["n"]
    return c


def a_undefined(c, v):
    return c["a"] in ("ansb", "nsb") and not np.isfinite(v).all()  # too few coincidences


def check_dep(c):
    """Longer data: the null values look like surrogates made by hand, and vary."""
    from scipy import stats

    xs = calls.data(c)
    n, f = nulls.evaluator(c, xs)
    r = np.random.default_rng([c["seed"], 7])
    R = 40 if c["a"] != "nsb" else 12
    what = f"{c['a']} {c['m']} {c['method']}"
    e = estimator(c, xs)
    v = np.array(e.statistical_test(n_tests=R, method=c["method"]).test_values, float)
    hand = np.array([f(r.permutation(n) if c["method"] == "permutation_test" else r.integers(0, n, n)) for _ in range(R)])
    ok = np.isfinite(hand)
    if ok.sum() < R or a_undefined(c, v):
        return None
    require(np.isfinite(v).all(), f"{what}: null values {v[~np.isfinite(v)]} although surrogates made by hand are finite")
    hr = np.round(hand, 8).tolist()
    if max(hr.count(x) for x in set(hr)) <= R // 2:
        require(np.ptp(v) > 0, f"{what}: constant null {v[0]} although surrogates made by hand vary")
        require(len(set(hr)) < 12 or len(set(np.round(v, 8))) * 6 >= len(set(hr)), f"{what}: only {len(set(np.round(v, 8)))} different null values")
    if R >= 40:
        a, h = np.round(v, 8), np.round(hand, 8)  # equal surrogates may differ in the last bits
        for p in (stats.mannwhitneyu(a, h).pvalue, stats.ks_2samp(a, h).pvalue):
            if p < 1e-8:
                v2 = np.array(e.statistical_test(n_tests=3 * R, method=c["method"]).test_values, float)
                p2 = stats.ks_2samp(np.round(v2, 8), h).pvalue
                require(p2 > 1e-10, f"{what}: null values (mean {v.mean():.4f}) are distributed differently from surrogates made by hand (mean {hand.mean():.4f}, p={p2:.1e})")
    # successive tests draw anew, the same seed draws the same
    v3 = np.array(e.statistical_test(n_tests=R, method=c["method"]).test_values, float)
    if len(set(hr)) > R // 2:
        require(not np.array_equal(v, v3), f"{what}: a second test repeats the first")
        o1, o2 = (np.array(calls.est(c, xs).statistical_test(n_tests=R, method=c["method"]).test_values) for _ in range(2))
        require(not np.array_equal(o1, o2), f"{what}: estimators without a seed draw the same surrogates")
    return [c["a"], c["m"], c["method"]] if np.ptp(hand) > 1e-9 else None


def check_refused(c):
    from io import UnsupportedOperation

    xs = calls.data(c)
    e = estimator(c, xs)
    obs = None
    if c["kind"] == "vars":
        for meth in ("permutation_test", "bootstrap"):
            raises((UnsupportedOperation, ValueError), lambda: e.statistical_test(n_tests=3, method=meth), f"test of {c['m']} with {c['nv']} variables")
        return ["vars"]
    obs = fnum(e.global_val())
    for n in (0, -1, -20, 1.5, "3", 2.0, [3]):
        raises((ValueError, TypeError), lambda: e.statistical_test(n_tests=n, method="bootstrap"), f"n_tests={n!r}")
    for meth in ("permutation", "boot", "", "Bootstrap ", 3):
        raises((ValueError, TypeError), lambda: e.statistical_test(n_tests=3, method=meth), f"method={meth!r}")
    raises(ValueError, lambda: e.statistical_test(n_tests=1, method="bootstrap"), "a single test value")
    check_close(e.global_val(), obs, "global value after refused tests", 0, 0)
    r = e.statistical_test(n_tests=np.int64(2), method="bootstrap")
    require(len(r.test_values) == 2, "n_tests=2")
    for q in (-1, 0, 100, 101, 250):
        raises(ValueError, lambda: r.confidence_interval(q), f"confidence level {q}")
    if calls.has_local(c):
        check_array(e.local_vals(), calls.est(c, [x.copy() for x in xs]).local_vals(), "local values after refused tests", 1e-10, 1e-10)
    return [c["m"], c["a"]]


def build_refused(r):
    if r.random() < 0.4:
        c = calls.build(r, measures=["mi", "cmi"], offsets=False, n_hi=40)
        while c["nv"] == (2 if c["m"] == "mi" else 3):
            c = calls.build(r, measures=["mi", "cmi"], approaches=[a for a in ALL if a not in ("kernel", "metric")], offsets=False, n_hi=40)
        return dict(c, kind="vars")
    c = build_summary(r)
    return dict(c, kind="args")


def small(**kw):
    return gen.uniform(lambda r: nulls.small_call(r, **kw))


NOCTE = ("mi", "cmi", "te")
SUBS = [Sub("attainable", small(measures=("mi", "cmi", "te", "te", "cte")), check_attain, 800, 30000),
        Sub("uniform", small(measures=NOCTE, approaches=[a for a in ALL if a != "nsb"]), check_uniform, 160, 6000),
        Sub("summary", gen.uniform(build_summary), check_summary, 1000, 30000), Sub("large", gen.uniform(build_large), check_dep, 16, 1200), Sub("dependent", gen.uniform(build_dep), check_dep, 260, 8000),
        Sub("refused", gen.uniform(build_refused), check_refused, 150, 3000)]
