"""Degenerate but well-formed data are answered with a proper number or refused with a value error."""
import warnings

from lib.common import *
from lib import calls

WARM = True
RULE = ("Random calls of every measure (9) x approach (16) on degenerate data: constant variables (one, all), samples repeated, two distinct values, all values distinct, one value deviating, copies and affine images of each "
        "other, periodic and monotone series, 1-9 samples, negative zeros, logical values. A value is a finite real scalar (not a number only for the two estimators that document it), the same through both routes and on "
        "asking again; local values are finite, one per sample, with that mean; a constant variable shares no information (plug-in, ordinal, box kernel); statistical tests give p-values in [0, 1]; a refusal is a value error and "
        "the caller's arrays are untouched. Non-trivial: a value was returned.")
ASSUMPTIONS = ["numpy's LinAlgError (a ValueError) counts as a refusal.", "The degenerate data have magnitudes between 1e-6 and 1e6."]

KINDS = ["const one", "const all", "repeated", "two", "distinct", "outlier", "copies", "affine", "periodic", "line", "short", "negative zero", "logical"]


def build(r):
    c = calls.build(r, n_hi=45)
    if c["a"] == "metric" or "noise_level" in c["p"]:
        c["p"]["noise_level"] = float(gen.pick(r, [0, 0, 1e-10]))
    c["kind"] = gen.pick(r, KINDS)
    c["s"] = int(r.integers(2**31))
    c["nt"] = int(gen.pick(r, [0, 0, 0, 1, 4]))
    if c["a"] == "nsb":
        c["nt"] = 0
    return c


def spoil(c, xs):
    r = np.random.default_rng(c["s"])
    k, disc = c["kind"], c["a"] in DISC_NSB
    i = int(r.integers(len(xs)))
    like = lambda x, v: v.reshape(x.shape)
    if k == "const one":
        xs[i] = np.full_like(xs[i], xs[i].flat[0])
    elif k == "const all":
        xs = [np.full_like(x, x.flat[0]) for x in xs]
    elif k == "repeated":
        m = int(r.integers(2, 5))
        xs = [np.repeat(x[: len(x) // m + 1], m, axis=0)[: len(x)] for x in xs]
    elif k == "two":
        xs = [x[r.integers(0, 2, len(x))] for x in xs]
    elif k == "distinct":
        xs = [like(x, r.permutation(x.size).astype(x.dtype)) for x in xs]
    elif k == "outlier":
        for j, x in enumerate(xs):
            y = np.full_like(x, x.flat[0])
            y[int(r.integers(len(y)))] += int(r.integers(1, 9))
            xs[j] = y
    elif k in ("copies", "affine"):
        for j in range(1, len(xs)):
            if xs[j].ndim == 1:
                y = xs[0] if xs[0].ndim == 1 else xs[0][:, 0]
                n = min(len(y), len(xs[j]))
                xs[j] = np.array(y[:n]) if c["m"] in ("hx", "kld", "jsd") else np.array(y)
                if k == "affine":
                    xs[j] = xs[j] * int(gen.pick(r, [2, 3, -1])) + int(r.integers(-2, 3))
    elif k == "periodic":
        xs = [x[np.arange(len(x)) % int(r.integers(2, 5))] for x in xs]
    elif k == "line":
        xs = [like(x, np.sort(x, axis=None) if r.random() < 0.5 else np.arange(x.size).astype(x.dtype)) for x in xs]
    elif k == "short":
        n = int(r.integers(1, 10))
        xs = [x[:n] for x in xs]
    elif k == "negative zero" and not disc:
        xs = [np.where(r.random(x.shape) < 0.6, gen.pick(r, [0.0, -0.0]), np.where(r.random(x.shape) < 0.5, -0.0, np.round(x))) for x in xs]
    elif k == "logical":
        xs = [x > np.median(x) if disc else (x > np.median(x)) * 1.0 for x in xs]
    return xs


def attempt(f, what):
    """(value, None) or (None, the refusal)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(), None
    except ValueError as e:
        require(len(str(e)) > 0, f"{what}: refused without a word")
        return None, e
    except im.utils.exceptions.UnsupportedOperation as e:
        return None, e


def proper(v, nan, what):
    require(np.ndim(v) == 0 and isinstance(v, (float, int, np.floating, np.integer)) and not isinstance(v, bool), f"{what}: {type(v).__name__} {v!r} is no real scalar")
    require(np.isfinite(v) or nan and np.isnan(v), f"{what}: {v}")
    return float(v)


def check(c):
    xs = spoil(c, calls.data(c))
    keep = [x.copy() for x in xs]
    m, a = c["m"], c["a"]
    what = f"{a} {m} of degenerate data ({c['kind']})"
    nan = a in ("nsb", "ansb")
    v, no = attempt(lambda: calls.value(c, xs), what)
    require(all(np.array_equal(x, y) and x.dtype == y.dtype for x, y in zip(xs, keep)), f"{what}: the caller's arrays changed")
    noisy = c["p"].get("noise_level")
    if no is not None:
        if noisy:
            return None
        _, again = attempt(lambda: calls.value(c, xs), what)
        require(again is not None, f"{what}: refused once ({no}), answered the next time")
        return None
    v = proper(v, nan, what)
    labels = [a, m, c["kind"]]
    w, no = attempt(lambda: calls.value(c, xs), what)
    require(no is None, f"{what}: answered once, then refused ({no})")
    if not noisy:
        check_close(w, v, f"{what}, asked again", 1e-12, 1e-12)
    if m not in ("kld", "jsd"):
        e = calls.est(c, xs)
        w = proper(e.global_val(), nan, what)
        if not noisy:
            check_close(w, v, f"{what}, as estimator", 1e-12, 1e-12)
        if calls.has_local(c):
            lv = np.asarray(e.local_vals(), float)
            require(lv.ndim == 1 and np.all(np.isfinite(lv)), f"{what}: local values {lv}")
            if a != "shrink" or m not in ("h", "hj"):  # there the mean is taken under the shrunk probabilities
                check_close(lv.mean(), w, f"{what}: mean of the local values", 1e-8, 1e-8 * max(1, np.abs(lv).max()))
            labels.append("local")
    if c["kind"] in ("const one", "const all") and m in ("mi", "te") and (a in ("discrete", "ordinal") or a == "kernel" and c["p"]["kernel"] == "box") and c["nv"] == 2:
        check_close(v, 0.0, f"{what}: information shared with a constant", 0, 1e-9)
    if c["nt"] and m in ("mi", "cmi", "te", "cte") and len(xs) < 4:
        for method in ("permutation_test", "bootstrap"):
            t, no = attempt(lambda: calls.est(c, xs).statistical_test(n_tests=c["nt"], method=method), what)
            if no is None:
                p = float(t.p_value)
                require(0 <= p <= 1, f"{what}: {method} p-value {p}")
                tv = np.asarray(t.test_values, float)
                require(tv.shape == (c["nt"],), f"{what}: {tv.shape} test values for {c['nt']} tests")
                labels.append(method)
    return labels


SUBS = [Sub("degenerate", gen.uniform(build), check, 6000, 150000)]
