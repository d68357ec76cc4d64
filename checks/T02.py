from lib.common import *
from checks.T01 import case, grid, large, want_of

WARM = True
RULE = ("Triples of series (explicit or generated with lagged coupling; int, float, bool codings), three history lengths 1-5, steps 1-5, "
        "some with up to 140000 samples, histories to 9 and steps to 12; 10 closed-form discrete approaches against entropies of independently built windows, NSB against the library's own conditional MI of those windows. "
        "Non-trivial: at least three windows, more than one joint symbol, one repeated.")


def check(c):
    cs = gen.cols(c["data"])
    x, y, z = [gen.encode(v, e) for v, e in zip(cs, c["encs"])]
    a, p, b, (sh, dh, ch), s = c["approach"], c["params"], c["base"], c["h"], c["step"]
    k = dict(approach=a, base=b, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=ch, step_size=s, **p)
    if len(cs[0]) <= max(c["h"]) * s:
        raises(ValueError, lambda: im.cte(x, y, cond=z, **k), "series too short for the windows")
        return None
    xs, ys, yf = O.te_windows(cs[0].tolist(), cs[1].tolist(), sh, dh, s, 0, cs[2].tolist(), ch)
    want, plus, minus = want_of(a, p, b, xs, ys, yf)
    if c["how"] == "f":
        got = im.cte(x, y, cond=z, **k)
    elif c["how"] == "alias":
        got = im.transfer_entropy(x, y, cond=z, **k)
    else:
        got = im.estimator(x, y, cond=z, measure="conditional_transfer_entropy", **k).global_val()
    if a == "ansb" and np.isnan(want):
        return "ansb undefined"
    check_close(got, want, f"CTE ({a})", 1e-8, 1e-9)
    if a in LOCAL_DISC:
        check_array(im.estimator(x, y, cond=z, measure="cte", **k).local_vals(), O.local_combine(a, plus, minus, b), f"local CTE ({a})")
    lab = [a, f"h{sh},{dh},{ch}", f"step {s}"]
    if a != "ansb" or True:
        k2 = {q: v for q, v in k.items() if q != "cond_hist_len"}
        check_close(im.cte(x, y, cond=np.full(len(cs[0]), 2), cond_hist_len=1, **k2), fnum(im.te(x, y, **k2)), f"CTE given a constant = TE ({a})", 1e-8, 1e-9)
    return (len(xs) >= 3 and nontrivial_counts(minus[0])) and lab


def check_nsb(c):
    x, y, z = gen.cols(c["data"])
    (sh, dh, ch), s, b = c["h"], c["step"], c["base"]
    if len(x) <= max(c["h"]) * s:
        return None
    xs, ys, yf = O.te_windows(x.tolist(), y.tolist(), sh, dh, s, 0, z.tolist(), ch)
    code = lambda w: np.unique(np.array(w), axis=0, return_inverse=True)[1].ravel()
    want = im.cmi(code(xs), code(yf), cond=code(ys), approach="nsb", base=b)
    got = im.cte(x, y, cond=z, approach="nsb", base=b, src_hist_len=sh, dest_hist_len=dh, cond_hist_len=ch, step_size=s)
    if np.isnan(fnum(want)):
        require(np.isnan(fnum(got)), f"NSB CTE {got} where the CMI is undefined")
        return "undefined"
    check_close(got, want, "NSB CTE", 1e-5, 1e-6)
    return ["nsb"]


SUBS = [Sub("discrete family", case(cond=True), check, 2000, 80000), Sub("grid", grid(True), check, 1500, 80000), Sub("large", large(True), check, 40, 2000), Sub("nsb", case(cond=True, approaches=("nsb",), rng_max=80), check_nsb, 250, 6000)]
