import math

from lib.common import *
from lib import calls

WARM = True
RULE = ("Random calls of every measure x approach (entropies, joint and cross-entropies, MI, CMI, TE, CTE, divergences) evaluated with base 'e' and with a random base "
        "in (1, 22000), entropies and divergences also in (0, 1); global and local values; some with thousands of samples; Tsallis must be base-free except at q=1. Non-trivial: natural-log value not zero.")


def build(r):
    c = calls.build(r, n_hi=50)
    u = r.random()
    if u < 0.45:
        b = gen.pick(r, [2, 10, 2.0, 10.0, 3, 16, 100, 2.718281828459045, 1.5, 256])
    elif u < 0.6 and c["m"] in ("h", "hj", "hx", "kld", "jsd"):
        b = gen.pick(r, [0.5, 0.1, 0.9, 0.367879441, float(round(r.uniform(0.01, 0.97), 6))])
    else:
        b = float(round(math.exp(r.uniform(0.02, 10)), 6))
    c["base"] = b
    return c


def build_big(r):
    c = calls.build_big(r, top=0.5)
    c["base"] = gen.pick(r, [2, 10, 2.0, 3, 1.5, 0.5 if c["m"] in ("h", "hj", "hx", "kld", "jsd") else 256])
    return c


def check(c):
    lb = math.log(c["base"])
    what = f"{c['m']}/{c['a']} base {c['base']}"
    ge, gb = fnum(calls.value(c, base="e")), fnum(calls.value(c))
    factor = 1.0 if c["a"] == "tsallis" and c["p"]["q"] != 1 else lb
    if np.isnan(ge):
        require(np.isnan(gb), f"{what}: {gb} but NaN in nats")
        return None
    rt = 1e-8
    sc = max(1.0, abs(ge))
    check_close(gb * factor, ge, what, rt, 1e-9 * sc)
    ee = calls.est(c, base="e") if c["m"] not in ("kld", "jsd") else None
    if ee is not None:
        eb = calls.est(c)
        check_close(eb.result() * factor, ge, f"{what} (estimator)", rt, 1e-9 * sc)
        if calls.has_local(c):
            check_array(np.asarray(eb.local_vals(), float) * lb, ee.local_vals(), f"{what} local values", 1e-8, 1e-8)
        e3 = calls.est(c, base=2.718281828459045)
        check_close(e3.result(), ge, f"{c['m']}/{c['a']} base 2.718281828459045 = e", rt, 1e-9 * sc)
    return [c["m"], c["a"]] if abs(ge) > 1e-9 else None


def check_div(c):
    return check(dict(c, base=7 if c["base"] == "e" else c["base"]))


SUBS = [Sub("large", gen.uniform(build_big), check, 60, 2500), Sub("rescale", gen.uniform(build), check, 3000, 100000),
        Sub("divergences", calls.cases(measures=["hx", "kld", "jsd", "hj"]), check_div, 900, 20000)]
