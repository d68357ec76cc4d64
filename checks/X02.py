from lib.common import *
from lib import calls
from checks import X01
import math

RULE = ("All supporting approaches with random parameters and bases: KLD against the library's own cross-entropy minus entropy and against independent discrete formulas; identical samples; "
        "non-negativity for nested supports; asymmetric argument order; refusal of the other approaches. Non-trivial: supports overlap and the value is not zero.")


def check_rel(c):
    """any approach: composition of the library's own parts"""
    x, y = calls.data(c)
    kw = calls.kwargs_of(c)
    v = im.kld(x, y, **kw)
    check_close(v, fnum(im.hx(x, y, **kw)) - fnum(im.entropy(x, **kw)), f"{c['a']} KLD = cross-entropy - entropy", 1e-10, 1e-10)
    if c["a"] in ("discrete", "miller_madow", "bayes", "kernel") or c["a"] == "ordinal" and c["p"]["stable"]:
        check_close(im.kld(x, x.copy(), **kw), 0.0, f"{c['a']} KLD of identical samples", 0, 1e-9)
    return [c["a"]] if abs(v) > 1e-12 else None


def check(c):
    p, q = X01.samples(c)
    x, y = X01.enc_pair(p, q, c["enc"])
    a, par, b = c["approach"], c["params"], c["base"]
    kw = dict(approach=a, base=b, **par)
    want = X01.oracle(a, p.tolist(), q.tolist(), b, par) - O.entropy(a, p.tolist(), b, **par)
    got = im.kld(x, y, **kw) if c["how"] != "entropy" else im.kullback_leiber_divergence(x, y, **kw)
    check_close(got, want, f"{a} KLD", 1e-9, 1e-10)
    P, Q = set(p.tolist()), set(q.tolist())
    if a == "discrete" and P <= Q:
        require(got >= -1e-12, f"KLD {got} negative although the second sample covers the first")
        if X01.same_dist(p, q):
            check_close(got, 0.0, "KLD of equal distributions", 0, 1e-10)
    return [a, "covered" if P <= Q else "overlap" if P & Q else "disjoint"] if abs(want) > 1e-12 else None


def build_ref(r):
    return {"a": gen.pick(r, ["grassberger", "shrink", "chao_shen", "chao_wang_jost", "zhang", "bonachela", "ansb", "nsb", "nonsense", ""]), "rng": int(r.integers(2**31))}


def check_ref(c):
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError

    r = np.random.default_rng(c["rng"])
    p, q = r.integers(0, 4, 30), r.integers(0, 4, 25)
    raises((TheoreticalInconsistencyError, ValueError), lambda: im.kld(p, q, approach=c["a"]), f"KLD ({c['a']})")
    raises(ValueError, lambda: im.kld(p, q), "KLD without approach")
    return [c["a"]]


SUBS = [Sub("large", gen.uniform(X01.large), check, 50, 2500), Sub("relation, large", calls.big_cases(measures=["kld"]), check_rel, 40, 2000), Sub("relation", calls.cases(measures=["kld"]), check_rel, 1500, 40000), Sub("discrete", X01.case(), check, 2500, 60000), Sub("refused", gen.uniform(build_ref), check_ref, 60, 600)]
