from lib.common import *
from lib import calls

WARM = True
RULE = ("Random calls of every measure x approach with random parameters, some with thousands of samples; two fresh estimators per case, one read global-first, the other local-first. "
        "Non-trivial: local values offered and not all equal, or a documented refusal.")
FREE = {"bayes", "chao_shen", "chao_wang_jost", "bonachela", "ansb", "nsb", "renyi", "tsallis"}


def expected_len(c):
    m, n, a = c["m"], c["d"]["n"], c["a"]
    if m == "mi":
        n -= abs(c["w"].get("offset", 0))
    emb = (c["p"]["embedding_dim"] - 1) if a == "ordinal" else 0
    if m in ("te", "cte"):
        w = c["w"]
        n -= abs(w.get("prop_time", 0)) * w["step_size"]
        if a == "ordinal":
            return None  # decided by O03
        return len(O.te_bases(n, w["step_size"], w["src_hist_len"], w["dest_hist_len"], w.get("cond_hist_len", 1)))
    if a == "ordinal":
        return n - emb * c["p"].get("step_size", 1)
    return n


def check(c):
    from io import UnsupportedOperation
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError

    e1, e2 = calls.est(c), calls.est(c)
    if c["m"] == "hx" or c["a"] in FREE:
        raises((UnsupportedOperation, TheoreticalInconsistencyError), e1.local_vals, f"local values of {c['m']}/{c['a']}")
        g = e1.result()
        check_close(g, e2.result(), "result after a refused local_vals()", 1e-12, 1e-12)
        raises((UnsupportedOperation, TheoreticalInconsistencyError), e2.local_vals, f"local values of {c['m']}/{c['a']} after result()")
        return ["refused", c["a"], c["m"]]
    g1 = e1.global_val()
    l1 = np.array(e1.local_vals(), float)
    l2 = np.array(e2.local_vals(), float)
    g2 = e2.global_val()
    what = f"{c['m']}/{c['a']}"
    check_close(g1, g2, f"{what}: global value read before/after the local values", 1e-12, 1e-12)
    check_array(l1, l2, f"{what}: local values read after/before the global value", 1e-12, 1e-12)
    check_array(e1.local_vals(), l1, f"{what}: local values read twice", 0, 0)
    check_close(e1.result(), g1, f"{what}: result() = global_val()", 0, 0)
    check_close(calls.value(c), g1, f"{what}: functional value", 1e-12, 1e-12)
    require(l1.ndim == 1, f"{what}: local values of shape {l1.shape}")
    n = expected_len(c)
    if n is not None:
        require(len(l1) == n, f"{what}: {len(l1)} local values for {n} samples/windows")
    require(np.all(np.isfinite(l1)), f"{what}: local values not finite")
    if c["a"] != "shrink":
        check_close(g1, l1.mean(), f"{what}: global value = mean of local values", 1e-9, 1e-10)
    elif c["m"] != "h" and c["m"] != "hj":
        check_close(g1, l1.mean(), f"{what}: documented average of local values", 1e-9, 1e-10)
    return [c["m"], c["a"], f"nv {c['nv']}"] if np.ptp(l1) > 1e-9 else None


def build_large(r):
    c = calls.build_big(r, measures=M[:-1], approaches=A)
    d = c["d"]
    if r.random() < 0.4:  # coincident points and single symbols have local values of exactly zero
        if "vars" in d:
            d["vars"][int(r.integers(len(d["vars"])))][0] = 1
            if r.random() < 0.5:
                d["vars"] = [[1, -1, 0, 0] for _ in d["vars"]]
        elif c["a"] == "metric":
            d["grid"] = gen.pick(r, [0.25, 0.5, 1.0])
    return c


M = ["h", "hj", "mi", "cmi", "te", "cte", "hx"]
A = ["discrete", "miller_madow", "grassberger", "zhang", "shrink", "ordinal", "kernel", "metric"]


@st.composite
def free(draw):
    """Shrinkable discrete data."""
    m = draw(st.sampled_from(["h", "hj", "mi", "cmi", "te", "cte"]))
    a = draw(st.sampled_from(["discrete", "miller_madow", "grassberger", "zhang"]))
    nv = {"h": 1, "hj": draw(st.integers(2, 6)), "mi": draw(st.integers(2, 6)), "cmi": draw(st.integers(3, 6)), "te": 2, "cte": 3}[m]
    c = {"m": m, "a": a, "nv": nv, "p": {}, "w": {}, "base": draw(BASES), "d": draw(gen.disc(nv, min_n=10 if m in ("te", "cte") else 1, rng_max=250))}
    if m in ("te", "cte"):
        c["w"] = {"src_hist_len": draw(st.integers(1, 3)), "dest_hist_len": draw(st.integers(1, 3)), "step_size": draw(st.integers(1, 3))}
        if m == "cte":
            c["w"]["cond_hist_len"] = draw(st.integers(1, 3))
    return c


def check_free(c):
    c = dict(c, d=dict(c["d"], n=len(gen.cols(c["d"])[0])))
    if c["m"] in ("te", "cte") and max(v for k, v in c["w"].items() if "hist" in k) * c["w"]["step_size"] >= c["d"]["n"]:
        return None
    return check(c)


SUBS = [Sub("local", calls.cases(measures=M[:-1], approaches=A), check, 2400, 80000), Sub("any", calls.cases(measures=M), check, 900, 20000),
        Sub("large", gen.uniform(build_large), check, 70, 2500),
        Sub("discrete", free(), check_free, 1200, 40000)]
