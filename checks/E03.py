from lib.common import *

WARM = True

RULE = ("1-6 discrete variables (or three series); each measure is evaluated on the integer coding, on an injective renaming of every variable "
        "(other integers, negative, huge, floats, strings, booleans, lists), and, for measures without time order, after a joint permutation of the samples; "
        "a joint variable is also replaced by one with a duplicated or recoded component. All 11 discrete approaches; some cases with up to 140000 samples. Oracle: equality of the results, "
        "local values carried along. Non-trivial: some symbol repeats and some variable is not constant.")


def enc2(col, enc):
    """Renaming for measures: keep what te/mi accept."""
    x = gen.encode(col, enc)
    return x


ENC = [e for e in gen.ENCODINGS if e != "int"]


@st.composite
def meas(draw, kind):
    a, p = draw(app_params(tuple(DISC_NSB)))
    if a == "nsb" and draw(st.booleans()):  # slow
        a, p = "discrete", {}
    c = {"approach": a, "params": p, "base": draw(BASES), "m": kind}
    if kind == "h":
        nv = draw(st.integers(1, 6))
    elif kind == "mi":
        nv = draw(st.integers(2, 6))
    elif kind == "cmi":
        nv = draw(st.integers(3, 6))
    elif kind in ("te", "cte"):
        nv = 2 if kind == "te" else 3
        c["hist"] = [draw(st.integers(1, 3)) for _ in range(nv)]
        c["step"] = draw(st.integers(1, 3))
    c["data"] = draw(gen.disc(nv, min_n=10 if kind in ("te", "cte") else 2, rng_max=120))
    c["encs"] = draw(st.lists(st.sampled_from(ENC), min_size=nv, max_size=nv))
    c["perm"] = draw(SEED)
    return c


def build_large(r):
    a = gen.pick(r, [a for a in DISC if a != "zhang"])
    m = gen.pick(r, ["h", "h", "mi", "cmi", "te", "cte"])
    c = {"approach": a, "params": disc_params_rng(r, a), "base": gen.base_rng(r), "m": m, "perm": int(r.integers(2**31))}
    nv = {"h": int(r.integers(1, 5)), "mi": int(r.integers(2, 4)), "cmi": 3, "te": 2, "cte": 3}[m]
    if m in ("te", "cte"):
        c["hist"], c["step"] = [int(r.integers(1, 5)) for _ in range(nv)], int(r.integers(1, 8))
    c["data"] = gen.big_disc(r, nv, gen.big_n(r, 8000 if a == "bonachela" else 20000, 0.1 if a != "bonachela" else 0))
    c["encs"] = [gen.pick(r, ENC) for _ in range(nv)]
    return c


def est_of(c, xs):
    a = dict(approach=c["approach"], base=c["base"], **c["params"])
    m = c["m"]
    if m == "h":
        return im.estimator(tuple(xs) if len(xs) > 1 else xs[0], measure="h", **a)
    if m == "mi":
        return im.estimator(*xs, measure="mi", **a)
    if m == "cmi":
        return im.estimator(*xs[:-1], cond=xs[-1], measure="cmi", **a)
    h = dict(src_hist_len=c["hist"][0], dest_hist_len=c["hist"][1], step_size=c["step"])
    if m == "te":
        return im.estimator(xs[0], xs[1], measure="te", **h, **a)
    return im.estimator(xs[0], xs[1], cond=xs[2], measure="cte", cond_hist_len=c["hist"][2], **h, **a)


def vals(e, want_local):
    g = e.result()
    loc = None
    if want_local:
        loc = np.asarray(e.local_vals(), float)
    return g, loc


def check(c):
    xs = gen.cols(c["data"])
    wl = c["approach"] in LOCAL_DISC
    try:
        e0 = est_of(c, xs)
    except ValueError:
        if c["m"] in ("te", "cte"):  # histories longer than the series
            require(max(c["hist"]) * c["step"] >= len(xs[0]), "valid windows refused")
            return None
        raise
    g0, l0 = vals(e0, wl)
    # NSB integrates numerically: summation order shifts the result within the quadrature error
    nsb = c["approach"] == "nsb"
    rt, at = (1e-5, 1e-6) if nsb else (1e-9, 1e-10)
    ren = [enc2(x, e) for x, e in zip(xs, c["encs"])]
    g1, l1 = vals(est_of(c, ren), wl)
    if nsb and (not np.isfinite(fnum(g0)) or not np.isfinite(fnum(g1))):
        return None
    check_close(g1, g0, f"{c['m']}/{c['approach']} after renaming", rt, at)
    if wl:
        check_array(l1, l0, f"{c['m']}/{c['approach']} local values after renaming")
    lab = [c["m"], c["approach"]] + [f"enc {e}" for e in set(c["encs"])]
    if c["m"] in ("h", "mi", "cmi"):
        p = np.random.default_rng(c["perm"]).permutation(len(xs[0]))
        g2, l2 = vals(est_of(c, [x[p] for x in xs]), wl)
        check_close(g2, g0, f"{c['m']}/{c['approach']} after reordering samples", rt, at)
        if wl:
            check_array(l2, l0[p], f"{c['m']}/{c['approach']} local values after reordering")
    if c["m"] == "h":
        # a duplicated / recoded component changes nothing
        dup = xs + [gen.encode(xs[0], c["encs"][0])]
        g3, l3 = vals(est_of(c, dup), wl)
        check_close(g3, g0, f"joint entropy with a duplicated component ({c['approach']})", rt, at)
        if wl:
            check_array(l3, l0, "local values with a duplicated component")
    nt = any(len(set(x.tolist())) > 1 for x in xs) and len(set(O.rows(*xs))) < len(xs[0])
    return lab if nt else None


@st.composite
def pair(draw):
    m = draw(st.sampled_from(["hx", "kld", "jsd"]))
    a, p = draw(app_params(("discrete", "bayes", "shrink") if m == "jsd" else ("discrete", "miller_madow", "bayes")))
    k = draw(st.integers(1, 8))
    nv = draw(st.integers(2, 6)) if m == "jsd" else 2
    return {"m": m, "approach": a, "params": p, "base": draw(BASES), "enc": draw(st.sampled_from(ENC)), "perm": draw(SEED),
            "xs": [draw(st.lists(st.integers(0, k), min_size=1, max_size=25)) for _ in range(nv)]}


def check_pair(c):
    xs = [np.array(x) for x in c["xs"]]
    # one renaming for all sides
    allv = np.concatenate(xs)
    ren_all = gen.encode(allv, c["enc"])
    out, i = [], 0
    for x in xs:
        out.append(ren_all[i:i + len(x)])
        i += len(x)
    f = {"hx": im.hx, "kld": im.kld, "jsd": im.jsd}[c["m"]]
    a = dict(approach=c["approach"], base=c["base"], **c["params"])
    g0 = f(*xs, **a)
    check_close(f(*out, **a), g0, f"{c['m']} after renaming both sides alike", 1e-9, 1e-10)
    r = np.random.default_rng(c["perm"])
    check_close(f(*[r.permutation(x) for x in xs], **a), g0, f"{c['m']} after reordering", 1e-9, 1e-10)
    return [c["m"], c["approach"]] if len(set(allv.tolist())) > 1 else None


SUBS = [Sub("large", gen.uniform(build_large), check, 50, 2500), Sub("entropy", meas("h"), check, 2500, 60000), Sub("mi", meas("mi"), check, 1800, 40000), Sub("cmi", meas("cmi"), check, 1500, 40000),
        Sub("te", meas("te"), check, 1500, 40000), Sub("cte", meas("cte"), check, 1500, 40000), Sub("divergence", pair(), check_pair, 2500, 60000)]
