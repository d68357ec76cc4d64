from lib.common import *

WARM = True
RULE = ("Pairs of series (explicit or generated with lagged coupling; int, float, string, bool codings, symbols distinct only in their last bit or character), history lengths 1-5, steps 1-5, propagation times 0-6, "
        "some with up to 140000 samples, histories to 9 and steps to 12; 10 closed-form discrete approaches against entropies of independently built windows, NSB against the library's own conditional MI of those windows. "
        "Non-trivial: at least three windows, more than one joint symbol, one repeated.")
ENC = ["int", "int", "int", "int", "int32", "neg", "float", "bool", "uint8", "list", "str"] + gen.HARD


@st.composite
def case(draw, cond=False, rng_max=200, approaches=tuple(DISC)):
    a, p = draw(app_params(approaches))
    nv = 3 if cond else 2
    small = draw(st.booleans())
    hm, sm = (3, 2) if small else (5, 5)
    c = {"approach": a, "params": p, "base": draw(BASES), "h": [draw(st.integers(1, hm)) for _ in range(nv)], "step": draw(st.integers(1, sm)),
         "data": draw(gen.disc(nv, min_n=8, max_n=36, max_k=3, rng_max=rng_max, p_rng=0.65)), "encs": draw(st.lists(st.sampled_from(ENC), min_size=nv, max_size=nv)),
         "how": draw(st.sampled_from(["f", "f", "e", "alias"]))}
    if not cond:
        c["prop"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 6]))
    return c


def grid(cond):
    def build(r):
        a = gen.pick(r, DISC)
        nv = 3 if cond else 2
        c = {"approach": a, "params": disc_params_rng(r, a), "base": gen.base_rng(r), "h": [int(r.integers(1, 6)) for _ in range(nv)], "step": int(r.integers(1, 6)),
             "data": gen.disc_rng(r, nv, 30, 300, (2, 2, 3)), "encs": [gen.pick(r, ENC) for _ in range(nv)], "how": gen.pick(r, ["f", "e", "alias"])}
        if not cond:
            c["prop"] = int(r.integers(0, 7)) if r.random() < 0.5 else 0
        return gen.long_hists(r, c, 0.15)
    return gen.uniform(build)


def large(cond):
    def build(r):
        a = gen.pick(r, DISC)
        nv = 3 if cond else 2
        n = gen.big_n(r, 1500 if a in ("zhang", "bonachela") else 20000, 0.0 if a in ("zhang", "bonachela") else 0.15)
        c = {"approach": a, "params": disc_params_rng(r, a), "base": gen.base_rng(r), "h": [int(gen.pick(r, [1, 1, 2, 3, 4, 6, 9])) for _ in range(nv)], "step": int(gen.pick(r, [1, 1, 2, 3, 5, 8, 12])),
             "data": gen.disc_rng(r, nv, n, n, (2, 2, 2, 3, 20)), "encs": [gen.pick(r, ENC) for _ in range(nv)], "how": gen.pick(r, ["f", "e", "alias"])}
        if not cond:
            c["prop"] = int(r.integers(0, 40)) if r.random() < 0.5 else 0
        return c
    return gen.uniform(build)


def want_of(a, p, b, xs, ys, yf):
    ysyf = [u + v for u, v in zip(ys, yf)]
    plus = [ysyf, [u + v for u, v in zip(xs, ys)]]
    minus = [[u + v for u, v in zip(xs, ysyf)], ys]
    return O.combine(a, plus, minus, b, **p), plus, minus


def check(c):
    cs = gen.cols(c["data"])
    x, y = [gen.encode(v, e) for v, e in zip(cs, c["encs"])]
    a, p, b, (sh, dh), s, pt = c["approach"], c["params"], c["base"], c["h"], c["step"], c["prop"]
    n = len(cs[0]) - pt * s
    k = dict(approach=a, base=b, src_hist_len=sh, dest_hist_len=dh, step_size=s, **p)
    if pt or c["how"] != "f":
        k["prop_time"] = pt
    if n <= max(sh, dh) * s:
        raises(ValueError, lambda: im.te(x, y, **k), "series too short for the windows")
        return None
    xs, ys, yf = O.te_windows(cs[0].tolist(), cs[1].tolist(), sh, dh, s, pt)
    want, plus, minus = want_of(a, p, b, xs, ys, yf)
    if c["how"] == "f":
        got = im.te(x, y, **k)
    elif c["how"] == "alias":
        got = im.transfer_entropy(x, y, **k)
    else:
        got = im.estimator(x, y, measure="transfer_entropy", **k).global_val()
    if a == "ansb" and np.isnan(want):
        return "ansb undefined"
    check_close(got, want, f"TE ({a})", 1e-8, 1e-9)
    if a in LOCAL_DISC:
        check_array(im.estimator(x, y, measure="te", **k).local_vals(), O.local_combine(a, plus, minus, b), f"local TE ({a})")
    nt = len(xs) >= 3 and nontrivial_counts(minus[0])
    return nt and [a, f"h{sh},{dh}", f"step {s}", f"prop {pt}"]


def check_nsb(c):
    cs = gen.cols(c["data"])
    x, y = cs
    (sh, dh), s, pt, b = c["h"], c["step"], c["prop"], c["base"]
    if len(x) - pt * s <= max(sh, dh) * s:
        return None
    xs, ys, yf = O.te_windows(x.tolist(), y.tolist(), sh, dh, s, pt)
    code = lambda w: np.array([{v: i for i, v in enumerate(sorted(set(w)))}[q] for q in w]) if len(w) < 60 else np.unique(np.array(w), axis=0, return_inverse=True)[1].ravel()
    want = im.cmi(code(xs), code(yf), cond=code(ys), approach="nsb", base=b)
    got = im.te(x, y, approach="nsb", base=b, src_hist_len=sh, dest_hist_len=dh, step_size=s, prop_time=pt)
    if np.isnan(fnum(want)):
        require(np.isnan(fnum(got)), f"NSB TE {got} where the CMI is undefined")
        return "undefined"
    check_close(got, want, "NSB TE", 1e-5, 1e-6)
    return ["nsb"]


SUBS = [Sub("discrete family", case(), check, 2500, 80000), Sub("grid", grid(False), check, 1500, 80000), Sub("large", large(False), check, 50, 2500), Sub("nsb", case(approaches=("nsb",), rng_max=80), check_nsb, 250, 6000)]
