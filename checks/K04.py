from lib.common import *
from lib import cont as C

RULE = ("Renyi and Tsallis: entropy, joint and cross-entropy on random/lattice/duplicated point sets of 1-9 dimensions, up to 4000 points, k 1-8 (up to 600, and up to all the other points), orders 0.2..k+0.9 incl. 1, against the "
        "Leonenko-Pronzato-Savani formula over exhaustive distances; exact Renyi-Tsallis link; order-to-one limit; MI, CMI, TE, CTE against the combination of oracle entropies over independently "
        "built windows; results with a noise level against those of data noised by hand (rank test). Non-trivial: at least k+2 points, some positive distance.")
ORDERS = [0.2, 0.5, 0.9, 0.99, 1, 1.0, 1.01, 1.1, 1.5, 1.9, 2, 2.5, 3.2, 5.5]


def build(r):
    k = int(r.integers(1, 9))
    m = gen.pick(r, ["h", "h", "hj", "hx"])
    d = int(gen.pick(r, [1, 1, 2, 3, 4, 1, 2, 3, 6, 9])) if m != "hj" else int(gen.pick(r, [2, 3, 2, 3, 5, 7]))
    n = int(r.integers(k + 2, 150))
    D = lambda n: {"rng": int(r.integers(2**31)), "n": n, "dims": [d], "dep": gen.pick(r, [0.0, 0.5, 0.9]), "grid": gen.pick(r, [0, 0, 0, 0.5, 1.0]), "scale": gen.pick(r, [1.0, 0.1, 30.0])}; D = lambda n, f=D: gen.spread(r, f(n), 0.2, [1.0, 3.0, 6.0])
    c = {"k": k, "q": gen.pick(r, [q for q in ORDERS if q < k + 1]), "m": m, "base": gen.base_rng(r), "d": D(n), "f": gen.pick(r, ["renyi", "tsallis"]), "how": gen.pick(r, ["f", "e"])}
    if r.random() < 0.12 and m != "hx":
        c["k"] = gen.many_neighbours(r, k, n, 1)
        c["q"] = gen.pick(r, [q for q in ORDERS if q < c["k"] + 1])
    if m == "hx":
        c["d2"] = D(int(r.integers(max(2, k), 150)))
        if r.random() < 0.3:
            c["k"] = 1
            c["q"] = gen.pick(r, [q for q in ORDERS if q < 2])
    return c


def build_large(r):
    c = build(r)
    c["d"]["n"] = gen.big_n(r, 4000)
    if "d2" in c:
        c["d2"]["n"] = gen.big_n(r, 4000)
    if c["k"] > 1 and r.random() < 0.3:
        c["k"] = int(gen.pick(r, [20, 100, 170, 171, 172, 350, 599]))
    return c


def build_multi_large(r):
    c = build_multi(r)
    c["d"]["n"] = gen.big_n(r, 3000)
    if r.random() < 0.3:
        c["k"] = int(gen.pick(r, [20, 100, 170, 171, 172, 350]))
    if c["m"] in ("te", "cte"):
        c["step"] = int(gen.pick(r, [1, 2, 3, 7]))
    return c


@st.composite
def small(draw):
    k = draw(st.integers(1, 4))
    c = {"k": k, "q": draw(st.sampled_from([q for q in ORDERS if q < k + 1])), "m": "h", "base": draw(BASES), "f": draw(st.sampled_from(["renyi", "tsallis"])), "how": "e"}
    c["d"] = draw(gen.real([draw(st.sampled_from([1, 2]))], min_n=k + 1, max_n=14, p_rng=0.0))
    return c


def par(c):
    return {"k": c["k"], ("alpha" if c["f"] == "renyi" else "q"): c["q"]}


def check(c):
    (x,) = gen.points(c["d"])
    if len(x) <= c["k"]:
        return None
    kw = dict(approach=c["f"], base=c["base"], **par(c))
    if c["m"] == "hx":
        (y,) = gen.points(c["d2"])
        if len(y) < c["k"]:
            return None
        want = C.lps(y, c["k"], c["q"], c["f"], c["base"], at=x)
        got = im.hx(x, y, **kw) if c["how"] == "f" else im.estimator(x, y, measure="cross_entropy", **kw).global_val()
        check_close(got, want, f"{c['f']} cross-entropy", 1e-7, 1e-8)
        return [c["f"], "hx", f"k {c['k']}", "order 1" if c["q"] == 1 else "order != 1"]
    want = C.lps(x, c["k"], c["q"], c["f"], c["base"])
    arg = tuple(x.T) if c["m"] == "hj" else x
    got = im.entropy(arg, **kw) if c["how"] == "f" else im.estimator(arg, measure="h", **kw).global_val()
    if np.isnan(want):
        return None
    check_close(got, want, f"{c['f']} entropy", 1e-7, 1e-8)
    # analytic link: H_alpha = log(1 + (1-q) T_q)/(1-q), equal at order one
    q = c["q"]
    h = float(im.entropy(arg, approach="renyi", k=c["k"], alpha=q, base="e"))
    t = float(im.entropy(arg, approach="tsallis", k=c["k"], q=q, base="e"))
    if q == 1:
        check_close(h, t, "Renyi = Tsallis at order one", 1e-10, 1e-10)
        for e in (1e-6, -1e-6):
            if not c["d"].get("wide") and not np.any(C.kth(C.dist(x, x, 2), c["k"]) == 0):
                check_close(im.entropy(arg, approach="renyi", k=c["k"], alpha=1 + e, base="e"), h, "Renyi entropy near order one", 1e-3, 1e-3)
                check_close(im.entropy(arg, approach="tsallis", k=c["k"], q=1 + e, base="e"), h, "Tsallis entropy near order one", 1e-3, 1e-3)
    elif not (h == 0 and t == 0) and abs((1 - q) * h) < 600:
        check_close((1 - np.exp((1 - q) * h)) / (q - 1), t, "Tsallis from Renyi entropy", 1e-7, 1e-8)
    return [c["f"], c["m"], f"k {c['k']}", "order 1" if q == 1 else "order != 1", f"d{C.as2d(x).shape[1]}"] if np.ptp(x) > 0 else None


def build_multi(r):
    k = int(r.integers(1, 6))
    m = gen.pick(r, ["mi", "mi", "cmi", "te", "te", "cte"])
    nv = {"mi": int(gen.pick(r, [2, 2, 3, 4, 2, 2, 3, 4, 5, 6])), "cmi": int(gen.pick(r, [3, 3, 4, 3, 3, 4, 5])), "te": 2, "cte": 3}[m]
    dims = [int(gen.pick(r, [1, 1, 2])) if m in ("mi", "cmi") or r.random() < 0.15 else 1 for _ in range(nv)]
    c = {"k": k, "q": gen.pick(r, [q for q in ORDERS if q < k + 1]), "m": m, "base": gen.base_rng(r), "f": gen.pick(r, ["renyi", "tsallis"]),
         "d": {"rng": int(r.integers(2**31)), "n": int(r.integers(max(30, k + 4), 120)), "dims": dims, "dep": gen.pick(r, [0.0, 0.5, 0.9]), "grid": gen.pick(r, [0, 0, 0, 0.5]), "scale": gen.pick(r, [1.0, 0.2, 5.0])},
         "how": gen.pick(r, ["f", "e"])}
    gen.spread(r, c["d"], 0.2, [0.5])
    if m in ("te", "cte"):
        c["h"] = [int(r.integers(1, 4)) for _ in range(nv)]
        c["step"] = int(r.integers(1, 4))
        if m == "te":
            c["prop"] = int(gen.pick(r, [0, 0, 1, 3]))
        gen.long_hists(r, c)
    return c


def check_multi(c):
    xs = gen.points(c["d"])
    H = lambda *b: C.lps(C.blocks(*b), c["k"], c["q"], c["f"], c["base"])
    kw = dict(approach=c["f"], base=c["base"], noise_level=0, **par(c))
    m = c["m"]
    if m == "mi":
        want = sum(H(x) for x in xs) - H(*xs)
        pos = xs
    elif m == "cmi":
        z, vs = xs[-1], xs[:-1]
        want = sum(H(x, z) for x in vs) - H(*xs) - H(z)
        pos, kw["cond"] = vs, z
    else:
        pt = c.get("prop", 0)
        hs = c["h"]
        if len(O.te_bases(len(xs[0]) - pt * c["step"], c["step"], *hs)) < c["k"] + 2:
            return None
        X, Z, Y = C.te_parts(xs[0], xs[1], hs[0], hs[1], c["step"], pt, *((xs[2], hs[2]) if m == "cte" else ()))
        want = H(Z, Y) + H(X, Z) - H(X, Z, Y) - H(Z)
        pos = xs[:2]
        kw.update(src_hist_len=hs[0], dest_hist_len=hs[1], step_size=c["step"])
        if m == "cte":
            kw.update(cond=xs[2], cond_hist_len=hs[2])
        elif pt:
            kw["prop_time"] = pt
    if not np.isfinite(want):
        return None
    got = getattr(im, m)(*pos, **kw) if c["how"] == "f" else im.estimator(*pos, measure=m, **kw).global_val()
    check_close(got, want, f"{c['f']} {m}", 1e-6, 1e-7)
    return [c["f"], m, "order 1" if c["q"] == 1 else "order != 1", f"{len(xs)} vars"]


def build_noise(r):
    m = gen.pick(r, ["mi", "mi", "cmi", "cmi", "te", "cte"])
    k = int(r.integers(2, 6))
    return {"n": int(r.integers(80, 160)), "rng": int(r.integers(2**31)), "level": gen.pick(r, [0.25, 0.5, 1.0]), "m": m, "k": k, "f": gen.pick(r, ["renyi", "tsallis"]),
            "q": gen.pick(r, [0.5, 0.9, 1, 1.5, 2]), "only": gen.pick(r, ["all", "all", "z"]) if m in ("cmi", "cte") else "all"}


def check_noise(c):
    """noise_level: Gaussian noise of that standard deviation on every variable, once; results distributed as those of data noised by hand."""
    from scipy import stats

    r = np.random.default_rng(c["rng"])
    n, s = c["n"], c["level"]
    x = r.integers(0, 4, n).astype(float)
    lag = 1 if c["m"] in ("te", "cte") else 0
    y, z = (np.where(r.random(n) < 0.8, np.roll(x, lag), r.integers(0, 4, n)).astype(float) for _ in range(2))
    if c["only"] == "z":  # only the condition is on the scale of the noise
        x, y = 64 * x + 8 * r.normal(0, 1, n), 64 * y + 8 * r.normal(0, 1, n)
    con = c["m"] in ("cmi", "cte")
    kw = dict(approach=c["f"], base="e", **par(c))
    f = lambda xx, yy, zz, lv: float(im.estimator(xx, yy, measure=c["m"], noise_level=lv, **kw, **({"cond": zz} if con else {})).global_val())
    N = lambda v: v + r.normal(0, s, n)
    a, b = f(x, y, z, s), f(x, y, z, s)
    require(a != b, f"noise_level={s} adds no noise")
    R = 60
    lib = [f(x, y, z, s) for _ in range(R)]
    ref = [f(N(x), N(y), N(z), 0) for _ in range(R)]
    if stats.mannwhitneyu(lib, ref).pvalue < 1e-7:
        lib = [f(x, y, z, s) for _ in range(4 * R)]
        p = stats.mannwhitneyu(lib, ref).pvalue
        require(p > 1e-9, f"results with noise_level={s} are distributed differently from those of data with that noise added once per variable (p={p:.1e}, means {np.mean(lib):.4f}, {np.mean(ref):.4f})")
    return [c["m"], c["f"], c["only"]]


SUBS = [Sub("large", gen.uniform(build_large), check, 40, 2000), Sub("multi large", gen.uniform(lambda r: build_multi_large(r)), check_multi, 30, 1500), Sub("entropy", gen.uniform(build), check, 2500, 80000), Sub("small", small(), check, 700, 20000), Sub("mi te", gen.uniform(build_multi), check_multi, 2000, 60000),
        Sub("noise once", gen.uniform(build_noise), check_noise, 60, 1500)]
