from lib.common import *
from lib import cont as C

RULE = ("Point sets (random, explicit small lattices, ties, duplicates, many orders of magnitude, far from the origin), up to 20000 points, 1-9 dimensions, k 1-8 (up to 200, and up to all the other points), Minkowski p in {inf,1,2,3,1.5}, both ksg_id variants, all bases; "
        "entropy, local values, joint entropy and cross-entropy against exhaustive distances; noise checked for amplitude, centring and single use (rank test against data noised by hand; cross-entropy and divergence too). "
        "Non-trivial: at least k+2 points, not all k-th distances equal.")
PS = [float("inf"), float("inf"), 1, 2, 2.0, 3, 1.5]


@st.composite
def case(draw, cross=False):
    k = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 8]))
    d = draw(st.sampled_from([1, 1, 2, 3, 4, 1, 2, 3, 4, 6, 9]))
    c = {"k": k, "p": draw(st.sampled_from(PS)), "id": draw(st.sampled_from([1, 1, 2])), "base": draw(BASES), "how": draw(st.sampled_from(["f", "e", "kl"]))}
    c["d"] = draw(gen.real([d], min_n=max(3, k + 1), max_n=25, rng_max=150, far=True))
    if "rng" in c["d"] and not cross:
        c["k"] = gen.many_neighbours(np.random.default_rng(c["d"]["rng"]), k, c["d"]["n"])
    if cross:
        c["d2"] = draw(gen.real([d], min_n=max(3, k), max_n=25, rng_max=150, far=True))
        if "rng" in c["d2"]:
            c["k"] = gen.many_neighbours(np.random.default_rng(c["d2"]["rng"]), k, c["d2"]["n"] + 1)
    else:
        c["joint"] = draw(st.booleans()) and d > 1
    return c


def kws(c):
    return dict(approach={"kl": "kl"}.get(c["how"], "metric"), k=c["k"], ksg_id=c["id"], minkowski_p=c["p"], noise_level=0, base=c["base"])


def check(c):
    (x,) = gen.points(c["d"])
    n = len(x)
    if n <= c["k"]:
        return None
    arg = tuple(x.T) if c["joint"] else x
    want = C.kl_entropy(x, c["k"], c["p"], c["id"]) / O.ln_base(c["base"])
    k = kws(c)
    e = im.estimator(arg, measure="entropy", **k)
    check_array(e.local_vals(), want, "local metric entropy", 1e-8, 1e-8)
    check_close(e.global_val(), want.mean(), "metric entropy", 1e-8, 1e-8)
    if c["how"] == "f":
        check_close(im.entropy(arg, **k), want.mean(), "metric entropy (functional)", 1e-8, 1e-8)
    return [f"d{C.as2d(x).shape[1]}", f"p {c['p']}", f"k {c['k']}", "joint" if c["joint"] else "plain", f"id {c['id']}"] if np.ptp(want) > 1e-9 else None


def check_cross(c):
    (x,), (y,) = gen.points(c["d"]), gen.points(c["d2"])
    if len(y) < c["k"]:
        return None
    want = C.kl_cross(x, y, c["k"], c["p"], c["id"]) / O.ln_base(c["base"])
    k = kws(c)
    check_close(im.hx(x, y, **k), want, "metric cross-entropy", 1e-8, 1e-8)
    if c["how"] == "e":
        check_close(im.estimator(x, y, measure="cross_entropy", **k).global_val(), want, "metric cross-entropy", 1e-8, 1e-8)
    return [f"d{C.as2d(x).shape[1]}", f"k {c['k']}", f"p {c['p']}", "lengths differ" if len(x) != len(y) else "same length"]


def build_large(r):
    d = int(gen.pick(r, [1, 1, 2, 3, 4, 1, 2, 3, 4, 6, 9]))
    cross = r.random() < 0.3
    D = lambda: gen.spread(r, {"rng": int(r.integers(2**31)), "n": gen.big_n(r, 2500 if cross else 20000), "dims": [d], "dep": gen.pick(r, [0.0, 0.5, 0.95]), "grid": gen.pick(r, [0, 0, 0, 0.25]), "scale": gen.pick(r, [1.0, 0.01, 40.0])})
    c = {"k": int(gen.pick(r, [1, 2, 4, 4, 9, 30, 200])), "p": gen.pick(r, PS), "id": int(r.integers(1, 3)), "base": gen.base_rng(r), "how": gen.pick(r, ["f", "e", "kl"]), "joint": bool(d > 1 and r.random() < 0.4), "d": D()}
    if cross:
        c["d2"] = D()
    return c


def check_large(c):
    """Thousands of samples and large k, local values at some of the points."""
    if "d2" in c:
        return check_cross(c)
    (x,) = gen.points(c["d"])
    arg = tuple(x.T) if c["joint"] else x
    e = im.estimator(arg, measure="entropy", **kws(c))
    got = np.asarray(e.local_vals(), float)
    require(got.shape == (len(x),), f"{got.shape} local values of {len(x)} samples")
    idx = C.at_points(len(x), np.random.default_rng(c["d"]["rng"]), 150)
    check_array(got[idx], C.kl_entropy(x, c["k"], c["p"], c["id"], idx) / O.ln_base(c["base"]), "local metric entropy", 1e-8, 1e-8)
    check_close(e.global_val(), got.mean(), "mean of the local values", 1e-9, 1e-9)
    return [f"d{C.as2d(x).shape[1]}", f"k {c['k']}", f"p {c['p']}"]


def build_noise(r):
    return {"n": int(r.integers(20, 200)), "rng": int(r.integers(2**31)), "d": int(r.integers(1, 4)), "level": gen.pick(r, [1e-10, 1e-8, 1e-6, 1e-4]), "k": int(r.integers(1, 5)), "dup": bool(r.random() < 0.5)}


def check_noise(c):
    """Noise of the given amplitude moves every distance by at most a few amplitudes."""
    r = np.random.default_rng(c["rng"])
    x = r.normal(0, 1, (c["n"], c["d"]))
    want = C.kl_entropy(x, c["k"], np.inf)
    e = im.estimator(x if c["d"] > 1 else x[:, 0], measure="h", approach="metric", k=c["k"], noise_level=c["level"], base="e")
    rho = C.kth(C.dist(x, x, np.inf), c["k"])
    tol = c["d"] * 16 * c["level"] / np.maximum(rho - 16 * c["level"], 1e-300) + 1e-9
    got = np.array(e.local_vals())
    clean = rho > 40 * c["level"]
    require(np.all(np.abs(got - want)[clean] <= tol[clean]), "noise beyond its documented amplitude changes the entropy")
    require(c["level"] < 1e-9 or np.abs(got - want).max() > 0, "no noise added although noise_level > 0")
    # all points coincide: distances are those of the noise alone
    z = np.zeros((c["n"], c["d"])) + 3.0
    lv = np.exp((np.array(im.estimator(z, measure="h", approach="metric", k=c["k"], noise_level=c["level"], base="e").local_vals()) + C.digamma(c["k"]) - C.digamma(c["n"])) / c["d"]) / 2
    require(np.median(lv) < 8 * c["level"] and lv.max() < 40 * c["level"], f"coincident points {np.median(lv)} apart after noise of level {c['level']}")
    require(np.median(lv) > c["level"] * 1e-6, "coincident points still coincide after adding noise")
    return [f"level {c['level']}"]


def build_once(r):
    return {"n": int(r.integers(40, 120)), "m": int(r.integers(40, 120)), "d": int(gen.pick(r, [1, 1, 2, 3])), "rng": int(r.integers(2**31)), "k": int(r.integers(1, 6)),
            "level": gen.pick(r, [0.05, 0.25, 1.0]), "what": gen.pick(r, ["h", "hx", "hx", "kld", "joint"]), "lattice": gen.pick(r, ["both", "p", "q"])}


def check_once(c):
    """noise_level is the standard deviation of centred Gaussian noise on every sample, once: results are distributed as those of data noised by hand."""
    from scipy import stats

    r = np.random.default_rng(c["rng"])
    d, s = c["d"], c["level"]
    lat = lambda n, on: r.integers(0, 3, (n, d)) * 1.0 if on else 20 * s * r.normal(size=(n, d))
    x, y = lat(c["n"], c["lattice"] != "q"), lat(c["m"], c["lattice"] != "p")
    w = c["what"]
    S = lambda v: tuple(v.T) if w == "joint" else v
    if w == "joint" and d == 1:
        return None
    a = dict(approach="metric", k=c["k"], base="e")
    if w in ("h", "joint"):
        f = lambda u, v, lv: float(im.entropy(S(u), noise_level=lv, **a))
    elif w == "hx":
        f = lambda u, v, lv: float(im.cross_entropy(u, v, noise_level=lv, **a))
    else:
        f = lambda u, v, lv: float(im.kld(u, v, noise_level=lv, **a))
    N = lambda v: v + r.normal(0, s, v.shape)
    R = 60
    ref = [f(N(x), N(y), 0) for _ in range(R)]
    p = stats.mannwhitneyu([f(x, y, s) for _ in range(R)], ref).pvalue
    if p < 1e-7:
        lib = [f(x, y, s) for _ in range(4 * R)]
        p = stats.mannwhitneyu(lib, ref).pvalue
        require(p > 1e-9, f"{w} with noise_level={s} is distributed differently from that of data with that noise added (p={p:.1e}, means {np.mean(lib):.4f}, {np.mean(ref):.4f})")
    return [w, f"level {s}", c["lattice"]]


SUBS = [Sub("large", gen.uniform(build_large), check_large, 60, 3000), Sub("noise once", gen.uniform(build_once), check_once, 40, 1500), Sub("entropy", case(), check, 2500, 80000), Sub("cross", case(cross=True), check_cross, 1500, 40000), Sub("noise", gen.uniform(build_noise), check_noise, 150, 3000)]
