from lib.common import *
from lib import cont as C

RULE = ("KSG MI of 2-7 variables and CMI of two variables with a condition, each variable 1-3 dimensional, random / lattice / tied / duplicated data, over many orders of magnitude or far from the origin, up to 20000 points, k 1-8 (up to 150, and up to all the other points), Minkowski p in "
        "{inf,1,2,3}, both algorithm types, all bases, against exhaustive distances and counts (points whose count hinges on rounding for non-exact metrics are left out); "
        "noise checked for amplitude. Non-trivial: local values not all equal.")
PS = [float("inf"), float("inf"), float("inf"), 1, 2, 3]


@st.composite
def case(draw, cond=False):
    nv = 3 if cond else draw(st.sampled_from([2, 2, 2, 2, 3, 3, 4, 5, 7]))
    ds = [draw(st.sampled_from([1, 1, 1, 2, 3])) for _ in range(nv)]
    k = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 8]))
    return {"k": k, "p": draw(st.sampled_from(PS)), "id": draw(st.sampled_from([1, 1, 2])), "base": draw(BASES), "cond": cond,
            "d": draw(gen.real(ds, min_n=k + 2, max_n=25, rng_max=140, far=True)), "how": draw(st.sampled_from(["f", "e", "ksg"]))}


def uni(cond, big=False):
    def build(r):
        c = one(r)
        gen.spread(r, c["d"])
        c["k"] = gen.many_neighbours(r, c["k"], c["d"]["n"])
        if big:
            c["d"]["n"] = c["at"] = gen.big_n(r, 20000)
            c["k"] = int(gen.pick(r, [1, 3, 4, 8, 20, 150]))
        return c

    def one(r):
        nv = 3 if cond else int(gen.pick(r, [2, 2, 3, 4, 2, 2, 3, 4, 5, 6]))
        k = int(r.integers(1, 9))
        return {"k": k, "p": gen.pick(r, PS), "id": int(r.integers(1, 3)), "base": gen.base_rng(r), "cond": cond, "how": gen.pick(r, ["f", "e", "ksg"]),
                "d": {"rng": int(r.integers(2**31)), "n": int(r.integers(k + 2, 160)), "dims": [int(gen.pick(r, [1, 1, 2, 3])) for _ in range(nv)], "dep": gen.pick(r, [0.0, 0.5, 0.9, 0.99]),
                      "grid": gen.pick(r, [0, 0, 0.5, 0.25, 1.0]), "scale": gen.pick(r, [1.0, 0.5, 8.0, 1024.0])}}
    return gen.uniform(build)


def lattice(d):
    if "pts" in d:
        return True  # small integers over a power of two
    return not d.get("wide") and bool(d.get("grid")) and d.get("scale", 1.0) in (1.0, 0.5, 8.0, 1024.0) and d.get("shift", 0.0) in (0.0, -7.0, 100.0)


def check(c):
    xs = gen.points(c["d"])
    if len(xs[0]) < c["k"] + 1:
        return None
    lat = lattice(c["d"])
    idx = C.at_points(len(xs[0]), np.random.default_rng(c["d"]["rng"])) if "at" in c else None  # of large samples, some points
    kw = dict(approach="ksg" if c["how"] == "ksg" else "metric", k=c["k"], ksg_id=c["id"], minkowski_p=c["p"], noise_level=0, base=c["base"])
    if c["cond"]:
        loc, ok = C.ksg_cmi(xs[:2], xs[2], c["k"], c["id"], c["p"], lat, idx)
        pos, kw["cond"], m = xs[:2], xs[2], "cmi"
    else:
        loc, ok = C.ksg_mi(xs, c["k"], c["id"], c["p"], lat, idx)
        pos, m = xs, "mi"
    loc = loc / O.ln_base(c["base"])
    e = im.estimator(*pos, measure=m, **kw)
    got = np.array(e.local_vals(), float)
    if idx is not None:
        require(got.shape == (len(xs[0]),), f"{m}: {got.shape} local values")
        check_close(e.global_val(), got.mean(), f"mean of the local values of KSG {m}", 1e-9, 1e-9)
        got = got[idx]
    require(got.shape == loc.shape, f"{m}: {got.shape} local values")
    check_array(got[ok], loc[ok], f"local KSG {m}", 1e-8, 1e-9)
    if ok.all() and idx is None:
        check_close(e.global_val(), loc.mean(), f"KSG {m}", 1e-8, 1e-9)
        if c["how"] == "f":
            check_close(getattr(im, m)(*pos, **kw), loc.mean(), f"KSG {m} (functional)", 1e-8, 1e-9)
    if ok.mean() < 0.5 or np.ptp(loc) < 1e-9:
        return None
    return [f"type {c['id']}", f"p {c['p']}", f"{len(xs)} vars", "vector" if max(C.as2d(x).shape[1] for x in xs) > 1 else "scalar", "lattice" if lat else "generic"]


def build_noise(r):
    return {"n": int(r.integers(60, 200)), "rng": int(r.integers(2**31)), "level": gen.pick(r, [1e-8, 1e-6, 1e-3]), "k": int(r.integers(1, 5)), "m": gen.pick(r, ["mi", "cmi"]), "id": int(r.integers(1, 3))}


def check_noise(c):
    """Generic data: noise far below every distance changes no neighbour count near-ties apart.  One variable constant: its spread is the noise."""
    r = np.random.default_rng(c["rng"])
    n, s, k = c["n"], c["level"], c["k"]
    x, y, z = r.normal(0, 1, (3, n))
    y = y + x
    D = [C.dist(v, v, np.inf) for v in (x, y, z)]
    args = ((x, y), {}) if c["m"] == "mi" else ((x, y), {"cond": z})
    f = lambda *a, **kw: np.array(im.estimator(*a, measure=c["m"], approach="metric", k=k, ksg_id=c["id"], base="e", **kw).local_vals())
    plain = f(*args[0], **args[1], noise_level=0)
    noisy = f(*args[0], **args[1], noise_level=s)
    # a count can only change where some distance is within 16 s of the k-th neighbour distance
    J = C.blocks(x, y, *( [z] if c["m"] == "cmi" else []))
    eps = C.kth(C.dist(J, J, np.inf), k)
    sub = [x, y] if c["m"] == "mi" else [C.blocks(x, z), C.blocks(y, z), z]
    close_ = np.zeros(n, bool)
    for v in sub + [x, y, z][: 2 if c["m"] == "mi" else 3]:  # each variable alone too: which one sets a distance may change
        d = np.abs(C.dist(v, v, np.inf) - eps[:, None])
        d[d == 0] = 1  # the k-th neighbour itself
        np.fill_diagonal(d, 1)
        close_ |= (d < 40 * s).any(axis=1)
    # the k-th neighbour's own coordinate equals eps: counted strictly (type 1: never below eps) or not (type 2: always)
    require(np.allclose(plain[~close_], noisy[~close_], atol=1e-9), f"noise of level {s} changes neighbour counts of points without any neighbour that close")
    # several identical points: without noise ties everywhere, with noise as for i.i.d. data, so the result varies between runs
    if c["m"] == "mi":
        q = np.round(x)
        a, b = f(q, np.round(y), noise_level=s), f(q, np.round(y), noise_level=s)
        require(not np.array_equal(a, b), "no symmetry-breaking noise added to tied data")
        require(np.array_equal(f(q, np.round(y), noise_level=0), f(q, np.round(y), noise_level=0)), "results vary although noise_level=0")
    return [c["m"], f"level {s}"]


def build_once(r):
    return {"n": int(r.integers(150, 300)), "rng": int(r.integers(2**31)), "level": gen.pick(r, [0.25, 0.5, 1.0]), "m": gen.pick(r, ["mi", "cmi", "cmi", "cmi-z"]), "k": int(r.integers(2, 5))}


def check_once(c):
    """Variance of the added noise: for data on two far-away points per variable the estimator sees pure noise within a cluster, so multiplying all
    data by a and the noise level by a changes the result's distribution not at all; drawing noise more than once would show as a larger spread.
    Measured here through a statistic that depends on the noise amplitude relative to a fixed lattice spacing."""
    from scipy import stats

    r = np.random.default_rng(c["rng"])
    n, s, k = c["n"], c["level"], c["k"]
    # reference: add the documented noise by hand, once, per variable, and evaluate noise-free
    x = r.integers(0, 4, n).astype(float)
    y = np.where(r.random(n) < 0.8, x, r.integers(0, 4, n)).astype(float)
    z = np.where(r.random(n) < 0.8, x, r.integers(0, 4, n)).astype(float)
    kw = {} if c["m"] == "mi" else {"cond": z}
    meas = c["m"][:3].rstrip("-")
    f = lambda xx, yy, kk, lv: float(im.estimator(xx, yy, measure=meas, approach="metric", k=k, base="e", noise_level=lv, **kk).global_val())
    R = 60
    lib = [f(x, y, kw, s) for _ in range(R)]
    ref = [f(x + r.normal(0, s, n), y + r.normal(0, s, n), {} if not kw else {"cond": z + r.normal(0, s, n)}, 0) for _ in range(R)]
    p = stats.mannwhitneyu(lib, ref).pvalue
    if p < 1e-7:
        lib = [f(x, y, kw, s) for _ in range(4 * R)]
        p = stats.mannwhitneyu(lib, ref).pvalue
        require(p > 1e-9, f"results with noise_level={s} are distributed differently from those of data with that noise added once per variable (p={p:.1e}, means {np.mean(lib):.4f}, {np.mean(ref):.4f})")
    return [c["m"]]


SUBS = [Sub("large", uni(False, True), check, 25, 1500), Sub("cmi, large", uni(True, True), check, 25, 1500), Sub("mi", case(), check, 1500, 50000), Sub("cmi", case(cond=True), check, 1200, 40000), Sub("mi grid", uni(False), check, 900, 40000), Sub("cmi grid", uni(True), check, 900, 40000),
        Sub("noise", gen.uniform(build_noise), check_noise, 120, 3000), Sub("noise once", gen.uniform(build_once), check_once, 16, 200)]
