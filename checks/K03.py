from lib.common import *
from lib import cont as C

RULE = ("KSG TE (with propagation time) and CTE of coupled series (random, lattice, tied, explicit; scalar and vector-valued), up to 20000 points, histories 1-5, steps 1-7, k 1-6 (up to 150, and up to nearly all windows), "
        "Minkowski p in {inf,1,2,3}, both types, all bases, against exhaustive neighbour counts over independently built windows, global and local; noise level checked for amplitude and "
        "single use. Non-trivial: at least k+2 windows, local values not all equal.")
PS = [float("inf"), float("inf"), float("inf"), 1, 2, 3]


@st.composite
def case(draw, cond=False):
    nv = 3 if cond else 2
    k = draw(st.sampled_from([1, 2, 3, 4, 4, 6]))
    c = {"k": k, "p": draw(st.sampled_from(PS)), "id": draw(st.sampled_from([1, 1, 2])), "base": draw(BASES), "cond": cond,
         "h": [draw(st.integers(1, 3)) for _ in range(nv)], "step": draw(st.integers(1, 3)), "d": draw(gen.real([1] * nv, min_n=k + 8, max_n=30, rng_max=100, far=True)),
         "how": draw(st.sampled_from(["f", "e", "ksg"]))}
    if not cond:
        c["prop"] = draw(st.sampled_from([0, 0, 0, 1, 2, -1]))
    return c


def uni(cond, big=False):
    def build(r):
        c = one(r)
        gen.spread(r, c["d"])
        if not big:
            nw = len(O.te_bases(c["d"]["n"] - abs(c.get("prop", 0)) * c["step"], c["step"], *c["h"]))
            c["k"] = gen.many_neighbours(r, c["k"], nw - 1)
        if big:
            c["d"]["n"] = c["at"] = gen.big_n(r, 20000)
            c["k"] = int(gen.pick(r, [1, 3, 4, 8, 20, 150]))
            c["h"] = [int(gen.pick(r, [1, 1, 2, 3, 5])) for _ in c["h"]]
            c["step"] = int(gen.pick(r, [1, 1, 2, 3, 7]))
            if c.get("prop"):
                c["prop"] = int(r.integers(-20, 21))
        return c

    def one(r):
        nv = 3 if cond else 2
        k = int(r.integers(1, 7))
        vec = r.random() < 0.25
        c = {"k": k, "p": gen.pick(r, PS), "id": int(r.integers(1, 3)), "base": gen.base_rng(r), "cond": cond, "how": gen.pick(r, ["f", "e", "ksg"]),
             "h": [int(r.integers(1, 5)) for _ in range(nv)], "step": int(r.integers(1, 5)),
             "d": {"rng": int(r.integers(2**31)), "n": int(r.integers(30, 160)), "dims": [int(gen.pick(r, [1, 2])) if vec else 1 for _ in range(nv)], "dep": gen.pick(r, [0.0, 0.5, 0.9]),
                   "grid": gen.pick(r, [0, 0, 0.5, 1.0]), "scale": gen.pick(r, [1.0, 0.5, 8.0])}}
        if not cond:
            c["prop"] = int(r.integers(-2, 6)) if r.random() < 0.4 else 0
        return gen.long_hists(r, c)
    return gen.uniform(build)


def check(c):
    xs = gen.points(c["d"])
    n = len(xs[0])
    lat = "pts" in c["d"] or not c["d"].get("wide") and bool(c["d"].get("grid")) and c["d"]["scale"] in (1.0, 0.5, 8.0)
    hs = c["h"]
    pt = c.get("prop", 0)
    nw = len(O.te_bases(n - abs(pt) * c["step"], c["step"], *hs))
    kw = dict(approach="ksg" if c["how"] == "ksg" else "metric", k=c["k"], ksg_id=c["id"], minkowski_p=c["p"], noise_level=0, base=c["base"],
              src_hist_len=hs[0], dest_hist_len=hs[1], step_size=c["step"])
    if nw < c["k"] + 2:
        return None
    if c["cond"]:
        X, Z, Y = C.te_parts(xs[0], xs[1], hs[0], hs[1], c["step"], 0, xs[2], hs[2])
        kw.update(cond=xs[2], cond_hist_len=hs[2])
        m = "cte"
    else:
        X, Z, Y = C.te_parts(xs[0], xs[1], hs[0], hs[1], c["step"], pt)
        if pt or c["how"] == "e":
            kw["prop_time"] = pt
        m = "te"
    idx = C.at_points(len(X), np.random.default_rng(c["d"]["rng"])) if "at" in c else None  # of large samples, some points
    loc, ok = C.ksg_cmi([X, Y], Z, c["k"], c["id"], c["p"], lat, idx)
    loc = loc / O.ln_base(c["base"])
    e = im.estimator(xs[0], xs[1], measure=m, **kw)
    got = np.array(e.local_vals(), float)
    if idx is not None:
        require(got.shape == (len(X),), f"{m}: {got.shape} local values for {len(X)} windows")
        check_close(e.global_val(), got.mean(), f"mean of the local values of KSG {m}", 1e-9, 1e-9)
        got = got[idx]
    require(got.shape == loc.shape, f"{m}: {got.shape} local values for {loc.shape} windows")
    check_array(got[ok], loc[ok], f"local KSG {m}", 1e-8, 1e-9)
    if ok.all() and idx is None:
        check_close(e.global_val(), loc.mean(), f"KSG {m}", 1e-8, 1e-9)
        if c["how"] == "f":
            check_close(getattr(im, m)(xs[0], xs[1], **kw), loc.mean(), f"KSG {m} (functional)", 1e-8, 1e-9)
    if ok.mean() < 0.5 or np.ptp(loc) < 1e-9:
        return None
    return [f"type {c['id']}", f"p {c['p']}", f"step {c['step']}", "h " + ",".join(map(str, hs)) if max(hs) < 3 else "longer history", "vector" if max(C.as2d(x).shape[1] for x in xs) > 1 else "scalar"]


def build_once(r):
    return {"n": int(r.integers(150, 300)), "rng": int(r.integers(2**31)), "level": gen.pick(r, [0.25, 0.5, 1.0]), "m": gen.pick(r, ["te", "cte"]), "k": int(r.integers(2, 5))}


def check_once(c):
    """Noise of the given standard deviation is added once per series: compare the distribution of results with data noised by hand."""
    from scipy import stats

    r = np.random.default_rng(c["rng"])
    n, s, k = c["n"], c["level"], c["k"]
    x = r.integers(0, 4, n).astype(float)
    y = np.where(r.random(n) < 0.8, np.roll(x, 1), r.integers(0, 4, n)).astype(float)
    z = np.where(r.random(n) < 0.8, np.roll(x, 1), r.integers(0, 4, n)).astype(float)
    kw = {} if c["m"] == "te" else {"cond": z}
    f = lambda xx, yy, kk, lv: float(im.estimator(xx, yy, measure=c["m"], approach="metric", k=k, base="e", noise_level=lv, **kk).global_val())
    R = 60
    lib = [f(x, y, kw, s) for _ in range(R)]
    ref = [f(x + r.normal(0, s, n), y + r.normal(0, s, n), {} if not kw else {"cond": z + r.normal(0, s, n)}, 0) for _ in range(R)]
    if stats.mannwhitneyu(lib, ref).pvalue < 1e-7:
        lib = [f(x, y, kw, s) for _ in range(4 * R)]
        p = stats.mannwhitneyu(lib, ref).pvalue
        require(p > 1e-9, f"results with noise_level={s} are distributed differently from those of data with that noise added once per series (p={p:.1e}, means {np.mean(lib):.4f}, {np.mean(ref):.4f})")
    return [c["m"]]


SUBS = [Sub("large", uni(False, True), check, 20, 1200), Sub("cte, large", uni(True, True), check, 20, 1200), Sub("te", case(), check, 1300, 40000), Sub("cte", case(cond=True), check, 1000, 40000), Sub("te grid", uni(False), check, 1200, 40000), Sub("cte grid", uni(True), check, 1200, 40000),
        Sub("noise once", gen.uniform(build_once), check_once, 12, 200)]
