from lib.common import *
from lib import cont as C

RULE = ("Box and Gaussian kernel entropy (plain, joint, cross) with bandwidths 0.05-20, 1-6 dimensions, lattices with points exactly on window edges, data spanning fewer dimensions than columns (copies, linear combinations, lines, two points, constants), "
        "scales 1e-6..1e5, against direct summation over all pairs; worker counts 1, 2, -1, large samples through the parallel path, Fortran-ordered and strided inputs. "
        "Non-trivial: more than one distinct density.")


def build(r):
    m = gen.pick(r, ["h", "h", "hj", "hx"])
    d = int(gen.pick(r, [1, 1, 2, 3, 4, 1, 2, 3, 4, 6])) if m != "hj" else int(gen.pick(r, [2, 3, 2, 3, 5, 6]))
    sc = gen.pick(r, [1.0, 1.0, 0.5, 8.0, 1e-6, 1e5])
    n = int(r.integers(d + 3, 160))
    D = lambda n: {"rng": int(r.integers(2**31)), "n": n, "dims": [d], "dep": gen.pick(r, [0.0, 0.5, 0.9]), "grid": gen.pick(r, [0, 0, 0.5, 0.25]), "scale": sc, "shift": gen.pick(r, [0.0, 3.0])}
    kern = gen.pick(r, ["box", "gaussian"])
    bw = gen.pick(r, [0.25, 0.5, 1, 1.0, 1.5, 2, 3.0, 0.7, 0.1, 6.0])
    if r.random() < 0.1 and (kern == "box" or m == "hx"):
        n = int(r.integers(1, 4))  # very few samples, down to one
    c = {"m": m, "kernel": kern, "bw": bw * sc if kern == "box" else bw, "base": gen.base_rng(r), "d": D(n), "how": gen.pick(r, ["f", "e"]), "dup": gen.pick(r, ["copy", "combination", "combination", "line", "two", "constant"]) if d > 1 and kern == "gaussian" and r.random() < 0.25 else "",
         "lay": gen.pick(r, ["c", "c", "f", "strided", "list", "f32"]), "workers": gen.pick(r, [None, None, 1, 2, -1])}
    if m == "hx":
        c["d2"] = D(int(r.integers(d + 3, 160)))
    return c


def build_mid(r):
    c = build(r)
    c["d"]["n"] = gen.big_n(r, 3000)
    if "d2" in c:
        c["d2"]["n"] = gen.big_n(r, 3000)
    return c


@st.composite
def small(draw):
    c = {"m": "h", "kernel": "box", "bw": draw(st.sampled_from([1, 2, 0.5, 0.25, 3.0, 1.5, 4])), "base": draw(BASES), "how": "e", "dup": False, "lay": "c", "workers": None}
    c["d"] = draw(gen.real([draw(st.sampled_from([1, 2]))], min_n=2, max_n=14, p_rng=0.0))
    return c


def lay(x, how):
    if how == "f" and x.ndim == 2:
        return np.asfortranarray(x)
    if how == "strided":
        b = np.repeat(x, 2, axis=0)
        return b[::2]
    if how == "list" and x.ndim == 1:
        return x.tolist()
    return x


def deficient(x, how, seed):
    """data that span fewer dimensions than they have columns"""
    if not how or x.ndim < 2 or x.shape[1] < 2 or len(x) < 2:
        return x
    r = np.random.default_rng([seed, 5])
    x = x.copy()
    d = x.shape[1]
    if how == "copy":
        x[:, -1] = x[:, 0] * r.choice([1.0, 2.0])
    elif how == "combination":
        x[:, -1] = x[:, :-1] @ r.normal(size=d - 1)
    elif how == "line":
        x = np.outer(x[:, 0], r.normal(size=d))
    elif how == "two":
        x = x[r.integers(0, 2, len(x))]
    else:
        x[:, int(r.integers(d))] = 1.5
    return x


def check(c):
    (x,) = gen.points(c["d"])
    if c["lay"] == "f32" and c["kernel"] == "box":
        x = np.round(x * 64) / 64  # exact in float32
    x = deficient(x, c["dup"], c["d"].get("rng"))
    kw = dict(approach="kernel", kernel=c["kernel"], bandwidth=c["bw"], base=c["base"])
    if c["workers"]:
        kw["workers"] = c["workers"]
    f = C.density(c["kernel"], c["bw"])
    lb = O.ln_base(c["base"])
    if c["kernel"] == "gaussian":
        if c["m"] != "hx" and C.ambiguous(x):
            return None
    if c["m"] == "hx":
        (y,) = gen.points(c["d2"])
        y = deficient(y, c["dup"], c["d2"]["rng"])
        if c["kernel"] == "gaussian" and C.ambiguous(y):
            return None
        dens = f(y, x)
        if c["kernel"] == "gaussian" and (dens < 1e-290).any():
            return None
        want = -math_sum(np.log(dens[dens > 0])) / len(dens) / lb
        check_close(im.hx(x, y, **kw) if c["how"] == "f" else im.estimator(x, y, measure="hx", **kw).global_val(), want, "kernel cross-entropy", 1e-7, 1e-8)
        return [c["kernel"], "hx", f"d{C.as2d(x).shape[1]}", "gaps" if (dens == 0).any() else "covered"]
    want = -np.log(f(x)) / lb
    arg = tuple(lay(np.ascontiguousarray(v), c["lay"]) for v in x.T) if c["m"] == "hj" else lay(x, c["lay"])
    e = im.estimator(arg, measure="entropy", **kw)
    check_array(e.local_vals(), want, f"local {c['kernel']} kernel entropy", 1e-7, 1e-8)
    check_close(e.global_val(), want.mean(), f"{c['kernel']} kernel entropy", 1e-7, 1e-8)
    if c["how"] == "f":
        check_close(im.entropy(arg, **kw), want.mean(), f"{c['kernel']} kernel entropy (functional)", 1e-7, 1e-8)
    if np.ptp(want) < 1e-9:
        return None
    edge = c["kernel"] == "box" and C.box_doubt(x, c["bw"]).any()
    return [c["kernel"], c["m"], f"d{C.as2d(x).shape[1]}", "edge" if edge else "no edge", c["dup"] if c["dup"] else "full rank", f"workers {c['workers']}"]


def math_sum(a):
    import math

    return math.fsum(a.tolist())


def build_big(r):
    return {"n": int(r.integers(20000, 23000)), "n2": int(r.integers(8000, 17000)), "rng": int(r.integers(2**31)), "d": int(r.integers(1, 3)), "kernel": gen.pick(r, ["gaussian", "gaussian", "box"]),
            "workers": gen.pick(r, [2, 3, 8, -1]), "m": gen.pick(r, ["h", "hx"]), "bw": gen.pick(r, [0.1, 0.5])}


def chunked(f, x, at):
    return np.concatenate([f(x, at[i : i + 500]) for i in range(0, len(at), 500)])


def check_big(c):
    """Enough samples for the parallel path, against direct summation (at sampled points for the plain entropy)."""
    r = np.random.default_rng(c["rng"])
    x = r.normal(0, 1, (c["n"], c["d"])) @ (np.eye(c["d"]) + 0.3)
    x = x[np.argsort(x[:, 0])]  # results of different parts of the data differ
    f = C.density(c["kernel"], c["bw"])
    kw = dict(approach="kernel", kernel=c["kernel"], bandwidth=c["bw"], workers=c["workers"], base=2)
    flat = (lambda v: v[:, 0]) if c["d"] == 1 else (lambda v: v)
    if c["m"] == "hx":
        p = x[r.permutation(c["n"])[: c["n2"]]] * 1.1 + 0.25
        p[: c["n2"] // 2] *= 0.3
        dens = chunked(f, x, p)
        want = -math_sum(np.log2(dens[dens > 0])) / len(p)
        check_close(im.hx(flat(p), flat(x), **kw), want, f"{c['kernel']} cross-entropy on {c['workers']} workers", 1e-7, 1e-8)
        return [c["kernel"], "hx", f"workers {c['workers']}"]
    e = im.estimator(flat(x), measure="h", **kw)
    got = np.asarray(e.local_vals(), float)
    require(got.shape == (c["n"],), f"{got.shape} local values of {c['n']} samples")
    idx = np.unique(np.concatenate([r.integers(0, c["n"], 60), [0, 1, c["n"] - 1, c["n"] // 2, c["n"] // 3, 7999, 8000, 10000]]))
    check_array(got[idx], -np.log2(f(x, x[idx])), f"local {c['kernel']} entropy on {c['workers']} workers", 1e-7, 1e-8)
    check_close(e.global_val(), math_sum(got) / len(got), "mean of the local values", 1e-9, 1e-9)
    return [c["kernel"], "h", f"workers {c['workers']}"]


SUBS = [Sub("thousands", gen.uniform(build_mid), check, 30, 1500), Sub("entropy", gen.uniform(build), check, 2200, 80000), Sub("small box", small(), check, 800, 20000), Sub("large", gen.uniform(build_big), check_big, 4, 60, shards=4)]
