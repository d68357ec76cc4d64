from lib.common import *
from lib import calls, cont as C, oracles as O

RULE = ("All measures of the kernel, metric, Renyi and Tsallis approaches on tie-free real data (up to 3000 samples; 1-3 columns, 2-4 variables, all orders, k, norms, windows, also over many orders of magnitude): translation per column (also very far, on a dyadic lattice), common scaling (positive and negative, "
        "1e-5..1e5, box bandwidth scaled alike), sample order, argument order, column order within vector variables and joint tuples; local values follow. Non-trivial: the value is not zero.")
A = ["kernel", "metric", "renyi", "tsallis"]


def build(r, big=False):
    c = calls.build_big(r, A, top=0.4) if big else calls.build(r, approaches=A, n_hi=90)
    c["d"].update(grid=0, scale=1.0, shift=0.0)
    if c["m"] == "jsd":
        c["d"]["dims"] = [int(gen.pick(r, [1, 2]))] * c["nv"]
    c["a1"] = float(gen.pick(r, [1e-5, 0.01, 0.3, 2.0, 7.5, 1000.0, 1e5]) * gen.pick(r, [1, 1, -1]))
    c["how"] = gen.pick(r, ["f", "e"])
    c["rel"] = gen.pick(r, ["shift", "shift", "far", "scale", "scale", "order", "swap", "columns"])
    c["wide"] = float(gen.pick(r, [0, 0, 0, 1.0, 4.0, 10.0])) if c["rel"] != "shift" and c["a"] != "tsallis" else 0
    if c["wide"]:
        c["a1"] = float(gen.pick(r, [2.0**-30, 0.5, 4.0, -1.0, -(2.0**20)]))  # exact
    c["t"] = int(r.integers(2**31))
    return c


def get(c, xs, loc):
    """value and local values"""
    if c["how"] == "f" or c["m"] in ("kld", "jsd"):
        v = fnum(calls.value(c, xs))
        return v, (np.array(calls.est(c, xs).local_vals(), float) if loc else None)
    e = calls.est(c, xs)
    return fnum(e.global_val()), (np.array(e.local_vals(), float) if loc else None)


def check(c):
    xs = calls.data(c)
    m, a, p, rel = c["m"], c["a"], c["p"], c["rel"]
    loc = calls.has_local(c)
    if rel == "far":  # on a fine dyadic lattice even large shifts leave all differences exact
        xs = [np.round(x * 2.0**20) / 2.0**20 for x in xs]
    elif c.get("wide") and (a != "kernel" or p["kernel"] == "box"):
        xs = [x * np.exp(c["wide"] * np.abs(x)) for x in xs]
    v, lv = get(c, xs, loc)
    r = np.random.default_rng(c["t"])
    what = f"{a} {m} under {rel}"
    tol = dict(rtol=1e-6, atol=1e-6)
    lb = O.ln_base(c["base"])
    sig = lambda x: x + 0.0
    w, lw, add = None, None, 0.0
    if rel == "shift":
        # samples compared with each other move together
        one = r.normal(0, 5, 8) * 2
        ys = []
        for i, x in enumerate(xs):
            t = one if m in ("hx", "kld", "jsd") else r.normal(0, 10, 8)
            ys.append(x + (t[0] if x.ndim == 1 else t[: x.shape[1]]))
        w, lw = get(c, ys, loc)
    elif rel == "far":
        top = 12 if a == "kernel" and p["kernel"] == "gaussian" else 30
        one = np.floor(2.0 ** r.uniform(8, top)) * r.choice([-1, 1])
        ys = [x + (one if m in ("hx", "kld", "jsd") else np.floor(2.0 ** r.uniform(4, top))) for x in xs]
        w, lw = get(c, ys, loc)
    elif rel == "scale":
        s = c["a1"]
        ys = [x * s for x in xs]
        c2 = dict(c, p=dict(p))
        if a == "kernel" and p["kernel"] == "box":
            c2["p"]["bandwidth"] = p["bandwidth"] * abs(s)
        d = 1 if xs[0].ndim == 1 else xs[0].shape[1]
        if m == "hj":
            d = sum(1 if x.ndim == 1 else x.shape[1] for x in xs)
        q = p.get("q", 1)
        if a == "tsallis" and q != 1:
            if m not in ("h", "hj", "hx"):
                return None  # no invariance claimed
            w, _ = get(c2, ys, False)
            if v == 0:
                return None
            v1 = (1 - abs(s) ** (d * (1 - q)) * (1 - (q - 1) * v)) / (q - 1)
            check_close(w, v1, what, 1e-5, 1e-6 * (1 + abs(1 / (q - 1))))
            return [a, m, rel]
        if m in ("h", "hj", "hx"):
            add = d * np.log(abs(s)) / lb
        if m in ("hx", "kld") and a == "kernel" and p["kernel"] == "box":  # points without neighbours in the second sample contribute nothing
            hit = float((C.box(xs[1], p["bandwidth"], at=xs[0]) > 0).mean())
            add = d * np.log(abs(s)) / lb * (hit if m == "hx" else hit - 1)
        if m == "cmi" and a in ("renyi", "tsallis"):  # the documented form for more than two variables keeps multiples of H(z)'s dimension
            add = (len(xs) - 3) * (1 if xs[-1].ndim == 1 else xs[-1].shape[1]) * np.log(abs(s)) / lb
        w, lw = get(c2, ys, loc)
    elif rel == "order":
        if m in ("te", "cte") or c["w"].get("offset"):
            return None
        if m in ("hx", "kld", "jsd"):
            ys = [x[r.permutation(len(x))] for x in xs]
            w, lw = get(c, ys, False)
        else:
            o = r.permutation(len(xs[0]))
            w, lw = get(c, [x[o] for x in xs], loc)
            lv = lv[o] if loc else None
    elif rel == "swap":
        if m in ("h", "hx", "kld", "te", "cte"):
            return None
        if m == "mi" and c["w"].get("offset"):
            c2 = dict(c, w={"offset": -c["w"]["offset"]})
            ys = xs[::-1]
        else:
            c2 = c
            k = len(xs) - (m == "cmi")
            ys = [xs[i] for i in r.permutation(k)] + xs[k:]
        w, lw = get(c2, ys, loc)
    else:
        if all(x.ndim == 1 for x in xs):
            return None
        if m in ("hx", "kld", "jsd"):
            o = r.permutation(xs[0].shape[1])
            ys = [x[:, o] for x in xs]
        else:
            ys = [x if x.ndim == 1 else x[:, r.permutation(x.shape[1])] for x in xs]
        w, lw = get(c, ys, loc)
    if not np.isfinite(v):
        return None
    check_close(w, v + add, what, **tol)
    if loc and lw is not None:
        check_array(lw, lv + add, f"local {what}", 1e-5, 1e-5)
    return [a, m, rel] if abs(v) > 1e-12 else None


SUBS = [Sub("large", gen.uniform(lambda r: build(r, True)), check, 60, 3000), Sub("metamorphic", gen.uniform(build), check, 12000, 200000)]
