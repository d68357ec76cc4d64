from lib.common import *
from lib import cont as C

RULE = ("Kernel MI (2-6 variables), CMI (2-4 variables), TE (propagation time, histories 1-3, steps 1-4), CTE; box and Gaussian, bandwidths 0.1-6, variables and condition of 1-3 dimensions, "
        "lattices with points on window edges, several scales, up to 4000 points and several workers, against log ratios of directly summed densities, global and local. Non-trivial: local values not all equal, no subspace of doubtful rank (exactly dependent variables are included).")


def build(r):
    m = gen.pick(r, ["mi", "mi", "cmi", "cmi", "te", "te", "cte"])
    nv = {"mi": int(gen.pick(r, [2, 2, 3, 4, 2, 2, 3, 4, 5, 6])), "cmi": int(gen.pick(r, [3, 3, 4, 3, 3, 4, 5])), "te": 2, "cte": 3}[m]
    kern = gen.pick(r, ["box", "gaussian"])
    sc = gen.pick(r, [1.0, 1.0, 0.5, 8.0, 1e-6, 1e4])
    vec = m in ("mi", "cmi") or r.random() < 0.2
    dims = [int(gen.pick(r, [1, 1, 2, 3])) if vec else 1 for _ in range(nv)]
    bw = gen.pick(r, [0.25, 0.5, 1, 1.0, 1.5, 2, 3.0, 0.7, 6.0])
    c = {"m": m, "kernel": kern, "bw": bw * sc if kern == "box" else bw, "base": gen.base_rng(r), "how": gen.pick(r, ["f", "e"]),
         "d": {"rng": int(r.integers(2**31)), "n": int(r.integers(30, 150)), "dims": dims, "dep": gen.pick(r, [0.0, 0.5, 0.9]), "grid": gen.pick(r, [0, 0, 0.5, 0.25]), "scale": sc, "shift": gen.pick(r, [0.0, 3.0])}}
    if m in ("te", "cte"):
        c["h"] = [int(r.integers(1, 4)) for _ in range(nv)]
        c["step"] = int(r.integers(1, 5))
        if m == "te":
            c["prop"] = int(gen.pick(r, [0, 0, 1, 3, -2]))
        if kern == "box":
            gen.long_hists(r, c, 0.08)
    elif kern == "box" and m == "mi" and nv == 2 and r.random() < 0.3:
        c["offset"] = int(r.integers(-3, 4))
    if kern == "gaussian" and r.random() < 0.25:
        c["det"] = "lag" if m in ("te", "cte") else gen.pick(r, ["linear", "copy"])
    return c


def determined(xs, how, step, seed):
    """one variable follows exactly from the others: the joint space is rank deficient"""
    if not how:
        return xs
    r = np.random.default_rng([seed, 3])
    xs = [x.copy() for x in xs]
    if how == "lag":
        i = int(r.integers(1, len(xs)))
        xs[i] = np.roll(xs[0], step * int(r.integers(1, 3)), axis=0)
        return xs
    i = int(r.integers(len(xs)))
    rest = C.blocks(*[x for k, x in enumerate(xs) if k != i])
    d = C.as2d(xs[i]).shape[1]
    y = rest @ r.normal(size=(rest.shape[1], d)) if how == "linear" else rest[:, r.integers(0, rest.shape[1], d)]
    xs[i] = y[:, 0] if xs[i].ndim == 1 else y
    return xs


def build_large(r):
    c = build(r)
    c["d"]["n"] = c["at"] = gen.big_n(r, 4000)
    if c["m"] in ("te", "cte"):
        c["h"] = [int(gen.pick(r, [1, 1, 2, 3])) for _ in c["h"]]
        c["step"] = int(gen.pick(r, [1, 2, 3, 7]))
        if c.get("prop"):
            c["prop"] = int(r.integers(-20, 21))
    elif c.get("offset"):
        c["offset"] = int(r.integers(-60, 61))
    if r.random() < 0.4:
        c["workers"] = int(gen.pick(r, [1, 2, 3, -1]))
    return c


@st.composite
def small(draw):
    m = draw(st.sampled_from(["mi", "cmi", "te", "cte"]))
    nv = {"mi": 2, "cmi": 3, "te": 2, "cte": 3}[m]
    c = {"m": m, "kernel": "box", "bw": draw(st.sampled_from([1, 2, 0.5, 3.0, 1.5, 4])), "base": draw(BASES), "how": "e"}
    if m in ("te", "cte"):
        c["h"] = [draw(st.integers(1, 2)) for _ in range(nv)]
        c["step"] = draw(st.integers(1, 2))
        if m == "te":
            c["prop"] = draw(st.sampled_from([0, 1]))
        dims = [1] * nv
    else:
        dims = [draw(st.sampled_from([1, 1, 2])) for _ in range(nv)]
    c["d"] = draw(gen.real(dims, min_n=8, max_n=16, p_rng=0.0))
    return c


def check(c):
    xs = determined(gen.points(c["d"]), c.get("det"), c.get("step", 1), c["d"].get("rng"))
    m, h, kern = c["m"], c["bw"], c["kernel"]
    kw = dict(approach="kernel", kernel=kern, bandwidth=h, base=c["base"])
    if m == "mi":
        pos = xs
        if c.get("offset"):
            o = c["offset"]
            kw["offset"] = o
            xs = [xs[0][:-o], xs[1][o:]] if o > 0 else [xs[0][-o:], xs[1][:o]]
        spaces = [C.blocks(*xs)] + list(xs)
        signs = [1] + [-1] * len(xs)
    elif m == "cmi":
        z, vs = xs[-1], xs[:-1]
        pos, kw["cond"] = vs, z
        spaces = [C.blocks(*xs), z] + [C.blocks(v, z) for v in vs]
        signs = [1, 1] + [-1] * len(vs)
    else:
        hs, pt = c["h"], c.get("prop", 0)
        if len(O.te_bases(len(xs[0]) - abs(pt) * c["step"], c["step"], *hs)) < (2 if kern == "box" else 12):
            return None
        X, Z, Y = C.te_parts(xs[0], xs[1], hs[0], hs[1], c["step"], pt, *((xs[2], hs[2]) if m == "cte" else ()))
        spaces = [C.blocks(X, Z, Y), Z, C.blocks(X, Z), C.blocks(Z, Y)]
        signs = [1, 1, -1, -1]
        pos = xs[:2]
        kw.update(src_hist_len=hs[0], dest_hist_len=hs[1], step_size=c["step"])
        if m == "cte":
            kw.update(cond=xs[2], cond_hist_len=hs[2])
        elif pt:
            kw["prop_time"] = pt
    if kern == "gaussian" and C.ambiguous(*spaces):
        return None
    f = C.density(kern, h)
    if c.get("workers"):
        kw["workers"] = c["workers"]
    e = im.estimator(*pos, measure=m, **kw)
    if "at" in c:  # of large samples, some points
        got = np.asarray(e.local_vals(), float)
        require(got.shape == (len(spaces[0]),), f"{m}: {got.shape} local values for {len(spaces[0])} points")
        idx = C.at_points(len(got), np.random.default_rng(c["d"]["rng"]), 200)
        check_array(got[idx], sum(s * np.log(f(sp, sp[idx])) for s, sp in zip(signs, map(C.as2d, spaces))) / O.ln_base(c["base"]), f"local {kern} kernel {m}", 1e-6, 1e-7)
        check_close(e.global_val(), got.mean(), f"mean of the local values of {kern} kernel {m}", 1e-9, 1e-9)
        return [m, kern, f"workers {c.get('workers')}"]
    loc = sum(s * np.log(f(sp)) for s, sp in zip(signs, spaces)) / O.ln_base(c["base"])
    check_array(e.local_vals(), loc, f"local {kern} kernel {m}", 1e-6, 1e-7)
    check_close(e.global_val(), loc.mean(), f"{kern} kernel {m}", 1e-6, 1e-7)
    if c["how"] == "f":
        check_close(getattr(im, m)(*pos, **kw), loc.mean(), f"{kern} kernel {m} (functional)", 1e-6, 1e-7)
    if np.ptp(loc) < 1e-9:
        return None
    edge = kern == "box" and any(C.box_doubt(s, h).any() for s in spaces)
    return [m, kern, "vector" if max(C.as2d(x).shape[1] for x in xs) > 1 else "scalar", "edge" if edge else "no edge"] + (["longer history"] if max(c.get("h", [1])) > 1 else []) + ([c["det"]] if c.get("det") else [])


SUBS = [Sub("large", gen.uniform(build_large), check, 50, 2500), Sub("kernel", gen.uniform(build), check, 3000, 100000), Sub("small box", small(), check, 1000, 30000)]
