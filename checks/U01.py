import importlib
from itertools import permutations
from math import factorial, lgamma

from lib.common import *
from lib import cont, ordi


def helper(path):
    """a documented helper function; None where the package no longer has it under this name"""
    mod, name = path.split(":")
    try:
        return getattr(importlib.import_module(f"infomeasure.estimators.utils.{mod}"), name, None)
    except ImportError:
        return None


TE, CTE = helper("te_slicing:te_observations"), helper("te_slicing:cte_observations")
SYMBOLS, CODE, REDUCE = helper("ordinal:symbolize_series"), helper("ordinal:permutation_to_integer"), helper("ordinal:reduce_joint_space")
MI_G, MI_L, CMI_G, CMI_L = (helper(f"discrete_interaction_information:{n}mutual_information_{g}") for n in ("", "conditional_") for g in ("global", "local"))
KDE, NEIGH, BALL = helper("kde:kde_probability_density_function"), helper("exponential_family:calculate_common_entropy_components"), helper("unit_ball_volume:unit_ball_volume")
NORM, TWO_D = helper("normalize:normalize_data_0_1"), helper("array:assure_2d_data")


def needs(*fns):
    """cases of helpers that no longer exist are trivial"""
    def deco(check):
        return check if all(fns) else (lambda c: None)
    return deco


RULE = ("The documented building blocks called on their own: embedding windows of transfer entropies (scalar, vector, string series; any histories, steps; permuted, resampled, separate or joint spaces), ordinal symbols and their integer codes "
        "(all permutations up to 7, random ones up to 20), joint-space reduction, plug-in (conditional) mutual information of label arrays with any logarithm, kernel densities at arbitrary points, neighbour components, ball volumes, scaling, shape helpers; "
        "oracle: index-by-index construction, lexicographic ranks, exhaustive distances, direct formulas. Non-trivial: more than one window/row/symbol and a non-constant result.")


# ------------------------------------------------------------------ windows
def build_win(r):
    return {"t": int(r.integers(2**31)), "n": int(r.integers(3, 60)) if r.random() < 0.9 else int(r.integers(200, 3000)), "h": [int(r.integers(1, 6)) for _ in range(3)], "step": int(gen.pick(r, [1, 1, 2, 3, 5])),
            "dims": [int(gen.pick(r, [1, 1, 1, 2, 3])) for _ in range(3)], "typ": gen.pick(r, ["f", "f", "i", "s"]), "cond": bool(r.random() < 0.5), "joint": bool(r.random() < 0.5),
            "null": gen.pick(r, [None, None, "permute", "resample", "permute seeded", "resample seeded", "both"])}


def series_win(c):
    r = np.random.default_rng(c["t"])
    out = []
    for i, d in enumerate(c["dims"][: 3 if c["cond"] else 2]):
        x = r.permutation(c["n"] * d).reshape((c["n"], d) if d > 1 else c["n"]) + 10**5 * (i + 1)
        out.append({"f": x / 4, "i": x, "s": x.astype(str)}[c["typ"]])
    return out


def rows_of(x, hist, step, at, n):
    """history rows by explicit indices: oldest first, the last entry `step` before the present"""
    flat = x.reshape(n, -1).tolist()
    return [sum((flat[t - j * step] for j in range(hist, 0, -1)), []) for t in at]


def table(x):
    return [list(row) if isinstance(row, list) else [row] for row in np.asarray(x).tolist()]


@needs(TE, CTE)
def check_win(c):
    xs = series_win(c)
    n, step, (sh, dh, ch) = c["n"], c["step"], c["h"]
    hists = [sh, dh] + ([ch] if c["cond"] else [])
    kw = dict(src_hist_len=sh, dest_hist_len=dh, step_size=step, construct_joint_spaces=c["joint"])
    if c["cond"]:
        kw["cond_hist_len"] = ch
    fn = CTE if c["cond"] else TE
    what = f"{'cte' if c['cond'] else 'te'}_observations(n={n}, histories {hists}, step {step}, {c['null']})"
    keep = [x.copy() for x in xs]
    null = c["null"] or ""
    if null == "both":
        kw.update(permute_src=True, resample_src=True)
    elif null:
        kw["permute_src" if "permute" in null else "resample_src"] = np.random.default_rng(c["t"]) if "seeded" in null else True
    lag = max(hists) * step
    if lag >= n or null == "both":
        raises(ValueError, lambda: fn(*xs, **kw), what)
        return ["refused"]
    at = range(lag, n, step)
    src, dst = rows_of(xs[0], sh, step, at, n), rows_of(xs[1], dh, step, at, n)
    fut = [xs[1].reshape(n, -1).tolist()[t] for t in at]
    cnd = rows_of(xs[2], ch, step, at, n) if c["cond"] else None
    got = fn(*xs, **kw)
    require(all(np.array_equal(a, b) for a, b in zip(xs, keep)), f"{what}: series changed")
    if "seeded" in null:
        kw["permute_src" if "permute" in null else "resample_src"] = np.random.default_rng(c["t"])
        require(all(np.array_equal(a, b) for a, b in zip(got, fn(*xs, **kw))), f"{what}: the same generator gives other windows")
    if c["joint"]:
        require(len(got) == 4, f"{what}: {len(got)} spaces")
        tabs = [table(g) for g in got]
        w = len(src[0])
        # the source history occupies the same columns of the first and third space, the others are complete without it
        rest = [dst, [a + b for a, b in zip(dst, fut)]]
        if c["cond"]:
            rest = [[a + b for a, b in zip(q, cnd)] for q in rest]
        for g, q, name in ((tabs[1], rest[0], "past"), (tabs[3], rest[1], "second marginal")):
            require(len(g) == len(q) and all(sorted(a) == sorted(b) for a, b in zip(g, q)), f"{what}: {name} space has other columns than documented")
            require(sorted(map(tuple, zip(*g))) == sorted(map(tuple, zip(*q))), f"{what}: {name} space mixes columns")
        for g, q, name in ((tabs[2], rest[0], "first marginal"), (tabs[0], rest[1], "joint")):
            require(len(g) == len(q) and len(g[0]) == w + len(q[0]), f"{what}: {name} space has the wrong shape")
            cols = set(map(tuple, zip(*q)))
            extra = [k for k in zip(*g) if tuple(k) not in cols]
            require(len(extra) == w and len(set(map(tuple, zip(*g))) - set(map(tuple, extra))) == len(cols), f"{what}: {name} space lacks columns")
            got_src = [list(row) for row in zip(*extra)]
            verify_src(got_src, src, null, f"{what}: {name} space")
    else:
        require(len(got) == (4 if c["cond"] else 3), f"{what}: {len(got)} parts")
        tabs = [table(g) for g in got]
        require(tabs[1] == dst, f"{what}: destination history")
        require(tabs[2] == fut, f"{what}: destination future")
        require(not c["cond"] or tabs[3] == cnd, f"{what}: condition history")
        verify_src(tabs[0], src, null, what)
    return [null or "plain", "cte" if c["cond"] else "te", "joint" if c["joint"] else "parts"] if len(src) > 1 else None


def verify_src(got, src, null, what):
    if not null:
        require(got == src, f"{what}: source history")
    elif "permute" in null:
        require(sorted(got) == sorted(src), f"{what}: permuted source windows are not the source windows")
        require(len(src) < 30 or got != src, f"{what}: nothing permuted")
    else:
        pool = set(map(tuple, src))
        require(len(got) == len(src) and all(tuple(g) in pool for g in got), f"{what}: resampled source windows are not source windows")
        require(len(src) < 30 or len(set(map(tuple, got))) < len(src), f"{what}: nothing drawn twice")


# ------------------------------------------------------------------ ordinal symbols
def build_ord(r):
    return {"t": int(r.integers(2**31)), "n": int(r.integers(1, 80)) if r.random() < 0.9 else int(r.integers(500, 3000)), "m": int(gen.pick(r, [1, 2, 3, 3, 4, 5, 6, 7, 9, 13, 15, 20])), "step": int(gen.pick(r, [1, 1, 2, 3, 7])),
            "levels": int(gen.pick(r, [0, 2, 3, 10])), "lay": gen.pick(r, ["plain", "strided", "reversed", "int", "f4"])}


def rank(perm):
    p, out = list(perm), 0
    for i in range(len(p)):
        out += sum(b < p[i] for b in p[i + 1:]) * factorial(len(p) - 1 - i)
    return out


@needs(SYMBOLS, CODE)
def check_ord(c):
    r = np.random.default_rng(c["t"])
    n, m, step = c["n"], c["m"], c["step"]
    x = r.normal(size=n) if not c["levels"] else r.integers(-c["levels"], c["levels"], n) * 1.0
    if c["lay"] == "int" and c["levels"]:
        x = x.astype(int)
    elif c["lay"] == "f4":
        x = x.astype("f4")
    vals = x.tolist()
    if c["lay"] == "strided":
        x = np.repeat(x, 2)[::2]
    elif c["lay"] == "reversed":
        x = x[::-1].copy()[::-1]
    nw = n - (m - 1) * step
    what = f"symbolize_series(n={n}, {m}, {step})"
    if nw < 1:
        return ["short"]
    want = [sorted(range(m), key=lambda j: (vals[t + j * step], j)) for t in range(nw)]
    got = SYMBOLS(x, m, step, stable=True)
    require(np.asarray(got).shape == (nw, m) and np.asarray(got).tolist() == want, f"{what}: patterns of the windows")
    codes = np.asarray(SYMBOLS(x, m, step, to_int=True, stable=True)).tolist()
    require(len(codes) == nw, f"{what}: {len(codes)} codes for {nw} windows")
    ranks = [rank(p) for p in want]
    require([int(k) for k in codes] == ranks, f"{what}: integer codes are not the ranks of the patterns")
    if not c["levels"] and len(set(vals)) == n:
        require(np.asarray(SYMBOLS(x, m, step)).tolist() == want, f"{what}: patterns without ties depend on the sorting method")
    for p, k in list(zip(want, ranks))[:20]:
        require(int(CODE(np.array(p))) == k, f"permutation_to_integer({p})")
    return [f"m={m}"] if len(set(ranks)) > 1 else None


def build_perm(r):
    return {"m": int(r.integers(1, 24)), "t": int(r.integers(2**31))}


@needs(CODE)
def check_perm(c):
    m = c["m"]
    if m <= 6:
        got = [int(CODE(np.array(p))) for p in permutations(range(m))]
        require(got == list(range(factorial(m))), f"codes of all permutations of {m} are not their lexicographic ranks")
        return ["all"] if m > 1 else None
    r = np.random.default_rng(c["t"])
    if m > 20:
        raises(ValueError, lambda: CODE(r.permutation(m)), f"permutation of {m}")
        return ["refused"]
    for p in [r.permutation(m) for _ in range(4)] + [np.arange(m), np.arange(m)[::-1]]:
        require(int(CODE(p)) == rank(p.tolist()), f"permutation_to_integer({p.tolist()}) is not its lexicographic rank")
    return ["random"]


# ------------------------------------------------------------------ joint spaces and label arrays
def build_red(r):
    return {"t": int(r.integers(2**31)), "n": int(r.integers(1, 60)) if r.random() < 0.9 else int(r.integers(1000, 20000)), "nv": int(r.integers(1, 7)), "k": int(gen.pick(r, [2, 3, 10, 300, 10**6])), "neg": bool(r.random() < 0.3),
            "typ": [gen.pick(r, ["i8", "i8", "f8", "U3", "?", "u1", "i2"]) for _ in range(7)], "mix": bool(r.random() < 0.5), "how": gen.pick(r, ["array", "tuple", "tuple", "generator", "wide", "1d", "list", "3d"])}


@needs(REDUCE)
def check_red(c):
    r = np.random.default_rng(c["t"])
    n = c["n"]
    cols = []
    for i in range(c["nv"]):
        x = r.integers(0, c["k"], n) - (c["k"] // 2 if c["neg"] else 0)
        t = c["typ"][i if c["mix"] else 0]
        cols.append((x % 200).astype("u1") if t == "u1" else (x % 30000).astype("i2") if t == "i2" else x.astype("U7") if t == "U3" else x % 2 == 1 if t == "?" else x / 8 if t == "f8" else x)
    how = c["how"]
    f = REDUCE
    if how == "1d":
        require(np.array_equal(f(cols[0]), cols[0]), "reduce_joint_space: one-dimensional data is returned as it is")
        return ["1d"]
    if how == "list":
        raises(ValueError, lambda: f(list(cols)), "reduce_joint_space of a list")
        return ["refused"]
    if how == "3d":
        raises(ValueError, lambda: f(np.zeros((2, n, 2))), "reduce_joint_space of a three-dimensional array")
        return ["refused"]
    key = list(zip(*[x.tolist() for x in cols]))
    if how == "array":
        if c["mix"]:
            cols = [x.astype("i8") if x.dtype.kind != "U" else np.unique(x, return_inverse=True)[1] for x in cols]
            key = list(zip(*[x.tolist() for x in cols]))
        arg = np.column_stack(cols)
    elif how == "wide":  # variables that are themselves vectors
        arg = tuple(np.column_stack([x, x[::-1]]) if i % 2 else x for i, x in enumerate(cols))
        key = [k + tuple(x.tolist()[n - 1 - t] for i, x in enumerate(cols) if i % 2) for t, k in enumerate(key)]
    else:
        arg = tuple(cols) if how == "tuple" else (x for x in cols)
    got = np.asarray(f(arg))
    if how != "array" and len(cols) == 1 and got.ndim == 1 and got.dtype.kind != "i":
        got = np.unique(got, return_inverse=True)[1]
    what = f"reduce_joint_space of {len(cols)} variables of {sorted({x.dtype.str for x in cols})} ({how})"
    require(got.shape == (n,), f"{what}: shape {got.shape}")
    pairs = set(zip(key, got.tolist()))
    require(len(pairs) == len(set(key)) == len(set(got.tolist())), f"{what}: {len(set(got.tolist()))} codes for {len(set(key))} different rows")
    require(sorted(set(got.tolist())) == list(range(len(set(key)))), f"{what}: codes are not 0 .. number of rows - 1")
    return [how] if len(set(key)) > 1 and len(cols) > 1 else None


def build_info(r):
    return {"d": gen.disc_rng(r, int(r.integers(3, 6)), 2, 80), "base": gen.pick(r, ["e", 2, 10]), "cond": bool(r.random() < 0.5), "mm": bool(r.random() < 0.4), "wide": bool(r.random() < 0.3), "str": bool(r.random() < 0.2)}


@needs(MI_G, MI_L, CMI_G, CMI_L)
def check_info(c):
    xs = gen.cols(c["d"])
    z, xs = (xs[-1], xs[:-1]) if c["cond"] else (None, xs)
    xs = [np.asarray(x) for x in xs]
    lists = [x.tolist() for x in xs]
    if c["str"]:
        xs[0] = xs[0].astype(str)
    if c["wide"]:
        xs[-1] = np.column_stack([xs[-1], xs[-1] % 2])
    log = {"e": np.log, 2: np.log2, 10: np.log10}[c["base"]]
    kw = {"log_func": log}
    if c["mm"]:
        kw["miller_madow_correction"] = c["base"]
    a = "miller_madow" if c["mm"] else "discrete"
    if c["cond"]:
        zl = np.asarray(z).tolist()
        plus = [O.rows(x, zl) for x in lists]
        minus = [O.rows(*lists, zl), zl]  # the documented general form: one condition term
        g, lo = CMI_G, CMI_L
        kw["cond"] = np.asarray(z)
    else:
        plus, minus = lists, [O.rows(*lists)]
        g, lo = MI_G, MI_L
    want = O.combine("discrete", plus, minus, base=c["base"])
    n = len(lists[0])
    if c["mm"]:
        if c["cond"]:
            corr = (sum(len(set(p)) - 1 for p in plus) - (len(set(minus[0])) - 1) - (len(set(zl)) - 1)) / (2 * n)
        else:
            corr = (sum(len(set(p)) - 1 for p in plus) - (len(set(minus[0])) - 1)) / (2 * n)
        want += corr / O.ln_base(c["base"])
    what = f"{'conditional ' if c['cond'] else ''}mutual information of {len(xs)} label arrays{' with Miller-Madow correction' if c['mm'] else ''}, base {c['base']}"
    if c["mm"] and sum(len(set(x)) > 1 for x in lists) < 2:
        return ["constant"]
    check_close(fnum(g(*xs, **kw)), want, what, 1e-9, 1e-9)
    loc = np.asarray(lo(*xs, **kw), float)
    require(loc.shape == (n,), f"local {what}: shape {loc.shape}")
    check_close(float(loc.mean()), want, f"mean of local {what}", 1e-9, 1e-9)
    return ["cmi" if c["cond"] else "mi", a] if abs(want) > 1e-9 else None


# ------------------------------------------------------------------ continuous helpers
def build_cont(r):
    return {"t": int(r.integers(2**31)), "n": int(r.integers(4, 60)) if r.random() < 0.9 else int(r.integers(300, 2500)), "d": int(gen.pick(r, [1, 1, 2, 3, 5, 8])), "na": int(gen.pick(r, [0, 1, 2, 7, 30])), "k": int(gen.pick(r, [1, 1, 2, 3, 8])),
            "h": float(gen.pick(r, [0.1, 0.5, 1.0, 2.0, 3.3])), "kernel": gen.pick(r, ["box", "gaussian"]), "scale": float(gen.pick(r, [1.0, 1.0, 1e-3, 50.0]))}


@needs(KDE, NEIGH)
def check_cont(c):
    r = np.random.default_rng(c["t"])
    n, d = c["n"], c["d"]
    x = r.normal(size=(n, d)) * c["scale"]
    at = r.normal(size=(c["na"], d)) * c["scale"] if c["na"] else None
    lab = []
    h = c["h"] * (c["scale"] if c["kernel"] == "box" else 1)
    if c["kernel"] == "box" or n > 2 * d + 3:
        got = KDE(x, h, at=at, kernel=c["kernel"], workers=1)
        want = cont.box(x, h, at) if c["kernel"] == "box" else cont.gauss(x, h, at)
        want = np.asarray(want, float)
        got = np.asarray(got, float)
        require(got.shape == want.shape, f"{c['kernel']} density: shape {got.shape}")
        ok = want > 1e-250
        check_array(np.log(got[ok]), np.log(want[ok]), f"{c['kernel']} density of {n} points in {d} dimensions, bandwidth {h}", 1e-7, 1e-7)
        require(c["kernel"] != "box" or np.all(got[~ok] == 0), "box density where no point lies")
        lab.append(c["kernel"])
    k = min(c["k"], n - 1)
    V, rho, N, m = NEIGH(x, k, at=at)
    D = np.sqrt(((x[:, None] - (x if at is None else at)[None]) ** 2).sum(-1)) if n <= 300 else None
    require(N == n and m == d, f"neighbour components: N={N}, m={m}")
    check_close(float(np.log(V)), d / 2 * np.log(np.pi) - lgamma(d / 2 + 1), f"volume of the unit ball in {d} dimensions", 1e-10, 1e-10)
    if D is not None:
        want = np.sort(D, axis=0)[k if at is None else k - 1]
        check_array(np.asarray(rho), want, f"distance to the {k}-th neighbour", 1e-7, 1e-12)
    return lab + [f"k={k}"]


def build_small(r):
    return {"t": int(r.integers(2**31)), "n": int(r.integers(2, 40)), "d": int(r.integers(1, 30)), "p": gen.pick(r, [1, 1.5, 2, 3, 4.5, "inf", 2.0]), "r": float(gen.pick(r, [1, 0.5, 2, 0.01, 7.3])), "typ": gen.pick(r, ["f8", "f4", "i8", "i2", "u1", "list"])}


@needs(BALL, NORM, TWO_D)
def check_small(c):
    p = float("inf") if c["p"] == "inf" else c["p"]
    d, R = c["d"], c["r"]
    got = BALL(d, r=R, p=p)
    want = d * np.log(2 * R) + (0 if p == float("inf") else d * lgamma(1 + 1 / p) - lgamma(1 + d / p))
    check_close(float(np.log(got)), want, f"unit_ball_volume({d}, r={R}, p={p})", 1e-9, 1e-9)
    r = np.random.default_rng(c["t"])
    dd = min(d, 5)
    x = r.integers(0, 255, (c["n"], dd)) if c["typ"] != "f8" else r.normal(size=(c["n"], dd)) * R
    if (x.max(axis=0) == x.min(axis=0)).any():
        return None
    a = x.tolist() if c["typ"] == "list" else x.astype(c["typ"])
    u = np.asarray(NORM(a), float)
    w = np.asarray(a, float)
    want = np.array([[(v - min(col)) / (max(col) - min(col)) for v in col] for col in w.T.tolist()]).T
    check_array(u, want, "normalize_data_0_1", 1e-9, 1e-12)
    require(u.min() == 0 and u.max() == 1, "normalize_data_0_1: range")
    one = w[:, 0]
    for src, shape in ((one, (c["n"], 1)), (one.tolist(), (c["n"], 1)), (w, w.shape)):
        g = np.asarray(TWO_D(src))
        require(g.shape == shape and np.array_equal(g.ravel(), np.asarray(src).ravel()), "assure_2d_data")
    for src in ((one, w), (v for v in (one, w))):
        g = TWO_D(src)
        require(isinstance(g, tuple) and [v.shape for v in g] == [(c["n"], 1), w.shape], "assure_2d_data of several variables")
    return [f"p={c['p']}", c["typ"]]


SUBS = [Sub("windows", gen.uniform(build_win), check_win, 1500, 60000), Sub("symbols", gen.uniform(build_ord), check_ord, 500, 15000), Sub("codes", gen.uniform(build_perm), check_perm, 200, 3000),
        Sub("joint", gen.uniform(build_red), check_red, 1000, 30000), Sub("labels", gen.uniform(build_info), check_info, 600, 20000), Sub("densities", gen.uniform(build_cont), check_cont, 400, 10000),
        Sub("shapes", gen.uniform(build_small), check_small, 400, 10000)]
