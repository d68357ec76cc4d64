from lib.common import *
from lib import calls

WARM = True
RULE = ("One call of any measure with any approach, parameters, windows and bases (functional and estimator, global and local values, normalisation); the same values stored as every integer width that holds them, "
        "half/single/double precision, either byte order, boolean, lists, and as contiguous, Fortran-ordered, strided, reversed-view, column-of-a-table, unaligned and read-only arrays, a form drawn for each variable separately, or all variables one object, delayed, reversed or adjacent views of one buffer or columns of one table; "
        "oracle: the result for separate contiguous int64 or float64 arrays. Non-trivial: some variable is stored otherwise and the result is not zero.")
INTS = ["i1", "i2", "i4", "i8", ">i2", ">i8", "f2", "f4", "f8", ">f8"]
UINTS = INTS + ["u1", "u2", "u4", "u8", ">u4"]
F32 = ["f4", "f8", ">f4", ">f8"]
LAY = ["plain", "plain", "list", "fortran", "strided", "reversed", "column", "readonly", "unaligned"]


def build(r, n_hi=60):
    c = calls.build(r, n_hi=n_hi) if n_hi < 400 else calls.build_big(r, top=0.2, huge=0)
    disc = c["a"] in DISC_NSB
    c["range"] = gen.pick(r, ["int8", "uint7", "bool" if disc else "uint7", "single", "any" if not disc else "int8"])
    if c["m"] in ("mi", "cmi") and c["a"] in ("kernel", "metric", "renyi", "tsallis") and r.random() < 0.3:
        c["d"]["dims"] = [1] * c["nv"]
        c["p"]["normalize"] = True
    types = {"int8": INTS, "uint7": UINTS, "bool": UINTS + ["?", "?", "?"], "single": F32, "any": ["f8", ">f8"]}[c["range"]]
    c["types"] = [gen.pick(r, types) for _ in range(c["nv"])]
    c["lay"] = [gen.pick(r, LAY) for _ in range(c["nv"])]
    return c


def quantise(x, c):
    """the same series with values every one of the types holds"""
    if c["a"] in DISC_NSB:
        if c["range"] == "bool":
            return x % 2
        return x * 3 - (100 if c["range"] == "int8" else 0) if c["range"] != "single" else x / 8 - 1
    lo, hi = x.min(axis=0), x.max(axis=0)
    u = (x - lo) / np.where(hi > lo, hi - lo, 1)
    if c["range"] == "int8":
        return np.round(u * 250 - 125)
    if c["range"] == "uint7":
        return np.round(u * 127)
    if c["range"] == "single":
        return np.round(u * 4096) / 64
    return x


def store(x, typ, lay):
    b = np.ascontiguousarray(x).astype(typ)
    require(np.array_equal(b.astype(float), x), "harness: value does not fit")
    if lay == "list":
        return b.tolist() if b.ndim == 1 else np.asfortranarray(b)
    if lay == "fortran":
        return np.asfortranarray(b)
    if lay == "strided":
        return np.repeat(b, 3, axis=0)[1::3]
    if lay == "reversed":
        return b[::-1].copy()[::-1]
    if lay == "column":
        t = np.stack([b + b, b, b ^ b if b.dtype.kind in "iub" else b * 0], axis=-1)
        return t[..., 1]
    if lay == "unaligned":
        raw = np.empty(b.nbytes + 1, np.uint8)
        v = raw[1:].view(b.dtype).reshape(b.shape)
        v[...] = b
        return v
    if lay == "readonly":
        b.flags.writeable = False
    return b


def same(got, want, what):
    g, w = fnum(got), fnum(want)
    require(np.isnan(g) == np.isnan(w), f"{what}: {g} instead of {w}")
    if not np.isnan(w) and g != w:
        check_close(g, w, what, 1e-9, 1e-9)


def check(c):
    ref = [quantise(x, c) for x in calls.data(c)]
    if c["a"] == "kernel" and c["p"]["kernel"] == "box" and not c["p"].get("normalize"):
        c = dict(c, p=dict(c["p"], bandwidth=float({"int8": 40, "uint7": 20, "single": 10, "any": 1, "bool": 1}[c["range"]] * (1 + c["d"]["rng"] % 3))))
    if c["a"] == "ordinal" and not c["p"]["stable"]:
        c = dict(c, p=dict(c["p"], stable=True))
    ref = [np.ascontiguousarray(x, dtype=np.int64 if np.array_equal(x, np.round(x)) and c["a"] in DISC_NSB else float) for x in ref]
    if "share" in c:
        return compare(c, *share(c["share"], ref), f"{c['a']} {c['m']} of variables sharing memory ({c['share']})")
    xs = [store(x, t, l) for x, t, l in zip(ref, c["types"], c["lay"])]
    plain = all(t in ("i8", "f8") and l == "plain" for t, l in zip(c["types"], c["lay"]))
    lab = compare(c, ref, xs, f"{c['a']} {c['m']} of data stored as {list(zip(c['types'], c['lay']))}")
    return lab and lab + sorted(set(c["lay"])) if not plain else None


def build_share(r, n_hi=60):
    c = build(r, n_hi)
    c["range"] = "any" if c["a"] not in DISC_NSB else "int8"
    c["types"], c["lay"] = ["f8"] * c["nv"], ["plain"] * c["nv"]
    c["share"] = gen.pick(r, ["same", "same", "lag", "table", "buffer", "reverse"])
    return c


def share(how, ref):
    """(separate copies, views of common memory) of the same values"""
    n = min(len(x) for x in ref)
    if how == "same":       # variables of one shape are one object
        first = {}
        xs = [first.setdefault(x.shape, x) for x in ref]
    elif how == "lag":      # each variable is a delayed view of one series
        b = ref[0]
        k = min(len(ref) - 1, max(0, n - 8))
        xs = [b[min(i, k): n - k + min(i, k)] for i in range(len(ref))]
    elif how == "reverse":  # a series and its own reversal
        xs = [ref[0][::-1] if i % 2 else ref[0] for i in range(len(ref))]
    elif how == "table":    # columns of one table
        flat = [x[:n].reshape(n, -1) for x in ref]
        t = np.concatenate(flat, axis=1)
        at = np.cumsum([0] + [f.shape[1] for f in flat])
        xs = [t[:, at[i]] if x.ndim == 1 else t[:, at[i]:at[i + 1]] for i, x in enumerate(ref)]
    else:                   # adjacent stretches of one buffer
        b = np.concatenate([x.ravel() for x in ref])
        at = np.cumsum([0] + [x.size for x in ref])
        xs = [b[at[i]:at[i + 1]].reshape(x.shape) for i, x in enumerate(ref)]
    return [np.array(x, order="C") for x in xs], xs


def compare(c, ref, xs, what):
    try:
        want = calls.value(c, ref)
    except ValueError as e:
        raises(ValueError, lambda: calls.value(c, xs), f"{what}: refused for plain arrays ({e})")
        return ["refused"]
    same(calls.value(c, xs), want, what)
    if c["m"] not in ("kld", "jsd"):
        e = calls.est(c, xs)
        same(e.global_val(), want, f"{what} (estimator)")
        if calls.has_local(c):
            got, w = np.asarray(e.local_vals(), float), np.asarray(calls.est(c, ref).local_vals(), float)
            require(got.shape == w.shape and np.array_equal(np.isnan(got), np.isnan(w)), f"{what}: local values differ in shape or definedness")
            ok = np.isfinite(w)
            require(np.array_equal(got[~ok], w[~ok], equal_nan=True), f"{what}: local values infinite elsewhere")
            check_array(got[ok], w[ok], f"local values: {what}", 1e-8, 1e-8)
    return [c["a"], c["m"], c.get("share", c["range"])] if abs(fnum(want)) > 1e-12 else None


SUBS = [Sub("storage", gen.uniform(build), check, 3000, 80000), Sub("shared", gen.uniform(build_share), check, 900, 25000),
        Sub("large", gen.uniform(lambda r: build(r, 4000)), check, 50, 2500)]
