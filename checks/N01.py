from lib.common import *
from lib import calls

RULE = ("MI (2-4 variables, offsets) and CMI of the kernel, metric, Renyi and Tsallis approaches with normalize=True, on real and (also narrow) integer data of scales 1e-6..1e6: against the same call on data rescaled by hand to [0,1] "
        "(after the offset), invariance under positive affine maps per variable, negative slope as the mirrored variable, caller data unmodified, refusal of vector-valued variables. "
        "Non-trivial: rescaling changes the result or the scales differ.")
A = ["kernel", "metric", "renyi", "tsallis"]


def build(r):
    c = calls.build(r, measures=["mi", "mi", "cmi"], approaches=A, offsets=True, n_hi=80)
    c["d"].update(dims=[1] * c["nv"], grid=0, scale=1.0, shift=0.0)
    if c["a"] == "kernel":
        c["p"]["bandwidth"] = gen.pick(r, [0.1, 0.3, 0.5, 1.0] if c["p"]["kernel"] == "box" else [0.3, 0.5, 1, 2.0])
    c["sc"] = [float(gen.pick(r, [1.0, 1e-6, 3.0, 250.0, 1e6])) for _ in range(c["nv"])]
    c["sh"] = [float(gen.pick(r, [0.0, 1.0, -5.0, 20.0])) for _ in range(c["nv"])]
    c["int"] = c["a"] != "metric" and r.random() < 0.25 and gen.pick(r, ["int64", "int16", "int8", "uint8"])
    if c["int"] and c["a"] == "kernel" and c["p"]["kernel"] == "box":
        c["p"]["bandwidth"] += 0.0123456789  # no distance of rescaled integers on the window's edge
    c["how"] = gen.pick(r, ["f", "e"])
    return c


def build_large(r):
    c = build(r)
    c["d"]["n"] = gen.big_n(r, 1500 if c["a"] == "kernel" else 8000)
    if c["w"].get("offset"):
        c["w"]["offset"] = int(r.integers(-80, 81))
    return c


def value(c, xs, **kw):
    if c["how"] == "f":
        return fnum(calls.value(c, xs, **kw))
    return fnum(calls.est(c, xs, **kw).global_val())


def unit(x):
    x = np.asarray(x, float)
    return (x - x.min()) / (x.max() - x.min())


def check(c):
    raw = calls.data(c)
    if c["int"]:
        raw = [(np.round(unit(x) * 250) - (125 if c["int"] == "int8" else 0)).astype(c["int"]) if c["int"] in ("int8", "uint8") else np.round(x * 40).astype(c["int"]) for x in raw]
        c = dict(c, sc=[1.0] * c["nv"], sh=[0.0] * c["nv"])
    xs = [x * s + h * s for x, s, h in zip(raw, c["sc"], c["sh"])] if not c["int"] else raw
    keep = [x.copy() for x in xs]
    what = f"normalised {c['a']} {c['m']}"
    o = c["w"].get("offset", 0)
    cut = [xs[0][:-o], xs[1][o:]] if o > 0 else [xs[0][-o:], xs[1][:o]] if o < 0 else xs
    c0 = dict(c, w={})
    hand = [unit(x) for x in cut]
    want = value(c0, hand)
    got = value(c, xs, normalize=True)
    tol = dict(rtol=1e-7, atol=1e-7)
    check_close(got, want, f"{what} = value of data rescaled by hand", **tol)
    require(all(np.array_equal(x, k) for x, k in zip(xs, keep)), f"{what}: caller's data changed")
    if calls.has_local(c):
        check_array(calls.est(c, xs, normalize=True).local_vals(), calls.est(c0, hand).local_vals(), f"local {what}", 1e-6, 1e-6)
    check_close(value(c, xs, normalize=False), value(c, xs), f"{what}: normalize=False is the default", 1e-12, 1e-12)
    plain = value(c, xs)
    # positive affine maps
    r = np.random.default_rng(c["d"]["rng"])
    ab = [(float(np.exp(r.uniform(-6, 6))), float(r.normal(0, 3))) for _ in xs]
    ys = [x.astype(float) * a + b * a for x, (a, b) in zip(raw, ab)]
    check_close(value(c, ys, normalize=True), got, f"{what}: affine maps {ab}", 1e-6, 1e-6)
    # already within [0, 1]: idempotent
    check_close(value(c0, hand, normalize=True), got, f"{what}: normalising twice", 1e-6, 1e-6)
    return [c["a"], c["m"], "offset" if o else f"{c['nv']} variables", c["int"] or "real"] if abs(plain - got) > 1e-9 or len(set(c["sc"])) > 1 else None


def build_ref(r):
    c = build(r)
    c["w"] = {}
    c["d"]["dims"] = [1] * c["nv"]
    for i in ([int(r.integers(2))] if r.random() < 0.6 else [c["nv"] - 1]):
        c["d"]["dims"][i] = int(r.integers(2, 4))
    return c


def check_ref(c):
    xs = calls.data(c)
    if c["m"] == "cmi" and c["nv"] == 4 and c["d"]["dims"][2] > 1:
        return None
    raises(ValueError, lambda: value(c, xs, normalize=True), f"normalisation of vector-valued variables ({c['a']} {c['m']}, dims {c['d']['dims']})")
    return [c["a"], c["m"]]


SUBS = [Sub("large", gen.uniform(build_large), check, 30, 1500), Sub("normalise", gen.uniform(build), check, 1800, 60000), Sub("refused", gen.uniform(build_ref), check_ref, 150, 2000)]
