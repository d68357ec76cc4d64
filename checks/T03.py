from lib.common import *
from lib import calls

WARM = True
RULE = ("Random pair calls of MI (offset -12..12, every approach, several columns, normalised or not) and TE (prop_time / offset 0..8 and negative, every approach, "
        "steps 1-4, histories 1-3) compared with the same call on hand-shifted data, some with thousands of samples and lags up to half of them; refusal of offsets in CMI/CTE and for more than two variables. "
        "Non-trivial: the shift is not zero.")


def build_mi(r):
    c = calls.build(r, measures=["mi"], offsets=False, n_hi=60)
    while c["nv"] != 2:
        c = calls.build(r, measures=["mi"], offsets=False, n_hi=60)
    n = c["d"]["n"]
    lim = max(1, min(12, n - 14))
    if r.random() < 0.1:
        lim = n - 1 if c["a"] in ("discrete", "bayes", "shrink", "miller_madow") else lim
    c["w"] = {"offset": int(r.integers(-lim, lim + 1))}
    if c["a"] in ("kernel", "metric", "renyi", "tsallis") and set(c["d"]["dims"]) == {1} and r.random() < 0.4:
        c["p"]["normalize"] = True
    return c


def build_mi_big(r):
    c = calls.build_big(r, measures=["mi"], offsets=False)
    while c["nv"] != 2:
        c = calls.build_big(r, measures=["mi"], offsets=False)
    lim = int(gen.pick(r, [12, 200, c["d"]["n"] // 2]))
    c["w"] = {"offset": int(r.integers(-lim, lim + 1))}
    return c


def build_te_big(r):
    c = calls.build_big(r, measures=["te"], offsets=False)
    top = max(1, c["d"]["n"] // (2 * c["w"]["step_size"]) - 5)
    top = min(top, int(gen.pick(r, [8, 60, 10**6])))
    c["prop"] = int(r.integers(-top, top + 1))
    c["name"] = gen.pick(r, ["prop_time", "offset"])
    return c


def same(g, w, what, a):
    if a in ("nsb",):
        return check_close(g, w, what, 1e-9, 1e-9)
    return check_close(g, w, what, 1e-11, 1e-11)


def check_mi(c):
    x, y = calls.data(c)
    o = c["w"]["offset"]
    if o > 0:
        xs = [x[: len(x) - o], y[o:]]
    else:
        xs = [x[-o:], y[: len(y) + o]]
    c0 = dict(c, w={})
    want = calls.value(c0, [v.copy() for v in xs])
    same(calls.value(c, [x, y]), want, f"MI ({c['a']}) with offset {o}", c["a"])
    c1 = dict(c0, w={"offset": 0})
    same(calls.value(c1, xs), want, "MI with offset 0", c["a"])
    if calls.has_local(c):
        check_array(calls.est(c, [x, y]).local_vals(), calls.est(c0, xs).local_vals(), f"local MI ({c['a']}) with offset {o}")
    # mirrored: exchanging the roles negates the offset
    if c["a"] not in ("metric",):  # KSG sums in another order, ties in distance could flip; compared with tolerance below
        check_close(calls.value(dict(c, w={"offset": -o}), [y, x]), want, f"MI ({c['a']}) mirrored offset", 1e-8, 1e-8)
    else:
        check_close(calls.value(dict(c, w={"offset": -o}), [y, x]), want, f"MI ({c['a']}) mirrored offset", 1e-8, 1e-8)
    return [c["a"], "normalized" if c["p"].get("normalize") else "plain"] if o else None


def build_te(r):
    c = calls.build(r, measures=["te"], offsets=False, n_hi=90)
    c["d"]["n"] = int(r.integers(60, 100))
    if r.random() < 0.5:
        c["w"]["step_size"] = int(r.integers(1, 5))
    c["d"]["n"] += max(0, max(c["w"]["src_hist_len"], c["w"]["dest_hist_len"]) * c["w"]["step_size"] - 16) + 20 * max(0, c["w"]["step_size"] - 4)
    room = c["d"]["n"] - max(20, 5 * c["w"]["step_size"]) - max(c["w"]["src_hist_len"], c["w"]["dest_hist_len"]) * c["w"]["step_size"]
    top = max(1, min(8, room // c["w"]["step_size"]))
    c["prop"] = int(r.integers(-top, top + 1))
    c["name"] = gen.pick(r, ["prop_time", "offset"])
    return c


def check_te(c):
    x, y = calls.data(c)
    t, s = c["prop"], c["w"]["step_size"]
    sh = abs(t) * s
    if t >= 0:
        xs = [x[: len(x) - sh], y[sh:]]
    else:
        xs = [x[sh:], y[: len(y) - sh]]
    want = calls.value(c, [v.copy() for v in xs])
    if isinstance(want, float) and np.isnan(want):
        require(np.isnan(calls.value(c, [x, y], **{c["name"]: t})), "shifted TE is NaN, lagged TE is not")
        return None
    same(calls.value(c, [x, y], **{c["name"]: t}), want, f"TE ({c['a']}) with {c['name']}={t}, step {s}", c["a"])
    same(calls.value(c, xs, **{c["name"]: 0}), want, f"TE with {c['name']}=0", c["a"])
    if calls.has_local(c):
        check_array(calls.est(c, [x, y], **{c["name"]: t}).local_vals(), calls.est(c, xs).local_vals(), f"local TE ({c['a']}) with lag {t}")
    return [c["a"], c["name"], f"step {s}", "negative" if t < 0 else "positive"] if t else None


def build_ref(r):
    c = calls.build(r, measures=["cmi", "cte", "mi"], offsets=False, n_hi=40)
    while c["m"] == "mi" and c["nv"] == 2:
        c = calls.build(r, measures=["cmi", "cte", "mi"], offsets=False, n_hi=40)
    c["o"] = int(gen.pick(r, [1, 2, -1, 5]))
    return c


def check_ref(c):
    names = ["offset"] + (["prop_time"] if c["m"] == "cte" else [])
    for name in names:
        raises(ValueError, lambda: calls.value(c, **{name: c["o"]}), f"{name} for {c['m']} ({c['a']}, {c['nv']} variables)")
    return [c["m"], c["a"]]


SUBS = [Sub("mi offset", gen.uniform(build_mi), check_mi, 1500, 40000), Sub("te lag", gen.uniform(build_te), check_te, 1500, 40000),
        Sub("mi offset, large", gen.uniform(build_mi_big), check_mi, 40, 1500), Sub("te lag, large", gen.uniform(build_te_big), check_te, 40, 1500),
        Sub("refused", gen.uniform(build_ref), check_ref, 300, 3000)]
