"""Every documented way of asking for the same quantity gives the same number."""
from lib.common import *
from lib import calls
import importlib

RULE = ("Every measure (9) x approach (16) with random parameters, bases and data; each case is asked for once canonically and again by 3-4 random routes: measure and approach aliases in random letter case, spaces or hyphens in "
        "the measure name, estimator object (result / global_val / mean of a second read), documented class, get_estimator_class, lists / tuples / arrays, integer parameters as numpy integers, base through the configuration, "
        "prop_time as offset, conditions through the unconditional name. Further tests: documented defaults, sensitivity to every parameter, one-variable mutual information, documented default noise amplitude (statistically, on data of comparable spread). Non-trivial: the value is not 0.")
WARM = True

A_ALIAS = {"ordinal": ["ordinal", "symbolic", "permutation"], "miller_madow": ["miller_madow", "mm"]}
H_ALIAS = {"chao_shen": ["chao_shen", "cs"], "chao_wang_jost": ["chao_wang_jost", "cwj"], "shrink": ["shrink", "js"], "metric": ["metric", "kl"]}
O_ALIAS = {"metric": ["metric", "ksg"]}
M_ALIAS = {"h": ["entropy", "h"], "hj": ["entropy", "h"], "hx": ["cross_entropy", "hx", "entropy", "h"], "mi": ["mutual_information", "mi"],
           "cmi": ["conditional_mutual_information", "cmi", "mutual_information", "mi"], "te": ["transfer_entropy", "te"],
           "cte": ["conditional_transfer_entropy", "cte", "transfer_entropy", "te"]}
F_ALIAS = dict(M_ALIAS, kld=["kullback_leiber_divergence", "kld"], jsd=["jensen_shannon_divergence", "jsd"])
CLASS_STEM = {"ansb": "Ansb", "bayes": "Bayes", "bonachela": "Bonachela", "chao_shen": "ChaoShen", "chao_wang_jost": "ChaoWangJost", "discrete": "Discrete", "grassberger": "Grassberger", "kernel": "Kernel",
              "miller_madow": "MillerMadow", "nsb": "Nsb", "ordinal": "Ordinal", "renyi": "Renyi", "shrink": "Shrink", "tsallis": "Tsallis", "zhang": "Zhang"}
PKG = {"h": ("entropy", "EntropyEstimator"), "hj": ("entropy", "EntropyEstimator"), "hx": ("entropy", "EntropyEstimator"), "mi": ("mutual_information", "MIEstimator"), "cmi": ("mutual_information", "CMIEstimator"),
       "te": ("transfer_entropy", "TEEstimator"), "cte": ("transfer_entropy", "CTEEstimator")}


def doc_class(m, a):
    pkg, suffix = PKG[m]
    stem = ("KozachenkoLeonenko" if pkg == "entropy" else "KSG") if a == "metric" else CLASS_STEM[a]
    return getattr(importlib.import_module(f"infomeasure.estimators.{pkg}"), stem + suffix)


def case_mix(r, s):
    how = r.integers(4)
    if how == 0:
        return s
    if how == 1:
        return s.upper()
    if how == 2:
        return s.title()
    return "".join(ch.upper() if r.random() < 0.5 else ch for ch in s)


def alias(r, m, a):
    al = list(A_ALIAS.get(a, [a]))
    al = (H_ALIAS if m in ("h", "hj", "hx", "kld", "jsd") else O_ALIAS).get(a, al)
    return case_mix(r, gen.pick(r, al))


def measure_name(r, m):
    s = gen.pick(r, M_ALIAS[m])
    sep = gen.pick(r, ["_", "_", " ", "-"])
    return case_mix(r, s.replace("_", sep))


def contain(r, m, x):
    """another container for the same data"""
    how = gen.pick(r, ["array", "list", "tuple", "array"])
    if how == "array":
        return gen.pick(r, [x, x.copy(), np.asfortranarray(x)])
    if how == "list" or m in ("h", "hj", "hx", "kld", "jsd"):  # tuples mean joint variables there
        return x.tolist()
    return tuple(x.tolist()) if x.ndim == 1 else tuple(tuple(v) for v in x.tolist())


def route(c, r):
    """one more evaluation of the same request; returns (value, description)"""
    m, a = c["m"], c["a"]
    xs = [contain(r, m, x) for x in calls.data(c)]
    if m in ("cmi", "cte") and isinstance(xs[-1], tuple):
        xs[-1] = list(xs[-1])  # a tuple is documented as several conditions
    pos, kw = calls.args_of(c, xs)
    par = {**c["p"], **c["w"]}
    for k, v in list(par.items()):
        if type(v) is int and k not in ("K", "alpha", "q", "bandwidth", "noise_level", "minkowski_p") and r.random() < 0.25:
            par[k] = gen.pick(r, [np.int64, np.int32])(v)
    if "prop_time" in par and r.random() < 0.4:
        par["offset"] = par.pop("prop_time")
    if m == "mi" and "offset" not in par and r.random() < 0.1:
        par["offset"] = 0
    if m in ("te", "mi") and r.random() < 0.15:
        kw["cond"] = None
    config = None
    if r.random() < 0.35:
        config = c["base"]
        if r.random() < 0.5:
            par["base"] = None
    else:
        par["base"] = c["base"]
    name = alias(r, m, a)
    kind = gen.pick(r, ["functional", "estimator", "class", "get_class"] if m not in ("kld", "jsd") else ["functional"])
    im.Config.reset()
    try:
        if config is not None:
            im.Config.set("base", config)
        if kind == "functional":
            fn = gen.pick(r, F_ALIAS[m])
            desc = f"im.{fn}(approach={name!r})"
            v = getattr(im, fn)(*pos, **kw, approach=name, **par)
        elif kind == "estimator":
            mn = measure_name(r, m)
            desc = f"im.estimator(measure={mn!r}, approach={name!r})"
            e = im.estimator(*pos, **kw, measure=mn, approach=name, **par)
            v = gen.pick(r, [e.result, e.global_val])()
            require(type(e) is doc_class(m, a), f"{desc} is a {type(e).__name__}")
        else:
            cls = doc_class(m, a)
            desc = cls.__name__
            if kind == "get_class":
                base_m = {"hx": "h", "hj": "h"}.get(m, m)
                mn = case_mix(r, gen.pick(r, M_ALIAS[base_m][:2]))
                desc = f"im.get_estimator_class({mn!r}, {name!r})"
                got = im.get_estimator_class(mn, name)
                require(got is cls, f"{desc} is {got.__name__}, not {cls.__name__}")
            if kw.get("cond", 0) is None:
                kw.pop("cond")
            e = cls(*pos, **kw, **par)
            v = e.result()
    finally:
        im.Config.reset()
    return fnum(v), f"{desc} base={'config' if config is not None else 'argument'} containers={[type(x).__name__ for x in xs]} params={ {k: repr(v) for k, v in par.items()} }"


def build(r, big=False):
    c = calls.build_big(r, top=0.3, huge=0.05) if big else calls.build(r, n_hi=60)
    if c["a"] == "metric" and r.random() < 0.5 and c["m"] in ("h", "hj"):
        c["p"]["ksg_id"] = int(gen.pick(r, [1, 2]))
    if c["a"] == "kernel" and c["m"] not in ("hx", "kld", "jsd"):
        c["p"]["workers"] = 1
    c["t"] = int(r.integers(2**31))
    return c


def check(c):
    r = np.random.default_rng(c["t"])
    try:
        im.Config.reset()
        want = fnum(calls.value(c))
        for _ in range(3):
            got, desc = route(c, r)
            check_close(got, want, f"{c['a']} {c['m']}: {desc} against the canonical call", 1e-12, 1e-12)
    finally:
        im.Config.reset()
    return [f"{c['m']} {c['a']}"] if abs(want) > 1e-12 and np.isfinite(want) else None


# ------------------------------------------------------------------ defaults
def defaults(m, a):
    d = {"base": "e"}
    te = m in ("te", "cte")
    if a in ("metric", "renyi", "tsallis"):
        d["k"] = 4
    if a == "metric":
        d.update(ksg_id=1, minkowski_p=float("inf"))
    if a == "kernel" and m not in ("hx", "kld", "jsd"):
        d["workers"] = 1
    if a == "ordinal":
        d.update(stable=False)
        if not te:
            d.update(step_size=1)
    if a == "ansb":
        d["undersampled"] = 0.1
    if m in ("h", "hj") and a in ("bayes", "ansb", "nsb") or m in ("mi", "cmi", "te", "cte") and a == "bayes":
        d["K"] = None
    if te:
        d.update(src_hist_len=1, dest_hist_len=1, step_size=1)
        d.update(prop_time=0) if m == "te" else d.update(cond_hist_len=1)
    if m == "mi":
        d["offset"] = 0
    if m in ("mi", "cmi") and a in CONT:
        d["normalize"] = False
    return d


def build_def(r):
    c = calls.build(r, offsets=False)
    d = defaults(c["m"], c["a"])
    drop = [k for k in d if r.random() < 0.6] or [gen.pick(r, list(d))]
    c["drop"] = drop
    c["how"] = gen.pick(r, ["f", "e", "c"])
    if "alpha" in c["p"] and "k" in drop or "q" in c["p"]:
        for o in ("alpha", "q"):
            if o in c["p"] and a_is_cont(c):
                c["p"][o] = min(c["p"][o], 1.5)
    return c


def a_is_cont(c):
    return c["a"] in ("renyi", "tsallis")


def run(c, kw, how):
    pos, cond = calls.args_of(c, calls.data(c))
    m = c["m"]
    if m in ("kld", "jsd") or how == "f":
        return fnum(getattr(im, calls.FN[m])(*pos, **cond, approach=c["a"], **kw))
    if how == "e":
        return fnum(im.estimator(*pos, **cond, measure={"hj": "h"}.get(m, m), approach=c["a"], **kw).result())
    return fnum(doc_class(m, c["a"])(*pos, **cond, **kw).result())


def check_def(c):
    im.Config.reset()
    d = defaults(c["m"], c["a"])
    full = {**c["p"], **c["w"], "base": c["base"]}
    full.update({k: d[k] for k in c["drop"]})
    short = {k: v for k, v in full.items() if k not in c["drop"]}
    want = run(c, full, "c" if c["m"] not in ("kld", "jsd") else "f")
    got = run(c, short, c["how"])
    check_close(got, want, f"{c['a']} {c['m']} with {c['drop']} left out ({c['how']}) against the documented defaults", 1e-12, 1e-12)
    return [f"{c['m']}"] + c["drop"] if abs(want) > 1e-12 else None


# ------------------------------------------------------------------ sensitivity
def build_sens(r):
    """a parameter and two values of it between which the result must change on generic data"""
    while True:
        c = calls.build(r, offsets=False, n_hi=60)
        m, a, te = c["m"], c["a"], c["m"] in ("te", "cte")
        opts = [("base", "e", 2)] if a != "tsallis" else [("q", 0.7, 1.2)]  # Tsallis values carry no unit
        if a in ("metric", "renyi", "tsallis"):
            opts.append(("k", 2, 4))
        if a == "renyi":
            opts.append(("alpha", 0.5, 1.5))
        if a == "tsallis":
            opts.append(("q", 0.5, 1.5))
        if a == "metric" and m in ("h", "hj", "hx", "mi", "cmi", "te", "cte"):
            opts.append(("ksg_id", 1, 2))
        if a == "metric" and not (m in ("h", "hx", "kld") and c["d"]["dims"][0] == 1) and m in ("h", "hj", "hx", "kld"):
            opts.append(("minkowski_p", 2, float("inf")))
        if a == "metric":
            opts.append(("noise_level", 0, 0.3 * c["d"]["scale"]))
        if a in ("renyi", "tsallis") and m in ("mi", "cmi", "te", "cte"):
            opts.append(("noise_level", 0, 0.3 * c["d"]["scale"]))
        if a == "kernel":
            opts += [("bandwidth", c["p"]["bandwidth"], 1.7 * c["p"]["bandwidth"]), ("kernel", "box", "gaussian")]
        if a == "bayes":
            opts.append(("alpha", 0.2, 1.7))
            if m in ("h", "hj", "mi", "cmi", "te", "cte"):
                opts.append(("K", 200, 300))
        if a == "nsb" and m in ("h", "hj"):
            opts.append(("K", 60, 90))
        if a == "ordinal":
            opts.append(("embedding_dim", 2, 3))
            if not te:
                opts.append(("step_size", 1, 2))
        if te:
            opts += [("src_hist_len", 1, 2), ("dest_hist_len", 1, 2), ("step_size", 1, 2)]
            opts.append(("prop_time", 0, 1) if m == "te" else ("cond_hist_len", 1, 2))
        if m == "mi" and c["nv"] == 2:
            opts.append(("offset", 0, 2))
        if m in ("mi", "cmi") and a == "kernel" and c["p"]["kernel"] == "box":  # the Gaussian kernel scales with the data
            c["d"]["dims"] = [1] * c["nv"]
            opts.append(("normalize", False, True))
        c["v"] = list(gen.pick(r, opts))
        if a in DISC_NSB and m not in ("hx", "kld", "jsd"):
            c["d"] = gen.disc_rng(r, c["nv"], 100, 150, (2, 3) if a not in ("nsb", "ansb") else (2,))
            for v in c["d"]["vars"]:
                v[2] = 0.5  # neither a function of another variable nor of its own past
        if a == "ordinal":
            c["p"].update(embedding_dim=3, step_size=1) if not te else c["p"].update(embedding_dim=3)
            c["d"]["n"] = 60
        if a in ("renyi", "tsallis"):
            c["p"]["k"] = 4
        if te:
            c["w"].update(src_hist_len=1, dest_hist_len=1, step_size=1, **({"cond_hist_len": 1} if m == "cte" else {}))
        c["how"] = gen.pick(r, ["f", "e", "c"])
        c.pop("cut", None)
        if "scale" in c["d"] and c["v"][0] not in ("noise_level", "bandwidth"):
            c["d"]["scale"] = 1.0
        return c


def check_sens(c):
    im.Config.reset()
    name, a, b = c["v"]
    for i in range(4):
        c2 = dict(c, d=dict(c["d"], rng=c["d"]["rng"] + i))
        full = {**c["p"], **c["w"], "base": c["base"]}
        one, two = run(c2, {**full, name: a}, c["how"]), run(c2, {**full, name: b}, c["how"])
        if not (np.isfinite(one) and np.isfinite(two)) or abs(one) < 1e-12 and abs(two) < 1e-12:
            continue  # no information in this data
        if one != two:
            return [f"{name} {c['a']}", c["m"]]
        if i == 3:
            raise Violation(f"{c['a']} {c['m']} ({c['how']}): parameter {name} is ignored ({a} and {b} give {one} and {two} on four data sets)")
    return None


# ------------------------------------------------------------------ one variable
def build_one(r):
    a = gen.pick(r, ALL)
    c = calls.build(r, measures=["h"], approaches=[a])
    c["t"] = int(r.integers(2**31))
    c["cond"] = bool(r.random() < 0.0)
    return c


def check_one(c):
    im.Config.reset()
    r = np.random.default_rng(c["t"])
    if c["a"] in ("chao_shen", "chao_wang_jost", "shrink"):
        name = case_mix(r, c["a"])
    else:
        name = alias(r, "mi", c["a"])
    x = calls.data(c)[0]
    want = fnum(calls.value(c))
    mn = measure_name(r, "mi")
    e = im.estimator(x, measure=mn, approach=name, **c["p"], base=c["base"])
    check_close(e.result(), want, f"estimator(x, measure={mn!r}, approach={name!r}) is the entropy", 1e-12, 1e-12)
    return [c["a"]]


# ------------------------------------------------------------------ default noise
def build_noise(r):
    a = gen.pick(r, ["metric", "metric", "renyi", "tsallis"])
    m = gen.pick(r, ["h", "mi", "cmi", "te", "cte"] if a == "metric" else ["mi", "cmi", "te", "cte"])
    return {"a": a, "m": m, "t": int(r.integers(2**31)), "how": gen.pick(r, ["f", "e", "c"]), "order": gen.pick(r, [1, 1, 1.3]), "ksg": gen.pick(r, [1, 1, 2])}


def check_noise(c):
    """data whose spread is ten times the documented default noise: the value depends on the noise amplitude"""
    im.Config.reset()
    a, m = c["a"], c["m"]
    level = 1e-10 if a == "metric" and m in ("h", "mi", "cmi") else 1e-8
    p = {"metric": {} if m == "h" else {"ksg_id": c["ksg"]}, "renyi": {"alpha": c["order"]}, "tsallis": {"q": 1}}[a]

    def mean(**kw):
        v = []
        for i in range(8):
            r = np.random.default_rng([c["t"], i])
            x, z = r.normal(size=150) * level * 10, r.normal(size=150) * level * 10
            pos = {"h": (0 * x,), "mi": (x, x.copy()), "cmi": (x, x.copy())}.get(m, (x, np.roll(x, 1)))
            cond = {"cond": z} if m in ("cmi", "cte") else {}
            if c["how"] == "f":
                v.append(fnum(getattr(im, calls.FN[m])(*pos, **cond, approach=a, **p, **kw)))
            elif c["how"] == "e":
                v.append(fnum(im.estimator(*pos, **cond, measure=m, approach=a, **p, **kw).result()))
            else:
                v.append(fnum(doc_class(m, a)(*pos, **cond, **p, **kw).result()))
        return float(np.mean(v))
    want, got = mean(noise_level=level), mean()
    require(abs(got - want) < 0.45, f"{a} {m} with noise_level left out ({c['how']}): mean {got} over 8 data sets of spread {level * 10}, {want} with the documented default {level}")
    return [a, m, c["how"]] if abs(want) > 0.7 else None


SUBS = [Sub("large", gen.uniform(lambda r: build(r, True)), check, 60, 3000), Sub("routes", gen.uniform(build), check, 3500, 80000), Sub("defaults", gen.uniform(build_def), check_def, 2000, 30000), Sub("sensitivity", gen.uniform(build_sens), check_sens, 2000, 20000),
        Sub("one variable", gen.uniform(build_one), check_one, 300, 3000),
        Sub("default noise", gen.uniform(build_noise), check_noise, 60, 400)]
