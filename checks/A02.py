"""Invalid requests are refused with a value or type error; valid requests next to the boundary are answered."""
from lib.common import *
from lib import calls
from checks.A01 import M_ALIAS, doc_class

RULE = ("A valid random call of any measure (9) x approach (16), made invalid in one random way: a parameter outside its documented domain (about 70 bad values over 17 parameters), a required parameter or condition left out, "
        "an unknown name, unequal lengths, no observations, a window or neighbour count larger than the data, a bad test setting. It is asked for through the function, im.estimator or the class and must raise ValueError or TypeError "
        "(no number), leave the configuration and the caller's arrays as they were and not disturb the next valid call. A second test takes the request to the last valid value next to each boundary and requires a finite answer "
        "(and that one step further is refused). A third sets invalid configuration values. Every case is non-trivial; labels name the invalidation.")
WARM = True
ASSUMPTIONS = ["A request is 'answered' only once a value is returned: constructing an estimator whose value then raises counts as refused.",
               "Not claimed: workers, undersampled, NaN bandwidth, logarithm bases 0 and 1 (base 0 is pinned by the test suite), scalar or string data."]

BAD = {"k": [0, -1, -7, 1.5, 2.0, "3"], "embedding_dim": [-1, -4, 2.5, 3.0, "3", 1000], "step_size": [0, -1, -3, 1.5, 1.0, "1", 1000], "bandwidth": [0, 0.0, -1.0, -0.001, "a"],
       "kernel": ["foo", "", "epanechnikov", "Boxx"], "q": [0, -1, -0.5, "foo"], "ksg_id": [0, 3, -1, "1"], "minkowski_p": [0.5, 0, -1, 0.999], "noise_level": [-1, -1e-9],
       "src_hist_len": [0, -1, 1.5, "a", 1000], "dest_hist_len": [0, -1, 1.5, "a", 1000], "cond_hist_len": [0, -1, 1.5, "a", 1000], "prop_time": [1.5, "a", 1000, -1000], "base": [-1, -2, -2.5, "foo", "2", [2]],
       "K": [0, -1, -3, 2.5, "a"], "bogus": [1, None], "seed": ["x", -1, 1.5]}


def options(c):
    """(kind, name, bad value) applicable to the case"""
    m, a = c["m"], c["a"]
    te = m in ("te", "cte")
    ent = m in ("h", "hj", "hx", "kld", "jsd")
    out = [("param", "base"), ("param", "bogus"), ("measure", None), ("approach", None), ("no approach", None), ("empty", None), ("few", None), ("alone", None)]
    if a == "metric":
        out += [("param", "k"), ("param", "minkowski_p"), ("param", "noise_level"), ("neighbours", None)]
        if not ent:
            out += [("param", "ksg_id")]
    if a in ("renyi", "tsallis"):
        out += [("param", "k"), ("param", "alpha" if a == "renyi" else "q"), ("required", "alpha" if a == "renyi" else "q")]
        if not ent:
            out += [("param", "noise_level")]
    if a == "kernel":
        out += [("param", "bandwidth"), ("param", "kernel"), ("required", "bandwidth"), ("required", "kernel")]
    if a == "ordinal":
        out += [("param", "embedding_dim"), ("required", "embedding_dim")]
        if not te:
            out += [("param", "step_size")]
    if a == "bayes":
        out += [("param", "alpha"), ("required", "alpha")]
        if m in ("h", "hj", "mi", "cmi", "te", "cte"):
            out += [("param", "K")]
    if a in ("nsb", "ansb") and m in ("h", "hj"):
        out += [("param", "K")]
    if te:
        out += [("param", "src_hist_len"), ("param", "dest_hist_len"), ("param", "step_size"), ("short", None), ("lengths", None)]
        out += [("param", "cond_hist_len")] if m == "cte" else [("param", "prop_time")]
    if m in ("hj", "mi", "cmi"):
        out += [("lengths", None)]
    if m in ("cmi", "cte"):
        out += [("no cond", None)]
    if m == "mi" and c["nv"] == 2:
        out += [("param", "offset"), ("whole offset", None)]
    if m == "mi" and c["nv"] > 2:
        out += [("offset of three", None)]
    if m in ("mi", "cmi") and a in CONT and any(d != 1 for d in c["d"]["dims"]):
        out += [("normalise 2-D", None)]
    if m in ("mi", "cmi", "te", "cte"):
        out += [("test", "n_tests"), ("test", "method")]
        if m in ("mi", "cmi", "te", "cte"):
            out += [("seed", None)]
    return out


def build(r):
    c = calls.build(r, n_hi=60)
    kind, name = gen.pick(r, options(c))
    c["kind"], c["name"] = kind, name
    c["how"] = gen.pick(r, ["f", "e", "c"]) if c["m"] not in ("kld", "jsd") else "f"
    c["t"] = int(r.integers(2**31))
    if kind == "param":
        if name == "alpha":
            vals = [-0.5, -1, -1e-6, "foo", "jeffreyx"] if c["a"] == "bayes" else [0, -1, -0.5, "foo"]
        elif name == "offset":
            vals = [1.5, "a"]
        else:
            vals = BAD[name]
        c["bad"] = gen.pick(r, vals)
        if name == "step_size" and c["a"] == "ordinal":
            c["p"]["embedding_dim"] = max(2, c["p"]["embedding_dim"])  # patterns of one value have no step
    elif kind == "test":
        c["bad"] = gen.pick(r, [0, -1, -10, 1.5, 20.0, "20", 1] if name == "n_tests" else ["foo", "", "permutation", "bootstrapp"])
    elif kind == "seed":
        c["bad"] = gen.pick(r, BAD["seed"])
    elif kind == "measure":
        c["bad"] = gen.pick(r, ["foo", "", "entropyy", "mutual", "transfer", None])
    elif kind == "approach":
        c["bad"] = gen.pick(r, ["foo", "", "discretee", "kern", None])
    return c


def ask(c, how, pos, cond, kw, approach, measure=None, name=None, bad=None):
    """the value; everything up to the returned number"""
    m = c["m"]
    if how == "f":
        v = getattr(im, calls.FN[m])(*pos, **cond, approach=approach, **kw)
        return v, None
    if how == "e":
        e = im.estimator(*pos, **cond, measure=measure or {"hj": "h"}.get(m, m), approach=approach, **kw)
    else:
        e = doc_class(m, approach)(*pos, **cond, **kw)
    return e.result(), e


def check(c):
    im.Config.reset()
    before = config_state()
    r = np.random.default_rng(c["t"])
    m, a, kind, name, how = c["m"], c["a"], c["kind"], c["name"], c["how"]
    xs = calls.data(c)
    keep = [x.copy() for x in xs]
    valid = fnum(calls.value(c))
    kw = {**c["p"], **c["w"], "base": c["base"]}
    approach, measure = a, None
    xs2 = list(xs)
    drop_cond = False
    n = len(xs[0])
    call = None
    what = f"{kind} {name or ''} {c.get('bad', '')!r}"
    if kind == "param":
        kw[name] = c["bad"]
    elif kind == "required":
        kw.pop(name)
    elif kind == "no approach":
        how = "f" if m in ("kld", "jsd") else gen.pick(r, ["f", "e"])
        approach = None
    elif kind == "approach":
        how = "f" if m in ("kld", "jsd") else gen.pick(r, ["f", "e"])
        approach = c["bad"]
    elif kind == "measure":
        if m in ("kld", "jsd"):
            return None
        how, measure = "e", c["bad"]
        call = lambda: im.estimator(*pos, **cond, measure=measure, approach=a, **kw).result()  # noqa: E731
        if r.random() < 0.5:
            call = lambda: im.get_estimator_class(measure, a)  # noqa: E731
    elif kind == "empty":
        if m in ("hx", "kld", "jsd") and r.random() < 0.5:
            i = int(r.integers(len(xs2)))
            xs2[i] = xs2[i][:0]
        else:
            xs2 = [x[:0] for x in xs2]
    elif kind == "few":  # fewer variables than the measure needs
        if m in ("h", "hj", "jsd"):
            return None
        xs2 = xs2[:1] if m not in ("cmi", "cte") else [xs2[0], xs2[-1]]
        if m == "mi":
            if how == "e":
                return None  # one variable: self-information
        if m == "hx":
            return None  # one variable: entropy
        if m == "cmi" and how == "e":
            return None  # answered with the entropy and a warning; pinned by the test suite
        what += f" {len(xs2)}"
    elif kind == "alone":  # more variables than the measure takes
        if m in ("mi", "cmi", "jsd", "hj"):
            return None
        if m == "h":
            xs2 = [xs[0], xs[0], xs[0]]
        else:
            xs2 = [xs[0]] + xs2
    elif kind == "neighbours":
        nn = len(xs[-1]) if m in ("hx", "kld") else n - abs(c["w"].get("offset", 0))
        if m in ("te", "cte"):
            nn = n - abs(c["w"].get("prop_time", 0)) * c["w"]["step_size"]
            nn -= max([c["w"]["src_hist_len"], c["w"]["dest_hist_len"], c["w"].get("cond_hist_len", 1)]) * c["w"]["step_size"]
            nn = max(nn, 1)
        kw["k"] = nn + int(gen.pick(r, [1, 2, 5, 500]))
        if m == "kld":
            kw["k"] = max(kw["k"], n)
    elif kind == "short":
        w = c["w"]
        span = max(w["src_hist_len"], w["dest_hist_len"], w.get("cond_hist_len", 1)) * w["step_size"] + w.get("prop_time", 0) * w["step_size"]
        xs2 = [x[: int(r.integers(0, span + 1))] for x in xs2]
        if a == "ordinal":
            what += " ordinal"
        xs2 = [x[: len(xs2[0])] for x in xs2]
    elif kind == "lengths":
        i = int(r.integers(len(xs2)))
        cut = int(r.integers(1, 6))
        if r.random() < 0.5:
            xs2[i] = xs2[i][:-cut]
        else:
            xs2[i] = np.concatenate([xs2[i], xs2[i][:cut]])
        what += f" var {i}"
    elif kind == "no cond":
        drop_cond = True
        if how != "c":
            how, measure = gen.pick(r, [("f", None), ("e", None)])
    elif kind == "whole offset":
        kw["offset"] = int(gen.pick(r, [n, -n, n + 1, -n - 3, 10**6]))
    elif kind == "offset of three":
        kw["offset"] = int(gen.pick(r, [1, -2]))
    elif kind == "normalise 2-D":
        kw["normalize"] = True
    elif kind == "seed":
        kw["seed"] = c["bad"]
    pos, cond = calls.args_of(c, xs2)
    if drop_cond:
        cond = {}
    if kind == "no cond" and how == "e":  # the conditional name without a condition
        measure = {"cmi": "conditional_mutual_information", "cte": "conditional_transfer_entropy"}[m]
    if kind == "test":
        e = im.estimator(*pos, **cond, measure=m, approach=a, **kw)
        if m in ("mi", "cmi") and len(pos) != 2:
            what += " (three variables)"
        arg = {"n_tests": 12, "method": "permutation_test", name: c["bad"]}
        if m == "cte":
            arg["method"] = arg["method"]
        call = lambda: e.statistical_test(**arg)  # noqa: E731
    if kind == "seed":
        def call():
            v, e = ask(c, "e" if how == "f" else how, pos, cond, kw, approach)
            return e.statistical_test(n_tests=5, method="permutation_test")
    if kind in ("no approach",):
        if how == "f":
            call = lambda: getattr(im, calls.FN[m])(*pos, **cond, **kw)  # noqa: E731
        else:
            call = lambda: im.estimator(*pos, **cond, measure={"hj": "h"}.get(m, m), **kw).result()  # noqa: E731
    if call is None:
        call = lambda: ask(c, how, pos, cond, kw, approach, measure)[0]  # noqa: E731
    try:
        got = call()
    except (ValueError, TypeError):
        got = None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{a} {m} ({how}), {what}: {type(e).__name__}: {e} instead of a value or type error")
    else:
        raise Violation(f"{a} {m} ({how}), {what}: answered {got!r} to an invalid request {kw if kind == 'param' else ''}")
    require(config_state() == before, f"{what}: the refused request changed the configuration to {config_state()}")
    for x, k in zip(xs, keep):
        require(np.array_equal(x, k), f"{what}: the refused request changed the caller's data")
    check_close(calls.value(c), valid, f"{a} {m}: a valid request after a refused one ({what})", 0, 0)
    return [f"{kind} {name or ''}".strip(), f"{m}"]


# ------------------------------------------------------------------ boundary
def obs(w, n):
    """documented number of transfer entropy observations"""
    s = w["step_size"]
    n -= abs(w.get("prop_time", 0)) * s
    return -(-(n - max(w["src_hist_len"], w["dest_hist_len"], w.get("cond_hist_len", 1)) * s) // s)


def build_edge(r):
    kind = gen.pick(r, ["k", "k", "embedding_dim", "step_size", "window", "window", "prop_time", "offset", "n_tests", "small values", "equal lengths"])
    if kind == "k":
        c = calls.build(r, measures=["h", "hj", "mi", "cmi", "te", "cte", "hx"], approaches=["metric"], n_hi=45)
    elif kind in ("embedding_dim", "step_size"):
        c = calls.build(r, measures=["h", "hj", "mi", "cmi", "jsd"], approaches=["ordinal"], n_hi=40, offsets=False)
        c["p"]["embedding_dim"] = int(r.integers(2, 6))
        c.pop("cut", None)
    elif kind in ("window", "prop_time"):
        c = calls.build(r, measures=["te"] if kind == "prop_time" else ["te", "cte"], approaches=["discrete", "miller_madow", "grassberger", "shrink", "bayes", "kernel"], n_hi=50, offsets=False)
        c["p"].update({"kernel": "box"} if c["a"] == "kernel" else {})
    elif kind == "offset":
        c = calls.build(r, measures=["mi"], approaches=["discrete", "miller_madow", "grassberger", "shrink", "bayes", "kernel", "metric"], nvmax=2, n_hi=40)
        c["p"].update({"kernel": "box"} if c["a"] == "kernel" else {"k": 1} if c["a"] == "metric" else {})
        while c["nv"] != 2:
            return build_edge(r)
        c["d"]["n"] = int(r.integers(5, 30))
    elif kind == "n_tests":
        c = calls.build(r, measures=["mi", "cmi", "te"], approaches=["discrete", "kernel", "metric", "ordinal"], n_hi=40)
        while c["m"] in ("mi", "cmi") and c["nv"] != (2 if c["m"] == "mi" else 3):
            c = calls.build(r, measures=["mi", "cmi", "te"], approaches=["discrete", "kernel", "metric", "ordinal"], n_hi=40)
    elif kind == "small values":
        c = calls.build(r, approaches=["kernel", "metric", "renyi", "tsallis", "bayes", "nsb"], measures=["h", "hj", "mi"], n_hi=40)
    else:
        c = calls.build(r, measures=["mi", "cmi", "te", "cte", "hj"], approaches=[a for a in ALL if a not in ("ansb", "nsb")], n_hi=44)
    c["kind"] = kind
    c["t"] = int(r.integers(2**31))
    c["how"] = gen.pick(r, ["f", "e", "c"]) if c["m"] != "jsd" else "f"
    return c


def refused(c, kw, xs, what):
    pos, cond = calls.args_of(c, xs)
    try:
        v, _ = ask(c, c["how"], pos, cond, kw, c["a"])
    except (ValueError, TypeError):
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{c['a']} {c['m']}, {what}: {type(e).__name__}: {e} instead of a value or type error")
    raise Violation(f"{c['a']} {c['m']}, {what}: answered {v!r} to an invalid request")


def answered(c, kw, xs, what):
    pos, cond = calls.args_of(c, xs)
    try:
        v, _ = ask(c, c["how"], pos, cond, kw, c["a"])
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{c['a']} {c['m']} ({c['how']}), {what}: a valid request was refused with {type(e).__name__}: {e}")
    # the NSB entropy is documented to be undefined without coincidences
    require(np.isfinite(v) or c["a"] == "nsb" and np.isnan(v), f"{c['a']} {c['m']} ({c['how']}), {what}: a valid request was answered with {v!r}")
    return v


def check_edge(c):
    im.Config.reset()
    r = np.random.default_rng(c["t"])
    m, a, kind = c["m"], c["a"], c["kind"]
    xs = calls.data(c)
    n = len(xs[0])
    kw = {**c["p"], **c["w"], "base": c["base"]}
    if kind == "k":
        nn = obs(c["w"], n) if m in ("te", "cte") else n - abs(c["w"].get("offset", 0))
        last = nn - 1
        if m == "hx":
            last = len(xs[1])
        kw["k"] = last
        # as many neighbours as there are other observations
        answered(c, kw, xs, f"k={last} of {nn} observations")
        kw["k"] = last + 1
        refused(c, kw, xs, f"k={last + 1} of {nn} observations")
    elif kind == "embedding_dim":
        s = kw["step_size"] = int(r.integers(1, 4))
        d = kw["embedding_dim"]
        last = (d - 1) * s + 1  # exactly one pattern
        if m in ("mi", "cmi"):
            last += 0
        answered(c, kw, [x[:last] for x in xs], f"n={last}, embedding_dim={d}, step_size={s}")
        refused(c, kw, [x[: last - 1] for x in xs], f"n={last - 1}, embedding_dim={d}, step_size={s}")
    elif kind == "step_size":
        d = kw["embedding_dim"]
        last = (n - 1) // (d - 1)
        kw["step_size"] = last
        answered(c, kw, xs, f"n={n}, embedding_dim={d}, step_size={last}")
        kw["step_size"] = last + 1
        refused(c, kw, xs, f"n={n}, embedding_dim={d}, step_size={last + 1}")
    elif kind in ("window", "prop_time"):
        if kind == "prop_time":
            kw["prop_time"] = (n - 2) // kw["step_size"] // 2 * int(gen.pick(r, [1, -1]))
            if kw["prop_time"] == 0:
                return None
        need = (max(kw["src_hist_len"], kw["dest_hist_len"], kw.get("cond_hist_len", 1)) + abs(kw.get("prop_time", 0))) * kw["step_size"] + 1  # exactly one observation
        answered(c, kw, [x[: need + 4 * (a == "kernel")] for x in [np.concatenate([x, x]) for x in xs]], f"n={need}, windows { {k: kw.get(k) for k in ('src_hist_len', 'dest_hist_len', 'cond_hist_len', 'step_size', 'prop_time')} }")
        refused(c, kw, [x[: need - 1] for x in [np.concatenate([x, x]) for x in xs]], f"n={need - 1}, windows { {k: kw.get(k) for k in ('src_hist_len', 'dest_hist_len', 'cond_hist_len', 'step_size', 'prop_time')} }")
    elif kind == "offset":
        s = int(gen.pick(r, [1, -1]))
        left = 2 if a in ("metric", "kernel") else 1
        kw["offset"] = s * (n - left)
        answered(c, kw, xs, f"n={n}, offset={kw['offset']}")
        kw["offset"] = s * n
        refused(c, kw, xs, f"n={n}, offset={kw['offset']}")
    elif kind == "n_tests":
        pos, cond = calls.args_of(c, xs)
        e = im.estimator(*pos, **cond, measure=m, approach=a, **kw)
        res = e.statistical_test(n_tests=2, method=gen.pick(r, ["permutation_test", "bootstrap"]))
        require(len(res.test_values) == 2, f"{a} {m}: 2 tests gave {len(res.test_values)} values")
    elif kind == "small values":
        if a == "kernel":
            kw["kernel"], kw["bandwidth"] = "box", 1e-3
        elif a == "metric":
            kw.update(minkowski_p=gen.pick(r, [1, 1.0, 1.001]), k=1)
        elif a == "renyi":
            kw.update(k=1, alpha=gen.pick(r, [1e-3, 1.99]))
        elif a == "tsallis":
            kw.update(k=1, q=gen.pick(r, [1e-3, 1.99]))
        elif a == "bayes":
            kw.update(alpha=1e-9)
            kw.pop("K", None)
            if m in ("h", "hj"):
                kw["K"] = 1
        else:
            if m in ("h", "hj"):
                kw["K"] = 400
        answered(c, kw, xs, f"{kw}")
    else:
        answered(c, kw, xs, f"{kw}")
        i = int(r.integers(len(xs)))
        xs[i] = xs[i][:-1]
        refused(c, kw, xs, f"variable {i} one shorter")
    return [f"{kind} {a}", m]


# ------------------------------------------------------------------ configuration
def build_conf(r):
    opts = [("set", "base", gen.pick(r, ["foo", "2", None, [2], "E"])), ("set", "statistical_test_method", gen.pick(r, ["foo", 1, None, "bootstrapp"])), ("set", "statistical_test_n_tests", gen.pick(r, ["10", 2.5, None, [3]])),
            ("set", gen.pick(r, ["bases", "", "Base", "n_tests"]), 3), ("unit", None, gen.pick(r, ["foo", "", "bitss", "e", "natsy"])), ("level", None, gen.pick(r, ["foo", "", "loud"]))]
    o = list(gen.pick(r, opts))
    return {"op": o, "first": [gen.pick(r, [2, "e", 10, 3.5]), gen.pick(r, ["permutation_test", "bootstrap"]), int(r.integers(2, 500))]}


def check_conf(c):
    import logging

    im.Config.reset()
    try:
        b, t, k = c["first"]
        im.Config.set("base", b), im.Config.set("statistical_test_method", t), im.Config.set("statistical_test_n_tests", k)
        before = config_state()
        lvl = logging.getLogger("infomeasure").level
        op, key, val = c["op"]
        try:
            {"set": lambda: im.Config.set(key, val), "unit": lambda: im.Config.set_logarithmic_unit(val), "level": lambda: im.Config.set_log_level(val)}[op]()
        except (ValueError, TypeError, KeyError):
            pass
        else:
            raise Violation(f"configuration {c['op']} was accepted")
        require(config_state() == before, f"refused configuration {c['op']} changed the settings to {config_state()}")
        require([im.Config.get("base"), im.Config.get("statistical_test_method"), im.Config.get("statistical_test_n_tests")] == c["first"], f"settings {c['first']} read back differently")
        require(logging.getLogger("infomeasure").level == lvl, "refused log level changed the level")
        h = fnum(im.entropy([0, 0, 1, 2, 2, 2], approach="discrete"))
        p = np.array([2, 1, 3]) / 6
        check_close(h, -(p * np.log(p)).sum() / (1 if b == "e" else np.log(b)), f"entropy after the refused configuration {c['op']}", 1e-12)
    finally:
        im.Config.reset()
    return [op]


SUBS = [Sub("refused", gen.uniform(build), check, 6000, 150000), Sub("boundary", gen.uniform(build_edge), check_edge, 2400, 50000), Sub("configuration", gen.uniform(build_conf), check_conf, 300, 3000)]
