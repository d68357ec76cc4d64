"""Results are pure: independent of call history, of other live estimators and of caller-side arrays."""
import copy
import os
import pickle
import sys
from concurrent.futures import ThreadPoolExecutor

from lib.common import *
from lib import calls, fresh
from infomeasure.utils.exceptions import TheoreticalInconsistencyError

RULE = ("Histories of 8-25 operations over 2-4 live estimators (related to each other: the same data with other parameters, the same parameters with other data of the same shape, or shared arrays), of every measure and approach: "
        "read global / result / local values / distribution, statistical tests, effective values, functional calls, composite divergences, refused requests, configuration changes, copies of estimators. Every value read must be bit-for-bit what a "
        "process that has evaluated nothing else returns (forked before the first evaluation) for the same estimator, with random operations replayed in that estimator's own order. At the end, the caller's arrays (sometimes read-only) "
        "are unchanged and unaliased, configuration, numpy's global random state and error state as set. 'arrays': one call of any measure, with noise levels up to 0.1, normalisation and ten memory layouts (read-only, strided, reversed, Fortran, columns of a table, other byte order), every buffer compared byte for byte after each read. 'threads': four calls evaluated concurrently in random schedules. 'reuse': calls one after the other on the same buffers filled with new numbers in between, or on arrays freed in between. 'interrupted': operations (statistical tests above all) ended by an exception raised at a random internal call of the library - as a keyboard interrupt, a time limit or a MemoryError would - after which every value read must be what a fresh process returns. Non-trivial: at least 3 values compared and one of them not 0.")
WARM = True
ASSUMPTIONS = ["estimators are compared bit for bit with themselves on the same machine, single-threaded BLAS"]

REFUSALS = (ValueError, TypeError, OSError, NotImplementedError, TheoreticalInconsistencyError)
RANDOM = ("test", "effective")


def sibling(r, c):
    """a call related to c"""
    c2 = copy.deepcopy(c)
    how = gen.pick(r, ["data", "params", "both", "same", "measure"])
    if how in ("data", "both"):
        if "rng" in c2["d"]:
            c2["d"]["rng"] = int(r.integers(2**31))
    if how in ("params", "both"):
        c2["p"] = calls.params(r, c["m"], c["a"])
    if how == "measure":
        for _ in range(20):
            c3 = calls.build(r, measures=["h", "hj", "mi", "te", "hx", "cmi", "cte"], approaches=[c["a"]], n_hi=50)
            if c3["nv"] <= c["nv"]:
                break
        if c3["nv"] <= c["nv"] and c3["d"].get("dims", [1])[0] == c["d"].get("dims", [1])[0] and c["m"] not in ("kld", "jsd"):
            d = copy.deepcopy(c["d"])
            for k in ("vars", "dims"):
                if k in d:
                    d[k] = d[k][: c3["nv"]]
            if c3["m"] not in ("te", "cte") or d["n"] >= 40:
                c2 = dict(c3, d=d)
                c2.pop("cut", None)
                c2["rel"] = "measure"
    c2["rel"] = how
    return c2


def build(r):
    first = calls.build(r, n_hi=45, measures=["h", "hj", "mi", "cmi", "te", "cte", "hx", "mi", "te"])
    if first["a"] == "nsb" and first["m"] != "h" and r.random() < 0.7:
        first = calls.build(r, n_hi=45, measures=["h", "hj", "mi", "cmi", "te", "cte", "hx"])
    ests = [first]
    for _ in range(int(r.integers(1, 4))):
        if r.random() < 0.7:
            ests.append(sibling(r, gen.pick(r, ests)))
        else:
            ests.append(calls.build(r, n_hi=45, measures=["h", "hj", "mi", "cmi", "te", "cte", "hx"]))
    for c in ests:
        c["seed"] = int(r.integers(1000)) if c["m"] in ("mi", "cmi", "te", "cte") else None
        c["nobase"] = bool(r.random() < 0.3)
        c["ro"] = bool(r.random() < 0.4)
        if c["seed"] is not None and c["a"] in ("metric", "renyi", "tsallis") and r.random() < 0.3:
            c["p"]["noise_level"] = 1e-3  # random, but reproducible with the seed
    ops = []
    for _ in range(int(r.integers(8, 26))):
        i = int(r.integers(len(ests)))
        c = ests[i]
        kinds = ["global", "global", "result", "local", "local", "functional", "bad", "config", "copy", "again"]
        if c["m"] in ("h", "hj"):
            kinds += ["dist", "dist"]
        if c["m"] in ("mi", "cmi", "te", "cte"):
            kinds += ["test", "test"]
        if c["m"] in ("te", "cte"):
            kinds += ["effective"]
        if c["m"] == "hx":
            kinds += ["kld", "jsd"]
        k = gen.pick(r, kinds)
        o = [k, i]
        if k == "test":
            o += [int(r.integers(2, 5)) if c["a"] != "nsb" else 2, gen.pick(r, ["permutation_test", "bootstrap", None])]
        if k == "effective":
            o += [gen.pick(r, ["permutation_test", "bootstrap", None])]
        if k == "config":
            o += [gen.pick(r, [["base", 2], ["base", "e"], ["base", 7], ["statistical_test_method", "bootstrap"], ["statistical_test_method", "permutation_test"], ["statistical_test_n_tests", 3], ["reset", None]])]
        ops.append(o)
    return {"ests": ests, "ops": ops}


def make(c, xs, base):
    pos, kw = calls.args_of(c, xs)
    meas = {"h": "entropy", "hj": "entropy", "hx": "cross_entropy"}.get(c["m"], calls.FULL[c["m"]])
    extra = {} if c["seed"] is None else {"seed": c["seed"]}
    k = calls.kwargs_of(c, base=None)
    if base is not None:
        k["base"] = base
    return im.estimator(*pos, **kw, measure=meas, **k, **extra)


def out(f):
    """a comparable result: bytes of the numbers, or the kind of refusal"""
    try:
        v = f()
    except REFUSALS as e:
        return ("refused", type(e).__name__)
    return plain(v)


def plain(v):
    if isinstance(v, np.ndarray):
        return ("array", v.shape, np.ascontiguousarray(v, dtype=float).tobytes())
    if isinstance(v, dict):
        return ("dict", sorted((repr(key(k)), float(x)) for k, x in v.items()))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return ("num", float(v).hex())
    return ("other", type(v).__name__)


def key(k):
    if isinstance(k, (tuple, list, np.ndarray)):
        return tuple(key(x) for x in k)
    return k.item() if hasattr(k, "item") else k


def do(e, o):
    """the values read by one operation on one estimator"""
    k = o[0]
    if k == "global":
        return [out(e.global_val)]
    if k == "result":
        return [out(e.result)]
    if k == "local":
        return [out(e.local_vals)]
    if k == "dist":
        def f():
            e.global_val()
            d = getattr(e, "dist_dict", None)
            return {} if d is None else d
        return [out(f)]
    if k == "test":
        try:
            t = e.statistical_test(n_tests=o[2], method=o[3])
        except REFUSALS as x:
            return [("refused", type(x).__name__)]
        return [plain(np.asarray(t.test_values)), plain(t.observed_value), plain(t.p_value), plain(t.null_mean), plain(t.null_std), ("s", t.method, t.n_tests)]
    if k == "effective":
        return [out(lambda: e.effective_val(method=o[2]))]
    raise HarnessError(k)


def reference(c, base, ops, want):
    """in a fresh process: the same estimator, only the operations that consume its random numbers (all of them with noise), then the wanted one"""
    im.Config.reset()
    xs = calls.data(c)
    e = make(c, xs, base)
    got = None
    for o in ops:
        got = do(e, o)
    return got if want is None else do(e, want)


def ref_function(c, name, base):
    im.Config.reset()
    return out(lambda: function(c, name, calls.data(c), base))


def function(c, name, xs, base):
    pos, kw = calls.args_of(c, xs)
    k = calls.kwargs_of(c, base=None)
    if base is not None:
        k["base"] = base
    return getattr(im, name)(*pos, **kw, **k)


def noisy(c):
    return bool(c["p"].get("noise_level"))


def check(case):
    fresh.start()
    im.Config.reset()
    state = np.random.get_state()[1].tobytes()
    err = np.geterr()
    cfg = config_state()
    ests, arrays, keep, bases, randops, allops, copies = [], [], [], [], [], [], []
    compared, nonzero = 0, False
    shared = {}
    try:
        for c in case["ests"]:
            dk = repr((c["d"], c.get("cut")))
            if dk not in shared:
                shared[dk] = calls.data(c)  # related estimators share the caller's arrays
            xs = shared[dk]
            if c["ro"]:
                for x in xs:
                    x.flags.writeable = False
            arrays.append(xs)
            keep.append([x.copy() for x in xs])
            b = cfg["base"] if c["nobase"] else c["base"]
            bases.append(b)
            ests.append(make(c, xs, None if c["nobase"] else c["base"]))
            randops.append([])
            allops.append([])
        for o in case["ops"]:
            k, i = o[0], o[1]
            c, e = case["ests"][i], ests[i]
            what = f"operation {o} on {c['a']} {c['m']}"
            if k == "config":
                if o[2][0] == "reset":
                    im.Config.reset()
                    cfg = {"base": "e", "statistical_test_method": "permutation_test", "statistical_test_n_tests": 200}
                else:
                    im.Config.set(*o[2])
                    cfg[o[2][0]] = o[2][1]
                continue
            if k == "bad":
                out(lambda: im.estimator(*arrays[i], measure=c["m"], approach=c["a"], bogus=1))
                out(lambda: e.statistical_test(n_tests=0) if hasattr(e, "statistical_test") else None)
                continue
            if k == "copy":
                if not noisy(c):
                    ests[i] = copy.deepcopy(e) if len(copies) % 2 else pickle_copy(e)
                    copies.append(e)
                continue
            if k == "again":  # a second estimator of the same request takes its place
                ests[i] = make(c, arrays[i], bases[i])
                randops[i], allops[i] = [], []
                continue
            if k in ("functional", "kld", "jsd"):
                if noisy(c):
                    continue
                name = calls.FN[c["m"]] if k == "functional" else k
                b = cfg["base"] if c["nobase"] else c["base"]
                got = out(lambda: function(c, name, arrays[i], None if c["nobase"] else c["base"]))
                want = fresh.call(ref_function, c, name, b)
                require(got == want, f"{name}({c['a']}) in a history: {show(got)}, in a fresh process {show(want)}")
                compared += 1
                continue
            o2 = list(o)
            if k in RANDOM and o2[-1] is None:
                o2[-1] = cfg["statistical_test_method"]  # the default at this moment
            got = do(e, o)
            if noisy(c):
                want = fresh.call(reference, c, bases[i], allops[i] + [o2], None)
            elif k in RANDOM:
                want = fresh.call(reference, c, bases[i], randops[i] + [o2], None)
            else:
                want = fresh.call(reference, c, bases[i], [], o2)
            allops[i].append(o2)
            if k in RANDOM:
                randops[i].append(o2)
            for g, w in zip(got, want):
                require(g == w, f"{what} after {case['ops'][: case['ops'].index(o)]}: {show(g)}, in a fresh process {show(w)}")
            compared += len(got)
            nonzero |= any(g[0] == "num" and g[1] != (0.0).hex() for g in got)
        # afterwards
        for c, e, xs, ks in zip(case["ests"], ests, arrays, keep):
            for x, k0 in zip(xs, ks):
                require(x.dtype == k0.dtype and np.array_equal(x, k0, equal_nan=x.dtype.kind == "f"), f"{c['a']} {c['m']}: the caller's data were changed")
                loc = getattr(e, "res_local", None)
                if isinstance(loc, np.ndarray):
                    require(not np.shares_memory(loc, x), f"{c['a']} {c['m']}: local values share memory with the caller's data")
        require(config_state() == cfg, f"configuration is {config_state()}, was set to {cfg}")
        require(np.random.get_state()[1].tobytes() == state, "numpy's global random state was changed")
        require(np.geterr() == err, "numpy's error state was changed")
    finally:
        im.Config.reset()
    if compared < 3 or not nonzero:
        return None
    return sorted({f"{c['m']} {c['a']}" for c in case["ests"]})


def pickle_copy(e):
    try:
        return pickle.loads(pickle.dumps(e))
    except (AttributeError, pickle.PicklingError, TypeError):  # not promised
        return copy.copy(e)


def show(v):
    if v[0] == "num":
        return repr(float.fromhex(v[1]))
    if v[0] == "array":
        return repr(np.frombuffer(v[2])[:8]) + f" shape {v[1]}"
    return repr(v)[:300]


# ------------------------------------------------------------------ threads
def build_threads(r):
    cs = []
    base = calls.build(r, n_hi=60)
    for _ in range(4):
        c = sibling(r, base) if r.random() < 0.6 and base["m"] not in ("kld", "jsd") else calls.build(r, n_hi=60)
        cs.append(c)
    return {"calls": cs, "order": [int(v) for v in r.integers(0, 4, 12)], "switch": gen.pick(r, [1e-6, 1e-5, 1e-4])}


def fresh_value(c):
    im.Config.reset()
    return out(lambda: calls.value(c))


def check_threads(case):
    fresh.start()
    im.Config.reset()
    xs = [calls.data(c) for c in case["calls"]]
    old = sys.getswitchinterval()
    sys.setswitchinterval(case["switch"])
    try:
        with ThreadPoolExecutor(4) as ex:
            got = [f.result() for f in [ex.submit(out, lambda i=i: calls.value(case["calls"][i], xs[i])) for i in case["order"]]]
    finally:
        sys.setswitchinterval(old)
    want = {i: fresh.call(fresh_value, case["calls"][i]) for i in set(case["order"])}
    for i, g in zip(case["order"], got):
        c = case["calls"][i]
        require(g == want[i], f"{c['a']} {c['m']} evaluated in a thread: {show(g)}, alone {show(want[i])}")
    return sorted({f"{c['m']} {c['a']}" for c in case["calls"]}) if any(g[0] == "num" and float.fromhex(g[1]) != 0 for g in got) else None


# ------------------------------------------------------------------ the caller's arrays
LAYOUTS = ["plain", "plain", "fortran", "strided", "reversed", "column", "readonly", "f32", "big-endian", "list"]


def build_arrays(r):
    c = calls.build_big(r, top=0.15, huge=0) if r.random() < 0.03 else calls.build(r, n_hi=50)
    nn = c["a"] == "metric" or (c["a"] in ("renyi", "tsallis") and c["m"] in ("mi", "cmi", "te", "cte"))
    if nn:
        c["p"]["noise_level"] = gen.pick(r, [0, 1e-10, 1e-6, 1e-3, 0.1, "default"])
        if c["p"]["noise_level"] == "default":
            del c["p"]["noise_level"]
    if c["m"] in ("mi", "cmi") and c["a"] in ("kernel", "metric", "renyi", "tsallis") and r.random() < 0.3:
        c["d"]["dims"] = [1] * c["nv"]
        c["p"]["normalize"] = True
    c["lay"] = [gen.pick(r, LAYOUTS) for _ in range(c["nv"])]
    c["reads"] = [gen.pick(r, ["global", "local", "test", "effective", "functional", "dist", "recalculate"]) for _ in range(int(r.integers(1, 6)))]
    c["seed"] = int(r.integers(1000))
    c["meth"] = gen.pick(r, ["permutation_test", "bootstrap"])
    return c


def laid(x, how):
    """(what is passed, the buffer behind it)"""
    if how == "list":
        v = x.tolist()
        return v, v
    if how == "fortran" and x.ndim == 2:
        b = np.asfortranarray(x)
        return b, b
    if how == "strided":
        b = np.repeat(x, 3, axis=0)
        return b[1::3], b
    if how == "reversed":
        b = x[::-1].copy()
        return b[::-1], b
    if how == "column":
        b = np.column_stack([x, x, x]) if x.ndim == 1 else np.concatenate([x, x, x], axis=1)
        w = 1 if x.ndim == 1 else x.shape[1]
        return (b[:, 1] if x.ndim == 1 else b[:, w : 2 * w]), b
    b = x.copy()
    if how == "f32" and x.dtype.kind == "f":
        b = x.astype(np.float32)
    elif how == "big-endian":
        b = x.astype(x.dtype.newbyteorder(">"))
    elif how == "readonly":
        b.flags.writeable = False
    return b, b


def bits(b):
    return repr(b) if isinstance(b, list) else (b.dtype.str, b.shape, b.tobytes())


def check_arrays(c):
    im.Config.reset()
    raw = calls.data(c)
    if c["m"] in ("kld", "jsd", "hx") or c["m"] == "hj":
        c = dict(c, lay=["plain" if h == "list" else h for h in c["lay"]])
    pairs = [laid(x, h) for x, h in zip(raw, c["lay"])]
    xs = [p[0] for p in pairs]
    before = [bits(p[1]) for p in pairs]
    what = f"{c['a']} {c['m']} {c['p']}"
    done = []

    def same(step):
        for p, b in zip(pairs, before):
            require(bits(p[1]) == b, f"{what}: {step} changed the caller's data (layouts {c['lay']})")

    if c["m"] in ("kld", "jsd"):
        calls.value(c, xs)
        same("the call")
        return [c["m"], c["a"]]
    extra = {"seed": c["seed"]} if c["m"] in ("mi", "cmi", "te", "cte") else {}
    e = calls.est(c, xs, **extra)
    same("the construction")
    first = None
    for k in c["reads"]:
        if k == "functional":
            out(lambda: calls.value(c, xs))
        elif k == "global":
            v = out(e.global_val)
            require(first in (None, v), f"{what}: the value is {show(v)} after it was {show(first or v)}")
            first = v
        elif k == "recalculate":
            if first is None:
                out(e.calculate)
        elif k == "local":
            try:
                l = e.local_vals()
            except REFUSALS:
                continue
            for p in pairs:
                require(isinstance(p[1], list) or not np.shares_memory(np.asarray(l), p[1]), f"{what}: local values share memory with the caller's data")
        elif k == "dist":
            out(e.global_val)
            getattr(e, "dist_dict", None)
        elif k == "test" and hasattr(e, "statistical_test") and c["a"] != "nsb":
            out(lambda: e.statistical_test(n_tests=2, method=c["meth"]).p_value)
        elif k == "effective" and hasattr(e, "effective_val") and c["a"] != "nsb":
            out(lambda: e.effective_val(method=c["meth"]))
        else:
            continue
        done.append(k)
        same(k)
    return sorted({f"{c['m']} {c['a']}", *("layout " + h for h in c["lay"]), "noise" if c["p"].get("noise_level", "metric" == c["a"]) else "no noise"}) if done else None


# ------------------------------------------------------------------ buffers used again
def build_reuse(r):
    """calls one after the other on the same buffers, which the caller fills with new numbers in between"""
    first = calls.build(r, n_hi=60)
    while first["a"] == "nsb" and first["m"] != "h":
        first = calls.build(r, n_hi=60)
    if first["a"] == "metric" or "noise_level" in first["p"]:
        first["p"]["noise_level"] = 0
    cs = [first]
    for _ in range(int(r.integers(2, 6))):
        c = copy.deepcopy(gen.pick(r, cs))
        u = r.random()
        if u < 0.4:  # the last data with a few samples exchanged
            c = copy.deepcopy(cs[-1])
            c["edits"] = c.get("edits", []) + [int(r.integers(2**31))]
        elif u < 0.75:
            c["d"]["rng"] = int(r.integers(2**31))
        else:
            c["p"] = calls.params(r, c["m"], c["a"])
            if "noise_level" in c["p"] or c["a"] == "metric":
                c["p"]["noise_level"] = 0
        if r.random() < 0.3:
            c["base"] = gen.base_rng(r)
        cs.append(c)
    return {"calls": cs, "how": [gen.pick(r, ["fill", "fill", "drop"]) for _ in cs], "read": [gen.pick(r, ["function", "global", "local"]) for _ in cs]}


def read_once(c, xs, k):
    if k == "function":
        return out(lambda: calls.value(c, xs))
    if c["m"] in ("kld", "jsd"):
        return out(lambda: calls.value(c, xs))
    e = calls.est(c, xs)
    return out(e.global_val if k == "global" else e.local_vals)


def edited(c):
    xs = calls.data(c)
    for seed in c.get("edits", []):
        r = np.random.default_rng(seed)
        x = xs[int(r.integers(len(xs)))]
        for _ in range(int(r.integers(1, 6))):
            i, j = (int(v) for v in r.integers(1, len(x) - 1, 2))
            x[[i, j]] = x[[j, i]] if r.random() < 0.5 else x[[i, i]]
    return xs


def ref_reuse(c, k):
    im.Config.reset()
    return read_once(c, edited(c), k)


def check_reuse(case):
    fresh.start()
    im.Config.reset()
    bufs, nz, seen = None, False, set()
    for c, how, k in zip(case["calls"], case["how"], case["read"]):
        xs = edited(c)
        fits = bufs is not None and len(bufs) == len(xs) and all(b.shape == x.shape and b.dtype == x.dtype for b, x in zip(bufs, xs))
        if how == "fill" and fits:
            for b, x in zip(bufs, xs):
                b[...] = x
        else:
            del bufs  # freed: the next arrays may get their addresses and identities
            bufs = xs
        del xs
        got = read_once(c, bufs, k)
        want = fresh.call(ref_reuse, c, k)
        require(got == want, f"{c['a']} {c['m']} {k} on buffers used before: {show(got)}, in a fresh process {show(want)}")
        nz |= got[0] == "array" or got[0] == "num" and got[1] != (0.0).hex()
        seen |= {how if fits else "new"}
    return [case["calls"][0]["m"], case["calls"][0]["a"], *seen] if nz and len(seen) > 1 else None


# ------------------------------------------------------------------ interrupted operations
class Interrupted(BaseException):
    """stands for Ctrl-C, a time limit or a MemoryError in the middle of an operation"""


PACKAGE = os.path.dirname(im.__file__)


def traced(f, at):
    """run f; raise Interrupted when the library makes its at-th internal call.  (calls seen, ended by the interruption)"""
    count = [0]

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(PACKAGE):
            count[0] += 1
            if at is not None and count[0] == at:
                raise Interrupted
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        f()
    except Interrupted:
        return count[0], True
    finally:
        sys.settrace(old)
    return count[0], False


def build_interrupted(r):
    c = calls.build(r, n_hi=45, measures=["mi", "te", "mi", "te", "cmi", "cte", "h", "hj", "hx"])
    c["seed"] = int(r.integers(1000)) if c["m"] in ("mi", "cmi", "te", "cte") else None
    c["nobase"], c["ro"] = False, False
    if "noise_level" in c["p"] or c["a"] == "metric":
        c["p"]["noise_level"] = 0
    kinds = ["global", "local", "functional"]
    if c["m"] in ("h", "hj"):
        kinds += ["dist"]
    if c["m"] in ("mi", "te", "cte") and c["a"] != "nsb":
        kinds += ["test"] * 4
    if c["m"] in ("te", "cte") and c["a"] != "nsb":
        kinds += ["effective"] * 2
    steps = []
    for _ in range(int(r.integers(1, 4))):
        k = gen.pick(r, kinds)
        o = [k, 0] + ([3, gen.pick(r, ["permutation_test", "bootstrap"])] if k == "test" else [gen.pick(r, ["permutation_test", "bootstrap"])] if k == "effective" else [])
        steps.append([o, float(r.random())])
    reads = [gen.pick(r, ["global", "local", "dist", "functional", "copy"]) for _ in range(int(r.integers(1, 4)))] + ["global"]
    return dict(c, steps=steps, reads=reads)


def check_interrupted(c):
    fresh.start()
    im.Config.reset()
    cfg = config_state()
    err = np.geterr()
    xs = calls.data(c)
    keep = [x.copy() for x in xs]
    e = make(c, xs, c["base"])
    hit = 0

    def run(est, arrays, o):
        if o[0] == "functional":
            out(lambda: function(c, calls.FN[c["m"]], arrays, c["base"]))
        else:
            do(est, o)

    for o, frac in c["steps"]:
        total, _ = traced(lambda: run(copy.deepcopy(e), xs, o), None)
        if total == 0:
            continue
        hit += traced(lambda: run(e, xs, o), 1 + int(frac * total))[1]
    if not hit:
        return None
    nonzero = False
    for k in c["reads"]:
        what = f"{c['a']} {c['m']} {c['p']}: {k} after {c['steps']} were interrupted"
        if k == "functional":
            got = out(lambda: function(c, calls.FN[c["m"]], xs, c["base"]))
            want = fresh.call(ref_function, c, calls.FN[c["m"]], c["base"])
            require(got == want, f"{what}: {show(got)}, in a fresh process {show(want)}")
            continue
        if k == "copy":
            e = copy.deepcopy(e)
            continue
        if k == "dist" and c["m"] not in ("h", "hj"):
            continue
        got, want = do(e, [k]), fresh.call(reference, c, c["base"], [], [k])
        for g, w in zip(got, want):
            require(g == w, f"{what}: {show(g)}, in a fresh process {show(w)}")
            nonzero |= g[0] == "num" and g[1] != (0.0).hex()
    for x, x0 in zip(xs, keep):
        require(np.array_equal(x, x0, equal_nan=x.dtype.kind == "f"), f"{c['a']} {c['m']}: the caller's data were changed by an interrupted operation")
    require(config_state() == cfg, "an interrupted operation changed the configuration")
    require(np.geterr() == err, "an interrupted operation changed numpy's error state")
    return sorted({f"{c['m']} {c['a']}", *(f"{o[0]} interrupted" for o, _ in c["steps"])}) if nonzero else None


SUBS = [Sub("arrays", gen.uniform(build_arrays), check_arrays, 2500, 60000), Sub("history", gen.uniform(build), check, 700, 20000), Sub("reuse", gen.uniform(build_reuse), check_reuse, 500, 15000), Sub("interrupted", gen.uniform(build_interrupted), check_interrupted, 500, 15000), Sub("threads", gen.uniform(build_threads), check_threads, 300, 6000)]
