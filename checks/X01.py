from lib.common import *
from lib import cont as C, ordi
from collections import Counter
import math

RULE = ("Pairs of samples of different lengths with equal, nested, overlapping and disjoint supports in 24 codings (also different types on both sides): discrete, Miller-Madow, Bayes (all priors, explicit "
        "alphabet size; up to 140000 samples), ordinal, kernel, metric, Renyi, Tsallis cross-entropies against independent formulas; refusals of the other approaches and of joint variables. "
        "Non-trivial: the supports overlap and differ in their frequencies.")
PAIRENC = ["int", "int8", "neg", "float", "str", "strlong", "list", "strlist", "bool", "shuffled", "big", "negfloat", "uint8"] + gen.HARD


@st.composite
def pair(draw, k_max=8, n_max=30):
    k = draw(st.integers(1, k_max))
    kind = draw(st.sampled_from(["any", "any", "nested", "disjoint", "equal"]))
    A = st.integers(0, k - 1)
    p = draw(st.lists(A, min_size=1, max_size=n_max))
    if kind == "equal":
        q = p * draw(st.integers(1, 3))
    elif kind == "nested":
        q = p + draw(st.lists(st.integers(0, 2 * k), min_size=0, max_size=n_max))
    elif kind == "disjoint":
        q = [v + k for v in draw(st.lists(A, min_size=1, max_size=n_max))]
    else:
        q = draw(st.lists(st.integers(0, k), min_size=1, max_size=n_max))
    return [p, q]


@st.composite
def case(draw):
    a = draw(st.sampled_from(["discrete", "discrete", "miller_madow", "bayes", "bayes"]))
    big = draw(st.integers(0, 3)) == 0
    c = {"approach": a, "params": draw(disc_params(a)), "base": draw(BASES), "enc": draw(st.sampled_from(PAIRENC)), "how": draw(st.sampled_from(["f", "e", "entropy"]))}
    if big:
        c["rng"] = draw(SEED)
        c["n"] = [draw(st.integers(2, 3000)), draw(st.integers(2, 3000))]
        c["k"] = [draw(st.sampled_from([2, 3, 10, 100])), draw(st.sampled_from([2, 3, 10, 100]))]
        c["shift"] = draw(st.sampled_from([0, 1, 5]))
    else:
        c["pq"] = draw(pair())
    return c


def large(r):
    a = gen.pick(r, ["discrete", "miller_madow", "bayes"])
    return {"approach": a, "params": disc_params_rng(r, a), "base": gen.base_rng(r), "enc": gen.pick(r, PAIRENC), "how": gen.pick(r, ["f", "e", "entropy"]), "rng": int(r.integers(2**31)),
            "n": [gen.big_n(r, 30000, 0.25) for _ in range(2)], "k": [int(gen.pick(r, [2, 5, 100])), int(gen.pick(r, [3, 100, 3000]))], "shift": int(gen.pick(r, [0, 1, 5]))}


def samples(c):
    if "pq" in c:
        return [np.array(v) for v in c["pq"]]
    r = np.random.default_rng(c["rng"])
    p = np.minimum(r.geometric(0.4, c["n"][0]) - 1, c["k"][0] - 1)
    q = r.integers(0, c["k"][1], c["n"][1]) + c["shift"]
    return [p, q]


def same_dist(p, q):
    P, Q = Counter(p.tolist()), Counter(q.tolist())
    return P.keys() == Q.keys() and all(P[s] * len(q) == Q[s] * len(p) for s in P)


def enc_pair(p, q, enc):
    both = np.concatenate([p, q])
    if enc == "bool" and both.max() > 1:
        enc = "int"
    e = gen.encode(both, enc)
    a, b = e[: len(p)], e[len(p):]
    return a, b


def oracle(a, p, q, base, par):
    P, Q = Counter(p), Counter(q)
    N, M = len(p), len(q)
    common = [s for s in P if s in Q]
    if not common:
        return 0.0
    lb = O.ln_base(base)
    if a == "bayes":
        def est(cn, n):
            K = par["K"] if par.get("K") is not None else len(cn)
            al = O.bayes_alpha(par["alpha"], K, n)
            return {s: (v + al) / (n + K * al) for s, v in cn.items()}
        dp, dq = est(P, N), est(Q, M)
    else:
        dp, dq = {s: v / N for s, v in P.items()}, {s: v / M for s, v in Q.items()}
    h = -math.fsum(dp[s] * math.log(dq[s]) for s in common)
    if a == "miller_madow":
        h += ((len(P) + len(Q)) / 2 - 1) / (N + M)
    return h / lb


def call(c, p, q, kw):
    if c["how"] == "f":
        return im.hx(p, q, **kw)
    if c["how"] == "entropy":
        return im.cross_entropy(p, q, **kw)
    return im.estimator(p, q, measure="cross_entropy", **kw).result()


def check(c):
    p, q = samples(c)
    x, y = enc_pair(p, q, c["enc"])
    a = c["approach"]
    kw = dict(approach=a, base=c["base"], **c["params"])
    want = oracle(a, p.tolist(), q.tolist(), c["base"], c["params"])
    check_close(call(c, x, y, kw), want, f"{a} cross-entropy", 1e-9, 1e-10)
    if a == "discrete" and same_dist(p, q):
        check_close(im.hx(x, y, **kw), im.entropy(x, **kw), "cross-entropy of equal distributions = entropy", 1e-9, 1e-10)
    P, Q = set(p.tolist()), set(q.tolist())
    kind = "disjoint" if not P & Q else "nested" if P < Q or Q < P else "equal" if P == Q else "overlap"
    if kind == "disjoint":
        return ["disjoint"]
    return [a, kind, c["enc"]] if len(P & Q) > 1 else None


def build_cont_large(r):
    c = build_cont(r)
    top = {"kernel": 2500, "metric": 3500, "renyi": 3500, "tsallis": 3500, "ordinal": 9000}[c["a"]]
    for d in c["d"]:
        d["n"] = gen.big_n(r, top)
    return c


def build_cont(r):
    a = gen.pick(r, ["kernel", "metric", "renyi", "tsallis", "ordinal"])
    d = int(gen.pick(r, [1, 1, 2, 3])) if a != "ordinal" else 1
    D = lambda: {"rng": int(r.integers(2**31)), "n": int(r.integers(25, 120)), "dims": [d], "dep": 0.5, "grid": 0, "scale": 1.0, "shift": gen.pick(r, [0.0, 0.5])}
    from lib import calls

    return {"a": a, "p": calls.params(r, "hx", a), "base": gen.base_rng(r), "d": [D(), D()], "how": gen.pick(r, ["f", "e", "entropy"])}


def check_cont(c):
    (x,), (y,) = [gen.points(d) for d in c["d"]]
    a, p = c["a"], c["p"]
    kw = dict(approach=a, base=c["base"], **p)
    lb = O.ln_base(c["base"])
    if a == "kernel":
        dens = C.density(p["kernel"], p["bandwidth"])(y, x)
        want = -math.fsum(np.log(dens[dens > 0])) / len(x) / lb
    elif a == "metric":
        want = C.kl_cross(x, y, p["k"], p["minkowski_p"]) / lb
    elif a == "ordinal":
        ps = [ordi.pats(v, p["embedding_dim"], p["step_size"]) for v in (x, y)]
        want = oracle("discrete", *ps, c["base"], {})
    else:
        want = C.lps(y, p["k"], p.get("alpha", p.get("q")), a, c["base"], at=x)
    check_close(call(c, x, y, kw), want, f"{a} cross-entropy", 1e-7, 1e-8)
    return [a]


def build_ref(r):
    return {"a": gen.pick(r, ["grassberger", "shrink", "chao_shen", "chao_wang_jost", "zhang", "bonachela", "ansb", "nsb", "discrete", "bayes", "miller_madow", "ordinal"]), "rng": int(r.integers(2**31)), "f": gen.pick(r, ["hx", "kld", "e"])}


def check_ref(c):
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError

    r = np.random.default_rng(c["rng"])
    p, q = r.integers(0, 4, 30), r.integers(0, 4, 30)
    a = c["a"]
    kw = {"bayes": {"alpha": 1.0}, "ordinal": {"embedding_dim": 2}}.get(a, {})
    if a in ("discrete", "bayes", "miller_madow", "ordinal"):
        p, q = (p, p), (q, q)
    f = {"hx": im.hx, "kld": im.kld, "e": lambda *s, **k: im.estimator(*s, measure="cross_entropy", **k).result()}[c["f"]]
    raises((TheoreticalInconsistencyError, ValueError), lambda: f(p, q, approach=a, **kw), f"cross-entropy ({a}, {'joint variables' if isinstance(p, tuple) else 'not offered'})")
    return [a]


SUBS = [Sub("large", gen.uniform(large), check, 60, 3000), Sub("continuous, large", gen.uniform(build_cont_large), check_cont, 40, 2000), Sub("discrete", case(), check, 3000, 80000), Sub("continuous", gen.uniform(build_cont), check_cont, 800, 20000), Sub("refused", gen.uniform(build_ref), check_ref, 100, 1000)]
