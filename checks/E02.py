from lib.common import *

A9 = ["miller_madow", "grassberger", "shrink", "chao_shen", "chao_wang_jost", "bayes", "zhang", "bonachela", "ansb"]
RULE = ("Count vectors turned into samples (singletons, doubletons, all-distinct, one-symbol, many-doubletons and samples of up to 150000 with counts beyond 16 bits generated on purpose), "
        "single and joint, and as counts alone (any order, naming and integer type), 9 approaches x parameters x 13 bases; oracle: the documented closed formula evaluated term by term. "
        "NSB: independent quadrature of its ratio of posterior integrals over the pseudo-count (0, log K), where the library's absolute integration tolerance is not the limit. "
        "Non-trivial: at least two distinct symbols.")


@st.composite
def countvec(draw):
    kind = draw(st.sampled_from(["free", "free", "free", "rare", "singles", "uniform", "one", "heavy"]))
    if kind == "free":
        v = draw(st.lists(st.integers(1, draw(st.sampled_from([2, 4, 12, 40]))), min_size=1, max_size=14))
    elif kind == "rare":
        v = [1] * draw(st.integers(0, 8)) + [2] * draw(st.integers(0, 25)) + draw(st.lists(st.integers(3, 60), max_size=8))
        v = v or [1]
    elif kind == "singles":
        v = [1] * draw(st.integers(1, 25))
    elif kind == "uniform":
        v = [draw(st.integers(1, 15))] * draw(st.integers(1, 12))
    elif kind == "one":
        v = [draw(st.integers(1, 60))]
    else:
        v = [draw(st.integers(200, 700))] + draw(st.lists(st.integers(1, 5), max_size=10))
    return v


@st.composite
def case(draw, approaches=A9):
    a = draw(st.sampled_from(approaches))
    c = {"approach": a, "counts": draw(countvec()), "base": draw(BASES), "order": draw(SEED),
         "enc": draw(st.sampled_from(["int", "neg", "float", "str", "strlist", "list", "joint", "joint2", "2d", "huge", "ulp", "prefix", "uint64", "bytes"]))}
    if a == "bayes":
        c["params"] = draw(disc_params(a))
    elif a == "ansb":
        N, K = sum(c["counts"]), len(c["counts"])
        c["params"] = {}
        if N > 1 and draw(st.integers(0, 2)) == 0:
            c["params"] = {"K": draw(st.integers(1, N - 1))}
        if draw(st.integers(0, 3)) == 0:
            c["params"]["undersampled"] = draw(st.sampled_from([0.05, 0.5, 2.0, 100]))
    else:
        c["params"] = {}
    return c


def sample(c):
    col = np.repeat(np.arange(len(c["counts"])), c["counts"])
    np.random.default_rng(c["order"]).shuffle(col)
    return col


def check(c):
    col = sample(c)
    a, b = c["approach"], c["base"]
    if c["enc"] == "joint":
        x = (gen.encode(col // 3, "neg"), gen.encode(col % 3, "str"))
    elif c["enc"] == "joint2":
        x = (col % 2, col // 2 % 5, gen.encode(col // 10, "float"))
    elif c["enc"] == "2d":
        x = np.column_stack([col % 4, col // 4])
    else:
        x = gen.encode(col, c["enc"])
    params = dict(c["params"])
    want = O.entropy(a, col.tolist(), b, **{k: v for k, v in params.items() if k != "undersampled"})
    got = im.entropy(x, approach=a, base=b, **params)
    check_close(got, want, f"{a} entropy", rtol=1e-8)
    est = im.estimator(x, measure="h", approach=a, base=b, **params)
    loc = O.local(a, col.tolist(), b)
    if loc is not None:
        check_array(est.local_vals(), loc, f"{a} local values")
    check_close(est.result(), want, f"{a} estimator", rtol=1e-8)
    cs = c["counts"]
    from_counts(c, cs, want, params)
    lab = [a]
    if 1 in cs and 2 not in cs:
        lab.append("singletons, no doubletons")
    if 2 in cs:
        lab.append("doubletons")
    if set(cs) == {1}:
        lab.append("all distinct")
    return lab if len(cs) > 1 else None


def from_counts(c, cs, want, params, tol=1e-8):
    """the estimator made of the symbol counts, in any order and naming"""
    from infomeasure.estimators.functional import get_estimator_class

    cls = get_estimator_class("entropy", c["approach"])
    r = np.random.default_rng([c["order"], 2])
    o = r.permutation(len(cs))
    u = [f"s{i}" for i in o] if r.random() < 0.5 else (o * 3 - 7)
    k = [int(cs[i]) for i in o] if r.random() < 0.5 else np.array(cs, dtype=gen.pick(r, ["i8", "i4", "u4", "u8"]))[o]
    check_close(cls.from_counts(u, k, base=c["base"], **params).result(), want, f"{c['approach']} entropy from counts", rtol=tol)


@st.composite
def big(draw):
    a = draw(st.sampled_from(A9))
    hi = draw(st.sampled_from([3, 30, 400]))
    return {"approach": a, "counts": draw(st.lists(st.integers(1, hi), min_size=2, max_size=60)), "base": draw(BASES), "order": draw(SEED),
            "enc": draw(st.sampled_from(["int", "str", "joint"])), "params": draw(disc_params(a))}


def large():
    """Thousands to 150000 samples; counts beyond the ranges of the narrow integer types."""
    def build(r):
        a = gen.pick(r, A9 + ["chao_wang_jost", "bayes"])
        N = int(np.exp(r.uniform(np.log(3000), np.log(150000)))) if r.random() < 0.6 else int(r.integers(66000, 150001))
        kind = gen.pick(r, ["heavy", "heavy", "flat", "zipf", "tail"])
        if kind == "heavy":
            v = [N] + r.integers(1, gen.pick(r, [2, 5, 3000]), int(r.integers(0, 30))).tolist()
        elif kind == "flat":
            K = int(r.integers(2, 400))
            v = np.maximum(1, r.multinomial(N, np.ones(K) / K)).tolist()
        elif kind == "zipf":
            w = 1 / np.arange(1, int(r.integers(5, 3000))) ** r.uniform(0.5, 2)
            v = [int(t) for t in r.multinomial(N, w / w.sum()) if t]
        else:
            v = [N // 2, N // 3] + [1] * int(r.integers(0, 3000)) + [2] * int(r.integers(0, 40))
        if a == "bonachela" and sum(v) > 20000 or a == "zhang":
            v = [max(1, t // 10) for t in v]
        c = {"approach": a, "counts": [int(t) for t in v], "base": gen.base_rng(r), "order": int(r.integers(2**31)), "enc": gen.pick(r, ["int", "neg", "float", "joint", "2d"]),
             "params": disc_params_rng(r, a) if a != "ansb" else {}}
        return c
    return gen.uniform(build)


edges = []
for a in A9:
    p = {"alpha": "min-max"} if a == "bayes" else {}
    for v in ([1], [7], [1, 1], [1] * 12, [2, 2, 2], [1, 2], [1, 1, 1, 3], [1] + [2] * 50 + [100] * 9, [1, 2, 2, 2, 2, 2, 40, 300], [5, 5, 5, 5]):
        edges.append({"approach": a, "counts": v, "base": "e", "order": 1, "enc": "int", "params": p})
@st.composite
def nsb_case(draw):
    c = {"counts": draw(countvec()), "base": draw(BASES), "order": draw(SEED), "enc": draw(st.sampled_from(["int", "str", "joint", "2d"]))}
    cs = c["counts"]
    if draw(st.integers(0, 2)) == 0:
        c["K"] = draw(st.integers(1, 12)) + len(cs)
    return c


GL = np.polynomial.legendre.leggauss(24)


def nsb_oracle(counts, K):
    """Posterior mean of the expected entropy over the pseudo-count beta in (0, log K), and how well conditioned the library's integration is."""
    from scipy.optimize import brentq
    from scipy.special import digamma, gammaln, polygamma

    n = np.array(counts, float)
    N, k = n.sum(), len(n)
    top = np.log(K)
    ed = np.concatenate([[0], top * np.logspace(-8, 0, 120)])
    h = np.diff(ed) / 2
    b = ((ed[:-1] + ed[1:])[:, None] / 2 + h[:, None] * GL[0]).ravel()
    w = (h[:, None] * GL[1]).ravel()
    B = b[:, None]

    def logrho(b, B):
        return gammaln(K * b) - gammaln(N + K * b) + (n * (gammaln(n + B) - gammaln(B))).sum(1)

    dxi = K * polygamma(1, 1 + K * b) - polygamma(1, 1 + b)
    A = N + k * b
    H = digamma(A + 1) - ((n + B) / A[:, None] * digamma(n + B + 1)).sum(1)
    lr = logrho(b, B)
    m = lr.max()
    q = w * np.exp(lr - m) * dxi
    f = lambda K0: K / K0 - digamma(K0 + N) + digamma(K0)
    try:
        e = brentq(f, 0.1, K) / K
        ref = logrho(np.array([e]), np.array([[e]]))[0]
        scale = m + np.log(q.sum()) - ref if q.sum() > 0 else -np.inf
    except ValueError:
        scale = -np.inf
    return float((q * H).sum() / q.sum()), float(scale), (float(H.min()), float(H.max()))


def check_nsb(c):
    col = sample(c)
    x = (gen.encode(col // 3, "neg"), gen.encode(col % 3, "str")) if c["enc"] == "joint" else np.column_stack([col % 4, col // 4]) if c["enc"] == "2d" else gen.encode(col, c["enc"])
    K = c.get("K", len(c["counts"]))
    p = {"K": K} if "K" in c else {}
    got = fnum(im.entropy(x, approach="nsb", base=c["base"], **p))
    if np.isnan(got) or K < 2:
        return None
    from_counts(dict(c, approach="nsb"), c["counts"], got, p, 1e-6)
    want, scale, (lo, hi) = nsb_oracle(c["counts"], K)
    got *= O.ln_base(c["base"])
    require(lo - 1e-6 <= got <= hi + 1e-6, f"NSB entropy {got} is not a mean of the expected entropies, all in [{lo}, {hi}]")
    if scale < np.log(1e-3):  # the weights are tiny in the units of the library's absolute integration tolerance
        return "bounds only"
    check_close(got, want, f"NSB entropy of counts {c['counts']}, K={K}", rtol=1e-4, atol=1e-6)
    return ["nsb", "K given" if p else "K observed", f"{len(c['counts'])} symbols" if len(c["counts"]) < 4 else "4+ symbols"]


SUBS = [Sub("formula", case(), check, 9000, 250000, edges), Sub("big", big(), check, 600, 15000), Sub("large", large(), check, 150, 5000), Sub("nsb", nsb_case(), check_nsb, 600, 15000)]
