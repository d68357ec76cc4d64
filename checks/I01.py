from lib.common import *

WARM = True
RULE = ("2-7 variables of equal length (explicit lists, generated dependent data with alphabets up to 1000 and up to 140000 samples, constants, string/float/bool codings, 2-D variables), "
        "10 closed-form discrete approaches against independently evaluated entropies, NSB/ordinal/kernel/Renyi/Tsallis against the library's own entropies. "
        "Non-trivial: at least two variables are not constant.")
ENC = ["int", "int", "int", "neg", "big", "float", "str", "uint8", "bool", "list", "int32", "strlist"] + gen.HARD


@st.composite
def case(draw):
    a, p = draw(app_params())
    nv = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 6, 7]))
    return {"approach": a, "params": p, "base": draw(BASES), "data": draw(gen.disc(nv, min_n=1, rng_max=200)),
            "encs": draw(st.lists(st.sampled_from(ENC), min_size=nv, max_size=nv)), "how": draw(st.sampled_from(["f", "f", "e"]))}


def nonconst(xs):
    return sum(len(set(map(str, np.asarray(x).tolist()))) > 1 for x in xs) >= 2


def check(c):
    cs = gen.cols(c["data"])
    xs = [gen.encode(v, e) for v, e in zip(cs, c["encs"])]
    a, p, b = c["approach"], c["params"], c["base"]
    vs = [v.tolist() for v in cs]
    want = O.combine(a, vs, [O.rows(*cs)], b, **p)
    if c["how"] == "f":
        got = im.mi(*xs, approach=a, base=b, **p)
    else:
        got = im.estimator(*xs, measure="mutual_information", approach=a, base=b, **p).global_val()
    if a == "ansb" and np.isnan(want):
        return "ansb undefined"
    check_close(got, want, f"MI of {len(xs)} variables ({a})", 1e-8, 1e-9)
    if a in LOCAL_DISC:
        check_array(im.estimator(*xs, measure="mi", approach=a, base=b, **p).local_vals(), O.local_combine(a, vs, [O.rows(*cs)], b),
                    f"local MI ({a})")
    return nonconst(cs) and [a, f"{len(xs)} vars"]


@st.composite
def big(draw):
    a, p = draw(app_params(tuple(x for x in DISC if x not in ("zhang", "chao_wang_jost"))))
    nv = draw(st.sampled_from([2, 2, 3, 4, 5, 6]))
    k = draw(st.sampled_from([2, 10, 100, 900] if nv < 6 else [2, 10, 100]))
    n = draw(st.integers(200, 3000))
    vs = [[draw(st.sampled_from([1, 2, k, k])), draw(st.integers(-1, i - 1)) if i else -1, 0.3, 0] for i in range(nv)]
    return {"approach": a, "params": p, "base": draw(BASES), "data": {"rng": draw(SEED), "n": n, "vars": vs}, "encs": ["int"] * nv, "how": "f"}


def large(cond=False):
    """Thousands to 140000 samples."""
    def build(r):
        a = gen.pick(r, DISC)
        slow = a in ("zhang", "bonachela")
        nv = int(gen.pick(r, [2, 2, 3, 4])) + cond
        n = gen.big_n(r, 6000 if slow else 30000, 0 if slow else 0.15)
        c = {"approach": a, "params": disc_params_rng(r, a), "base": gen.base_rng(r), "data": gen.big_disc(r, nv, n), "encs": [gen.pick(r, ENC) for _ in range(nv)], "how": gen.pick(r, ["f", "e"])}
        if cond:
            c["nv"], c["form"] = nv - 1, gen.pick(r, ["1d", "1d", "2d"])
        return c
    return gen.uniform(build)


@st.composite
def mixeddim(draw):
    """Variables of one or two columns."""
    a, p = draw(app_params())
    dims = draw(st.lists(st.integers(1, 3), min_size=2, max_size=3))
    return {"approach": a, "params": p, "base": draw(BASES), "dims": dims, "data": draw(gen.disc(sum(dims), min_n=2, rng_max=120))}


def check_mixeddim(c):
    cs = gen.cols(c["data"])
    xs, vs, i = [], [], 0
    for d in c["dims"]:
        part = cs[i:i + d]
        i += d
        xs.append(part[0] if d == 1 else np.column_stack(part))
        vs.append(O.rows(*part))
    a, p, b = c["approach"], c["params"], c["base"]
    want = O.combine(a, vs, [O.rows(*cs)], b, **p)
    if a == "ansb" and np.isnan(want):
        return None
    check_close(im.mi(*xs, approach=a, base=b, **p), want, f"MI of variables with {c['dims']} columns ({a})")
    return [a, str(c["dims"])] if len(set(c["dims"])) > 1 and nonconst(cs) else None


@st.composite
def own(draw):
    """Compared with the library's own entropies of the same approach."""
    a = draw(st.sampled_from(["nsb", "ordinal", "renyi", "tsallis", "kernel", "renyi", "tsallis"]))
    c = {"approach": a, "base": draw(BASES)}
    if a == "nsb":
        nv = draw(st.integers(2, 4))
        c["data"] = draw(gen.disc(nv, min_n=3, rng_max=60, max_k=4))
        c["params"] = {"K": draw(st.integers(1, 20))} if draw(st.integers(0, 3)) == 0 else {}
    elif a == "ordinal":
        nv = draw(st.integers(2, 4))
        c["params"] = {"embedding_dim": draw(st.integers(1, 5)), "step_size": draw(st.integers(1, 3)), "stable": True}
        c["data"] = draw(gen.real([1] * nv, min_n=16, max_n=40))
    else:
        dims = draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=2, max_size=3 if a == "kernel" else 2))
        if a != "kernel":
            dims = draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=2, max_size=4))
        c["params"] = draw(cont_params(a))
        c["data"] = draw(gen.real(dims, min_n=12, max_n=25, rng_max=60, ties=False))
    return c


def check_own(c):
    a, p, b = c["approach"], c["params"], c["base"]
    k = dict(approach=a, base=b, **p)
    xs = gen.cols(c["data"]) if a == "nsb" else gen.points(c["data"])
    if a in ("renyi", "tsallis"):
        joint = np.column_stack(xs)
        zero = [v for v in xs + [joint] if min_kth(v, p["k"]) == 0]
        if zero:
            return None
        j = im.entropy(joint, **k)
    else:
        j = im.entropy(tuple(xs), **k)
    if a == "kernel" and p["kernel"] == "gaussian":
        # degenerate covariance or points of zero density: outside the formula
        if any(np.linalg.matrix_rank(np.cov(gen.as2d(v).T)) < gen.as2d(v).shape[1] for v in [*xs, np.column_stack(xs)]):
            return None
    want = sum(im.entropy(x, **k) for x in xs) - j
    extra = {"noise_level": 0} if a in ("renyi", "tsallis") else {}
    got = im.mi(*xs, **k, **extra)
    if a == "nsb" and np.isnan(want):
        return None
    rt, at = (1e-5, 1e-6) if a == "nsb" else (1e-8, 1e-9)
    check_close(got, want, f"MI of {len(xs)} variables ({a})", rt, at)
    return [a, f"{len(xs)} vars"]


def min_kth(v, k):
    from scipy.spatial.distance import cdist

    v = gen.as2d(v)
    if len(v) <= k:
        return 0
    return np.sort(cdist(v, v), axis=1)[:, k].min()


EDGES = []
for a in DISC:
    p = {"alpha": 0.5} if a == "bayes" else {}
    for vs in ([[0], [0]], [[0, 0], [1, 1]], [[0, 1, 2], [0, 0, 0], [1, 0, 1]], [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0]]):
        EDGES.append({"approach": a, "params": p, "base": "e", "data": {"cols": vs}, "encs": ["int"] * len(vs), "how": "f"})
SUBS = [Sub("discrete", case(), check, 3000, 80000, EDGES), Sub("big", big(), check, 200, 5000), Sub("large", large(), check, 60, 3000), Sub("mixed dims", mixeddim(), check_mixeddim, 800, 20000),
        Sub("own", own(), check_own, 700, 20000)]
