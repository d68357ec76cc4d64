from lib.common import *

RULE = ("Samples of 1-7 discrete variables (explicit lists up to 30, generated up to 2000 samples, alphabets up to 1000), "
        "15 encodings (ints of several widths, floats, strings, booleans, lists), 13 bases; oracle: Counter-based plug-in entropy. "
        "Non-trivial: at least two distinct (joint) symbols and one repeated.")


@st.composite
def single(draw):
    return {"data": draw(gen.disc(1, min_n=1, rng_max=400)), "enc": draw(st.sampled_from(gen.ENCODINGS)), "base": draw(BASES)}


def check_single(c):
    col = gen.cols(c["data"])[0]
    x = gen.encode(col, c["enc"])
    want = O.entropy("discrete", col.tolist(), c["base"])
    check_close(im.entropy(x, approach="discrete", base=c["base"]), want, "entropy")
    est = im.estimator(x, measure="h", approach="discrete", base=c["base"])
    check_array(est.local_vals(), O.local("discrete", col.tolist(), c["base"]), "local values")
    check_close(est.result(), want, "estimator result")
    return nontrivial_counts(col.tolist()) and [c["enc"], f"base {c['base']}"]


@st.composite
def joint(draw):
    nv = draw(st.integers(1, 7))
    return {"data": draw(gen.disc(nv, min_n=1, rng_max=300)), "encs": draw(st.lists(st.sampled_from(gen.ENCODINGS), min_size=nv, max_size=nv)),
            "base": draw(BASES), "form": draw(st.sampled_from(["tuple", "tuple", "tuple", "2d", "nested"]))}


def check_joint(c):
    cs = gen.cols(c["data"])
    js = O.rows(*cs)
    if c["form"] == "2d":
        x = np.column_stack(cs)
    elif c["form"] == "nested" and len(cs) > 1:
        x = (np.column_stack(cs[:2]), *[gen.encode(v, "int") for v in cs[2:]])
    else:
        x = tuple(gen.encode(v, e) for v, e in zip(cs, c["encs"]))
    want = O.entropy("discrete", js, c["base"])
    check_close(im.entropy(x, approach="discrete", base=c["base"]), want, "joint entropy")
    est = im.estimator(x, measure="entropy", approach="discrete", base=c["base"])
    check_close(est.result(), want, "joint estimator")
    check_array(est.local_vals(), O.local("discrete", js, c["base"]), "joint local values")
    return nontrivial_counts(js) and [f"{len(cs)} vars", c["form"]] + (["mixed dtypes"] if len(set(c["encs"])) > 1 and c["form"] == "tuple" else [])


@st.composite
def counts(draw):
    k = draw(st.integers(1, 12))
    return {"counts": draw(st.lists(st.integers(1, draw(st.sampled_from([3, 20, 10**6]))), min_size=k, max_size=k)),
            "uniq": draw(st.sampled_from(["int", "str", "float"])), "base": draw(BASES)}


def check_counts(c):
    from infomeasure.estimators.entropy.discrete import DiscreteEntropyEstimator as D

    n = len(c["counts"])
    uniq = {"int": list(range(n)), "str": [f"s{i}" for i in range(n)], "float": [i / 2 for i in range(n)]}[c["uniq"]]
    want = O.h_discrete(c["counts"]) / O.ln_base(c["base"])
    check_close(D.from_counts(uniq, c["counts"], base=c["base"]).result(), want, "from_counts")
    check_close(D.from_counts(np.array(uniq), np.array(c["counts"]), base=c["base"]).global_val(), want, "from_counts(arrays)")
    if sum(c["counts"]) <= 3000:
        x = [u for u, k in zip(uniq, c["counts"]) for _ in range(k)]
        check_close(im.entropy(x, approach="discrete", base=c["base"]), want, "expanded counts")
    return n > 1


@st.composite
def large(draw):
    return {"rng": draw(SEED), "n": draw(st.integers(500, 20000)), "vars": [[draw(st.sampled_from([2, 7, 300, 5000])), -1, 0, 0] for _ in range(draw(st.integers(1, 5)))],
            "base": draw(BASES)}


def check_large(c):
    cs = gen.cols(c)
    js = O.rows(*cs)
    x = tuple(cs) if len(cs) > 1 else cs[0]
    check_close(im.entropy(x, approach="discrete", base=c["base"]), O.entropy("discrete", js, c["base"]), "large entropy")
    return f"{len(cs)} vars"


EDGES_S = [{"data": {"cols": [v]}, "enc": e, "base": b} for v, e, b in
           [([0], "int", "e"), ([0], "str", 2), ([0, 1], "bool", 2), ([0] * 5, "float", 10), ([0, 1, 2, 3], "str", 3), ([0, 0, 1, 1, 1], "strlong", 2)]]
SUBS = [Sub("single", single(), check_single, 6000, 200000, EDGES_S), Sub("joint", joint(), check_joint, 5000, 150000),
        Sub("counts", counts(), check_counts, 1500, 40000), Sub("large", large(), check_large, 80, 2000)]
