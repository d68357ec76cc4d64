from lib.common import *
from lib import cont as C, ordi
from checks import X01
from collections import Counter
import math

RULE = ("2-8 samples of different lengths (up to 140000) with equal, nested, overlapping, partly and pairwise disjoint supports, all codings; discrete, Bayes, shrinkage, ordinal and kernel (1-3 dimensions) JSD against the "
        "mixture formula; symmetry under permuting the arguments, identical samples, bounds with the maximum exactly for disjoint supports; refusals. Non-trivial: at least two samples differ.")


@st.composite
def case(draw):
    a = draw(st.sampled_from(["discrete", "discrete", "bayes", "shrink"]))
    n = draw(st.sampled_from([2, 2, 3, 4, 5, 2, 3, 4, 6, 8]))
    k = draw(st.integers(1, 6))
    xs = []
    kind = draw(st.sampled_from(["any", "any", "disjoint", "same", "mixed"]))
    for i in range(n):
        off = i * k if kind == "disjoint" else draw(st.sampled_from([0, 0, 1, k])) if kind == "mixed" else 0
        if kind == "same" and xs:
            xs.append(draw(st.permutations(xs[0])) * draw(st.integers(1, 2)))
        else:
            xs.append([v + off for v in draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=25))])
    return {"approach": a, "params": draw(disc_params(a)), "base": draw(BASES), "xs": xs, "enc": draw(st.sampled_from(X01.PAIRENC)), "perm": draw(st.permutations(list(range(n))))}


def large(r):
    c = uni(r)
    k = int(gen.pick(r, [2, 4, 20, 150, 2000]))
    n = len(c["perm"])
    c["xs"] = {"rng": int(r.integers(2**31)), "n": [gen.big_n(r, 20000, 0.15) for _ in range(n)], "k": k, "off": [int(gen.pick(r, [0, 0, 1, k])) for _ in range(n)], "skew": [bool(r.random() < 0.4) for _ in range(n)]}
    return c


def decode(c):
    s = c["xs"]
    if isinstance(s, list):
        return s
    r = np.random.default_rng(s["rng"])
    return [((np.minimum(r.geometric(0.3, n) - 1, s["k"] - 1) if w else r.integers(0, s["k"], n)) + o).tolist() for n, o, w in zip(s["n"], s["off"], s["skew"])]


def uni(r):
    a = gen.pick(r, ["discrete", "bayes", "shrink"])
    n = int(gen.pick(r, [2, 2, 3, 4, 5, 2, 3, 4, 6, 8]))
    k = int(gen.pick(r, [2, 4, 20, 150]))
    xs = [(r.integers(0, k, int(r.integers(1, 400))) + int(gen.pick(r, [0, 0, 1, k]))).tolist() for _ in range(n)]
    return {"approach": a, "params": disc_params_rng(r, a), "base": gen.base_rng(r), "xs": xs, "enc": gen.pick(r, X01.PAIRENC), "perm": r.permutation(n).tolist()}


def dist(a, x, par):
    cn = Counter(x)
    ks = list(cn)
    cs = [cn[s] for s in ks]
    if a == "bayes":
        return dict(zip(ks, O.bayes_probs(cs, **par)))
    if a == "shrink":
        return dict(zip(ks, O.shrink_probs(cs)))
    return {s: v / len(x) for s, v in cn.items()}


def jsd_of(ds):
    M = Counter()
    for d in ds:
        for s, v in d.items():
            M[s] += v / len(ds)
    h = lambda d: -math.fsum(v * math.log(v) for v in d.values())
    return h(M) - math.fsum(h(d) for d in ds) / len(ds)


def check(c):
    c = dict(c, xs=decode(c))
    raw = [np.array(x) for x in c["xs"]]
    enc = c["enc"]
    if enc == "bool" and max(x.max() for x in raw) > 1:
        enc = "int"
    e = gen.encode(np.concatenate(raw), enc)
    cut = np.cumsum([0] + [len(x) for x in raw])
    xs = [e[i:j] for i, j in zip(cut, cut[1:])]
    a, b = c["approach"], c["base"]
    kw = dict(approach=a, base=b, **c["params"])
    ds = [dist(a, x, c["params"]) for x in c["xs"]]
    want = jsd_of(ds) / O.ln_base(b)
    got = im.jsd(*xs, **kw)
    check_close(got, want, f"{a} JSD", 1e-9, 1e-10)
    check_close(im.jensen_shannon_divergence(*[xs[i] for i in c["perm"]], **kw), want, f"{a} JSD in another order", 1e-9, 1e-10)
    if a == "discrete":
        top = math.log(len(xs)) / O.ln_base(b)
        require(-1e-10 <= got <= top + 1e-10, f"JSD {got} outside [0, {top}]")
        sup = [set(x) for x in c["xs"]]
        disjoint = all(not sup[i] & sup[j] for i in range(len(sup)) for j in range(i))
        require(disjoint == (abs(got - top) < 1e-12 * 10) or len(xs) < 2 or abs(want - top) < 1e-9, f"JSD {got}, maximum {top}, supports {'disjoint' if disjoint else 'overlapping'}")
        if disjoint:
            check_close(got, top, "JSD of disjoint supports", 1e-10, 1e-10)
            return ["disjoint"]
        if all(d == ds[0] for d in ds):
            check_close(got, 0.0, "JSD of equal distributions", 0, 1e-10)
            return ["equal"]
    return [a, f"{len(xs)} samples", enc] if any(d != ds[0] for d in ds) else None


def build_cont(r, big=False):
    a = gen.pick(r, ["kernel", "kernel", "ordinal"])
    nv = int(gen.pick(r, [2, 3, 4, 2, 3, 4, 5, 7]))
    from lib import calls

    d = int(gen.pick(r, [1, 1, 2, 3])) if a == "kernel" else 1
    p = calls.params(r, "jsd", a)
    return {"a": a, "p": p, "base": gen.base_rng(r), "perm": r.permutation(nv).tolist(), "same": bool(r.random() < 0.15),
            "d": [{"rng": int(r.integers(2**31)), "n": gen.big_n(r, 1500 if a == "kernel" else 8000) if big else int(r.integers(20, 90)), "dims": [d], "dep": 0.5, "grid": gen.pick(r, [0, 0.5]) if a == "kernel" or p["stable"] else 0, "scale": 1.0, "shift": gen.pick(r, [0.0, 0.5, 3.0])} for _ in range(nv)]}


def check_cont(c):
    xs = [gen.points(d)[0] for d in c["d"]]
    if c["same"]:
        xs = [xs[0].copy() for _ in xs]
    a, p = c["a"], c["p"]
    kw = dict(approach=a, base=c["base"], **p)
    lb = O.ln_base(c["base"])
    if a == "kernel":
        f = C.density(p["kernel"], p["bandwidth"])
        pooled = np.concatenate(xs)
        if p["kernel"] == "gaussian" and C.degenerate(pooled, *xs):
            return None
        h = lambda x: -np.log(f(x)).mean()
        want = (h(pooled) - np.mean([h(x) for x in xs])) / lb
    else:
        want = jsd_of([dist("discrete", ordi.pats(x, p["embedding_dim"], p["step_size"]), {}) for x in xs]) / lb
        require(-1e-10 <= im.jsd(*xs, **kw) <= math.log(len(xs)) / lb + 1e-10, "ordinal JSD outside [0, log n]")
    check_close(im.jsd(*xs, **kw), want, f"{a} JSD", 1e-7, 1e-8)
    check_close(im.jsd(*[xs[i] for i in c["perm"]], **kw), want, f"{a} JSD in another order", 1e-7, 1e-8)
    return [a, p.get("kernel", ""), "same" if c["same"] else "different"] if abs(want) > 1e-12 or c["same"] else None


def build_ref(r):
    return {"a": gen.pick(r, ["grassberger", "miller_madow", "chao_shen", "chao_wang_jost", "zhang", "bonachela", "ansb", "nsb", "nonsense", "renyi", "tsallis", "metric"]), "rng": int(r.integers(2**31))}


def check_ref(c):
    r = np.random.default_rng(c["rng"])
    p, q = r.integers(0, 4, 30), r.integers(0, 4, 25)
    kw = {"renyi": {"alpha": 1.5}, "tsallis": {"q": 1.5}}.get(c["a"], {})
    raises(ValueError, lambda: im.jsd(p, q, approach=c["a"], **kw), f"JSD ({c['a']})")
    raises(ValueError, lambda: im.jsd(p, q), "JSD without approach")
    raises(ValueError, lambda: im.jsd((p, p), (q, q), approach="discrete"), "JSD of joint variables")
    return [c["a"]]


SUBS = [Sub("large", gen.uniform(large), check, 60, 3000), Sub("continuous, large", gen.uniform(lambda r: build_cont(r, True)), check_cont, 30, 1500), Sub("discrete", case(), check, 2500, 60000), Sub("larger", gen.uniform(uni), check, 600, 20000), Sub("continuous", gen.uniform(build_cont), check_cont, 800, 20000), Sub("refused", gen.uniform(build_ref), check_ref, 60, 600)]
