from lib.common import *
from lib import ordi
from collections import Counter
import math

RULE = ("Series with and without ties (explicit short ones, permutations, few-valued, walks, AR, monotone, flat, periodic, two patterns with easily confused codes) in 13 storage types, embedding dimension 1-8 (up to 20), steps 1-5, up to 12000 points, "
        "single, joint, cross-entropy, KLD and JSD against entropies of naively stable-sorted windows; distribution dictionary and local values. Ties only with stable=True. "
        "Non-trivial: at least two windows and two different patterns.")


def build(r, big=False):
    stable = bool(r.random() < 0.6)
    m = int(gen.pick(r, [1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8]))
    step = int(gen.pick(r, [1, 1, 1, 2, 3, 5]))
    what = gen.pick(r, ["h", "h", "h", "hj", "hx", "kld", "jsd"])
    if r.random() < 0.06:
        m = int(gen.pick(r, [9, 12, 13, 15, 20]))
    nv = {"h": 1, "hj": int(gen.pick(r, [2, 3])), "hx": 2, "kld": 2, "jsd": int(gen.pick(r, [2, 3, 4]))}[what]
    lo = (m - 1) * step + 1
    if big:
        n = gen.big_n(r, 12000)
        d = ordi.build_series(r, nv, n, n, stable)
    else:
        d = ordi.build_series(r, nv, lo, lo + int(gen.pick(r, [2, 10, 60, 250])), stable)
    ordi.add_twins(r, d, m, step)
    if what in ("hx", "kld", "jsd"):
        d["cut"] = [int(r.integers(0, max(1, (d["n"] - lo) // int(gen.pick(r, [1, 3, 5])) + 1))) for _ in range(nv)]
    return {"m": m, "step": step, "stable": stable, "what": what, "base": gen.base_rng(r), "d": d, "how": gen.pick(r, ["f", "e", "permutation", "symbolic"])}


@st.composite
def small(draw):
    m = draw(st.sampled_from([2, 3, 2, 3, 4, 1, 5]))
    step = draw(st.sampled_from([1, 1, 2]))
    what = draw(st.sampled_from(["h", "h", "hj", "hx", "kld", "jsd"]))
    lo = (m - 1) * step + 1
    nv = 1 if what == "h" else 2
    n = draw(st.integers(lo, lo + 8))
    stable = draw(st.booleans())
    if stable:
        xs = [draw(st.lists(st.integers(0, 4), min_size=n, max_size=n)) for _ in range(nv)]
    else:
        xs = [draw(st.permutations(list(range(n)))) for _ in range(nv)]
    return {"m": m, "step": step, "stable": stable, "what": what, "base": draw(BASES), "d": {"xs": xs}, "how": draw(st.sampled_from(["f", "e"]))}


def H(ps, base):
    return O.entropy("discrete", ps, base)


def cross(p, q, base):
    P, Q = Counter(p), Counter(q)
    return -math.fsum(P[s] / len(p) * math.log(Q[s] / len(q)) for s in P if s in Q) / O.ln_base(base)


def mixture(pl, base):
    M = Counter()
    for p in pl:
        for s, c in Counter(p).items():
            M[s] += c / len(p) / len(pl)
    return -math.fsum(v * math.log(v) for v in M.values()) / O.ln_base(base)


def check(c):
    base_xs, xs = ordi.decode(c["d"])
    m, step, b, what = c["m"], c["step"], c["base"], c["what"]
    pl = [ordi.pats(x, m, step) for x in base_xs]
    ap = c["how"] if c["how"] in ("permutation", "symbolic") else "ordinal"
    kw = dict(approach=ap, embedding_dim=m, step_size=step, stable=c["stable"], base=b)
    if not c["stable"] and c["d"].get("rng", 0) % 2:
        kw.pop("stable")
    if what in ("h", "hj"):
        arg = xs[0] if what == "h" else tuple(xs)
        ps = pl[0] if what == "h" else list(zip(*pl))
        want = H(ps, b)
        e = im.estimator(arg, measure="entropy", **kw)
        check_close(e.global_val(), want, f"ordinal entropy ({what})", 1e-9, 1e-10)
        if c["how"] == "f":
            check_close(im.entropy(arg, **kw), want, f"ordinal entropy ({what}, functional)", 1e-9, 1e-10)
        cnt = Counter(ps)
        check_array(e.local_vals(), [-math.log(cnt[p] / len(ps)) / O.ln_base(b) for p in ps], f"local ordinal entropy ({what})", 1e-9, 1e-10)
        dd = e.dist_dict
        require(len(dd) == len(cnt), f"distribution has {len(dd)} patterns instead of {len(cnt)}")
        if what == "h" and m > 1:
            got = {tuple(int(v) for v in k): float(v) for k, v in dd.items()}
            require(set(got) == set(cnt), f"patterns {sorted(got)} instead of {sorted(cnt)}")
            for k in cnt:
                check_close(got[k], cnt[k] / len(ps), f"relative frequency of pattern {k}", 1e-12, 1e-12)
        else:
            check_array(sorted(float(v) for v in dd.values()), sorted(v / len(ps) for v in cnt.values()), "distribution", 1e-12, 1e-12)
        n = len(set(ps))
    elif what == "hx":
        check_close(im.hx(*xs, **kw), cross(*pl, b), "ordinal cross-entropy", 1e-9, 1e-10)
        if c["how"] == "e":
            check_close(im.estimator(*xs, measure="cross_entropy", **kw).global_val(), cross(*pl, b), "ordinal cross-entropy", 1e-9, 1e-10)
        n = len(set(pl[0]) & set(pl[1]))
    elif what == "kld":
        check_close(im.kld(*xs, **kw), cross(*pl, b) - H(pl[0], b), "ordinal KLD", 1e-9, 1e-10)
        n = len(set(pl[0]) & set(pl[1]))
    else:
        check_close(im.jsd(*xs, **kw), mixture(pl, b) - np.mean([H(p, b) for p in pl]), "ordinal JSD", 1e-9, 1e-10)
        n = max(len(set(p)) for p in pl)
    if n < 2:
        return None
    return [what, f"m{m}", f"step {step}", "ties" if not ordi.tie_free(base_xs) else "tie-free", "stable" if c["stable"] else "default"]


SUBS = [Sub("patterns", gen.uniform(build), check, 4500, 150000), Sub("small", small(), check, 1500, 50000),
        Sub("large", gen.uniform(lambda r: build(r, True)), check, 60, 3000)]
