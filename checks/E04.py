from lib.common import *

WARM = True
RULE = ("2-5 discrete variables (explicit or generated with dependencies); every law is evaluated on results of several calls over the same data. "
        "Non-trivial: no law degenerates because all variables are constant.")
TOL = 1e-9


def le(a, b, what):
    require(fnum(a) <= fnum(b) + TOL, f"{what}: {a!r} > {b!r}")


def H(*xs, base="e"):
    return im.entropy(tuple(xs) if len(xs) > 1 else xs[0], approach="discrete", base=base)


@st.composite
def ent(draw):
    return {"data": draw(gen.disc(draw(st.integers(1, 4)), rng_max=250)), "base": draw(BASES)}


def check_ent(c):
    xs, b = gen.cols(c["data"]), c["base"]
    lb = O.ln_base(b)
    n = len(xs[0])
    hs = [H(x, base=b) for x in xs]
    for x, h in zip(xs, hs):
        k = len(set(x.tolist()))
        le(0, h, "H >= 0")
        le(h, np.log(k) / lb, "H <= log K")
        le(np.log(k) / lb, np.log(n) / lb, "K <= N")
        if k == 1:
            require(abs(h) <= TOL, f"entropy of a constant is {h}")
        f = x % 3
        le(H(f, base=b), h, "H(f(X)) <= H(X)")
        check_close(H(x, f, base=b), h, "H(X, f(X)) = H(X)")
    if len(xs) > 1:
        j = H(*xs, base=b)
        le(max(hs), j, "H(joint) >= H(part)")
        le(j, sum(hs), "H(joint) <= sum of parts")
        le(j, np.log(len(set(O.rows(*xs)))) / lb, "H(joint) <= log K")
        check_close(H(*xs[::-1], base=b), j, "joint entropy is symmetric")
        if len(xs) > 2:  # submodularity
            le(j + hs[0] if len(xs) == 2 else H(*xs, base=b) + H(xs[0], base=b), H(xs[0], *xs[1:-1], base=b) + H(xs[0], xs[-1], base=b), "H(XYZ)+H(X) <= H(XY)+H(XZ)")
    return any(len(set(x.tolist())) > 1 for x in xs) and [f"{len(xs)} vars", f"base {b}"]


@st.composite
def mis(draw):
    return {"data": draw(gen.disc(draw(st.integers(2, 5)), min_n=2, rng_max=250)), "base": draw(BASES), "perm": draw(st.integers(0, 119)),
            "f": [draw(st.integers(2, 5)), draw(st.integers(1, 9))]}


def check_mi(c):
    import itertools

    xs, b = gen.cols(c["data"]), c["base"]
    a = dict(approach="discrete", base=b)
    x, y = xs[0], xs[1]
    hx, hy = H(x, base=b), H(y, base=b)
    i = im.mi(x, y, **a)
    le(0, i, "I >= 0")
    le(i, min(hx, hy), "I <= min(H)")
    check_close(im.mi(y, x, **a), i, "I(X;Y) = I(Y;X)")
    check_close(im.mi(x, x, **a), hx, "I(X;X) = H(X)")
    f = (x * c["f"][1]) % c["f"][0]
    check_close(im.mi(x, f, **a), H(f, base=b), "I(X;f(X)) = H(f(X))")
    check_close(im.mi(x, np.full_like(x, 3), **a), 0, "I(X;const) = 0")
    le(im.mi(f, y, **a), i, "data processing")
    p = list(itertools.permutations(range(len(xs))))
    p = p[c["perm"] % len(p)]
    t = im.mi(*xs, **a)
    le(0, t, "multi-information >= 0")
    check_close(im.mi(*[xs[k] for k in p], **a), t, "multi-information is symmetric")
    lab = [f"{len(xs)} vars"]
    if len(xs) >= 3:
        z = xs[2]
        le(im.mi(x, y, **a), im.mi(x, y, z, **a), "multi-information grows with variables")
        ixy_z = im.cmi(x, y, cond=z, **a)
        le(0, ixy_z, "I(X;Y|Z) >= 0")
        check_close(im.cmi(y, x, cond=z, **a), ixy_z, "I(X;Y|Z) = I(Y;X|Z)")
        le(ixy_z, H(x, z, base=b) - H(z, base=b), "I(X;Y|Z) <= H(X|Z)")
        le(ixy_z, H(y, z, base=b) - H(z, base=b), "I(X;Y|Z) <= H(Y|Z)")
        yz = O.rows(y, z)
        code = {v: k for k, v in enumerate(sorted(set(yz)))}
        yz = np.array([code[v] for v in yz])
        check_close(im.mi(x, yz, **a), im.mi(x, z, **a) + ixy_z, "chain rule I(X;YZ) = I(X;Z) + I(X;Y|Z)")
        check_close(im.cmi(x, y, cond=np.full_like(x, 3), **a), i, "I(X;Y|const) = I(X;Y)")
        check_close(im.cmi(x, y, cond=x, **a), 0, "I(X;Y|X) = 0")
        check_close(im.cmi(x, x, cond=z, **a), H(x, z, base=b) - H(z, base=b), "I(X;X|Z) = H(X|Z)")
        le(im.cmi(f, y, cond=z, **a), ixy_z, "conditional data processing")
        if len(xs) >= 4:
            m = im.cmi(*xs[:-1], cond=xs[-1], **a)
            le(0, m, "conditional multi-information >= 0")
            pp = [k for k in p if k != len(xs) - 1]
            check_close(im.cmi(*[xs[k] for k in pp], cond=xs[-1], **a), m, "conditional multi-information is symmetric")
    return lab if any(len(set(v.tolist())) > 1 for v in xs) else None


@st.composite
def tes(draw):
    return {"data": draw(gen.disc(3, min_n=8, rng_max=250)), "base": draw(BASES), "h": [draw(st.integers(1, 3)) for _ in range(3)], "step": draw(st.integers(1, 3)), "f": draw(st.integers(2, 4))}


def check_te(c):
    x, y, z = gen.cols(c["data"])
    b, (sh, dh, ch), s = c["base"], c["h"], c["step"]
    a = dict(approach="discrete", base=b, src_hist_len=sh, dest_hist_len=dh, step_size=s)
    if max(c["h"]) * s >= len(x):
        return None
    bases = O.te_bases(len(y), s, sh, dh)
    xs, ys, yf = O.te_windows(x, y, sh, dh, s)
    hyf_cond = O.entropy("discrete", [p + q for p, q in zip(ys, yf)], b) - O.entropy("discrete", ys, b)
    t = im.te(x, y, **a)
    le(0, t, "TE >= 0")
    le(t, hyf_cond, "TE <= H(Y'|Yhist)")
    le(t, O.entropy("discrete", xs, b), "TE <= H(Xhist)")
    check_close(im.te(np.full_like(x, 1), y, **a), 0, "TE from a constant is 0")
    check_close(im.te(x, np.full_like(y, 1), **a), 0, "TE to a constant is 0")
    le(im.te(x % c["f"], y, **a), t, "TE data processing")
    if sh <= dh:
        check_close(im.te(y, y, **a), 0, "TE of a series to itself is 0")
    ct = im.cte(x, y, cond=z, cond_hist_len=ch, **a)
    le(0, ct, "CTE >= 0")
    xs, ysz, yf = O.te_windows(x, y, sh, dh, s, 0, z, ch)
    le(ct, O.entropy("discrete", [p + q for p, q in zip(ysz, yf)], b) - O.entropy("discrete", ysz, b), "CTE <= H(Y'|Yhist,Zhist)")
    check_close(im.cte(x, y, cond=np.full_like(x, 1), cond_hist_len=1, **a), t, "CTE given a constant is TE")
    if ch >= sh:
        check_close(im.cte(x, y, cond=x, cond_hist_len=ch, **a), 0, "CTE given the source is 0")
    if ch <= dh:
        check_close(im.cte(x, y, cond=y, cond_hist_len=ch, **a), t, "CTE given the destination is TE")
    return ["te"] if len(bases) > 2 and len(set(y.tolist())) > 1 else None


@st.composite
def nsb(draw):
    c = {"counts": draw(st.lists(st.integers(1, draw(st.sampled_from([2, 6, 30, 400]))), min_size=1, max_size=draw(st.sampled_from([1, 2, 10, 10])))), "base": draw(BASES)}
    if draw(st.booleans()):
        c["K"] = len(c["counts"]) + draw(st.integers(0, 20))
    return c


def nsb_overflows(counts, K):
    """Known finding: the un-normalised posterior weight overflows for larger counts (pinned by the test suite)."""
    from scipy.optimize import brentq
    from scipy.special import digamma, gammaln

    n, N = np.array(counts, float), sum(counts)

    def neg(b):
        return -(gammaln(K * b) - gammaln(N + K * b)) - (n * (gammaln(n + b) - gammaln(b))).sum()

    try:
        k0 = brentq(lambda q: K / q - digamma(q + N) + digamma(q), 0.1, K)
    except ValueError:
        k0 = K if K > 1 else 0.1
    l0 = neg(k0 / K)
    return max(l0 - neg(b) for b in np.linspace(1e-6, 1, 200) * np.log(K)) > 650


def check_nsb(c):
    x = np.repeat(np.arange(len(c["counts"])), c["counts"])
    p = {"K": c["K"]} if "K" in c else {}
    v = im.entropy(x, approach="nsb", base=c["base"], **p)
    fnum(v)
    k = c.get("K", len(c["counts"]))
    if np.isnan(v):
        if len(x) == k or k == 1:  # no coincidences (N == K) or nothing to integrate over
            return "undefined"
        if nsb_overflows(c["counts"], k):
            Known.hit("nsb-overflow", f"NSB is NaN for counts {c['counts']}, K={k}")
            return "overflow"
        raise Violation(f"NSB is NaN for counts {c['counts']}, K={k}")
    require(-1e-6 <= v <= np.log(k) / O.ln_base(c["base"]) + 1e-6, f"NSB {v} outside [0, log {k}]")
    return "nsb"


def build_repeat(r):
    nv = int(gen.pick(r, [1, 2, 2, 3, 3, 4, 5]))
    n = int(r.integers(3, 40))
    return {"data": gen.disc_rng(r, nv, n, n, (2, 3, 4, 12)), "base": gen.base_rng(r), "to": int(gen.pick(r, [300, 2000, 2**16 + 50, 150000, 400000])), "tile": bool(r.random() < 0.5), "cond": bool(r.random() < 0.5),
            "enc": gen.pick(r, ["int", "i8", "float", "neg", "str"])}


def check_repeat(c):
    """The empirical distribution is all that counts: the sample repeated many times has the same plug-in quantities."""
    xs = gen.cols(c["data"])
    b = c["base"]
    reps = max(2, c["to"] // len(xs[0]))
    R = (lambda v: np.tile(v, reps)) if c["tile"] else (lambda v: np.repeat(v, reps))
    small = [gen.encode(x, c["enc"]) for x in xs]
    big = [R(np.asarray(v)) for v in small]
    a = dict(approach="discrete", base=b)
    tol = dict(rtol=1e-9, atol=1e-9)
    joint = (lambda v: v[0]) if len(xs) == 1 else tuple
    check_close(im.entropy(joint(big), **a), H(*xs, base=b), f"entropy of the {reps}-fold sample", **tol)
    check_close(im.jsd(big[0], small[-1], **a), im.jsd(small[0], small[-1], **a), "JSD of the repeated sample", **tol)
    check_close(im.hx(small[0], big[0], **a), H(xs[0], base=b), "cross-entropy with the repeated sample", **tol)
    if len(xs) > 1:
        if c["cond"] and len(xs) > 2:
            want = sum(H(x, xs[-1], base=b) for x in xs[:-1]) - H(*xs, base=b) - H(xs[-1], base=b)
            e = im.estimator(*big[:-1], cond=big[-1], measure="cmi", **a)
            name = "CMI"
        else:
            want = sum(H(x, base=b) for x in xs) - H(*xs, base=b)
            e = im.estimator(*big, measure="mi", **a)
            name = "MI"
        check_close(e.global_val(), want, f"{name} of the {reps}-fold sample of {len(xs)} variables", **tol)
        if c["to"] <= 70000:
            check_close(np.mean(e.local_vals()), want, f"mean local {name} of the {reps}-fold sample", **tol)
    return [f"{len(xs)} vars", f"N>={c['to']}"] if any(len(set(v.tolist())) > 1 for v in xs) else None


SUBS = [Sub("entropy", ent(), check_ent, 2500, 60000), Sub("mi", mis(), check_mi, 800, 25000), Sub("te", tes(), check_te, 1000, 30000), Sub("nsb", nsb(), check_nsb, 600, 12000, edges=[{"counts": [n], "K": 2, "base": "e"} for n in (170, 178, 200, 1000)]),
        Sub("repeat", gen.uniform(build_repeat), check_repeat, 60, 1500)]
