import math

from lib.common import *

WARM = True
RULE = ("Large samples of distributions with a known answer and random parameters: random discrete distributions (entropy, joint, MI, CMI, cross-entropy, KLD, JSD), noisy and lagged copies (TE, CTE with histories, "
        "steps and propagation times), multivariate normals (entropy, Renyi and Tsallis entropies, MI, CMI, cross-entropy, KLD), linear Gaussian processes (TE, CTE), uniform and exponential variables, independent "
        "series (ordinal); every approach for which the measure exists, default or random parameters, random base; the estimate must lie within a bound of several standard errors plus the method's bias. "
        "Non-trivial: the analytic value differs from 0 by more than the bound.")
DBIG = ["discrete", "miller_madow", "grassberger", "shrink", "chao_shen", "chao_wang_jost", "bayes", "zhang"]


def ent(p):
    p = np.asarray(p, float).ravel()
    p = p[p > 0]
    return float(-(p * np.log(p)).sum())


# ------------------------------------------------------------------ discrete
def build_disc(r):
    m = gen.pick(r, ["h", "hj", "mi", "mi", "cmi", "te", "te", "cte", "hx", "kld", "jsd"])
    al = {"hx": ["discrete", "miller_madow", "bayes"], "kld": ["discrete", "miller_madow", "bayes"], "jsd": ["discrete", "bayes", "shrink"]}.get(m, DBIG)
    return {"m": m, "a": gen.pick(r, al), "rng": int(r.integers(2**31)), "n": int(r.integers(3000, 6000)), "base": gen.base_rng(r), "enc": gen.pick(r, ["int", "str", "float"]),
            "w": [int(r.integers(1, 3)), int(r.integers(1, 3)), int(r.integers(1, 3)), int(gen.pick(r, [1, 1, 2, 3])), int(gen.pick(r, [0, 0, 1, 2]))], "e": round(float(r.uniform(0.02, 0.4)), 3)}


def pmf(r, shape, conc=1.0):
    p = r.dirichlet(np.full(int(np.prod(shape)), conc)) * 0.9 + 0.1 / np.prod(shape)
    return p.reshape(shape)


def draw_pmf(r, p, n):
    i = r.choice(p.size, n, p=p.ravel())
    return list(np.unravel_index(i, p.shape))


def check_disc(c):
    r = np.random.default_rng(c["rng"])
    m, a, n = c["m"], c["a"], c["n"]
    kw = {"approach": a, "base": c["base"]}
    if a == "bayes":
        kw["alpha"] = "laplace" if c["rng"] % 2 else "jeffrey"
    E = lambda v: gen.encode(np.asarray(v), c["enc"])
    sl, dl, cl, step, pt = c["w"]
    if m == "h":
        p = pmf(r, (int(r.integers(2, 9)),))
        args, want = [E(draw_pmf(r, p, n)[0])], ent(p)
        got = im.entropy(*args, **kw)
    elif m == "hj":
        p = pmf(r, (3, int(r.integers(2, 4)), 2))
        got, want = im.entropy(tuple(E(v) for v in draw_pmf(r, p, n)), **kw), ent(p)
    elif m == "mi":
        p = pmf(r, (3, int(r.integers(2, 4))) if r.random() < 0.7 else (2, 2, 3), 0.5)
        want = sum(ent(p.sum(tuple(j for j in range(p.ndim) if j != i))) for i in range(p.ndim)) - ent(p)
        got = im.mi(*[E(v) for v in draw_pmf(r, p, n)], **kw)
    elif m == "cmi":
        p = pmf(r, (2, 3, int(r.integers(2, 4))), 0.5)
        want = ent(p.sum(1)) + ent(p.sum(0)) - ent(p) - ent(p.sum((0, 1)))
        x, y, z = draw_pmf(r, p, n)
        got = im.cmi(E(x), E(y), cond=E(z), **kw)
    elif m in ("te", "cte"):
        # destination copies the source `lag` samples ago with probability 1 - e (else uniform); the source is i.i.d.
        e, K = c["e"], int(r.integers(2, 4))
        x = r.integers(0, K, n)
        lag = step * (1 + (pt if m == "te" else 0))
        y = np.where(r.random(n) < e, r.integers(0, K, n), np.roll(x, lag))
        q = np.full(K, e / K)
        q[0] += 1 - e
        want = math.log(K) - ent(q)
        w = dict(src_hist_len=sl, dest_hist_len=dl, step_size=step)
        if m == "te":
            if r.random() < 0.25:  # the wrong direction: nothing is transferred
                got, want = im.te(E(y), E(x), prop_time=pt, **w, **kw), 0.0
            else:
                got = im.te(E(x), E(y), prop_time=pt, **w, **kw)
        elif r.random() < 0.5:
            got = im.cte(E(x), E(y), cond=E(r.integers(0, 2, n)), cond_hist_len=cl, **w, **kw)
        else:  # the condition is the source itself
            got, want = im.cte(E(x), E(y), cond=E(x), cond_hist_len=sl, **w, **kw), 0.0
        cells = K ** (sl + dl + (cl if m == "cte" else 0) + 1)
    else:
        K = int(r.integers(2, 6))
        p, q = pmf(r, (K,)), pmf(r, (K,))
        x, y = draw_pmf(r, p, n)[0], draw_pmf(r, q, n + 500)[0]
        if m == "hx":
            want, got = float(-(p * np.log(q)).sum()), im.hx(E(x), E(y), **kw)
        elif m == "kld":
            want, got = float((p * np.log(p / q)).sum()), im.kld(E(x), E(y), **kw)
        else:
            want, got = ent((p + q) / 2) - (ent(p) + ent(q)) / 2, im.jsd(E(x), E(y), **kw)
    got = fnum(got) * O.ln_base(c["base"])
    tol = 0.4 if m in ("hx", "kld") else 0.12 if m not in ("te", "cte") else 0.1 + 1.5 * cells / n * (4 if a in ("bayes", "shrink") else 1)
    require(abs(got - want) <= tol, f"{m}/{a}: estimate {got:.4f} from {n} samples, analytic value {want:.4f} (bound {tol:.3f})")
    return [m, a] if abs(want) > tol else None


# ------------------------------------------------------------------ continuous
def build_cont(r):
    m = gen.pick(r, ["h", "h", "hj", "mi", "mi", "cmi", "te", "te", "cte", "hx", "kld"])
    a = gen.pick(r, ["metric", "metric", "renyi", "tsallis", "kernel"])
    c = {"m": m, "a": a, "rng": int(r.integers(2**31)), "n": int(r.integers(800, 1500)), "base": gen.base_rng(r), "d": int(gen.pick(r, [1, 1, 2, 3])) if m in ("h", "hj") else 1, "scale": gen.pick(r, [1.0, 1.0, 0.01, 50.0]),
         "fam": gen.pick(r, ["normal", "normal", "uniform", "exponential"]) if m == "h" else "normal", "step": int(gen.pick(r, [1, 1, 2, 3])), "pt": int(gen.pick(r, [0, 0, 1, 2])), "p": {}}
    if a == "metric":
        c["p"] = {"k": int(r.integers(3, 7)), "minkowski_p": gen.pick(r, [float("inf"), float("inf"), 2])}
        if m in ("mi", "cmi", "te", "cte"):
            c["p"].update(minkowski_p=float("inf"), ksg_id=1)  # the consistent variant (type 2 with one radius, or other norms, is biased by design)
    elif a in ("renyi", "tsallis"):
        c["p"] = {"k": int(r.integers(4, 8)), ("alpha" if a == "renyi" else "q"): 1 if m not in ("h", "hj") else gen.pick(r, [0.8, 1, 1, 1.3, 2.0])}
    else:
        c["p"] = {"kernel": gen.pick(r, ["box", "gaussian"])}
    return c


def cov(r, d):
    A = r.normal(0, 1, (d, d))
    S = A @ A.T + 0.4 * np.eye(d)
    s = np.sqrt(np.diag(S))
    return S / np.outer(s, s)


def renyi_normal(d, S, q):
    ld = np.linalg.slogdet(S)[1]
    return 0.5 * ld + d / 2 * math.log(2 * math.pi) + (d / 2 if q == 1 else d / 2 * math.log(q) / (q - 1))


def check_cont(c):
    r = np.random.default_rng(c["rng"])
    m, a, n, d, s = c["m"], c["a"], c["n"], c["d"], c["scale"]
    p = dict(c["p"])
    kw = {"approach": a, "base": c["base"], **p}
    if a == "metric":
        kw["noise_level"] = 0
    q = p.get("alpha", p.get("q", 1))
    if a == "kernel":  # fixed small windows
        kw["bandwidth"] = (0.6 * s if d == 1 else 0.9 * s) if p["kernel"] == "box" else 0.25
    tol = 0.2 + 0.12 * d
    if m in ("h", "hj"):
        if m == "hj":
            d = 2 if d == 1 else d
        if c["fam"] == "normal" or m == "hj":
            S = cov(r, d)
            x = r.multivariate_normal(np.zeros(d), S, n)
            want = renyi_normal(d, S, q)
        elif c["fam"] == "uniform":
            x, want = r.random((n, d)), 0.0
        else:
            x = r.exponential(1, (n, d))
            want = d * (1.0 if q == 1 else math.log(1 / q) / (1 - q))
        if a == "kernel" and d > 1 or a == "kernel" and c["fam"] == "uniform":
            return None  # the smoothing bias is the answer there
        want += d * math.log(s)
        x = x * s
        arg = tuple(x.T) if m == "hj" else (x if d > 1 else x[:, 0])
        got = fnum(im.entropy(arg, **kw))
        if a == "tsallis" and q != 1:  # compare on the Renyi scale
            inner = 1 + (1 - q) * got
            require(inner > 0, f"Tsallis entropy {got} of order {q} outside its range")
            got = math.log(inner) / (1 - q)
        else:
            got *= O.ln_base(c["base"])
        tol = 0.2 + 0.15 * d
    elif m == "mi":
        rho = float(r.uniform(-0.9, 0.9))
        x = r.normal(0, 1, n)
        y = rho * x + math.sqrt(1 - rho * rho) * r.normal(0, 1, n)
        want = -0.5 * math.log(1 - rho * rho)
        got = fnum(im.mi(x * s, y * s, **kw)) * O.ln_base(c["base"])
    elif m == "cmi":
        al, be = r.uniform(-1.2, 1.2, 2)
        z = r.normal(0, 1, n)
        x = al * z + r.normal(0, 1, n)
        y = be * x + r.uniform(-1, 1) * z + r.normal(0, 1, n)
        want = 0.5 * math.log(1 + be * be)
        got = fnum(im.cmi(x * s, y * s, cond=z * s, **kw)) * O.ln_base(c["base"])
    elif m in ("te", "cte"):
        step, pt = c["step"], c["pt"] if m == "te" else 0
        be, au = float(r.uniform(0.3, 1.5)), float(r.uniform(-0.4, 0.4))
        x, z = r.normal(0, 1, n), r.normal(0, 1, n)
        y = np.zeros(n)
        lag, ga = step * (1 + pt), float(r.uniform(-1, 1)) if m == "cte" else 0.0
        e = r.normal(0, 1, n)
        for t in range(lag, n):
            y[t] = au * y[t - step] + be * x[t - lag] + ga * z[t - step] + e[t]
        want = 0.5 * math.log(1 + be * be)
        w = dict(step_size=step)
        flip = r.random() < 0.25 and m == "te"
        if m == "te":
            w["prop_time"] = pt
            got, want = (im.te(y * s, x * s, **w, **kw), 0.0) if flip else (im.te(x * s, y * s, **w, **kw), want)
        else:
            got = im.cte(x * s, y * s, cond=z * s, **w, **kw)
        got = fnum(got) * O.ln_base(c["base"])
    else:
        m1, s1 = float(r.uniform(-0.5, 0.5)), float(r.uniform(0.7, 1.1))
        x, y = s * (m1 + s1 * r.normal(0, 1, n)), s * r.normal(0, 1, n + 200)
        hx = 0.5 * math.log(2 * math.pi) + (s1 * s1 + m1 * m1) / 2
        hp = 0.5 * math.log(2 * math.pi * math.e) + math.log(s1)
        if m == "hx":
            want, got = hx + math.log(s), im.hx(x, y, **kw)
        else:
            want, got = hx - hp, im.kld(x, y, **kw)
        got = fnum(got) * O.ln_base(c["base"])
        tol = 0.4
    if a == "kernel" and m in ("mi", "cmi", "te", "cte"):
        return [m, a] if -0.3 <= got <= want + 1.2 else fail(c, got, want, 1.2)
    if not abs(got - want) <= tol:
        fail(c, got, want, tol)
    return [m, a, c["fam"]] if abs(want) > tol else None


def fail(c, got, want, tol):
    raise Violation(f"{c['m']}/{c['a']} {c['p']}: estimate {got:.4f} from {c['n']} samples, analytic value {want:.4f} (bound {tol:.3f})")


# ------------------------------------------------------------------ ordinal
def build_ord(r):
    return {"rng": int(r.integers(2**31)), "n": int(r.integers(4000, 8000)), "m": gen.pick(r, ["h", "mi", "te", "shift"]), "ed": int(r.integers(2, 5)), "step": int(r.integers(1, 4)), "base": gen.base_rng(r)}


def check_ord(c):
    """i.i.d. series: all patterns are equally likely, independent series share nothing, a series tells everything about its shifted copy."""
    r = np.random.default_rng(c["rng"])
    n, ed, lb = c["n"], c["ed"], O.ln_base(c["base"])
    x, y = r.normal(0, 1, (2, n))
    kw = dict(approach="ordinal", embedding_dim=ed, base=c["base"])
    if c["m"] == "h":
        got, want, tol = im.entropy(x, step_size=c["step"], **kw), math.log(math.factorial(ed)), 0.03
    elif c["m"] == "mi":
        got, want, tol = im.mi(x, y, step_size=c["step"], **kw), 0.0, 0.02 + math.factorial(ed) ** 2 / n
    elif c["m"] == "te":
        ed = min(ed, 3)
        got, want, tol = im.te(x, y, **dict(kw, embedding_dim=ed)), 0.0, 0.03 + math.factorial(ed) ** 3 / n
    else:
        got, want, tol = im.mi(x[3:], x[:-3], offset=3, step_size=c["step"], **kw), math.log(math.factorial(ed)), 0.03
    got = fnum(got) * lb
    require(abs(got - want) <= tol, f"ordinal {c['m']} of an i.i.d. series: {got:.4f}, analytic value {want:.4f} (bound {tol:.3f})")
    return [c["m"], f"m {ed}"]


SUBS = [Sub("discrete", gen.uniform(build_disc), check_disc, 700, 20000), Sub("continuous", gen.uniform(build_cont), check_cont, 500, 12000), Sub("ordinal", gen.uniform(build_ord), check_ord, 120, 3000)]
