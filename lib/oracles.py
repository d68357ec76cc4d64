"""Slow, independent reference implementations (no import from infomeasure)."""
import math
from collections import Counter
from functools import lru_cache
from itertools import product  # noqa: F401

import numpy as np

EULER = 0.5772156649015328606


def ln_base(base):
    return 1.0 if base == "e" else math.log(base)


_harm = [np.zeros(1, np.longdouble)]


def harm(n):
    """H_n = 1 + 1/2 + ... + 1/n"""
    n = int(n)
    if len(_harm[0]) <= n:
        _harm[0] = np.concatenate([[0], np.cumsum(1 / np.arange(1, max(n, 4096) * 2 + 1, dtype=np.longdouble))])
    return float(_harm[0][n])


def psi_int(n):
    return -EULER + harm(n - 1)


def rows(*cs):
    """Joint symbols as python tuples."""
    return list(zip(*[[x.item() if hasattr(x, "item") else x for x in c] for c in cs]))


# ------------------------------------------------------------------ discrete entropies (nats)
def h_discrete(counts, **_):
    N = sum(counts)
    return -math.fsum(n / N * math.log(n / N) for n in counts)


def h_mm(counts, **_):
    return h_discrete(counts) + (len(counts) - 1) / (2 * sum(counts))


def h_grassberger(counts, **_):
    N = sum(counts)
    return math.fsum(n / N * (math.log(N) - psi_int(n) - (-1) ** n / (n + 1)) for n in counts)


def shrink_probs(counts):
    N, K = sum(counts), len(counts)
    p = [n / N for n in counts]
    if N == 1:
        lam = 1.0
    else:
        msp = math.fsum((x - 1 / K) ** 2 for x in p)
        if msp < 1e-28:
            lam = 1.0
        else:
            lam = min(1.0, max(0.0, (1 - math.fsum(x * x for x in p)) / ((N - 1) * msp)))
    return [lam / K + (1 - lam) * x for x in p]


def h_shrink(counts, **_):
    return -math.fsum(p * math.log(p) for p in shrink_probs(counts))


def h_chao_shen(counts, **_):
    N = sum(counts)
    f1 = sum(1 for n in counts if n == 1)
    if f1 == N:
        f1 = N - 1
    C = 1 - f1 / N
    tot = 0.0
    for n in counts:
        p = C * n / N
        tot -= p * math.log(p) / -math.expm1(N * math.log1p(-p)) if p < 1 else 0.0
    return tot


def h_cwj(counts, **_):
    N = sum(counts)
    f1 = sum(1 for n in counts if n == 1)
    f2 = sum(1 for n in counts if n == 2)
    h = math.fsum(n / N * (harm(N - 1) - harm(n - 1)) for n in counts)
    if f2 > 0:
        A = 2 * f2 / ((N - 1) * f1 + 2 * f2)
    elif f1 > 0:
        A = 2 / ((N - 1) * (f1 - 1) + 2)
    else:
        A = 1.0
    if f1 and A < 1:
        # (1-A)^(1-N) * (-log A - sum_{r<N} (1-A)^r/r) = sum_{j>=0} (1-A)^(j+1)/(N+j)
        if A > 0.002:
            J = int(45 / -math.log1p(-A)) + 2
            j = np.arange(J)
            tail = math.fsum((1 - A) ** (j + 1) / (N + j))
        else:
            import mpmath as mp

            with mp.workdps(30):
                x = 1 - (mp.mpf(2 * f2) / ((N - 1) * f1 + 2 * f2) if f2 else mp.mpf(2) / ((N - 1) * (f1 - 1) + 2))
                tail = float(x / N * mp.hyp2f1(1, N, N + 1, x))
        h += f1 / N * tail
    return h


def bayes_alpha(alpha, K, N):
    if isinstance(alpha, str):
        return {"jeffrey": 0.5, "laplace": 1.0, "sch-grass": 1 / K, "min-max": math.sqrt(N) / K}[alpha.lower()]
    return alpha


def bayes_probs(counts, alpha, K=None):
    N = sum(counts)
    K = len(counts) if K is None else K
    a = bayes_alpha(alpha, K, N)
    return [(n + a) / (N + K * a) for n in counts]


def h_bayes(counts, alpha, K=None):
    return -math.fsum(p * math.log(p) for p in bayes_probs(counts, alpha, K))


@lru_cache(100000)
def zhang_term(n, N):
    if N > 1500:
        v = np.arange(1, N - n + 1)
        return math.fsum(np.cumprod(1 + (1 - n) / (N - v)) / v)
    t, prod = [], 1.0
    for v in range(1, N - n + 1):
        prod *= 1 + (1 - n) / (N - v)  # j = v-1 : N-1-j = N-v
        if prod == 0:
            break
        t.append(prod / v)
    return math.fsum(t)


def h_zhang(counts, **_):
    N = sum(counts)
    return math.fsum(n / N * zhang_term(n, N) for n in counts)


def h_bonachela(counts, **_):
    N = sum(counts)
    return math.fsum((n + 1) * (harm(N + 2) - harm(n + 1)) for n in counts) / (N + 2)


def h_ansb(counts, K=None, **_):
    N = sum(counts)
    d = N - (len(counts) if K is None else K)
    if d == 0:
        return math.nan
    if d < 0:
        return math.nan
    return EULER - math.log(2) + 2 * math.log(N) - psi_int(d)


H = {"discrete": h_discrete, "miller_madow": h_mm, "grassberger": h_grassberger, "shrink": h_shrink,
     "chao_shen": h_chao_shen, "chao_wang_jost": h_cwj, "bayes": h_bayes, "zhang": h_zhang,
     "bonachela": h_bonachela, "ansb": h_ansb}


def entropy(approach, symbols, base="e", **kw):
    return H[approach](list(Counter(symbols).values()), **kw) / ln_base(base)


def local(approach, symbols, base="e"):
    """Per-sample documented contributions, or None where not offered."""
    cnt = Counter(symbols)
    N, K = len(symbols), len(cnt)
    if approach == "discrete":
        t = {s: -math.log(n / N) for s, n in cnt.items()}
    elif approach == "miller_madow":
        t = {s: -math.log(n / N) + (K - 1) / (2 * N) for s, n in cnt.items()}
    elif approach == "grassberger":
        t = {s: math.log(N) - psi_int(n) - (-1) ** n / (n + 1) for s, n in cnt.items()}
    elif approach == "shrink":
        ks = list(cnt)
        t = {s: -math.log(p) for s, p in zip(ks, shrink_probs([cnt[k] for k in ks]))}
    elif approach == "zhang":
        t = {s: zhang_term(n, N) for s, n in cnt.items()}
    else:
        return None
    lb = ln_base(base)
    return [t[s] / lb for s in symbols]


def combine(approach, plus, minus, base="e", **kw):
    """sum H(plus) - sum H(minus); shrinkage averages the per-sample combination."""
    if approach == "shrink":
        tot = np.zeros(len(plus[0]))
        for s in plus:
            tot = tot + np.array(local("shrink", s, base))
        for s in minus:
            tot = tot - np.array(local("shrink", s, base))
        return float(np.mean(tot))
    return math.fsum([entropy(approach, s, base, **kw) for s in plus] + [-entropy(approach, s, base, **kw) for s in minus])


def local_combine(approach, plus, minus, base="e"):
    if local(approach, plus[0], base) is None:
        return None
    tot = np.zeros(len(plus[0]))
    for s in plus:
        tot = tot + np.array(local(approach, s, base))
    for s in minus:
        tot = tot - np.array(local(approach, s, base))
    return tot


# ------------------------------------------------------------------ transfer entropy windows
def windows(series, hist_len, step, bases):
    """History tuples series[b-hist*step], ..., series[b-step] for each base index b."""
    return [tuple(series[b - h * step] for h in range(hist_len, 0, -1)) for b in bases]


def te_bases(n, step, *hists):
    return list(range(max(hists) * step, n, step))


def te_windows(x, y, sh, dh, step, prop=0, z=None, ch=1):
    """(source histories, dest histories[+cond], dest futures) as lists of tuples, documented grid."""
    x, y = list(x), list(y)
    if prop > 0:
        sft = prop * step
        x, y = x[: len(x) - sft], y[sft:]
    elif prop < 0:
        sft = -prop * step
        x, y = x[sft:], y[: len(y) - sft]
    hs = [sh, dh] + ([ch] if z is not None else [])
    b = te_bases(len(y), step, *hs)
    xs = windows(x, sh, step, b)
    ys = windows(y, dh, step, b)
    if z is not None:
        zs = windows(list(z), ch, step, b)
        ys = [p + q for p, q in zip(ys, zs)]
    return xs, ys, [(y[i],) for i in b]
