"""Exhaustive-distance reference models for the continuous estimators (no import from infomeasure)."""
import math

import numpy as np
from scipy.special import digamma, gammaln

from .gen import as2d
from .oracles import ln_base, te_bases


def blocks(*xs):
    return np.concatenate([as2d(x) for x in xs], axis=1)


def dist(A, B, p):
    """All pairwise Minkowski distances."""
    D = np.abs(as2d(A)[:, None, :] - as2d(B)[None, :, :])
    if p == np.inf:
        return D.max(axis=2)
    if p == 1:
        return D.sum(axis=2)
    if p == 2:
        return np.sqrt((D * D).sum(axis=2))
    return (D ** p).sum(axis=2) ** (1.0 / p)


def log_ball(d, p, r=1.0):
    """log volume of the d-ball of radius r in the p norm"""
    if p == np.inf:
        return d * math.log(2 * r)
    return d * math.log(2 * r) + d * gammaln(1 + 1 / p) - gammaln(1 + d / p)


def kth(D, k):
    """k-th smallest entry of each row, the zero distance to itself not counted"""
    return np.sort(D, axis=1)[:, k]


def at_points(n, r, m=60):
    """Which points of a large sample to compare: some at random, the ends and the middle."""
    return np.unique(np.concatenate([r.integers(0, n, m), [0, 1, n - 1, n // 2]]))


def cross_kth(A, B, k, p, own):
    """Distance from each row of A to its k-th nearest row of B, in chunks."""
    A, B = as2d(A), as2d(B)
    return np.concatenate([np.partition(dist(A[i:i + 250], B, p), k if own else k - 1, axis=1)[:, k if own else k - 1] for i in range(0, len(A), 250)])


def exact(p, lattice):
    """Are computed distances exact, so that ties can be judged?"""
    return p == np.inf or (p == 1 and lattice)


def counts(D, eps, strict, sure, idx):
    """Neighbour counts (strict: self excluded; otherwise self included) and which of them are beyond rounding doubt."""
    if strict:
        c = (D < eps[:, None]).sum(axis=1) - (eps > 0)
    else:
        c = (D <= eps[:, None]).sum(axis=1)
    ok = np.ones(len(eps), bool)
    if not sure:
        near = np.abs(D - eps[:, None]) <= 1e-9 * (np.abs(D) + eps[:, None])
        near[np.arange(len(idx)), idx] = False
        ok = ~near.any(axis=1)
    return c, ok


def ksg_mi(xs, k, kind, p, lattice=False, idx=None):
    """Local KSG mutual information (nats) of any number of variables (at the points idx), and a mask of undoubted points."""
    J = blocks(*xs)
    N, m = len(J), len(xs)
    idx = np.arange(N) if idx is None else idx
    ds = [dist(as2d(x)[idx], x, p) for x in xs]
    eps = kth(dist(J[idx], J, p), k)
    sure = exact(p, lattice)
    cs = [counts(d, eps, kind == 1, sure, idx) for d in ds]
    if not sure:  # the k-th neighbour fixes eps: a marginal distance equal to it in one variable is a doubt
        pass
    if kind == 1:
        loc = digamma(k) - sum(digamma(c + 1) for c, _ in cs) + (m - 1) * digamma(N)
    else:
        loc = digamma(k) - 1.0 / k - sum(digamma(c) for c, _ in cs) + (m - 1) * digamma(N)
    return loc, np.all([o for _, o in cs], axis=0)


def ksg_cmi(xs, z, k, kind, p, lattice=False, idx=None):
    J = blocks(*xs, z)
    idx = np.arange(len(J)) if idx is None else idx
    eps = kth(dist(J[idx], J, p), k)
    sure = exact(p, lattice)
    f = (lambda c: digamma(c + 1)) if kind == 1 else digamma
    cz, ok = counts(dist(as2d(z)[idx], z, p), eps, kind == 1, sure, idx)
    loc = digamma(k) - (0 if kind == 1 else 1.0 / k) + f(cz)
    for x in xs:
        xz = blocks(x, z)
        c, o = counts(dist(xz[idx], xz, p), eps, kind == 1, sure, idx)
        loc = loc - f(c)
        ok = ok & o
    return loc, ok


def kl_entropy(x, k, p, kind=1, idx=None):
    """Local Kozachenko-Leonenko entropies (nats) (at the points idx); coincident k-th neighbours contribute 0."""
    X = as2d(x)
    N, d = X.shape
    rho = cross_kth(X if idx is None else X[idx], X, k, p, True)
    psi = digamma(k) - (1.0 / k if kind == 2 else 0)
    with np.errstate(divide="ignore"):
        loc = -psi + digamma(N) + log_ball(d, p, 0.5) + d * np.log(2 * rho)
    return np.where(rho > 0, loc, 0.0)


def kl_cross(x, y, k, p, kind=1):
    X, Y = as2d(x), as2d(y)
    d = X.shape[1]
    rho = cross_kth(X, Y, k, p, False)
    psi = digamma(k) - (1.0 / k if kind == 2 else 0)
    return -psi + digamma(len(Y)) + log_ball(d, p, 0.5) + d * math.fsum(np.log(2 * rho[rho > 0])) / len(X)


def lps(x, k, q, family, base="e", at=None):
    """Renyi / Tsallis (cross-)entropy after Leonenko, Pronzato, Savani, in the given base (Tsallis of order != 1 has none)."""
    X = as2d(x)
    if at is None:
        rho = cross_kth(X, X, k, 2, True)
        M = len(X) - 1
    else:
        rho = cross_kth(at, X, k, 2, False)
        M = len(X)
    d = X.shape[1]
    lv = log_ball(d, 2)
    if q == 1:
        r = rho[rho > 0]
        return math.fsum(math.log(M) - digamma(k) + lv + d * np.log(r)) / len(rho) / ln_base(base)
    # I = Gamma(k)/Gamma(k+1-q) * (M V)^(1-q) * mean rho^(d(1-q))
    r = rho[rho > 0]
    I = math.exp(gammaln(k) - gammaln(k + 1 - q) + (1 - q) * (math.log(M) + lv)) * math.fsum(r ** (d * (1 - q))) / len(rho)
    if I == 0:
        return 0.0
    if family == "renyi":
        return math.log(I) / (1 - q) / ln_base(base)
    return (1 - I) / (q - 1)


# ------------------------------------------------------------------ kernel densities
def chunks(fn):
    """Density of X at points `at`, evaluated for a few hundred points at a time."""
    def g(X, h, at=None):
        A = as2d(X if at is None else at)
        if len(A) <= 300 or len(A) * len(X) < 10**6:
            return fn(X, h, A)
        return np.concatenate([fn(X, h, A[i:i + 300]) for i in range(0, len(A), 300)])
    return g


@chunks
def box(X, h, at=None):
    X = as2d(X)
    A = X if at is None else as2d(at)
    D = np.abs(A[:, None, :] - X[None, :, :]).max(axis=2)
    return (D <= h / 2).sum(axis=1) / (len(X) * h ** X.shape[1])


@chunks
def box_doubt(X, h, at=None):
    """Points with a neighbour whose distance is within rounding of the window edge (decided exactly, kept for evidence)."""
    X = as2d(X)
    A = X if at is None else as2d(at)
    D = np.abs(A[:, None, :] - X[None, :, :]).max(axis=2)
    return (D == h / 2).any(axis=1)


@chunks
def gauss(X, f, at=None):
    """Gaussian kernel estimate with covariance f^2 * sample covariance, on the subspace the data span."""
    X = as2d(X)
    A = X if at is None else as2d(at)
    C = np.atleast_2d(np.cov(X.T))
    d = X.shape[1]
    s = np.sqrt(np.diag(C))
    s = np.where(s == 0, 1.0, s)
    w = np.linalg.eigvalsh(C / np.outer(s, s))
    if d > 1 and (w <= 1e-10).any():
        keep = int((w > 1e-10).sum())
        _, v = np.linalg.eigh(C)
        P = v[:, ::-1][:, :keep]
        X, A = X @ P, A @ P
        C, d = np.atleast_2d(np.cov(X.T)), keep
    L = np.linalg.cholesky(C * f * f)
    W = np.linalg.solve(L, X.T)
    V = np.linalg.solve(L, A.T)
    q = ((V[:, :, None] - W[:, None, :]) ** 2).sum(axis=0)
    return np.exp(-0.5 * q).sum(axis=1) / (len(X) * (2 * math.pi) ** (d / 2) * np.prod(np.diag(L)))


def degenerate(*Xs):
    """Is any of these point sets (nearly) rank deficient, so that the answer hinges on a threshold?"""
    for X in Xs:
        X = as2d(X)
        if len(X) < 2:
            return True
        C = np.atleast_2d(np.cov(X.T))
        s = np.sqrt(np.diag(C))
        if (s <= 1e-12 * (1 + np.abs(X).max())).any():
            return True
        if np.linalg.eigvalsh(C / np.outer(s, s)).min() < 1e-7:
            return True
    return False


def ambiguous(*Xs):
    """Is the rank of any of these point sets in doubt, or no space left?  Clearly rank-deficient sets are not."""
    for X in Xs:
        X = as2d(X)
        if len(X) < 2:
            return True
        Z = X - X.mean(axis=0)
        s = np.sqrt((Z**2).sum(axis=0) / (len(X) - 1))
        if ((s > 0) & (s <= 1e-9 * (1e-300 + np.abs(X).max(axis=0)))).any():
            return True
        C = np.atleast_2d(np.cov(X.T))
        w = np.linalg.eigvalsh(C / np.outer(*[np.where(s == 0, 1.0, s)] * 2))
        keep = int((w > 1e-10).sum())
        if ((w > 1e-13) & (w < 1e-6)).any() or keep == 0 or keep > len(X) - 2:
            return True
        if (X.shape[1] == 1 and s[0] == 0) or (keep < X.shape[1] and s.max() > 1e4 * s[s > 0].min()):
            return True
    return False


def density(kernel, h):
    return (lambda X, at=None: box(X, h, at)) if kernel == "box" else (lambda X, at=None: gauss(X, h, at))


def kernel_mi(xs, kernel, h):
    f = density(kernel, h)
    loc = np.log(f(blocks(*xs)))
    for x in xs:
        loc = loc - np.log(f(x))
    return loc


def kernel_cmi(xs, z, kernel, h):
    f = density(kernel, h)
    loc = np.log(f(blocks(*xs, z))) + (len(xs) - 1) * 0 + np.log(f(z))
    for x in xs:
        loc = loc - np.log(f(blocks(x, z)))
    return loc


# ------------------------------------------------------------------ windows of real (possibly vector) series
def win(x, hist, step, bases):
    x = as2d(x)
    return np.array([np.concatenate([x[b - h * step] for h in range(hist, 0, -1)]) for b in bases])


def te_parts(x, y, sh, dh, step, prop=0, z=None, ch=1):
    """source histories, (dest [+ cond]) histories, dest futures"""
    x, y = as2d(x), as2d(y)
    if prop:
        s = abs(prop) * step
        x, y = (x[: len(x) - s], y[s:]) if prop > 0 else (x[s:], y[: len(y) - s])
    b = te_bases(len(y), step, *([sh, dh] + ([ch] if z is not None else [])))
    ys = win(y, dh, step, b)
    if z is not None:
        ys = np.concatenate([ys, win(z, ch, step, b)], axis=1)
    return win(x, sh, step, b), ys, y[b]
