"""Distributional oracles with explicit error rates: every rejection threshold is p < ALPHA per statistic."""
import numpy as np
from scipy import stats

from .core import Violation

ALPHA = 1e-10


def psd_factor(S, tol=1e-9):
    """(W, N): W whitens the range of S (W S W' = I), N spans its null space."""
    S = np.asarray(S, float)
    w, V = np.linalg.eigh(0.5 * (S + S.T))
    top = max(w[-1], 1e-300)
    keep = w > tol * top
    return (V[:, keep] / np.sqrt(w[keep])).T, V[:, ~keep].T, np.sqrt(max(top, 0))


def check_white(W, what, names=None):
    """W (S, k): rows should be iid N(0, I). Means, variances and cross products, each against its exact null distribution."""
    W = np.asarray(W, float)
    S, k = W.shape
    if k == 0:
        return 0
    if not np.isfinite(W).all():
        raise Violation(f"{what}: non-finite draws")
    zmax = -stats.norm.ppf(ALPHA / 2)
    z = W.mean(0) * np.sqrt(S)
    i = int(np.abs(z).argmax())
    if abs(z[i]) > zmax:
        raise Violation(f"{what}: whitened coordinate {names[i] if names else i} has mean {z[i] / np.sqrt(S):.4g} over {S} draws ({z[i]:.1f} standard errors)")
    ss = (W ** 2).sum(0)
    lo, hi = stats.chi2.ppf(ALPHA, S), stats.chi2.isf(ALPHA, S)
    for j in np.flatnonzero((ss < lo) | (ss > hi)):
        raise Violation(f"{what}: whitened coordinate {names[j] if names else j} has variance {ss[j] / S:.4g} over {S} draws, expected 1 (allowed {lo / S:.3g}..{hi / S:.3g})")
    C = W.T @ W / np.sqrt(S)
    np.fill_diagonal(C, 0)
    # cross products have sub-exponential tails: use a wider limit than the Gaussian one
    lim = zmax * (1 + 4 / np.sqrt(S)) + zmax ** 2 / (2 * np.sqrt(S))
    if k > 1 and np.abs(C).max() > lim:
        a, b = np.unravel_index(np.abs(C).argmax(), C.shape)
        raise Violation(f"{what}: whitened coordinates {a} and {b} are correlated ({C[a, b] / np.sqrt(S):.3g} over {S} draws)")
    big = np.abs(W).max()
    if big > -stats.norm.ppf(ALPHA / (2 * W.size)):
        raise Violation(f"{what}: a whitened draw lies {big:.1f} standard deviations out")
    return 2 * k + k * (k - 1) // 2


def white_rows(draws, mean, cov, what, tol=1e-9, atol=None):
    """Whiten draws (S, k) given one mean and covariance; draws must not leave the support (null space)."""
    W, N, sc = psd_factor(cov, tol)
    D = np.asarray(draws, float) - mean
    if len(N):
        leak = np.abs(D @ N.T).max()
        lim = atol if atol is not None else 1e-6 + 50 * np.sqrt(tol) * sc
        if leak > lim:
            raise Violation(f"{what}: draws leave the support of the distribution by {leak:.3g} (allowed {lim:.2g})")
    return D @ W.T


def ks_uniform(u, what):
    u = np.asarray(u, float)
    if not np.isfinite(u).all():
        raise Violation(f"{what}: non-finite values")
    p = stats.kstest(u, "uniform").pvalue
    if p < ALPHA:
        raise Violation(f"{what}: draws do not follow the stated law (KS p={p:.2g}, n={len(u)}, mean cdf {u.mean():.3f})")


def freq(counts, probs, what):
    """Observed category counts against probabilities (exact binomial per category)."""
    counts, probs = np.asarray(counts), np.asarray(probs, float)
    n = int(counts.sum())
    for i, (c, pr) in enumerate(zip(counts, probs)):
        if pr <= 0:
            if c:
                raise Violation(f"{what}: category {i} has probability zero but {c} draws")
            continue
        lo = stats.binom.cdf(c, n, min(pr, 1.0))
        hi = stats.binom.sf(c - 1, n, min(pr, 1.0))
        if min(lo, hi) < ALPHA:
            raise Violation(f"{what}: category {i} drawn {c}/{n} times, expected probability {pr:.4g}")


def mean_within(x, mean, sd, what):
    """Sample mean against a known mean with known sd of one draw (Gaussian limit with slack)."""
    x = np.asarray(x, float)
    z = (x.mean() - mean) / (sd / np.sqrt(len(x)))
    if abs(z) > 7.5:
        raise Violation(f"{what}: sample mean {x.mean():.5g} over {len(x)} draws, expected {mean:.5g} ({z:.1f} standard errors)")
