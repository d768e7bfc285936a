"""The added univariate distributions: parameter strategies, constructors and independent reference laws."""
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

from . import gen
from pymc_extras.distributions import BetaNegativeBinomial, Chi, GeneralizedPoisson, GenExtreme, Maxwell, Skellam

CLS = dict(gev=GenExtreme, chi=Chi, maxwell=Maxwell, gp=GeneralizedPoisson, bnb=BetaNegativeBinomial, skellam=Skellam)
PARAMS = dict(gev=["mu", "sigma", "xi"], chi=["nu"], maxwell=["a"], gp=["mu", "lam"], bnb=["alpha", "beta", "r"], skellam=["mu1", "mu2"])
DISCRETE = {"gp", "bnb", "skellam"}


def _pos(lo, hi, den=8):
    return gen.q(lo, hi, den)


@st.composite
def s_value(draw, kind, p, draws=False):
    """One valid value of one parameter."""
    if kind == "gev":
        return {"mu": lambda: draw(gen.q(-5, 5, 4)), "sigma": lambda: draw(st.one_of(_pos(0.125, 4), st.sampled_from([1e-2, 50.0]))),
                "xi": lambda: draw(st.one_of(gen.q(-0.875, 0.875, 8), st.sampled_from([0.0, 1e-3, -1e-3, 1e-5, 0.99, -0.99])))}[p]()
    if kind == "chi":
        return draw(st.one_of(_pos(0.5, 8, 4), st.integers(1, 9).map(float), st.sampled_from([0.25, 40.0])))
    if kind == "maxwell":
        return draw(st.one_of(_pos(0.125, 5), st.sampled_from([0.01, 100.0])))
    if kind == "gp":
        return draw(st.one_of(_pos(0.125, 8), st.sampled_from([0.01, 30.0] if not draws else [0.05, 30.0]))) if p == "mu" else draw(gen.q(-1, 0.75 if draws else 1, 16))
    if kind == "bnb":
        return draw(st.one_of(_pos(0.5, 8, 4), st.sampled_from([0.1, 30.0] if not draws else [1.5, 30.0]), st.integers(1, 12).map(float)))
    return draw(st.one_of(_pos(0.125, 12), st.sampled_from([0.01, 50.0, 0.0] + ([] if draws else [400.0]))))


def fix_params(kind, ps):
    """Project generated arrays onto the documented parameter space."""
    if kind == "gp":
        mu, lam = ps
        m, l = np.broadcast_arrays(mu, lam)
        lo = max(-1.0, -float(np.min(mu)) / 4)
        return [mu, np.maximum(lam, lo)]
    return ps


@st.composite
def s_params(draw, kind, draws=False, maxdim=2):
    """Parameter arrays with broadcastable shapes."""
    base = draw(st.sampled_from([[], [], [3], [2], [2, 3], [1, 3], [2, 1]][: 7 if maxdim > 1 else 4]))
    out = {}
    for p in PARAMS[kind]:
        shape = list(base)
        if draw(st.integers(0, 2)) == 0:
            shape = draw(st.sampled_from([[], shape[-1:], [1] * len(shape), [1] + shape[1:] if shape else []]))
        n = int(np.prod(shape))
        out[p] = dict(shape=shape, v=[draw(s_value(kind, p, draws)) for _ in range(n)], int=False)
        if all(float(x).is_integer() for x in out[p]["v"]) and draw(st.booleans()):
            out[p]["int"] = True
    return out


def arrays(kind, case):
    ps = [np.array(case[p]["v"], float).reshape(tuple(case[p]["shape"])) for p in PARAMS[kind]]
    ps = fix_params(kind, ps)
    return [x.astype("int64") if case[p]["int"] and np.all(x == np.round(x)) else x for x, p in zip(ps, PARAMS[kind])]


def gp_max(mu, lam):
    """Largest value with positive probability when lam < 0."""
    if lam >= 0:
        return np.inf
    m = int(np.ceil(-mu / lam))
    while mu + lam * m <= 0:
        m -= 1
    return m


def ref_logp(kind, x, *ps):
    """Scalar reference log-density, -inf outside the support."""
    ps = [float(p) for p in ps]
    if kind == "gev":
        mu, s, xi = ps
        if abs(xi) < 1e-12:
            return float(stats.gumbel_r.logpdf(x, mu, s))
        z = 1 + xi * (x - mu) / s
        if z <= 0:
            return -np.inf
        lt = -np.log1p(xi * (x - mu) / s) / xi  # log t(x)
        return float(-np.log(s) + (xi + 1) * lt - np.exp(lt))
    if kind == "chi":
        return -np.inf if x < 0 else float((ps[0] - 1) * np.log(x) - x * x / 2 - (ps[0] / 2 - 1) * np.log(2) - special.gammaln(ps[0] / 2))
    if kind == "maxwell":
        return -np.inf if x < 0 else float(0.5 * np.log(2 / np.pi) + 2 * np.log(x) - 3 * np.log(ps[0]) - x * x / (2 * ps[0] ** 2))
    if x < 0 and kind != "skellam":
        return -np.inf
    if kind == "gp":
        mu, lam = ps
        t = mu + lam * x
        if t <= 0 and x > 0:
            return -np.inf
        return float(np.log(mu) + (x - 1) * np.log(t) - t - special.gammaln(x + 1))
    if kind == "bnb":
        a, b, r = ps
        return float(special.gammaln(r + x) - special.gammaln(x + 1) - special.gammaln(r) + special.betaln(a + r, b + x) - special.betaln(a, b))
    m1, m2 = ps
    if m1 == 0 or m2 == 0:
        y, m = (x, m1) if m2 == 0 else (-x, m2)
        return float(stats.poisson.logpmf(y, m))
    # convolution of two Poisson laws around the dominating term
    k0 = int(max(0, x, (x + np.sqrt(x * x + 4 * m1 * m2)) / 2))
    k = np.arange(max(0, x, k0 - 800), k0 + 800, dtype=float)
    return float(special.logsumexp(k * np.log(m1) - m1 - special.gammaln(k + 1) + (k - x) * np.log(m2) - m2 - special.gammaln(k - x + 1)))


def ref_cdf(kind, x, *ps):
    """Vectorised reference distribution function (continuous families)."""
    if kind == "gev":
        return stats.genextreme.cdf(x, -ps[2], ps[0], ps[1])
    if kind == "chi":
        return stats.chi.cdf(x, ps[0])
    return stats.maxwell.cdf(x, scale=ps[0])


def quantile(kind, q, *ps):
    if kind == "gev":
        return stats.genextreme.ppf(q, -ps[2], ps[0], ps[1])
    return stats.chi.ppf(q, ps[0]) if kind == "chi" else stats.maxwell.ppf(q, scale=ps[0])
