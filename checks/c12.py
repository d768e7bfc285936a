"""C12: SARIMA models against the lag polynomials."""
import json
from functools import lru_cache

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import trajectory_law
from harness import arma, structm as sm
from harness.core import Reject, Task, close, require
from pymc_extras.statespace import BayesianSARIMA

RULE = """A case is an order (p,d,q) up to 3,2,3, a seasonal order up to (2,2,2) with period 2-5 (or none), a state layout, an initialisation, optional measurement error and random
coefficients (stationary when requested). Both layouts' evaluated matrices give the response of the series to a shock, the free path from a random initial state, and under stationary
initialisation the autocovariances; these are compared with the power series of the lag polynomials, the recursion of the product polynomial, and sums of squared psi weights.
Announced names, shapes, dims and coordinates must agree with the model. A few cases compare the log-likelihood of a real model. Non-trivial: at
least two of AR, MA, seasonal AR, seasonal MA, differencing present."""
ASSUMPTIONS = ["stationary initialisation is used without differencing", "overlapping lags (p >= S with P > 0, same for q) are refused by the model and only that refusal is checked",
               "partial autocorrelations up to 0.85, so that 600 psi weights are exact"]


@st.composite
def s_case(draw, graph=False):
    S = draw(st.sampled_from([0, 0, 2, 3, 4, 5]))
    c = dict(order=[draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(0, 3))],
             seas=[draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.integers(0, 2)), S] if S else None,
             layout=draw(st.sampled_from(["fast", "interpretable"])), stat=draw(st.booleans()) or graph, me=draw(st.booleans()),
             n=draw(st.integers(3, 12)), seed=draw(st.integers(0, 10**6)))
    if c["layout"] == "interpretable" or c["stat"]:
        c["order"][1] = 0
        if S:
            c["seas"][1] = 0
    return c


def dims(c):
    p, d, q = c["order"]
    P, D, Q, S = c["seas"] or (0, 0, 0, 0)
    return p, d, q, P, D, Q, S


@lru_cache(64)
def built(js):
    c = json.loads(js)
    mod = BayesianSARIMA(order=tuple(c["order"]), seasonal_order=tuple(c["seas"]) if c["seas"] else None, state_structure=c["layout"],
                         stationary_initialization=c["stat"], measurement_error=c["me"], verbose=False)
    return mod, sm.compile_ssm(mod)


def coefs(c, rng):
    p, d, q, P, D, Q, S = dims(c)
    out = {}
    if p:
        out["ar_params"] = arma.pacf_to_ar(rng.uniform(-0.85, 0.85, p))
    if P:
        out["seasonal_ar_params"] = arma.pacf_to_ar(rng.uniform(-0.6, 0.6, P))
    if q:
        out["ma_params"] = rng.normal(size=q)
    if Q:
        out["seasonal_ma_params"] = rng.normal(size=Q)
    out["sigma_state"] = np.asarray(rng.uniform(0.3, 2))
    if c["me"]:
        out["sigma_obs"] = np.asarray(rng.uniform(0.3, 2))
    return out


def polys(c, P_):
    p, d, q, P, D, Q, S = dims(c)
    e = np.zeros(0)
    ar = np.convolve(arma.poly(P_.get("ar_params", e)), arma.poly(P_.get("seasonal_ar_params", e), S))
    ma = np.convolve(arma.poly(P_.get("ma_params", e), 1, 1), arma.poly(P_.get("seasonal_ma_params", e), S, 1))
    diff = np.convolve(arma.power(np.array([1.0, -1.0]), d), arma.power(arma.poly([1.0], max(S, 1)), D))
    return ar, ma, diff


def overlap(c):
    p, d, q, P, D, Q, S = dims(c)
    return (P and p >= S) or (Q and q >= S)


def get(c):
    key = json.dumps({k: c[k] for k in ("order", "seas", "layout", "stat", "me")}, sort_keys=True)
    if overlap(c):
        try:
            built(key)
        except ValueError:
            return None
        require(False, "order %s seasonal %s has overlapping lags and is accepted", c["order"], c["seas"])
    return built(key)


def check(c, ctx):
    p, d, q, P, D, Q, S = dims(c)
    r = get(c)
    if r is None:
        ctx.label("overlap refused")
        return
    mod, comp = r
    label = f"SARIMA{tuple(c['order'])}{tuple(c['seas'] or ())} {c['layout']}"
    arma.check_info(mod, require, label)
    rng = np.random.default_rng(c["seed"])
    V = coefs(c, rng)
    m, n = mod.k_states, c["n"]
    if not c["stat"]:
        L = rng.normal(size=(m, m))
        V["x0"], V["P0"] = rng.normal(size=m), L @ L.T
    mats = sm.evaluate(comp, V)
    if not c["stat"]:
        close(mats["a0"], V["x0"], f"{label}: initial state"); close(mats["P0"], V["P0"], f"{label}: initial covariance")
    ar, ma, diff = polys(c, V)
    full = np.convolve(ar, diff)
    close(mats["H"], np.eye(1) * (V["sigma_obs"] ** 2 if c["me"] else 0), f"{label}: measurement variance")
    # response to one shock, and to the initial state
    zero = dict(mats, P0=np.zeros((m, m)), a0=np.zeros(m), H=np.zeros((1, 1)))
    _, cov = trajectory_law(zero, n)
    got = cov[(n + 1) * m:, (n + 1) * m:]
    w = arma.psi(full, ma, n + 1) * V["sigma_state"]
    A = np.array([[w[t - s] if t >= s else 0 for s in range(1, n + 1)] for t in range(n + 1)])
    close(got, A @ A.T, f"{label}: law of the series started at zero", rtol=1e-7, atol=1e-9 * (1 + np.abs(A).max() ** 2))
    x0 = rng.normal(size=m)
    N = max(len(full) - 1, len(ma) + len(diff)) + 6
    mean, _ = trajectory_law(dict(zero, a0=x0), N + n)
    xs, ys = mean[: (N + n + 1) * m].reshape(-1, m), mean[(N + n + 1) * m:]
    start = max(len(ar) - 1, len(ma)) + len(diff) - 1  # the initial state has this many free values
    for t in range(start, N + n + 1):
        r = full @ ys[t - np.arange(len(full))]
        require(abs(r) <= 1e-8 * (1 + np.abs(ys).max() * np.abs(full).sum()), "%s: free path violates the AR recursion at step %s: residual %s", label, t, r)
    if len(full) - 1 > 0:  # the initial state matters for as long as the recursion has memory
        O = np.array([mats["Z"].reshape(1, m) @ np.linalg.matrix_power(mats["T"], i) for i in range(m)]).reshape(m, m)
        require(np.linalg.matrix_rank(O) >= len(full) - 1 if np.all(np.abs(full[-1]) > 1e-3) else True, "%s: initial states cannot reproduce the AR recursion", label)
    if c["layout"] == "interpretable":
        names = mod.state_names
        for i, nm in enumerate(names):
            if nm.startswith("L"):
                lag, base = nm[1:].split(".", 1)
                b = names.index(base)
                k = int(lag)
                close(xs[k:, i], xs[: len(xs) - k, b], f"{label}: state {nm} is not {base} {k} steps earlier", rtol=1e-10, atol=1e-10)
        close(xs[:, names.index("data")], ys, f"{label}: state data", rtol=1e-10, atol=1e-10)
        want = xs[0][names.index("data")]
        # path from named lags
        y = {0: want}; e = {0: xs[0][names.index("innovations")]}
        for i, nm in enumerate(names):
            if nm.startswith("L"):
                lag, base = nm[1:].split(".", 1)
                (y if base == "data" else e)[-int(lag)] = xs[0][i]
        for t in range(1, N + n + 1):
            y[t] = -sum(full[i] * y.get(t - i, 0.0) for i in range(1, len(full))) + sum(ma[j] * e.get(t - j, 0.0) for j in range(1, len(ma)))
            close(ys[t], y[t], f"{label}: path from the named initial lags at step {t}", rtol=1e-7, atol=1e-7 * (1 + np.abs(ys).max()))
    if c["stat"]:
        mean, cov = trajectory_law(dict(mats, H=np.zeros((1, 1))), n)
        G = arma.toeplitz_cov(ar, ma, float(V["sigma_state"]), n + 1)
        close(mean, np.zeros_like(mean), f"{label}: stationary mean", rtol=0, atol=1e-9)
        close(cov[(n + 1) * m:, (n + 1) * m:], G, f"{label}: stationary autocovariances", rtol=1e-5, atol=1e-6 * G[0, 0])
        k = slice(n * m, (n + 1) * m)
        close(cov[k, k], mats["P0"], f"{label}: the stationary state covariance changes over time", rtol=1e-5, atol=1e-6 * np.abs(mats["P0"]).max())
    feats = sum([p > 0, q > 0, P > 0, Q > 0, d + D > 0])
    ctx.label(c["layout"], "stationary" if c["stat"] else "free start", "seasonal" if S else "plain", f"d={d + D}")
    ctx.nontriv(feats >= 2)


def check_graph(c, ctx):
    r = get(c)
    if r is None:
        ctx.label("overlap refused")
        return
    mod, _ = r
    rng = np.random.default_rng(c["seed"])
    V = coefs(c, rng)
    n = c["n"]
    ar, ma, _ = polys(c, V)
    G = arma.toeplitz_cov(ar, ma, float(V["sigma_state"]), n)
    S = G + np.eye(n) * (V["sigma_obs"] ** 2 if c["me"] else 1e-8)
    if np.linalg.cond(S) > 1e6:
        raise Reject("ill-conditioned")
    y = np.linalg.cholesky(S) @ rng.normal(size=n)
    want = -0.5 * (n * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + y @ np.linalg.solve(S, y))
    frame = pd.DataFrame({mod.observed_states[0]: y}, index=pd.date_range("2020-01-01", periods=n, freq="D"))
    got = arma.graph_logp(built.__wrapped__(json.dumps({k: c[k] for k in ("order", "seas", "layout", "stat", "me")}))[0], frame, V)
    close(got, want, f"log-likelihood of SARIMA{tuple(c['order'])}{tuple(c['seas'] or ())} {c['layout']}", rtol=1e-5, atol=1e-5)
    ctx.label(c["layout"], "seasonal" if c["seas"] else "plain")
    ctx.nontriv(sum(c["order"]) > 0)


TASKS = [
    Task("law", s_case, check, 160, 2500, soft_s=(80, 1200), shards=(2, 4)),
    Task("graph", lambda: s_case(True), check_graph, 10, 150, soft_s=(80, 1200), shards=(2, 4)),
]
