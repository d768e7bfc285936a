"""C13: vector ARMA models against the vector recursion."""
import json
from functools import lru_cache

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import trajectory_law
from harness import arma, structm as sm
from harness.core import Reject, Task, close, require
from pymc_extras.statespace import BayesianVARMAX

RULE = """A case is a VARMA(p,q) with p,q up to 3, 1-3 series (named or numbered), free or stationary start, random coefficient arrays (equation, lag, series), a dense innovation covariance and optionally
measurement error. From the evaluated matrices: the path from the named initial lags and innovations for unit shocks must equal the recursion written as loops over equations, lags and series; the
law of the observations must follow; under stationary initialisation all autocovariances must equal the sums of products of the vector psi weights and be constant. Announced
names, shapes, dims and coords agree with the model; a few cases compare the log-likelihood of a real model. Non-trivial: at least two series and a lag."""
ASSUMPTIONS = ["whether sigma_obs is a standard deviation or a variance is not documented and not judged; it must be diagonal, positive and increasing in the parameter",
               "stationary cases have a companion matrix of spectral radius 0.8"]


@st.composite
def s_case(draw, graph=False):
    k = draw(st.integers(1, 3))
    return dict(p=draw(st.integers(0, 3)), q=draw(st.integers(0, 3)), k=k, names=draw(st.booleans()), stat=graph or draw(st.booleans()), me=not graph and draw(st.booleans()),
                n=draw(st.integers(2, 7)), seed=draw(st.integers(0, 10**6)))


@lru_cache(64)
def built(js):
    c = json.loads(js)
    names = [f"y{chr(97 + i)}" for i in range(c["k"])]
    kw = dict(endog_names=names) if c["names"] else dict(k_endog=c["k"])
    mod = BayesianVARMAX(order=(c["p"], c["q"]), stationary_initialization=c["stat"], measurement_error=c["me"], verbose=False, **kw)
    return mod, sm.compile_ssm(mod)


def key(c):
    return json.dumps({k: c[k] for k in ("p", "q", "k", "names", "stat", "me")}, sort_keys=True)


def coefs(c, rng):
    p, q, k = c["p"], c["q"], c["k"]
    out = {}
    if p:
        A = rng.normal(size=(k, p, k))
        C = np.zeros((k * p, k * p)); C[:k] = A.reshape(k, -1); C[k:, :-k] = np.eye(k * (p - 1))
        rho = np.abs(np.linalg.eigvals(C)).max()
        f = 0.8 / rho if rho > 0 else 1.0
        out["ar_params"] = A * (f ** np.arange(1, p + 1))[None, :, None]
    if q:
        out["ma_params"] = rng.normal(size=(k, q, k))
    L = rng.normal(size=(k, k))
    out["state_cov"] = L @ L.T + 0.3 * np.eye(k)
    if c["me"]:
        out["sigma_obs"] = rng.uniform(0.3, 2, size=k)
    return out


def recursion(c, V, lags, innov, eps):
    """y_1.. from y_0, y_-1, .. (lags) and e_0, e_-1, .. (innov); loops over equation, lag and series."""
    p, q, k = c["p"], c["q"], c["k"]
    y = {-i: v for i, v in enumerate(lags)}
    e = {-i: v for i, v in enumerate(innov)}
    for t, sh in enumerate(eps, start=1):
        e[t] = sh
        new = np.array(sh, float)
        for i in range(k):
            for j in range(k):
                for l in range(1, p + 1):
                    new[i] += V["ar_params"][i, l - 1, j] * (y[t - l][j] if t - l in y else 0.0)
                for l in range(1, q + 1):
                    new[i] += V["ma_params"][i, l - 1, j] * (e[t - l][j] if t - l in e else 0.0)
        y[t] = new
    return np.array([y[t] for t in range(len(eps) + 1)])


def check(c, ctx):
    p, q, k, n = c["p"], c["q"], c["k"], c["n"]
    mod, comp = built(key(c))
    label = f"VARMA({p},{q}) with {k} series"
    arma.check_info(mod, require, label)
    names = [f"y{chr(97 + i)}" for i in range(k)] if c["names"] else [f"state.{i + 1}" for i in range(k)]
    require(list(mod.observed_states) == names, "%s: observed %s", label, mod.observed_states)
    rng = np.random.default_rng(c["seed"])
    V = coefs(c, rng)
    m = mod.k_states
    x0 = rng.normal(size=m)
    L = rng.normal(size=(m, m))
    if not c["stat"]:
        V["x0"], V["P0"] = x0, L @ L.T
    mats = sm.evaluate(comp, V)
    if not c["stat"]:
        close(mats["a0"], x0, f"{label}: initial state"); close(mats["P0"], V["P0"], f"{label}: initial covariance")
    close(mats["Q"], V["state_cov"], f"{label}: innovation covariance")
    H = mats["H"]
    if c["me"]:
        require(np.allclose(H, np.diag(np.diag(H))) and np.all(np.diag(H) > 0) and np.array_equal(np.argsort(np.diag(H)), np.argsort(V["sigma_obs"])), "%s: H is %s for sigma_obs %s", label, H, V["sigma_obs"])
    else:
        require(not H.any(), "%s: measurement noise %s without measurement error", label, H)
    # where the named lags and innovations sit in the state
    sn = mod.state_names
    lags = [x0[[sn.index(v if i == 0 else f"L{i}.{v}") for v in names]] for i in range(max(p, 1))]
    innov = [x0[[sn.index(f"L{i + 1}.{v}_innov") for v in names]] for i in range(q)]
    zero = dict(mats, a0=x0, P0=np.zeros((m, m)), H=np.zeros((k, k)), Q=np.eye(k))
    N = n + max(p, q)
    mean, cov = trajectory_law(zero, N)
    ref = recursion(c, V, lags, innov, np.zeros((N, k)))
    got = mean[(N + 1) * m:].reshape(N + 1, k)
    close(got, ref, f"{label}: path from the initial lags", rtol=1e-8, atol=1e-9 * (1 + np.abs(ref).max()))
    A = np.zeros(((N + 1) * k, N * k))
    for i in range(N * k):
        e = np.zeros(N * k); e[i] = 1
        A[:, i] = (recursion(c, V, lags, innov, e.reshape(N, k)) - ref).ravel()
    # the response matrices themselves (not only their squares)
    R = np.zeros_like(A)
    T, B, Z = mats["T"], mats["R"], mats["Z"]
    for s in range(N):
        M = B
        for t in range(s + 1, N + 1):
            R[t * k:(t + 1) * k, s * k:(s + 1) * k] = Z @ M
            M = T @ M
    close(R, A, f"{label}: impulse responses", rtol=1e-8, atol=1e-9 * (1 + np.abs(A).max()))
    if c["stat"]:
        mean, cov = trajectory_law(dict(mats, H=np.zeros((k, k))), n)
        K = 400
        e = np.zeros((K, k)); W = np.zeros((K, k, k))
        for j in range(k):
            e[:] = 0; e[0, j] = 1
            W[:, :, j] = recursion_psi(c, V, e)
        G = np.zeros(((n + 1) * k, (n + 1) * k))
        for h in range(n + 1):
            g = np.einsum("tij,jl,tml->im", W[h:], V["state_cov"], W[: K - h])  # Cov(y_{t+h}, y_t)
            for t in range(n + 1 - h):
                G[(t + h) * k:(t + h + 1) * k, t * k:(t + 1) * k] = g
                G[t * k:(t + 1) * k, (t + h) * k:(t + h + 1) * k] = g.T
        close(mean, np.zeros_like(mean), f"{label}: stationary mean", rtol=0, atol=1e-8)
        close(cov[(n + 1) * m:, (n + 1) * m:], G, f"{label}: stationary autocovariances", rtol=1e-5, atol=1e-6 * np.abs(G).max())
        s = slice(n * m, (n + 1) * m)
        close(cov[s, s], mats["P0"], f"{label}: the stationary state covariance changes over time", rtol=1e-5, atol=1e-6 * np.abs(mats["P0"]).max())
    ctx.label(f"p={p},q={q}", f"k={k}", "stationary" if c["stat"] else "free start", "named" if c["names"] else "numbered")
    ctx.nontriv(k > 1 and p + q > 0)


def recursion_psi(c, V, e):
    p, q = c["p"], c["q"]
    y = np.zeros_like(e)
    for t in range(len(e)):
        y[t] = e[t]
        for l in range(1, min(p, t) + 1):
            y[t] += V["ar_params"][:, l - 1, :] @ y[t - l]
        for l in range(1, min(q, t) + 1):
            y[t] += V["ma_params"][:, l - 1, :] @ e[t - l]
    return y


def check_graph(c, ctx):
    p, q, k, n = c["p"], c["q"], c["k"], c["n"]
    rng = np.random.default_rng(c["seed"])
    V = coefs(c, rng)
    K = 400
    W = np.zeros((K, k, k))
    for j in range(k):
        e = np.zeros((K, k)); e[0, j] = 1
        W[:, :, j] = recursion_psi(c, V, e)
    S = np.zeros((n * k, n * k))
    for h in range(n):
        g = np.einsum("tij,jl,tml->im", W[h:], V["state_cov"], W[: K - h])
        for t in range(n - h):
            S[(t + h) * k:(t + h + 1) * k, t * k:(t + 1) * k] = g
            S[t * k:(t + 1) * k, (t + h) * k:(t + h + 1) * k] = g.T
    S += 1e-8 * np.eye(n * k)
    if np.linalg.cond(S) > 1e6:
        raise Reject("ill-conditioned")
    y = np.linalg.cholesky(S) @ rng.normal(size=n * k)
    want = -0.5 * (n * k * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + y @ np.linalg.solve(S, y))
    mod = built.__wrapped__(key(c))[0]
    frame = pd.DataFrame(y.reshape(n, k), columns=mod.observed_states, index=pd.date_range("2020-01-01", periods=n, freq="D"))
    close(arma.graph_logp(mod, frame, V), want, f"log-likelihood of VARMA({p},{q}) with {k} series", rtol=1e-5, atol=1e-5)
    ctx.label(f"p={p},q={q}", f"k={k}")
    ctx.nontriv(k > 1 and p + q > 0)


TASKS = [
    Task("law", s_case, check, 140, 2500, soft_s=(80, 1200), shards=(2, 4)),
    Task("graph", lambda: s_case(True), check_graph, 10, 150, soft_s=(80, 1200), shards=(2, 4)),
]
