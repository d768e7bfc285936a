"""C14: exponential smoothing models against the additive recursions."""
import json
from functools import lru_cache

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import linalg

from checks.c03 import trajectory_law
from harness import arma, structm as sm
from harness.core import Reject, Task, close, require
from pymc_extras.statespace import BayesianETS

RULE = """A case is an ETS(A, N/A/Ad, N/A) model, given by order or by flags, with period 2-6, 1-3 series (named with a list or a string, or numbered), either parameterisation, independent or dense
innovations, optional measurement error, given or stationary initial covariance, and random parameter values. For every unit shock the evaluated matrices must give the same path as the
recursion y = l + phi*b + s + e, l += phi*b + alpha e, b = phi b + beta e, s = s(m back) + gamma e, written per series; the joint law of all series and the initial values must follow. The stationary initial
covariance must be the steady state of the damped system. Announced names, shapes, dims and coords agree with the model; some cases compare the log-likelihood of a real model. Non-trivial: a
trend, a season or several series."""
ASSUMPTIONS = ["the first observation sits on the initial states, without a shock (the repository's convention); initial_seasonal[i] is the season i steps before it, as the state names say",
               "with a damped trend the trend's own damping is kept in the stationary initialisation"]


@st.composite
def s_case(draw, graph=False):
    k = draw(st.integers(1, 3))
    return dict(trend=draw(st.sampled_from(["N", "A", "Ad"])), seas=draw(st.booleans()), m=draw(st.integers(2, 6)), k=k, names=draw(st.sampled_from(["list", "none", "str"])) if k == 1 else draw(st.sampled_from(["list", "none"])),
                by=draw(st.sampled_from(["order", "flags"])), transf=draw(st.booleans()), dense=draw(st.booleans()), me=draw(st.booleans()), stat=draw(st.booleans()), damp=draw(st.sampled_from([0.8, 0.5, 0.95])),
                n=draw(st.integers(3, 10)), seed=draw(st.integers(0, 10**6)))


def key(c):
    return json.dumps({k: c[k] for k in ("trend", "seas", "m", "k", "names", "by", "transf", "dense", "me", "stat", "damp")}, sort_keys=True)


@lru_cache(64)
def built(js):
    c = json.loads(js)
    kw = {}
    if c["by"] == "order":
        kw["order"] = ("A", c["trend"], "A" if c["seas"] else "N")
    else:
        kw.update(trend=c["trend"] != "N", damped_trend=c["trend"] == "Ad", seasonal=c["seas"])
    if c["names"] == "list":
        kw["endog_names"] = [f"series{i}" for i in range(c["k"])]
    elif c["names"] == "str":
        kw["endog_names"] = "sales"
    else:
        kw["k_endog"] = c["k"]
    if c["seas"]:
        kw["seasonal_periods"] = c["m"]
    mod = BayesianETS(use_transformed_parameterization=c["transf"], dense_innovation_covariance=c["dense"], measurement_error=c["me"], stationary_initialization=c["stat"],
                      initialization_dampening=c["damp"], verbose=False, **kw)
    return mod, sm.compile_ssm(mod)


def values(c, rng):
    k, m = c["k"], c["m"]
    sh = (k,) if k > 1 else ()
    u = lambda lo, hi: np.asarray(rng.uniform(lo, hi, size=sh))
    V = dict(initial_level=np.asarray(rng.normal(size=sh)), alpha=u(0.1, 0.9))
    if c["trend"] != "N":
        V["initial_trend"] = np.asarray(rng.normal(size=sh)); V["beta"] = u(0.1, 0.9) * (V["alpha"] if c["transf"] else 1)
    if c["trend"] == "Ad":
        V["phi"] = u(0.5, 0.98)
    if c["seas"]:
        V["initial_seasonal"] = rng.normal(size=sh + (m,)); V["gamma"] = u(0.1, 0.9) * ((1 - V["alpha"]) if c["transf"] else 1)
    if c["dense"] and k > 1:
        L = rng.normal(size=(k, k)); V["state_cov"] = L @ L.T + 0.3 * np.eye(k)
        Q = V["state_cov"]
    else:
        V["sigma_state"] = u(0.3, 2); Q = np.diag(np.atleast_1d(V["sigma_state"]) ** 2)
    if c["me"]:
        V["sigma_obs"] = u(0.3, 2)
    return V, Q


def smooth(c, V, eps):
    """y_0.. of every series by the recursion; eps has one row per transition."""
    k, m = c["k"], c["m"]
    g = lambda n, i: float(np.atleast_1d(V[n])[i])
    out = np.zeros((len(eps) + 1, k))
    for i in range(k):
        a, l = g("alpha", i), g("initial_level", i)
        b = g("initial_trend", i) if c["trend"] != "N" else 0.0
        phi = g("phi", i) if c["trend"] == "Ad" else 1.0
        beta = 0.0 if c["trend"] == "N" else g("beta", i) * (1.0 if c["transf"] else a)
        s = {0: 0.0}
        gam = 0.0
        if c["seas"]:
            init = np.atleast_2d(V["initial_seasonal"])[i]
            s = {-j: init[j] for j in range(m)}
            gam = g("gamma", i) * (1.0 if c["transf"] else 1 - a)
        out[0, i] = l + s[0]
        for t in range(1, len(eps) + 1):
            e = eps[t - 1, i]
            old = s[t - m] if c["seas"] else 0.0
            out[t, i] = l + phi * b + old + e
            l, b = l + phi * b + a * e, phi * b + beta * e
            s[t] = old + gam * e
    return out


def damped_P0(c, V, Q, mats):
    """Steady state of the model with every unit root replaced by the damping."""
    k, m, d = c["k"], c["m"], c["damp"]
    blocks = []
    for i in range(k):
        nt = int(c["trend"] != "N")
        n = 2 + nt + (m if c["seas"] else 0)
        T = np.zeros((n, n)); T[1, 1] = d
        if nt:
            T[1, 2], T[2, 2] = 1.0, d
        if c["trend"] == "Ad":
            T[1, 2] = T[2, 2] = float(np.atleast_1d(V["phi"])[i])
        if c["seas"]:
            o = 2 + nt
            for j in range(1, m):
                T[o + j, o + j - 1] = 1.0
            T[o, o + m - 1] = d
        blocks.append(T)
    R = mats["R"]
    return linalg.solve_discrete_lyapunov(linalg.block_diag(*blocks), R @ Q @ R.T)


def response(c, V, n):
    k = c["k"]
    base = smooth(c, V, np.zeros((n, k)))
    A = np.zeros(((n + 1) * k, n * k))
    for i in range(n * k):
        e = np.zeros(n * k); e[i] = 1
        A[:, i] = (smooth(c, V, e.reshape(n, k)) - base).ravel()
    return base, A


def check(c, ctx):
    k, n = c["k"], c["n"] + c["m"]
    mod, comp = built(key(c))
    label = f"ETS(A,{c['trend']},{'A' if c['seas'] else 'N'}) with {k} series"
    arma.check_info(mod, require, label)
    want = {"list": [f"series{i}" for i in range(k)], "str": ["sales"], "none": ["data"] if k == 1 else [f"data_{i}" for i in range(k)]}[c["names"]]
    require(list(mod.observed_states) == want, "%s: observed series %s instead of %s", label, mod.observed_states, want)
    rng = np.random.default_rng(c["seed"])
    V, Q = values(c, rng)
    N = mod.k_states
    L = rng.normal(size=(N, N))
    if not c["stat"]:
        V["P0"] = L @ L.T
    require(set(V) == set(mod.param_names), "%s: parameters %s instead of %s", label, sorted(mod.param_names), sorted(V))
    mats = sm.evaluate(comp, V)
    close(mats["Q"], Q, f"{label}: innovation covariance")
    close(mats["H"], np.diag(np.atleast_1d(V["sigma_obs"]) ** 2) if c["me"] else np.zeros((k, k)), f"{label}: measurement variance")
    base, A = response(c, V, n)
    T, R, Z, x0 = mats["T"], mats["R"], mats["Z"], mats["a0"]
    mean, _ = trajectory_law(dict(mats, P0=np.zeros((N, N)), H=np.zeros((k, k))), n)
    close(mean[(n + 1) * N:].reshape(n + 1, k), base, f"{label}: path without shocks", rtol=1e-8, atol=1e-9 * (1 + np.abs(base).max()))
    B = np.zeros_like(A)
    for s in range(n):
        M = R
        for t in range(s + 1, n + 1):
            B[t * k:(t + 1) * k, s * k:(s + 1) * k] = Z @ M
            M = T @ M
    close(B, A, f"{label}: path after a unit shock", rtol=1e-8, atol=1e-9 * (1 + np.abs(A).max()))
    # the named states follow their components
    sn = mod.state_names
    xs = mean[: (n + 1) * N].reshape(n + 1, N)
    for i in range(k):
        pre = "" if k == 1 else f"{want[i]}_"
        close(xs[0][sn.index(pre + "level")], np.atleast_1d(V["initial_level"])[i], f"{label}: initial level")
        if c["trend"] != "N":
            close(xs[0][sn.index(pre + "trend")], np.atleast_1d(V["initial_trend"])[i], f"{label}: initial trend")
        if c["seas"]:
            se = xs[:, sn.index(pre + "seasonality")]
            for j in range(1, c["m"]):
                close(xs[j:, sn.index(pre + f"L{j}.season")], se[: len(se) - j], f"{label}: state L{j}.season")
            close(xs[:, sn.index(pre + "level")] + se, base[:, i], f"{label}: level plus season")
    if c["stat"]:
        close(mats["P0"], damped_P0(c, V, Q, mats), f"{label}: stationary initial covariance", rtol=1e-6, atol=1e-8 * np.abs(mats["P0"]).max())
    else:
        close(mats["P0"], V["P0"], f"{label}: initial covariance")
    ctx.label(label, "transformed" if c["transf"] else "plain", "stationary" if c["stat"] else "given", c["by"], c["names"])
    ctx.nontriv(k > 1 or c["seas"] or c["trend"] != "N")


def check_graph(c, ctx):
    c = dict(c, stat=False)
    k, n = c["k"], c["n"] - 1
    rng = np.random.default_rng(c["seed"])
    V, Q = values(c, rng)
    mod, _ = built.__wrapped__(key(c))
    N = mod.k_states
    V["P0"] = np.eye(N) * 0.7
    base, A = response(c, V, n)
    mats = sm.evaluate(sm.compile_ssm(mod), V)
    O, M = np.zeros(((n + 1) * k, N)), np.eye(N)
    for t in range(n + 1):
        O[t * k:(t + 1) * k] = mats["Z"] @ M
        M = mats["T"] @ M
    S = A @ np.kron(np.eye(n), Q) @ A.T + O @ V["P0"] @ O.T + np.kron(np.eye(n + 1), np.diag(np.broadcast_to(V["sigma_obs"], (k,)) ** 2) if c["me"] else 1e-8 * np.eye(k))
    if np.linalg.cond(S) > 1e6:
        raise Reject("ill-conditioned")
    mu = base.ravel()
    y = mu + np.linalg.cholesky(S) @ rng.normal(size=len(mu))
    want = -0.5 * (len(mu) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + (y - mu) @ np.linalg.solve(S, y - mu))
    frame = pd.DataFrame(y.reshape(n + 1, k), columns=mod.observed_states, index=pd.date_range("2020-01-01", periods=n + 1, freq="D"))
    close(arma.graph_logp(mod, frame, V), want, f"log-likelihood of ETS(A,{c['trend']},{c['seas']}) with {k} series", rtol=1e-5, atol=1e-5)
    ctx.label(f"k={k}", c["trend"], "season" if c["seas"] else "no season")
    ctx.nontriv(True)


TASKS = [
    Task("law", s_case, check, 150, 2500, soft_s=(80, 1200), shards=(2, 4)),
    Task("graph", lambda: s_case(True), check_graph, 8, 150, soft_s=(80, 1200), shards=(2, 4)),
]
