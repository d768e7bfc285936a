"""C06: impulse responses against the noise-free recursion with and without the shock, per posterior draw."""
from functools import lru_cache

import numpy as np
import pymc as pm
from hypothesis import strategies as st

from checks.c03 import raw_systems, systems
from harness import gen, ssm
from harness.core import Task, close, known, require
from harness.stat import check_white, white_rows

RULE = """A case is an InferenceData whose draws hold 1-4 random systems in a random order over 1-2 chains, and a shock: a scalar or vector size, a
covariance, the posterior covariance (default) or a whole trajectory. Explicit shocks: every response must equal the difference of two noise-free
paths of that draw's system (run with its state intercept). Random initial shocks: the whole response must be T^t times its first row, and first rows are whitened with R Q R'. Non-trivial:
two or more steps and (several systems, several shocks or a state intercept)."""
ASSUMPTIONS = ["time-invariant transition and selection matrices", "orthogonalize_shocks=True is a known finding and is not generated"]
CONFIGS = [(1, 1, 1), (2, 2, 2), (1, 3, 2), (2, 3, 1), (1, 3, 3)]


@st.composite
def s_irf(draw):
    p, m, r = draw(st.sampled_from(CONFIGS))
    k = draw(st.integers(1, 4))
    mode = draw(st.sampled_from(["size", "vector", "cov", "posterior", "trajectory", "trajectory"]))
    steps = draw(st.integers(1, 12))
    case = dict(p=p, m=m, r=r, n=3, tv=[], Hk="diag", raws=draw(raw_systems(p, m, r, 3, (), k, 0)), scale=1.0, mode=mode, steps=steps, chains=draw(st.sampled_from([1, 2])),
                order=draw(st.lists(st.integers(0, k - 1), min_size=60, max_size=60)), seed=draw(st.integers(0, 10**6)), ckw=draw(st.booleans()))
    if mode == "size":
        case["shock"] = draw(gen.q(-3, 3))
    elif mode == "vector":
        case["shock"] = draw(gen.vec(r, -3, 3))
    elif mode == "cov":
        case["shock"] = draw(gen.mat(r, r, -2, 2))
    elif mode == "trajectory":
        case["shock"] = draw(gen.arr((steps, r), -3, 3))
    return case


@lru_cache(None)
def built(p, m, r):
    mod = ssm.Generic(p, m, r)
    ssm.model_for(mod, np.zeros((3, p)) + 0.5, mode="FAST_COMPILE")
    return mod


def path(s, shocks):
    x = np.zeros(len(s["a0"]))
    out = []
    for e in shocks:
        x = s["T"] @ x + s["c"] + s["R"] @ e
        out.append(x)
    return np.array(out)


def check_irf(case, ctx):
    p, m, r, n = case["p"], case["m"], case["r"], case["steps"]
    sys_ = systems(case)
    mod = built(p, m, r)
    mode = case["mode"]
    order = case["order"][: 60 if mode in ("cov", "posterior") else 6]
    idata = ssm.idata_from([ssm.params(sys_[i]) for i in order], "posterior", case["chains"])
    kw = dict(n_steps=n)
    if mode in ("size", "vector"):
        kw["shock_size"] = case["shock"] if mode == "size" else np.asarray(case["shock"])
    elif mode == "cov":
        L = np.asarray(case["shock"])
        kw["shock_cov"] = S = L @ L.T + 0.25 * np.eye(r)
    elif mode == "trajectory":
        kw = dict(shock_trajectory=np.asarray(case["shock"]))
    if case["ckw"]:
        kw["compile_kwargs"] = {"mode": "FAST_COMPILE"}
    out = mod.impulse_response_function(idata, random_seed=case["seed"], progressbar=False, **kw)
    x = out["irf"].values
    require(x.shape == (case["chains"], len(order) // case["chains"], n, m), "irf has shape %s", x.shape)
    require(list(np.asarray(out.coords["time"])) == list(range(n)) and list(out.coords["state"].values) == mod.state_names, "irf labels")
    x = x.reshape(-1, n, m)
    first = []
    for j, i in enumerate(order):
        s = sys_[i]
        if mode in ("size", "vector", "trajectory"):
            e = np.zeros((n, r))
            if mode == "trajectory":
                e[:] = case["shock"]
            else:
                e[0] = case["shock"]
            close(x[j], path(s, e) - path(s, e * 0), f"response of draw {j} to a given shock", rtol=1e-8, atol=1e-9)
        else:
            want = [x[j][0]]
            for t in range(1, n):
                want.append(s["T"] @ want[-1])
            close(x[j], np.array(want), f"response of draw {j} after the initial shock", rtol=1e-8, atol=1e-9)
            Q = S if mode == "cov" else s["Q"]
            first.append(white_rows(x[j][0][None], np.zeros(m), s["R"] @ Q @ s["R"].T, "initial response")[0])
        ctx.count()
    if first:
        k = max(len(f) for f in first)
        ctx.count(check_white(np.array([f for f in first if len(f) == k]), "initial responses"))
    ctx.label(mode)
    ctx.nontriv(n > 1 and (len(set(order)) > 1 or r > 1))


def probe_orthogonalize():
    """Already uncorrelated shocks with variance 4: orthogonalising must leave them at sd 2 (or scale them to 1)."""
    mod = ssm.Generic(1, 1, 1)
    ssm.model_for(mod, np.zeros((3, 1)) + 0.5, mode="FAST_COMPILE")
    one = np.ones((1, 1))
    s = dict(a0=np.zeros(1), P0=one, c=np.zeros(1), d=np.zeros(1), T=one, Z=one, R=one, H=one, Q=4 * one)
    out = mod.impulse_response_function(ssm.idata_from([ssm.params(s)] * 400), n_steps=2, orthogonalize_shocks=True, random_seed=1, progressbar=False)
    sd = out["irf"].values[:, :, 0].std()
    return None if abs(sd - 2) < 0.5 or abs(sd - 1) < 0.15 else f"initial shocks have sd {sd:.3f}"


PROBES = {"irf-orthogonalize": probe_orthogonalize}
TASKS = [Task("irf", s_irf, check_irf, quick=84, thorough=4000, shards=(7, 7))]
