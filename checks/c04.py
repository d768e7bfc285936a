"""C04: conditional samples and sampled matrices of every posterior draw against that draw's own exact filter, smoother and matrices."""
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from checks.c02 import missing, smoother_cond
from checks.c03 import raw_systems, systems
from harness import gen, ssm
from harness.core import Reject, Task, Violation, close, require
from harness.dense import at, solve_all
from harness.stat import check_white, white_rows
from pymc_extras.statespace.utils.constants import SHORT_NAME_TO_LONG

RULE = """A case is a data set with a missing pattern and an InferenceData whose draws hold 1-4 different random systems in a random order over
1-2 chains. ``conditional``: every draw of the filtered, predicted and smoothed states and of the implied observations is whitened with the moments
that exact Gaussian conditioning gives for that draw's own parameters and the data. ``matrices``: sampled matrices must equal the draw's
parameters exactly. Non-trivial: more than one system, a missing entry, an intercept, time variation or several series."""
ASSUMPTIONS = ["systems with condition number < 1e4", "the model's covariance jitter is far below the tested scale"]
CONFIGS = [(1, 1, 1, (), "standard"), (2, 2, 2, (), "standard"), (2, 2, 1, (), "cholesky"), (1, 3, 2, (), "univariate"), (2, 2, 2, ("Z", "d"), "standard"),
           (1, 2, 2, ("T", "c"), "standard"), (2, 3, 2, (), "standard")]


@st.composite
def s_cond(draw):
    p, m, r, tv, kind = draw(st.sampled_from(CONFIGS))
    n = draw(st.integers(3, 5))
    hk = "diag" if kind == "univariate" else draw(st.sampled_from(["dense", "diag"]))
    k = draw(st.sampled_from([2, 3, 4]))
    return dict(p=p, m=m, r=r, n=n, tv=list(tv), Hk=hk, kind=kind, raws=draw(raw_systems(p, m, r, n, tv, k, hk)), scale=draw(st.sampled_from([1.0, 1e-3])),
                y=draw(gen.arr((n, p), -4, 4)), miss=missing(draw, n, p), group=draw(st.sampled_from(["posterior", "prior"])), chains=draw(st.sampled_from([1, 2])),
                order=draw(st.lists(st.integers(0, k - 1), min_size=48, max_size=48)), seed=draw(st.integers(0, 10**6)), newdata=draw(st.integers(0, 3)),
                fill=draw(st.sampled_from([None, 55.0])))


def check_cond(case, ctx):
    p, m, r, n, tv = case["p"], case["m"], case["r"], case["n"], tuple(case["tv"])
    all_sys = systems(case)
    miss = np.asarray(case["miss"])
    y = np.where(miss > 0, np.nan, np.asarray(case["y"], float))
    sys_, wants = [], []
    for s in all_sys:
        try:
            w = solve_all(s, y)
        except Reject:
            continue
        if max(smoother_cond(s, w), w["cond"]) < 1e4 and min(np.linalg.eigvalsh(w[k])[:, 0].min() for k in ("filtc", "predc", "smoothc")) > 1e-5:
            sys_.append(s)
            wants.append(w)
    if not sys_:
        raise Reject
    mod = ssm.Generic(p, m, r, tv, n, filter_type=case["kind"])
    fit = y if case["newdata"] else np.where(np.isnan(y), np.nan, y * -0.5 + 1)
    ssm.model_for(mod, fit, mode="FAST_COMPILE", missing_fill_value=case["fill"])
    order = [i % len(sys_) for i in case["order"]]
    idata = ssm.idata_from([ssm.params(sys_[i]) for i in order], case["group"], case["chains"])
    fn = mod.sample_conditional_posterior if case["group"] == "posterior" else mod.sample_conditional_prior
    out = fn(idata, random_seed=case["seed"], progressbar=False, **({} if case["newdata"] else {"data": y}))
    want_names = {f"{o}_{case['group']}{x}" for o in ("filtered", "predicted", "smoothed") for x in ("", "_observed")}
    require(set(out.data_vars) == want_names, "conditional samples hold %s", sorted(out.data_vars))
    W = {o: {"": [[] for _ in range(n)], "_observed": [[] for _ in range(n)]} for o in ("filtered", "predicted", "smoothed")}
    for o, k in (("filtered", "filt"), ("predicted", "pred"), ("smoothed", "smooth")):
        x = out[f"{o}_{case['group']}"].values; yy = out[f"{o}_{case['group']}_observed"].values
        require(x.shape[2:] == (n, m) and yy.shape[2:] == (n, p), "%s samples have shapes %s %s", o, x.shape, yy.shape)
        x, yy = x.reshape(-1, n, m), yy.reshape(-1, n, p)
        for j, i in enumerate(order):
            s, w = sys_[i], wants[i]
            for t in range(n):
                Z, d, H = at(s["Z"], t, 2), at(s["d"], t, 1), at(s["H"], t, 2)
                mu, P = w[k][t], w[k + "c"][t]
                W[o][""][t].append(white_rows(x[j, t][None], mu, P, f"{o} state at step {t}")[0])
                W[o]["_observed"][t].append(white_rows(yy[j, t][None], Z @ mu + d, Z @ P @ Z.T + H, f"{o} observation at step {t}")[0])
    for o in W:
        for sfx in W[o]:
            pooled = []
            for t in range(n):
                if len({len(v) for v in W[o][sfx][t]}) != 1:
                    continue
                A = np.array(W[o][sfx][t])
                pooled.append(A)
                ctx.count(check_white(A, f"{o}{sfx} samples at step {t}"))
            if pooled and len({a.shape[1] for a in pooled}) == 1:
                ctx.count(check_white(np.concatenate(pooled), f"{o}{sfx} samples"))
    require(list(out.coords["state"].values) == mod.state_names, "state labels %s", list(out.coords["state"].values))
    require(list(out.coords["observed_state"].values) == mod.observed_states, "series labels")
    ctx.label(case["kind"], case["group"], "tv" if tv else "static", "missing" if miss.any() else "complete", f"chains={case['chains']}")
    ctx.nontriv(len(set(order)) > 1)


def KEY(k):
    return "a0" if k == "x0" else k


@st.composite
def s_mat(draw):
    p, m, r, tv, kind = draw(st.sampled_from(CONFIGS))
    n = draw(st.integers(2, 4))
    k = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from([x if x != "a0" else "x0" for x in ssm.NAMES]), min_size=1, max_size=4, unique=True))
    return dict(p=p, m=m, r=r, n=n, tv=list(tv), Hk="dense", kind=kind, raws=draw(raw_systems(p, m, r, n, tv, k, "dense")), scale=1.0,
                group=draw(st.sampled_from(["posterior", "prior"])), names=names, long=draw(st.booleans()), all=draw(st.integers(0, 3)) == 0,
                chains=draw(st.sampled_from([1, 2])))


@lru_cache(None)
def built(p, m, r, tv, n, kind):
    mod = ssm.Generic(p, m, r, tv, n, filter_type=kind)
    ssm.model_for(mod, np.zeros((n, p)) + 0.5, mode="FAST_COMPILE")
    return mod


def check_mat(case, ctx):
    p, m, r, n, tv = case["p"], case["m"], case["r"], case["n"], tuple(case["tv"])
    sys_ = systems(case)
    mod = built(p, m, r, tv, n, case["kind"])
    draws = [ssm.params(s) for s in sys_] * case["chains"]
    idata = ssm.idata_from(draws, case["group"], case["chains"])
    names = None if case["all"] else [SHORT_NAME_TO_LONG[k] if case["long"] else k for k in case["names"]]
    out = mod.sample_statespace_matrices(idata, names, group=case["group"])
    ds = out.posterior_predictive
    keys = ["x0"] + ssm.NAMES[1:] if case["all"] else case["names"]
    for k in keys:
        nm = SHORT_NAME_TO_LONG[k] if SHORT_NAME_TO_LONG[k] in ds else k
        require(nm in ds, "matrix %s was not returned", nm)
        got = ds[nm].values.reshape((len(draws),) + np.asarray(sys_[0][KEY(k)]).shape)
        for j, dr in enumerate(draws):
            close(got[j], dr[ssm.PAR[KEY(k)]], f"matrix {nm} of draw {j}", rtol=1e-10, atol=1e-12)
            ctx.count()
    ctx.label(case["group"], "tv" if tv else "static")
    ctx.nontriv(len(sys_) > 1)


TASKS = [Task("conditional", s_cond, check_cond, quick=28, thorough=900, shards=(7, 7)), Task("matrices", s_mat, check_mat, quick=60, thorough=1500)]
