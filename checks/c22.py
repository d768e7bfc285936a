"""C22: recovered variables against the conditional law enumerated from the plain model's density."""
import warnings

import arviz as az
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from harness import marg, stat
from harness.core import Reject, Task, Violation, close, limit, require
from pymc_extras.model.marginal.marginal_model import marginalize

RULE = """A case is a model with discrete variables as in C20, a marginalised subset, a posterior of one or two chains with given draws of every remaining free variable, the variables to
recover (all, some, or one that cannot be), with and without samples, extending the data or not. Log-probabilities per draw and element equal the conditional law enumerated from the plain
model; samples have the variable's shape, dims and support, and over many draws its frequencies. Non-trivial: something was recovered."""
ASSUMPTIONS = ["models whose marginalisation and log-density are accepted", "remaining free variables without a transform", "at most 256 joint values"]


@st.composite
def s_rec(draw, freq=False):
    case = draw(marg.s_model(safe=draw(st.integers(0, 3)) > 0, max_joint=64 if freq else 256))
    for e in case["deps"]:
        if e["dist"] in ("halfnormal", "lognormal"):
            e["observed"] = True
    case["pot"] = case["det"] = "none"
    w = case["which"]
    case["ask"] = draw(st.sampled_from([None, w, w[:1], w[::-1]]))
    case["unknown"] = draw(st.sampled_from([None] * 7 + ["w", "nonsense"]))
    case["chains"], case["draws"] = (1, 1500) if freq else (draw(st.integers(1, 2)), draw(st.integers(1, 3)))
    case["samples"], case["extend"], case["as_vars"] = True if freq else draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    case["seed"] = draw(st.integers(0, 10**6))
    return case


def prepare(case):
    try:
        plain = marg.build(case)
    except ValueError as e:
        if str(e) != "shape":
            raise
        raise Reject
    with warnings.catch_warnings(), limit(150, "marginalisation"):
        warnings.simplefilter("ignore")
        try:
            mm = marginalize(plain, case["which"])
            f = mm.compile_fn(mm.logp(), inputs=mm.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")
            f(marg.Exact(plain, case, case["which"]).points(0, 1)[0])
        except (NotImplementedError, ValueError, TypeError, IndexError, AssertionError):
            return plain, None
    return plain, mm


def posterior_of(mm, points, chains, draws):
    data = {}
    for rv in mm.free_RVs:
        v = np.stack([np.asarray(p[mm.rvs_to_values[rv].name]) for p in points])
        data[rv.name] = xr.DataArray(v.reshape((chains, draws) + v.shape[1:]), dims=("chain", "draw") + tuple(f"{rv.name}_{i}" for i in range(v.ndim - 1)))
    data["unrelated"] = xr.DataArray(np.arange(chains * draws, dtype=float).reshape(chains, draws), dims=("chain", "draw"))
    return az.InferenceData(posterior=xr.Dataset(data, coords=dict(chain=np.arange(chains), draw=np.arange(draws))))


def conditional(ex, point, d):
    """Exact log-probabilities of every value of every element of ``d`` given the point."""
    t = ex.table(point)
    if not np.isfinite(marg.lse(t)):
        raise Reject
    vals = np.stack([a[d["name"]] for a in ex.ass])  # (joint, *shape)
    out = np.empty(tuple(d["shape"]) + (d["K"],))
    for j in np.ndindex(*d["shape"]):
        for k, v in enumerate(marg.domain(d)):
            sel = vals[(slice(None),) + j] == v
            out[j + (k,)] = marg.lse(t[sel]) - marg.lse(t)
    return out


def run(case, mm, idata, ask, **kw):
    with warnings.catch_warnings(), limit(150, "recovery"):
        warnings.simplefilter("ignore")
        return mm.recover_marginals(idata, var_names=ask, return_samples=case["samples"], extend_inferencedata=case["extend"], random_seed=case["seed"], **kw)


def check_rec(case, ctx):
    plain, mm = prepare(case)
    if mm is None:
        ctx.label("refused")
        return
    ex = marg.Exact(plain, case, case["which"])
    C, D = case["chains"], case["draws"]
    points = ex.points(case["seed"], C * D)
    idata = posterior_of(mm, points, C, D)
    ask = case["ask"]
    if case["unknown"]:
        try:
            run(case, mm, idata, (ask or case["which"]) + [case["unknown"]])
        except (ValueError, KeyError):
            ctx.label("refused unknown variable"); ctx.nontriv()
            return
        raise Violation(f"recovery of {case['unknown']!r}, which was not marginalised, was not refused")
    if ask and case["as_vars"]:
        ask = [v for n in ask for v in mm.marginalized_rvs if v.name == n]
    before = idata.posterior.copy(deep=True)
    try:
        out = run(case, mm, idata, ask)
    except NotImplementedError:
        if len(case["which"]) > 1:  # the other variables cannot be marginalised without the recovered one
            ctx.label("recovery refused")
            return
        raise
    ds = out.posterior if case["extend"] else out
    if not case["extend"]:
        xr.testing.assert_identical(idata.posterior, before)
    else:
        require(out is idata, "extending did not return the given inference data")
        xr.testing.assert_identical(ds[list(before.data_vars)], before)
    names = case["ask"] or case["which"]
    require({n for n in ds.data_vars} - set(before.data_vars) == {"lp_" + n for n in names} | (set(names) if case["samples"] else set()), "recovered variables are %s", sorted(ds.data_vars))
    for d in case["discs"]:
        if d["name"] not in names:
            continue
        lp = ds["lp_" + d["name"]]
        for i, point in enumerate(points):
            close(lp.values[i // D, i % D], conditional(ex, point, d), f"log-probabilities of {d['name']} at draw {i}", rtol=1e-5, atol=1e-5)
        if case["samples"]:
            s = ds[d["name"]]
            require(s.shape == (C, D, *d["shape"]), "samples of %s have shape %s", d["name"], s.shape)
            require(np.isin(s.values, marg.domain(d)).all(), "samples of %s outside its support: %s", d["name"], np.unique(s.values))
            ok = np.exp(np.take_along_axis(lp.values, (s.values - d["lo"])[..., None].astype(int), -1)) > 1e-12
            require(ok.all(), "an impossible value of %s was sampled", d["name"])
            if case["dims"] and d["shape"]:
                want = ("chain", "draw") + tuple(f"{d['name']}_a{a}" for a in range(len(d["shape"])))
                require(s.dims == want and lp.dims[:-1] == want, "dims of %s are %s", d["name"], s.dims)
                for a, n in enumerate(d["shape"]):
                    require(list(s.coords[want[2 + a]].values) == [f"{d['name']}{a}{k}" for k in range(n)], "coordinates of %s", d["name"])
    again = run(case, mm, posterior_of(mm, points, C, D), ask)
    again = again.posterior if case["extend"] else again
    for n in ds.data_vars:
        if n in again.data_vars:
            close(again[n].values, ds[n].values, f"repeated recovery of {n}", rtol=0, atol=0)
    ctx.label(f"{len(names)} of {len(case['which'])} variables", "samples" if case["samples"] else "log-probabilities", "dims" if case["dims"] else "no dims")
    if any(d["par"] == "disc" for d in case["discs"]):
        ctx.label("nested")
    ctx.nontriv()


def check_freq(case, ctx):
    case = {**case, "unknown": None}
    plain, mm = prepare(case)
    if mm is None:
        ctx.label("refused")
        return
    ex = marg.Exact(plain, case, case["which"])
    N = case["draws"]
    point = ex.points(case["seed"], 1)[0]
    try:
        out = run(case, mm, posterior_of(mm, [point] * N, 1, N), None)
    except NotImplementedError:
        if len(case["which"]) > 1:
            ctx.label("recovery refused")
            return
        raise
    ds = out.posterior if case["extend"] else out
    for d in case["discs"]:
        if d["name"] not in case["which"]:
            continue
        p = np.exp(conditional(ex, point, d))
        s = ds[d["name"]].values[0]
        for j in np.ndindex(*d["shape"]):
            counts = [int(np.sum(s[(slice(None),) + j] == v)) for v in marg.domain(d)]
            require(sum(counts) == N, "samples of %s outside its support", d["name"])
            stat.freq(counts, p[j], f"frequencies of {d['name']}{list(j)}")
        ctx.label(d["kind"])
    ctx.nontriv()


TASKS = [Task("recover", s_rec, check_rec, quick=60, thorough=4000, shards=(6, 6)), Task("frequencies", lambda: s_rec(freq=True), check_freq, quick=10, thorough=400, shards=(2, 2))]
