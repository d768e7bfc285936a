"""C11: sums of structural components, and the extraction of components from hidden states."""
import copy

import numpy as np
import pandas as pd
import pymc as pm
import xarray as xr
from hypothesis import strategies as st

from checks.c03 import trajectory_law
from harness import dense, structm as sm
from harness.core import Reject, Task, close, require

RULE = """A case is a list of 1-5 structural components in any order and association (at most one trend and one autoregression, the rest free), with random parameters and regressors.
Sums: the observed process of the built model (from its evaluated matrices) equals the sum of independent component processes; parameters, dims, coordinates, data,
states and shocks are exactly those of the components, each name bound to the right row; adding and building leave the components as they were. Graph: the same law is found
in the log-likelihood of a real PyMC model built with the model's own dims and coords. Extraction: random hidden states are reduced to one contribution per
named component, which weighted by the design add up to the observed mean. Duplicates: clashing components are refused. Non-trivial: at least two
components with states, or a refusal."""
ASSUMPTIONS = ["components whose parameters have fixed names (trend, autoregression) can be used once; a second one must be refused"]


@st.composite
def s_specs(draw, lo=1, hi=5, small=True):
    n = draw(st.integers(lo, hi))
    kinds = draw(st.lists(st.sampled_from(sm.KINDS), min_size=n, max_size=n))
    out, seen = [], set()
    for i, kind in enumerate(kinds):
        if kind in ("trend", "ar") and kind in [k["kind"] for k in out]:
            kind = "freq"
        k = draw(sm.s_spec(kind, i, small))
        if sm.full_name(k) in seen:
            k["name"] = f"{kind}{i}"
        seen.add(sm.full_name(k))
        out.append(k)
    if not any(sm.n_states(k) for k in out):
        out.insert(draw(st.integers(0, len(out))), draw(sm.s_spec("trend", 9, small)))
    return out


@st.composite
def s_sum(draw, lo=1, hi=5):
    specs = draw(s_specs(lo, hi))
    return dict(specs=specs, tree=draw(st.lists(st.integers(0, 3), min_size=len(specs), max_size=len(specs))), n=draw(st.integers(2, 7)),
                seed=draw(st.integers(0, 10**6)), name=draw(st.sampled_from([None, "sales"])), reuse=draw(st.booleans()))


def assemble(comps, tree):
    """Add the components in order, with the association given by the tree (adjacent pairs are merged)."""
    comps = list(comps)
    for t in tree:
        if len(comps) == 1:
            break
        i = t % (len(comps) - 1)
        comps[i:i + 2] = [comps[i] + comps[i + 1]]
    while len(comps) > 1:
        comps[0:2] = [comps[0] + comps[1]]
    return comps[0]


ATTRS = ["name", "k_states", "k_posdef", "measurement_error", "state_names", "data_names", "shock_names", "param_names", "exog_names", "coords", "param_dims", "param_info", "data_info", "_component_info"]

DEFAULT = ("state", "state_aux", "observed_state", "observed_state_aux", "shock", "shock_aux")


def snapshot(c):
    out = {a: copy.deepcopy(getattr(c, a)) for a in ATTRS}
    # the repository's tests require that build() adds the model's own dims to the component's coords
    out["coords"] = {d: v for d, v in out["coords"].items() if d not in DEFAULT}
    out["vars"] = sorted(c._name_to_variable), sorted(c._name_to_data)
    return out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def draws(case):
    rng = np.random.default_rng(case["seed"])
    P, D = {}, {}
    for k in case["specs"]:
        P.update(sm.draw_params(k, rng)); D.update(sm.draw_data(k, case["n"], rng))
    m = sum(sm.n_states(k) for k in case["specs"])
    L = rng.normal(size=(m, m)) / np.sqrt(m)
    P["P0"] = L @ L.T + 0.05 * np.eye(m)
    return P, D, rng


def check_names(mod, specs, comps, label):
    want = {}
    for k in specs:
        want.update(sm.param_shapes(k))
    m = sum(sm.n_states(k) for k in specs)
    want["P0"] = ((m, m), ("state", "state_aux"), None)
    require(sorted(mod.param_names) == sorted(want), "%s: parameters %s instead of %s", label, mod.param_names, sorted(want))
    require(sorted(mod._name_to_variable) == sorted(want), "%s: placeholders %s", label, sorted(mod._name_to_variable))
    for p, (shape, dims, labels) in want.items():
        require(tuple(mod._name_to_variable[p].type.shape) == shape, "%s: placeholder %s has shape %s", label, p, mod._name_to_variable[p].type.shape)
        info = mod.param_info[p]
        require(tuple(info["shape"]) == shape, "%s: param_info of %s has shape %s instead of %s", label, p, info["shape"], shape)
        have = mod.param_dims.get(p)
        require(have == dims and info["dims"] == dims, "%s: dims of %s are %r / %r instead of %r", label, p, have, info["dims"], dims)
        for d, l, s in zip(dims or (), labels or (), shape):
            require(list(mod.coords[d]) == list(l), "%s: coordinate %s is %s instead of %s", label, d, mod.coords[d], l)
        for d, s in zip(dims or (), shape):
            require(len(mod.coords[d]) == s, "%s: coordinate %s of %s has length %d instead of %d", label, d, p, len(mod.coords[d]), s)
    data = {f"data_{sm.full_name(k)}": k["k"] for k in specs if k["kind"] == "reg"}
    for have in (mod.data_names, list(mod.data_info), list(mod._name_to_data), mod._exog_names):
        require(sorted(have) == sorted(data), "%s: data %s instead of %s", label, have, sorted(data))
    for d, kk in data.items():
        require(tuple(mod.data_info[d]["shape"]) == (None, kk), "%s: data_info of %s is %s", label, d, mod.data_info[d])
        require(len(mod.coords[mod.data_info[d]["dims"][1]]) == kk, "%s: data %s has dims %s", label, d, mod.data_info[d]["dims"])
    require(list(mod.state_names) == sum((list(c.state_names) for c in comps), []), "%s: states %s", label, mod.state_names)
    require(mod.k_states == m == len(mod.state_names), "%s: %d states, %d names", label, mod.k_states, len(mod.state_names))
    require(list(mod.shock_names) == sum((list(c.shock_names) for c in comps), []), "%s: shocks %s", label, mod.shock_names)
    r = sum(c.k_posdef for c in comps)
    require(mod.k_posdef == max(1, r) and len(mod.shock_names) == r, "%s: %d shocks, names %s", label, mod.k_posdef, mod.shock_names)


def total(specs, P, D, n):
    wy, wS = np.zeros(n), np.zeros((n, n))
    for k in specs:
        a, b = sm.law(k, P, D, n)
        wy, wS = wy + a, wS + b
    return wy, wS


def check_sum(case, ctx):
    specs, n = case["specs"], case["n"]
    comps = [sm.make(k) for k in specs]
    before = [snapshot(c) for c in comps]
    P, D, rng = draws(case)
    total_comp = assemble(comps, case["tree"])
    tsnap = snapshot(total_comp)
    kw = {} if case["name"] is None else {"name": case["name"]}
    mod = total_comp.build(verbose=False, **kw)
    label = "+".join(sm.full_name(k) for k in specs)
    require(mod.observed_states == [case["name"] or "data"] and list(mod.coords["observed_state"]) == [case["name"] or "data"], "%s: observed %s", label, mod.observed_states)
    if case["reuse"]:
        mod2 = total_comp.build(verbose=False, **kw)
        for a in ("param_names", "state_names", "shock_names", "data_names", "param_dims", "coords", "param_info", "data_info"):
            require(same(getattr(mod, a), getattr(mod2, a)), "%s: building twice gives %s %s and %s", label, a, getattr(mod, a), getattr(mod2, a))
        mod = mod2
        # other models are made from the same components
        keep = {a: copy.deepcopy(getattr(mod, a)) for a in ("param_names", "state_names", "param_dims", "coords", "param_info")}
        total_comp.build(verbose=False, name="other")
        for a, v in keep.items():
            require(same(getattr(mod, a), v), "%s: building another model changed %s of the first: %s instead of %s", label, a, getattr(mod, a), v)
        for c in comps[:2]:
            if c.k_states:
                c.build(verbose=False)
    for c, b in zip(comps, before):
        a = snapshot(c)
        for key in b:
            require(same(a[key], b[key]), "%s: component %s was altered by adding or building: %s is %s instead of %s", label, c.name, key, a[key], b[key])
    if len(comps) > 1:
        a = snapshot(total_comp)
        for key in tsnap:
            require(same(a[key], tsnap[key]), "%s: the sum was altered by building: %s is %s instead of %s", label, key, a[key], tsnap[key])
    check_names(mod, specs, comps, label)
    mats = sm.evaluate(sm.compile_ssm(mod), {**P, **D})
    close(mats["P0"], P["P0"], f"{label}: initial covariance")
    m = mod.k_states
    mats["P0"] = np.zeros((m, m))
    mean, cov = trajectory_law(mats, n - 1)
    wy, wS = total(specs, P, D, n)
    close(mean[n * m:], wy, f"mean of the sum {label}", rtol=1e-8, atol=1e-9 * (1 + np.abs(wy).max()))
    close(cov[n * m:, n * m:], wS, f"covariance of the sum {label}", rtol=1e-8, atol=1e-9 * (1 + np.abs(wS).max()))
    # every named state and shock sits on the row and column of its component
    i = j = 0
    for k, c in zip(specs, comps):
        if c.k_states == 0:
            continue
        one = sm.evaluate(sm.compile_ssm(c.build(verbose=False)), {**P, **D, "P0": np.eye(c.k_states)})
        s, q = slice(i, i + c.k_states), slice(j, j + c.k_posdef)
        for key, idx in (("a0", (s,)), ("T", (s, s)), ("Z", (slice(None), s)), ("c", (s,))) + ((("R", (s, q)), ("Q", (q, q))) if c.k_posdef else ()):
            got = np.asarray(mats[key])[(Ellipsis, *idx)]
            close(got, np.broadcast_to(one[key], got.shape), f"{label}: {key} of {c.name}", rtol=1e-10, atol=1e-12)
        i += c.k_states; j += c.k_posdef
    ctx.label(f"components={len(specs)}", *[k["kind"] for k in specs], "time-varying" if D else "static", "built twice" if case["reuse"] else "built once")
    ctx.nontriv(sum(sm.n_states(k) > 0 for k in specs) > 1)


def check_graph(case, ctx):
    specs, n = case["specs"], max(case["n"], 3)
    case = dict(case, n=n)
    P, D, rng = draws(case)
    mod = assemble([sm.make(k) for k in specs], case["tree"]).build(verbose=False)
    wy, wS = total(specs, P, D, n)
    mats = sm.evaluate(sm.compile_ssm(mod), {**P, **D})
    if not mod.measurement_error:
        mats["H"] = mats["H"] + 1e-8 * np.eye(1)
        wS = wS + 1e-8 * np.eye(n)
    y = wy + rng.normal(size=n)
    # the effect of an uncertain initial state, on the observation mean
    O, x = np.zeros((n, mod.k_states)), np.eye(mod.k_states)
    for t in range(n):
        O[t] = dense.at(mats["Z"], t, 2)[0] @ x
        x = mats["T"] @ x
    S = wS + O @ P["P0"] @ O.T
    lo = np.linalg.eigvalsh(S)[0]
    if lo < 1e-5:
        raise Reject("degenerate observation covariance")
    want = -0.5 * (n * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + (y - wy) @ np.linalg.solve(S, y - wy))
    frame = pd.DataFrame({"data": y}, index=pd.date_range("2020-01-01", periods=n, freq="D"))
    with pm.Model(coords=mod.coords) as model:
        for p in mod.param_names:
            dims = mod.param_dims.get(p)
            pm.Normal(p, dims=dims) if dims else pm.Normal(p)
        for d in mod.data_names:
            pm.Data(d, D[d])
        mod.build_statespace_graph(frame, mode="FAST_COMPILE")
    got = float(model.compile_fn(model.logp(model.observed_RVs, sum=True), mode="FAST_COMPILE", inputs=list(model.free_RVs and [model.rvs_to_values[v] for v in model.free_RVs]))(
        {v.name: P[v.name] for v in model.free_RVs}))
    close(got, want, f"log-likelihood of {'+'.join(sm.full_name(k) for k in specs)} with parameters assigned by name and dims", rtol=1e-5, atol=1e-5)
    ctx.label(f"components={len(specs)}", *[k["kind"] for k in specs])
    ctx.nontriv(len(specs) > 1)


@st.composite
def s_extract(draw):
    c = draw(s_sum())
    if draw(st.integers(0, 3)) == 0:  # one state: as many as observed series
        k = draw(sm.s_spec(draw(st.sampled_from(["trend", "ar", "season", "reg"])), 0, True))
        k.update(order=1, innov=k["kind"] != "reg" and 1 or 0, s=2, pop=True, k=1, states=False)
        c["specs"] = [k] + ([draw(sm.s_spec("me", 1))] if draw(st.booleans()) else [])
        c["tree"] = [0] * len(c["specs"])
    c["chains"] = draw(st.sampled_from([1, 2])); c["extra"] = draw(st.booleans()); c["draws"] = draw(st.integers(1, 3))
    return c


def check_extract(case, ctx):
    specs, n = case["specs"], case["n"]
    comps = [sm.make(k) for k in specs]
    mod = assemble(comps, case["tree"]).build(verbose=False)
    P, D, rng = draws(case)
    mats = sm.evaluate(sm.compile_ssm(mod), {**P, **D})
    m = mod.k_states
    shape = (case["chains"], case["draws"], n)
    X = rng.normal(size=shape + (m,))
    coords = dict(chain=np.arange(shape[0]), draw=np.arange(shape[1]), time=pd.date_range("2020-01-01", periods=n, freq="D"), state=list(mod.state_names))
    ds = xr.Dataset({"smoothed_posterior": xr.DataArray(X, coords=coords, dims=["chain", "draw", "time", "state"])})
    if case["extra"]:
        # what the sampling methods return next to the states
        ds["smoothed_posterior_observed"] = xr.DataArray(rng.normal(size=shape + (1,)), dims=["chain", "draw", "time", "observed_state"], coords=dict(observed_state=["data"]))
        ds["smoothed_covariance"] = xr.DataArray(rng.normal(size=shape + (m, m)), dims=["chain", "draw", "time", "state", "state_aux"])
        ds["filtered_posterior"] = xr.DataArray(X * 2, coords=coords, dims=["chain", "draw", "time", "state"])
    keep = ds.copy(deep=True)
    out = mod.extract_components_from_idata(ds)
    require(ds.identical(keep), "extraction altered its input")
    label = "+".join(sm.full_name(k) for k in specs)
    require(set(out.data_vars) == {"smoothed_posterior"} | ({"filtered_posterior"} if case["extra"] else set()), "%s: extracted variables %s", label, list(out.data_vars))
    names, vals, weights = [], [], []
    i = 0
    for k, c in zip(specs, comps):
        s = slice(i, i + c.k_states)
        Z = np.broadcast_to(dense.at(mats["Z"], 0, 2)[0] if mats["Z"].ndim == 2 else mats["Z"][:, 0], (n, m))[:, s]
        Xc = X[..., s]
        if k["kind"] in ("trend", "reg"):
            for j in range(c.k_states):
                names.append(f"{sm.full_name(k)}[{c.state_names[j]}]"); vals.append(Xc[..., j]); weights.append(Z[:, j])
        elif c.k_states:
            names.append(sm.full_name(k)); vals.append((Xc * Z).sum(-1)); weights.append(np.ones(n))
        i += c.k_states
    o = out["smoothed_posterior"]
    require(o.dims == ("chain", "draw", "time", "state"), "%s: extracted dims %s", label, o.dims)
    require(list(o.coords["state"].values) == names, "%s: extracted components %s instead of %s", label, list(o.coords["state"].values), names)
    require(o.coords["time"].equals(ds.coords["time"]), "%s: time coordinate changed", label)
    close(o.values, np.stack(vals, -1), f"{label}: extracted components", rtol=1e-10, atol=1e-12)
    Zt = np.broadcast_to(mats["Z"] if mats["Z"].ndim == 2 else mats["Z"], (n, 1, m))
    close(np.einsum("cdtk,tk->cdt", o.values, np.stack(weights, -1)), np.einsum("cdtm,tm->cdt", X, Zt[:, 0]), f"{label}: weighted contributions", rtol=1e-9, atol=1e-10)
    if case["extra"]:
        close(out["filtered_posterior"].values, 2 * o.values, f"{label}: second variable", rtol=1e-10, atol=1e-12)
    ctx.label(f"components={len(specs)}", *[k["kind"] for k in specs], f"states={min(m, 3)}")
    ctx.nontriv(len(names) > 1)


@st.composite
def s_dup(draw):
    kind = draw(st.sampled_from(["trend", "ar", "name"]))
    others = draw(s_specs(0, 2))
    if kind == "name":
        a = draw(sm.s_spec(draw(st.sampled_from(sm.KINDS)), 7)); b = draw(sm.s_spec(draw(st.sampled_from(sm.KINDS)), 8))
        a["name"] = b["name"] = "same"
    else:
        a = draw(sm.s_spec(kind, 7)); b = draw(sm.s_spec(kind, 8))
        a["name"], b["name"] = "first", "second"
    others = [k for k in others if not (kind != "name" and k["kind"] == kind) and not (kind == "name" and k["kind"] in ("trend", "ar"))]
    specs = [a] + others + [b]
    return dict(specs=specs, tree=draw(st.lists(st.integers(0, 3), min_size=len(specs), max_size=len(specs))), kind=kind)


def check_dup(case, ctx):
    comps = [sm.make(k) for k in case["specs"]]
    try:
        mod = assemble(comps, case["tree"]).build(verbose=False)
    except ValueError:
        ctx.label(case["kind"]); ctx.nontriv(True)
        return
    require(False, "components with clashing names were combined without an error: %s, parameters %s, states %s", [sm.full_name(k) for k in case["specs"]], mod.param_names, mod.state_names)


TASKS = [
    Task("sum", s_sum, check_sum, 70, 900, soft_s=(80, 1200), shards=(2, 3)),
    Task("graph", lambda: s_sum(1, 3), check_graph, 14, 150, soft_s=(80, 1200), shards=(2, 3)),
    Task("extract", s_extract, check_extract, 50, 600, soft_s=(60, 600), shards=(1, 2)),
    Task("duplicates", s_dup, check_dup, 40, 300, soft_s=(30, 300), shards=(1, 1)),
]
