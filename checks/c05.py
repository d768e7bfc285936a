"""C05: forecasts against exact propagation of the state at the origin, and their labels against plain calendar arithmetic."""
import numpy as np
import pandas as pd
import pymc as pm
from hypothesis import strategies as st

from checks.c02 import missing, smoother_cond
from checks.c03 import raw_systems, stack, systems, trajectory_law
from harness import gen, ssm
from harness.core import Reject, Task, Violation, require
from harness.dense import solve_all
from harness.stat import check_white, psd_factor, white_rows

RULE = """``law``: a data set (range, daily, weekly, monthly, quarterly, hourly ... index, with or without missing entries), an origin given as default, negative or
positive position, label or timestamp, and a horizon given as periods or end; every forecast path (latent and observed jointly) of every posterior draw is
whitened with the exact mean and covariance obtained from that draw's filtered/predicted/smoothed state at the origin, and the time labels are compared
with calendar arithmetic. ``exog``: the same with a regression on exogenous data, the scenario given as permuted data frame, array, list, series or
dict. ``index``: labels only, over many index types. Non-trivial: horizon of two or more and an origin inside the data, a permuted scenario, or
several different posterior draws."""
ASSUMPTIONS = ["data indexes whose frequency pandas can infer from the labels", "for integer indexes end is exclusive, for dates inclusive (pinned by the repository's tests)",
               "static systems except for the regression on exogenous data", "systems with condition number < 1e4"]
FREQS = ["D", "W", "MS", "ME", "QS", "YS", "h", "2D", "15min", "QE", "YS-JUL", "W-WED"]


def t_index(case):
    if case["index"] == "range":
        return np.arange(case["n"])
    return pd.date_range("2020-02-28 03:00" if case["index"] in ("h", "15min") else "2020-02-28", periods=case["n"], freq=case["index"])


def s_origin(draw, n):
    how = draw(st.sampled_from(["none", "neg", "pos", "label"]))
    pos = n - 1 if how == "none" else draw(st.integers(0, n - 1))
    return how, pos


def call_args(case):
    """kwargs of forecast, origin position, expected labels."""
    idx, n, pos, h = t_index(case), case["n"], case["pos"], case["h"]
    dt = isinstance(idx, pd.DatetimeIndex)
    kw = {}
    if case["how"] == "neg":
        kw["start"] = pos - n
    elif case["how"] == "pos":
        kw["start"] = pos
    elif case["how"] == "label":
        kw["start"] = idx[pos] if dt else int(idx[pos])
    if dt:
        want = [idx[pos] + k * idx.freq for k in range(1, h + 1)]
    else:
        want = [int(idx[pos]) + k for k in range(1, h + 1)]
    if case["end"]:
        kw["end"] = want[-1] if dt else want[-1] + 1
    else:
        kw["periods"] = h
    return kw, want


def check_labels(got, want, dt):
    got = list(pd.DatetimeIndex(got)) if dt else [int(v) for v in np.asarray(got)]
    require(got == want, "forecast labels are %s, expected %s", got[:4] + got[-1:], want[:4] + want[-1:])


def pooled_white(paths, laws, what):
    """paths (S, k) and one (mean, cov) per row: whiten jointly and test."""
    W = [white_rows(x[None], mu, S, what)[0] for x, (mu, S) in zip(paths, laws)]
    ranks = {len(w) for w in W}
    k = max(ranks)
    A = np.array([w for w in W if len(w) == k])
    n = check_white(A, what)
    return n + check_white(A.reshape(-1, 1), what + " (all coordinates)")


@st.composite
def s_law(draw):
    p, m, r, kind = draw(st.sampled_from([(1, 1, 1, "standard"), (2, 2, 2, "standard"), (1, 3, 2, "univariate"), (2, 2, 1, "cholesky")]))
    n = draw(st.integers(4, 7))
    k = draw(st.sampled_from([1, 3]))
    how, pos = s_origin(draw, n)
    wide = draw(st.booleans())  # an uncertain start: the covariance at an early origin differs from that of the other dates by a large factor
    if wide and how != "none":
        pos = draw(st.integers(0, 1))
    return dict(p0=100.0 if wide else 1.0, p=p, m=m, r=r, n=n, tv=[], kind=kind, Hk="diag" if kind == "univariate" else draw(st.sampled_from(["dense", "diag"])), raws=draw(raw_systems(p, m, r, n, (), k, 0)),
                scale=draw(st.sampled_from([1.0, 1e-3])), y=draw(gen.arr((n, p), -4, 4)), miss=missing(draw, n, p), index=draw(st.sampled_from(["range"] + FREQS)),
                how=how, pos=pos, h=draw(st.integers(1, 5)), end=draw(st.booleans()), out=draw(st.sampled_from(["smoothed", "filtered", "predicted"])),
                chains=draw(st.sampled_from([1, 2])), order=draw(st.lists(st.integers(0, k - 1), min_size=48, max_size=48)), seed=draw(st.integers(0, 10**6)),
                verbose=draw(st.booleans()))


OUT = dict(smoothed="smooth", filtered="filt", predicted="pred")


def check_law(case, ctx):
    p, m, r, n = case["p"], case["m"], case["r"], case["n"]
    miss = np.asarray(case["miss"])
    y = np.where(miss > 0, np.nan, np.asarray(case["y"], float))
    ok = []
    for s in systems(case):
        s = dict(s, P0=np.asarray(s["P0"]) * case["p0"])
        try:
            w = solve_all(s, y)
        except Reject:
            continue
        if max(smoother_cond(s, w), w["cond"]) < 1e4 and min(np.linalg.eigvalsh(w[k])[:, 0].min() for k in ("filtc", "predc", "smoothc")) > 1e-5:
            ok.append((s, w))
    if not ok:
        raise Reject
    mod = ssm.Generic(p, m, r, (), n, filter_type=case["kind"])
    idx = t_index(case)
    dt = isinstance(idx, pd.DatetimeIndex)
    data = pd.DataFrame(y, index=idx, columns=mod.observed_states) if dt else y
    ssm.model_for(mod, data, mode="FAST_COMPILE")
    order = [i % len(ok) for i in case["order"]]
    idata = ssm.idata_from([ssm.params(ok[i][0]) for i in order], "posterior", case["chains"])
    kw, want = call_args(case)
    out = mod.forecast(idata, filter_output=case["out"], random_seed=case["seed"], verbose=case["verbose"], progressbar=False, **kw)
    check_labels(out.coords["time"].values, want, dt)
    h = case["h"]
    x = out["forecast_latent"].values
    yy = out["forecast_observed"].values
    require(x.shape[2:] == (h, m) and yy.shape[2:] == (h, p), "forecast shapes %s %s", x.shape, yy.shape)
    paths = stack(x.reshape(-1, h, m), yy.reshape(-1, h, p))
    laws = {}
    for i in set(order):
        s, w = ok[i]
        q = OUT[case["out"]]
        laws[i] = trajectory_law(dict(s, a0=w[q][case["pos"]], P0=w[q + "c"][case["pos"]]), h, append_x0=False)
    ctx.count(pooled_white(paths, [laws[i] for i in order], "forecast paths"))
    require(list(out.coords["state"].values) == mod.state_names and list(out.coords["observed_state"].values) == mod.observed_states, "forecast labels")
    ctx.label(case["kind"], case["out"], case["how"], "wide" if case["p0"] > 1 else "narrow", "dates" if dt else "range", "end" if case["end"] else "periods")
    ctx.nontriv(h > 1 and (case["pos"] < n - 1 or len(set(order)) > 1))


@st.composite
def s_exog(draw):
    n = draw(st.integers(4, 6))
    k = draw(st.integers(1, 3))
    how, pos = s_origin(draw, n)
    h = draw(st.integers(1, 4))
    box = draw(st.sampled_from(["frame", "frame", "frame", "array", "list", "series"] if k == 1 else ["frame", "frame", "frame", "array"]))
    return dict(n=n, k=k, order=draw(st.sampled_from([1, 2])), innov=draw(st.booleans()), raw=draw(st.integers(0, 10**6)), index=draw(st.sampled_from(["range"] + FREQS)),
                how=how, pos=pos, h=h, end=draw(st.booleans()), X=draw(gen.arr((n, k), -2, 2)), F=draw(gen.arr((h, k), -2, 2)), box=box,
                perm=draw(st.permutations(list(range(k)))), asdict=draw(st.booleans()), ints=draw(st.booleans()), sidx=draw(st.integers(0, 2)) == 0 and box in ("frame", "series"),
                labelled=draw(st.booleans()), y=draw(gen.arr((n, 1), -4, 4)), out=draw(st.sampled_from(["smoothed", "filtered", "predicted"])), seed=draw(st.integers(0, 10**6)),
                verbose=draw(st.booleans()), dims=draw(st.booleans()), twice=draw(st.booleans()))


def check_exog(case, ctx):
    from pymc_extras.statespace import structural as S
    n, k, h = case["n"], case["k"], case["h"]
    names = [f"x{i}" for i in range(k)]
    o = case["order"]
    comp = S.LevelTrendComponent(order=o, innovations_order=1) + S.RegressionComponent(name="exog", state_names=names, innovations=case["innov"]) + S.MeasurementError()
    mod = comp.build(verbose=False)
    m = o + k
    rng = np.random.default_rng(case["raw"])
    L = rng.integers(-4, 5, size=(m, m)) / 8
    par = dict(initial_trend=rng.integers(-8, 9, size=o) / 4, beta_exog=rng.integers(-8, 9, size=k) / 4, P0=(L @ L.T + 0.25 * np.eye(m)), sigma_trend=np.array([0.5]),
               sigma_MeasurementError=np.array(0.25))
    if case["innov"]:
        par["sigma_beta_exog"] = np.arange(1, k + 1) / 4
    X = np.asarray(case["X"], float); F = np.asarray(case["F"], float)
    idx = t_index(case)
    dt = isinstance(idx, pd.DatetimeIndex)
    y = np.asarray(case["y"], float)
    data = pd.DataFrame(y, index=idx, columns=["data"]) if dt else y
    coords = dict(mod.coords, time=idx) if case["dims"] else mod.coords
    with pm.Model(coords=coords):
        pm.Data("data_exog", X, dims=("time", "exog_state") if case["dims"] else None)
        for name in mod.param_names:
            if name in par:
                pm.Flat(name, shape=par[name].shape)
            else:
                raise Violation(f"unexpected parameter {name}")
        mod.build_statespace_graph(data, mode="FAST_COMPILE")
    T = np.eye(m)
    if o == 2:
        T[0, 1] = 1
    nr = 1 + (k if case["innov"] else 0)
    R = np.zeros((m, nr)); R[0, 0] = 1
    if case["innov"]:
        R[o:, 1:] = np.eye(k)
    Q = np.diag(np.concatenate([par["sigma_trend"] ** 2, par["sigma_beta_exog"] ** 2 if case["innov"] else []]))

    def system(A):
        Z = np.zeros((len(A), 1, m)); Z[:, 0, 0] = 1; Z[:, 0, o:] = A
        return dict(a0=np.concatenate([par["initial_trend"], par["beta_exog"]]), P0=par["P0"], c=np.zeros(m), d=np.zeros(1), T=T, Z=Z, R=R, H=np.array([[0.0625]]), Q=Q)
    w = solve_all(system(X), y)
    kw, want = call_args(case)
    q = OUT[case["out"]]
    mu0, P0 = w[q][case["pos"]], w[q + "c"][case["pos"]]
    if np.linalg.eigvalsh(P0).min() < 1e-6:
        raise Reject
    V = F.round() if case["ints"] else F
    if case["box"] == "frame":
        sc = pd.DataFrame(V[:, case["perm"]], columns=[names[i] for i in case["perm"]])
    elif case["box"] == "array":
        sc = V.copy()
    elif case["box"] == "list":
        sc = V[:, 0].tolist()
    else:
        sc = pd.Series(V[:, 0])
    if case["ints"] and case["box"] != "list":
        sc = sc.astype(int)
    if case["box"] in ("frame", "series") and (case["sidx"] or case["labelled"]):
        sc.index = pd.DatetimeIndex(want, freq=idx.freq) if dt else pd.RangeIndex(want[0], want[0] + h)
        require(list(sc.index) == want, "harness labels")
    if case["sidx"]:
        kw = dict(periods=h, use_scenario_index=True, **({"start": kw["start"]} if "start" in kw else {}))
    given = {"data_exog": sc} if case["asdict"] else sc
    before = sc.copy() if hasattr(sc, "copy") else list(sc)
    draws = 60
    idata = ssm.idata_from([par] * draws)
    for rep in range(1 + case["twice"]):
        out = mod.forecast(idata, scenario=given, filter_output=case["out"], random_seed=case["seed"] + rep, verbose=case["verbose"], progressbar=False, **kw)
        check_labels(out.coords["time"].values, want, dt)
        x, yy = out["forecast_latent"].values, out["forecast_observed"].values
        require(x.shape[2:] == (h, m) and yy.shape[2:] == (h, 1), "forecast shapes %s %s", x.shape, yy.shape)
        mean, cov = trajectory_law(dict(system(np.vstack([F[:1] * 0, V])), a0=mu0, P0=P0), h, append_x0=False)
        A = white_rows(stack(x.reshape(-1, h, m), yy.reshape(-1, h, 1)), mean, cov, "forecast paths")
        ctx.count(check_white(A, "forecast paths") + check_white(A.reshape(-1, 1), "forecast paths (all coordinates)"))
        same = np.array_equal(np.asarray(sc), np.asarray(before))  # the labels are overwritten in place, which the repository's tests rely on
        require(same, "forecasting changed the scenario values the caller passed in")
        if case["asdict"]:
            require(given["data_exog"] is sc, "forecasting replaced an entry of the caller's scenario dict")
    ctx.label(case["box"], case["out"], "dates" if dt else "range", "scenario index" if case["sidx"] else case["how"], "int" if case["ints"] else "float")
    ctx.nontriv(case["perm"] != sorted(case["perm"]) or h > 1)


@st.composite
def s_index(draw):
    n = draw(st.integers(4, 40))
    how, pos = s_origin(draw, n)
    return dict(n=n, index=draw(st.sampled_from(["range"] + FREQS)), how=how if how != "none" else "label", pos=pos, h=draw(st.integers(1, 60)), end=draw(st.booleans()),
                sidx=draw(st.integers(0, 3)) == 0, bad=draw(st.integers(0, 4)))


def check_index(case, ctx):
    idx = t_index(case)
    dt = isinstance(idx, pd.DatetimeIndex)
    cls = ssm.PyMCStateSpace
    kw, want = call_args(case)
    if case["bad"] == 0:  # an origin outside the data must be refused
        start = idx[-1] + 3 * idx.freq if dt else case["n"] + 3
        try:
            cls._validate_forecast_args(time_index=idx, start=start, periods=case["h"])
            cls._build_forecast_index(time_index=idx, start=start, periods=case["h"])
        except ValueError:
            ctx.label("refused")
            return
        raise Violation(f"origin {start} outside the data was accepted")
    if case["sidx"]:
        ind = pd.DatetimeIndex(want, freq=idx.freq) if dt else pd.RangeIndex(want[0], want[-1] + 1)
        kw = dict(use_scenario_index=True, scenario=pd.DataFrame({"a": np.zeros(len(want))}, index=ind))
    else:
        cls._validate_forecast_args(time_index=idx, **kw)
    t0, fi = cls._build_forecast_index(time_index=idx, **kw)
    require(t0 == idx[case["pos"]], "origin %s, expected %s", t0, idx[case["pos"]])
    check_labels(fi, want, dt)
    ctx.label(case["index"], case["how"])
    ctx.nontriv(case["pos"] < case["n"] - 1)


TASKS = [Task("law", s_law, check_law, quick=14, thorough=600, shards=(7, 7)), Task("exog", s_exog, check_exog, quick=14, thorough=500, shards=(7, 7)),
         Task("index", s_index, check_index, quick=400, thorough=8000)]
