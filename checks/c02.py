"""C02: smoother against the dense joint posterior, fed with exact filtered moments and through a whole model."""
from functools import lru_cache

import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import gen, ssm
from harness.core import Reject, Task, close
from harness.dense import at, solve_all
from pymc_extras.statespace.filters import KalmanSmoother

RULE = """A case is a random system and data set with a missing pattern. ``graph``: the smoother graph is fed with exact filtered moments.
``model``: a PyMCStateSpace whose nine matrices are parameters is built with build_statespace_graph(save_kalman_filter_outputs_in_idata=True), and
all registered outputs plus the model log-density are compared. Non-trivial: at least three steps and (a missing entry, an intercept, a
time-varying matrix or several series)."""
ASSUMPTIONS = ["predictive and predicted-state covariances have condition number < 1e7 (1e4 when the jitter is not zero)",
               "cholesky filter: positive definite H and Q; univariate filter: diagonal H"]
ORDER = ["c", "d", "T", "Z", "R", "H", "Q"]
CONFIGS = [(1, 1, 1, ()), (1, 2, 2, ()), (2, 3, 2, ()), (2, 2, 2, ()), (1, 3, 1, ()), (2, 2, 2, ("T", "R", "Q")), (1, 2, 2, ("c", "T")),
           (2, 2, 1, ("R", "c")), (1, 2, 2, ("Q",))]


@lru_cache(None)
def smoother(m, r, tv, jitter):
    shp = dict(c=(m,), T=(m, m), R=(m, r), Q=(r, r))
    v = {k: pt.tensor(name=k, dtype="float64", shape=((None,) + s) if k in tv else s) for k, s in shp.items()}
    a = pt.tensor(name="fs", dtype="float64", shape=(None, m))
    P = pt.tensor(name="fc", dtype="float64", shape=(None, m, m))
    out = KalmanSmoother().build_graph(v["T"], v["R"], v["Q"], a, P, cov_jitter=jitter, c=v["c"])
    return pytensor.function([a, P] + [v[k] for k in ("c", "T", "R", "Q")], out, mode="FAST_COMPILE", on_unused_input="ignore")


def missing(draw, n, p):
    kind = draw(st.sampled_from(["none", "some", "rows"]))
    if kind == "none":
        return np.zeros((n, p), int).tolist()
    if kind == "some":
        return draw(st.lists(st.lists(st.sampled_from([0, 0, 1]), min_size=p, max_size=p), min_size=n, max_size=n))
    return [[k] * p for k in draw(st.lists(st.sampled_from([0, 1]), min_size=n, max_size=n))]


@st.composite
def strategy(draw):
    p, m, r, tv = draw(st.sampled_from(CONFIGS))
    n = draw(st.integers(2, 7))
    case = draw(gen.lgss(p, m, r, n, tv, H0=draw(st.sampled_from(["dense", "diag"]))))
    case["y"] = draw(gen.arr((n, p), -4, 4))
    case["miss"] = missing(draw, n, p)
    case["jit"] = draw(st.sampled_from([0, 1]))
    return case


def smoother_cond(s, want):
    """Conditioning of the predicted covariances the smoother gain inverts."""
    w = np.linalg.eigvalsh(want["predc"][1:])
    amp, worst = 1.0, 1.0
    for t in range(len(want["filt"]) - 2, -1, -1):  # how far the gains amplify an error made at a later step
        J = want["filtc"][t] @ at(s["T"], t, 2).T @ np.linalg.pinv(want["predc"][t + 1])
        amp = 1.0 + amp * np.linalg.norm(J, 2) ** 2
        worst = max(worst, amp)
    return max(float((w[:, -1] / np.maximum(w[:, 0], 1e-300)).max()), worst)


def mark(case, ctx, s, miss):
    ctx.label("tv" if case["tv"] else "static", "missing" if (miss > 0).any() else "complete", f"m={case['m']}",
              "intercept" if np.any(s["c"]) else "no-intercept")
    ctx.nontriv(case["n"] >= 3 and (case["p"] > 1 or bool((miss > 0).any()) or bool(np.any(s["c"])) or bool(case["tv"])))


def check_graph(case, ctx):
    s = gen.build_lgss(case)
    miss = np.asarray(case["miss"])
    want = solve_all(s, np.where(miss > 0, np.nan, np.asarray(case["y"], float)))
    cond = max(smoother_cond(s, want), want["cond"])
    if cond > (1e6 if case["jit"] == 0 else 1e4):
        raise Reject
    f = smoother(case["m"], case["r"], tuple(case["tv"]), 0.0 if case["jit"] == 0 else 1e-9)
    sm, sc = f(want["filt"], want["filtc"], *[s[k] for k in ("c", "T", "R", "Q")])
    mark(case, ctx, s, miss)
    ctx.count(want["smoothc"].size)
    scale = max(1.0, np.abs(want["smooth"]).max(), np.abs(want["predc"]).max())
    rt = 1e-6 if case["jit"] == 0 else 2e-5
    close(sm, want["smooth"], "smoothed state", rtol=rt, atol=rt * scale)
    close(sc, want["smoothc"], "smoothed covariance", rtol=rt, atol=rt * scale)


MODELS = [(1, 1, 1, (), "standard"), (2, 2, 2, (), "standard"), (2, 2, 2, (), "cholesky"), (2, 3, 2, (), "univariate"),
          (1, 2, 2, ("T", "c", "d"), "standard"), (2, 2, 2, ("Z", "R"), "standard"), (1, 3, 2, (), "cholesky")]
NM = 6
OUT = dict(filtered_state="filt", predicted_state="pred", smoothed_state="smooth", filtered_covariance="filtc",
           predicted_covariance="predc", smoothed_covariance="smoothc", predicted_observed_state="yhat", predicted_observed_covariance="F")


@lru_cache(None)
def compiled(p, m, r, tv, kind, jitter, fill, coords):
    mod = ssm.Generic(p, m, r, tv, NM, filter_type=kind)
    y0 = np.zeros((NM, p)) + 0.5
    M = ssm.model_for(mod, y0, coords=coords, save_kalman_filter_outputs_in_idata=True, mode="FAST_COMPILE", cov_jitter=jitter,
                      missing_fill_value=fill)
    names = list(OUT)
    lp = M.logp(vars=[M["obs"]])
    outs = [M[k] for k in names] + [lp]
    outs = M.replace_rvs_by_values(outs)
    ins = [M.rvs_to_values[M[n]] for n in mod.param_names]
    f = pytensor.function(ins, outs, mode="FAST_COMPILE", on_unused_input="ignore")
    return M, names, f


@st.composite
def strategy_model(draw):
    p, m, r, tv, kind = draw(st.sampled_from(MODELS))
    hk = "diag" if kind == "univariate" else draw(st.sampled_from(["dense", "diag"]))
    case = draw(gen.lgss(p, m, r, NM, tv, H0=hk))
    case["y"] = draw(gen.arr((NM, p), -4, 4))
    case["miss"] = missing(draw, NM, p)
    case.update(kind=kind, jit=draw(st.sampled_from([0, 1])), coords=draw(st.booleans()))
    return case


def check_model(case, ctx):
    s = gen.build_lgss(case)
    miss = np.asarray(case["miss"])
    y = np.asarray(case["y"], float)
    fill = [-9999.0, 77.0][case["jit"]]
    want = solve_all(s, np.where(miss > 0, np.nan, y))
    if max(smoother_cond(s, want), want["cond"]) > 1e4:
        raise Reject
    M, names, f = compiled(case["p"], case["m"], case["r"], tuple(case["tv"]), case["kind"], [1e-10, 1e-9][case["jit"]], fill, case["coords"])
    M["data"].set_value(np.where(miss > 0, fill, y))
    got = f(*[ssm.params(s)[ssm.PAR[k]] for k in ssm.NAMES])
    mark(case, ctx, s, miss)
    ctx.label(case["kind"])
    scale = max(1.0, np.abs(want["smooth"]).max(), np.abs(want["predc"]).max())
    for name, g in zip(names, got):
        w = want[OUT[name]]
        ctx.count(w.size)
        close(g, w, f"{case['kind']} {name}", rtol=2e-5, atol=2e-5 * scale)
    close(got[-1], want["ll"].sum(), f"{case['kind']} model log-density of the data", rtol=2e-5, atol=2e-5)


TASKS = [Task("graph", strategy, check_graph, quick=400, thorough=12000, shards=(2, 4)),
         Task("model", strategy_model, check_model, quick=120, thorough=5000, shards=(4, 4))]
