"""C10: what a single structural component generates, against its documented recursion."""
import json
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from checks.c03 import trajectory_law
from harness import structm as sm
from harness.core import Task, close, require

RULE = """A case is one structural component (level/trend of order 1-5 with every innovation pattern, AR with missing lags, time seasonality with or without the dropped
state, frequency seasonality with fractional periods, cycle with estimated length and damping, regression with random walk coefficients, measurement
error), random parameter and regressor values and a length. The built model's matrices are evaluated and turned into the mean and covariance
of the observed path, which must equal those of an independent implementation of the documented recursion driven by unit shocks; seasonal paths must also
repeat and sum to zero. Non-trivial: at least 4 steps and a non-constant path or an innovation."""
ASSUMPTIONS = ["order three and higher: every derivative is added to all lower ones, as the repository's tests and transition matrix have it",
               "orders given as lists contain ones only (lists with zeros name fewer states than the model has)",
               "the initial state is known (P0 = 0); that P0 is passed through is checked separately"]


@st.composite
def s_case(draw, kinds):
    k = draw(sm.s_spec(draw(st.sampled_from(kinds))))
    return dict(spec=k, n=draw(st.integers(2, 14)), seed=draw(st.integers(0, 10**6)))


@lru_cache(64)
def built(js):
    k = json.loads(js)
    comp = sm.make(k)
    mod = comp.build(verbose=False)
    return mod, sm.compile_ssm(mod)


def check(case, ctx):
    k, n = case["spec"], case["n"]
    mod, comp = built(json.dumps(k, sort_keys=True))
    m = sm.n_states(k)
    require(mod.k_states == m, "%s has %s states instead of %s", k, mod.k_states, m)
    rng = np.random.default_rng(case["seed"])
    P = sm.draw_params(k, rng)
    want = {p: s for p, (s, _, _) in sm.param_shapes(k).items()}
    have = {p: v.type.shape for p, v in mod._name_to_variable.items() if p != "P0"}
    require(set(want) == set(have), "parameters of %s: %s instead of %s", k, sorted(have), sorted(want))
    for p in want:
        require(tuple(have[p]) == tuple(want[p]), "parameter %s of %s has shape %s instead of %s", p, k, have[p], want[p])
    D = sm.draw_data(k, n, rng)
    require(set(D) == set(mod._name_to_data), "data of %s: %s", k, sorted(mod._name_to_data))
    L = rng.normal(size=(m, m)); P0 = L @ L.T
    mats = sm.evaluate(comp, {**P, **D, "P0": P0})
    close(mats["P0"], P0, "initial covariance")
    if m == 0:
        close(mats["H"].reshape(1, 1), np.array([[P[f"sigma_{sm.full_name(k)}"] ** 2]]), "measurement error variance")
        ctx.nontriv(True)
        return
    mats["P0"] = np.zeros((m, m))
    mean, cov = trajectory_law(mats, n - 1)
    y, Sy = mean[n * m:], cov[n * m:, n * m:]
    wy, wS = sm.law(k, P, D, n)
    sc = 1 + np.abs(wy).max()
    close(y, wy, f"noise-free path of {k}", rtol=1e-8, atol=1e-9 * sc)
    close(Sy, wS, f"covariance of the path of {k}", rtol=1e-8, atol=1e-9 * (1 + np.abs(wS).max()))
    if k["kind"] in ("season", "freq") and float(k["s"]).is_integer():
        s = int(k["s"])
        my = trajectory_law(mats, 2 * s)[0][(2 * s + 1) * m:]
        close(my[s:2 * s], my[:s], f"the noise-free seasonal pattern of {k} does not repeat", rtol=1e-7, atol=1e-8 * sc)
        close(my[:s].sum(), 0.0, f"the noise-free seasonal pattern of {k} does not sum to zero", rtol=0, atol=1e-8 * sc * s)
    if mod.k_posdef > 1 or sm.n_shocks(k):
        require(len(mod.shock_names) == mod.k_posdef, "%s has %d shock names for %d shocks", k, len(mod.shock_names), mod.k_posdef)
    ctx.label(k["kind"], "noise" if sm.n_shocks(k) else "noise-free", "default name" if k["name"] is None else "named")
    ctx.nontriv(n >= 4 and (sm.n_shocks(k) > 0 or np.ptp(wy) > 0))


TASKS = [
    Task("trend-ar", lambda: s_case(["trend", "ar"]), check, 160, 1500, soft_s=(60, 600), shards=(1, 2)),
    Task("season", lambda: s_case(["season"]), check, 100, 1000, soft_s=(60, 600), shards=(1, 2)),
    Task("freq-cycle", lambda: s_case(["freq", "cycle"]), check, 140, 1500, soft_s=(60, 600), shards=(1, 2)),
    Task("reg-me", lambda: s_case(["reg", "reg", "me"]), check, 80, 600, soft_s=(60, 600), shards=(1, 2)),
]
