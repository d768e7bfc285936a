"""C03: simulated state space trajectories against the exact joint Gaussian law."""
from functools import lru_cache

import numpy as np
import pymc as pm
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import gen, ssm
from harness.core import Task, require
from harness.dense import at
from harness.stat import check_white, white_rows
from pymc_extras.statespace.filters.distributions import LinearGaussianStateSpace, SequenceMvNormal

RULE = """A case is a batch of random systems (one per posterior draw, or one repeated), simulated by sample_unconditional_posterior /
sample_unconditional_prior, by the LinearGaussianStateSpace distribution, or a random sequence of Gaussians drawn by SequenceMvNormal. The whole
trajectory (all states and observations stacked) is whitened with its exact mean and covariance; means, variances, cross-correlations, extremes
and leaving the support are tested, each at p < 1e-10. Non-trivial: at least two steps and a non-zero intercept, several states or series, or
time-varying matrices."""
ASSUMPTIONS = ["without measurement error the model adds its documented jitter to H"]
SEQ = ["c", "d", "T", "Z", "R", "H", "Q"]


def trajectory_law(s, steps, append_x0=True, shift=0):
    """Mean and covariance of [x_0..x_n, y_0..y_n] (or without time 0)."""
    m = len(s["a0"]); p = at(s["d"], 0, 1).shape[0]
    n = steps + 1
    mx = np.zeros((n, m)); Sx = np.zeros((n * m, n * m))
    A = np.eye(m)
    mx[0] = s["a0"]; Sx[:m, :m] = s["P0"]
    for t in range(steps):
        T, R, Q, c = at(s["T"], t, 2), at(s["R"], t, 2), at(s["Q"], t, 2), at(s["c"], t, 1)
        mx[t + 1] = T @ mx[t] + c
        a, b = slice(t * m, (t + 1) * m), slice((t + 1) * m, (t + 2) * m)
        Sx[b, : (t + 1) * m] = T @ Sx[a, : (t + 1) * m]
        Sx[: (t + 1) * m, b] = Sx[b, : (t + 1) * m].T
        Sx[b, b] = T @ Sx[a, a] @ T.T + R @ Q @ R.T
    ZZ = np.zeros((n * p, n * m)); dd = np.zeros(n * p); HH = np.zeros((n * p, n * p))
    for t in range(n):
        k = t + shift
        ZZ[t * p:(t + 1) * p, t * m:(t + 1) * m] = at(s["Z"], k, 2); dd[t * p:(t + 1) * p] = at(s["d"], k, 1)
        HH[t * p:(t + 1) * p, t * p:(t + 1) * p] = at(s["H"], k, 2)
    my = ZZ @ mx.ravel() + dd
    S = np.block([[Sx, Sx @ ZZ.T], [ZZ @ Sx, ZZ @ Sx @ ZZ.T + HH]])
    mean = np.concatenate([mx.ravel(), my])
    if not append_x0:
        keep = np.concatenate([np.arange(m, n * m), n * m + np.arange(p, n * p)])
        mean, S = mean[keep], S[np.ix_(keep, keep)]
    return mean, S


def stack(x, y):
    return np.concatenate([x.reshape(len(x), -1), y.reshape(len(y), -1)], axis=1)


def systems(case):
    out = []
    for seed in case["raws"]:
        s = gen.build_lgss(dict(case, **gen.lgss_raw(seed, case["p"], case["m"], case["r"], case["n"], tuple(case["tv"]))))
        s["P0"], s["Q"], s["H"] = s["P0"] * case["scale"], s["Q"] * case["scale"], s["H"] * case["scale"]
        out.append(s)
    return out


def raw_systems(p, m, r, n, tv, k, hk):
    return st.lists(st.integers(0, 10**6), min_size=k, max_size=k)


CONFIGS = [(1, 1, 1, ()), (2, 2, 2, ()), (1, 3, 2, ()), (2, 3, 1, ()), (1, 2, 1, ("d", "Z")), (2, 2, 2, ("c", "H", "Q", "R", "T")), (1, 2, 2, ("T",))]


@st.composite
def s_model(draw):
    p, m, r, tv = draw(st.sampled_from(CONFIGS))
    n = draw(st.integers(2, 5))
    hk = draw(st.sampled_from(["dense", "diag", "zero"]))
    return dict(p=p, m=m, r=r, n=n, tv=list(tv), Hk=hk, raws=draw(raw_systems(p, m, r, n, tv, draw(st.sampled_from([1, 1, 3])), hk)),
                scale=draw(st.sampled_from([1.0, 1e-4])), reps=draw(st.sampled_from([150, 300])), group=draw(st.sampled_from(["posterior", "prior"])),
                how=draw(st.sampled_from(["steps", "time"])), chains=draw(st.sampled_from([1, 2])), seed=draw(st.integers(0, 10**6)))


@lru_cache(None)
def model(p, m, r, tv, n, me):
    mod = ssm.Generic(p, m, r, tv, n, measurement_error=me)
    ssm.model_for(mod, np.zeros((n, p)) + 0.5, mode="FAST_COMPILE")
    return mod


def check_model(case, ctx):
    p, m, r, n, tv = case["p"], case["m"], case["r"], case["n"], tuple(case["tv"])
    sys_ = systems(case)
    me = case["Hk"] != "zero" or "H" in tv
    mod = model(p, m, r, tv, n, me)
    reps = case["reps"] // len(sys_)
    order = [i for _ in range(reps) for i in range(len(sys_))]
    if case["chains"] == 2 and len(order) % 2:
        order = order[:-1]
    idata = ssm.idata_from([ssm.params(sys_[i]) for i in order], case["group"], case["chains"])
    # constant systems can be simulated for any number of steps; time-varying ones for the fitted times
    steps = n - 1
    kw = dict(use_data_time_dim=True) if case["how"] == "time" else dict(steps=steps)
    if case["how"] == "steps" and not tv:
        steps = kw["steps"] = n + 1
    fn = mod.sample_unconditional_posterior if case["group"] == "posterior" else mod.sample_unconditional_prior
    out = fn(idata, random_seed=case["seed"], progressbar=False, **kw)
    x = out[f"{case['group']}_latent"].values; y = out[f"{case['group']}_observed"].values
    require(x.shape[2:] == (steps + 1, m) and y.shape[2:] == (steps + 1, p), "trajectory shapes %s %s for %d steps", x.shape, y.shape, steps)
    x, y = x.reshape(-1, steps + 1, m), y.reshape(-1, steps + 1, p)
    rows = []
    for i, s in enumerate(sys_):
        if not me:
            s = dict(s, H=s["H"] + 1e-8 * np.eye(p))
        mean, S = trajectory_law(s, steps)
        sel = [j for j, o in enumerate(order) if o == i]
        rows.append((sel, white_rows(stack(x[sel], y[sel]), mean, S, "simulated trajectory", tol=1e-7)))
    if len({w.shape[1] for _, w in rows}) == 1:
        W = np.concatenate([w for _, w in rows])
        ctx.count(check_white(W, "simulated trajectory"))
    for _, w in rows:
        ctx.count(check_white(w, "simulated trajectory"))
    s = sys_[0]
    ctx.label("tv" if tv else "static", case["group"], f"H:{case['Hk']}", f"systems={len(sys_)}", f"scale={case['scale']}")
    ctx.nontriv(bool(np.any(s["c"]) or np.any(s["d"])) or m > 1 or p > 1 or bool(tv))


@st.composite
def s_dist(draw):
    p, m, r, tv = draw(st.sampled_from(CONFIGS))
    n = draw(st.integers(2, 5))
    hk = draw(st.sampled_from(["dense", "diag"]))
    return dict(p=p, m=m, r=r, n=n, tv=list(tv), Hk=hk, raws=draw(raw_systems(p, m, r, n, tv, 1, hk)), scale=draw(st.sampled_from([1.0, 1e-4])),
                append=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), reps=200)


def check_dist(case, ctx):
    s = systems(case)[0]
    m, n, p, tv = case["m"], case["n"], case["p"], tuple(case["tv"])
    # time-varying matrices: one per transition; with time 0 included the observation matrices also need time 0
    steps = n - 1
    a = {k: s[k] for k in ssm.NAMES}
    shift = 0
    if not case["append"] and tv:
        # without time 0 the caller provides matrices for the simulated times only
        steps = n
        s = dict(s)
        for k in ("d", "Z", "H"):
            if k in tv:
                s[k] = np.concatenate([s[k][:1], s[k]])
    with pm.Model():
        x, y = LinearGaussianStateSpace("sim", *[pt.as_tensor_variable(a[k], name=k) for k in ssm.NAMES], steps=steps,
                                        sequence_names=[k for k in SEQ if k in tv], append_x0=case["append"], k_endog=p)
    xs, ys = pm.draw([x, y], draws=case["reps"], random_seed=case["seed"], mode="FAST_COMPILE")
    k = steps + int(case["append"])
    require(xs.shape[1:] == (k, m) and ys.shape[1:] == (k, p), "shapes %s %s", xs.shape, ys.shape)
    mean, S = trajectory_law(s, steps, case["append"])
    W = white_rows(stack(xs, ys), mean, S, "LinearGaussianStateSpace draw", tol=1e-7)
    ctx.count(check_white(W, "LinearGaussianStateSpace draw"))
    ctx.label("append_x0" if case["append"] else "no_x0", "tv" if tv else "static")
    ctx.nontriv(bool(np.any(s["c"]) or np.any(s["d"])) or m > 1 or p > 1 or bool(tv))


@st.composite
def s_seq(draw):
    n, k, b = draw(st.integers(1, 5)), draw(st.integers(1, 3)), draw(st.sampled_from([0, 0, 2]))
    lead = (b,) if b else ()
    return dict(n=n, k=k, b=b, mu=draw(gen.arr(lead + (n, k), -4, 4)), L=draw(gen.arr(lead + (n, k, k), -1, 1)),
                ridge=draw(st.sampled_from([0.0, 0.125])), seed=draw(st.integers(0, 10**6)))


@lru_cache(None)
def seq_fn(n, k, b):
    import pytensor
    lead = (b,) if b else ()
    mu = pt.tensor(name="mus", dtype="float64", shape=lead + (n, k)); cov = pt.tensor(name="covs", dtype="float64", shape=lead + (n, k, k))
    lp = pt.tensor(name="lp", dtype="float64", shape=lead + (n,))
    rv = SequenceMvNormal.dist(mu, cov, lp)
    val = rv.clone()
    f = pm.compile_pymc([mu, cov, lp], rv, on_unused_input="ignore", mode="FAST_COMPILE", random_seed=1)
    logp = pm.logp(rv, val)
    return f, pytensor.function([val, mu, cov, lp], logp, on_unused_input="ignore", mode="FAST_COMPILE")


def check_seq(case, ctx):
    n, k, b = case["n"], case["k"], case["b"]
    mu, L = np.asarray(case["mu"], float), np.asarray(case["L"], float)
    S = L @ np.swapaxes(L, -1, -2) + case["ridge"] * np.eye(k)
    f, lpf = seq_fn(n, k, b)
    lp = np.arange(int(np.prod(mu.shape[:-1])), dtype=float).reshape(mu.shape[:-1]) * 0.5 - 1
    X = np.stack([f(mu, S, lp) for _ in range(120)])
    require(X.shape[1:] == mu.shape, "sequence draw has shape %s, expected %s", X.shape[1:], mu.shape)
    X, M, C = X.reshape(120, -1, k), mu.reshape(-1, k), S.reshape(-1, k, k)
    Ws = [white_rows(X[:, i], M[i], C[i], "sequence draw", tol=1e-7) for i in range(len(M))]
    ctx.count(check_white(np.concatenate(Ws, axis=1), "sequence draw"))
    if not b:
        got = np.asarray(lpf(mu, mu, S, lp))
        require(np.allclose(got, lp), "the log-density of the sequence is not the filter's: %s instead of %s", got, lp)
    ctx.label(f"batch={b}", f"k={k}")
    ctx.nontriv(n > 1 or k > 1)


TASKS = [Task("model", s_model, check_model, quick=48, thorough=1500, shards=(4, 4)), Task("dist", s_dist, check_dist, quick=40, thorough=1500, shards=(3, 4)),
         Task("sequence", s_seq, check_seq, quick=60, thorough=2000)]
