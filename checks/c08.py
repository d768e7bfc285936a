"""C08: the log-density of a built model against prior densities plus the exact Gaussian likelihood, for any declaration order."""
import numpy as np
import pandas as pd
import pymc as pm
import pytensor.tensor as pt
from hypothesis import strategies as st
from scipy import stats

from checks.c02 import missing
from harness import gen, ssm
from harness.core import Reject, Task, Violation, close, require
from harness.dense import solve_all

RULE = """``generic``: a model whose nine matrices are parameters of easily confused shapes; priors of several kinds (normal, deterministic functions of other
variables, data, constants) are declared in a random order among unrelated variables, potentials and deterministics with similar names, at random
parameter values; the model log-density must equal prior terms plus the exact likelihood. ``components``: level/trend + autoregression + one or two regressions + measurement error, with
priors and data in random order. ``missing``: leaving out parameters or data must raise an error naming each of them. Non-trivial: an order
other than the canonical one, or extra variables."""
ASSUMPTIONS = ["systems with condition number < 1e6"]


@st.composite
def s_generic(draw):
    p, m, r = draw(st.sampled_from([(1, 1, 1), (2, 2, 2), (2, 2, 2), (1, 2, 2), (2, 3, 2)]))
    n = draw(st.integers(2, 5))
    case = draw(gen.lgss(p, m, r, n, (), H0="dense"))
    case["y"] = draw(gen.arr((n, p), -4, 4)); case["miss"] = missing(draw, n, p)
    case["perm"] = draw(st.permutations(list(range(9))))
    case["kinds"] = draw(st.lists(st.sampled_from(["normal", "det", "data", "const"]), min_size=9, max_size=9))
    case["extra"] = draw(st.lists(st.sampled_from(["rv", "potential", "det", "data", "like_matrix", "rv_before"]), max_size=3, unique=True))
    case["frame"] = draw(st.booleans())
    case["kf"] = draw(st.sampled_from(["standard", "standard", "cholesky"]))
    return case


def check_generic(case, ctx):
    p, m, r, n = case["p"], case["m"], case["r"], case["n"]
    s = gen.build_lgss(case)
    miss = np.asarray(case["miss"])
    y = np.where(miss > 0, np.nan, np.asarray(case["y"], float))
    w = solve_all(s, y)
    if w["cond"] > 1e6:
        raise Reject
    mod = ssm.Generic(p, m, r, (), n, filter_type=case["kf"])
    vals = ssm.params(s)
    point, prior = {}, 0.0
    with pm.Model(coords=mod.coords) as model:
        if "rv_before" in case["extra"]:
            pm.Normal("aaa", 0, 1, shape=(m, m)); point["aaa"] = np.full((m, m), 0.25); prior += stats.norm.logpdf(point["aaa"]).sum()
        for i in case["perm"]:
            name = mod.param_names[i]
            v = vals[name]
            kind = case["kinds"][i]
            if kind == "normal":
                pm.Normal(name, 0.5, 2.0, shape=v.shape)
                point[name] = v; prior += stats.norm.logpdf(v, 0.5, 2.0).sum()
            elif kind == "det":
                half = pm.Laplace(f"raw_{name}", 0, 1, shape=v.shape)
                pm.Deterministic(name, 2 * half + 1)
                point[f"raw_{name}"] = (v - 1) / 2; prior += stats.laplace.logpdf((v - 1) / 2).sum()
            elif kind == "data":
                pm.Data(name, v)
            else:
                pm.Deterministic(name, pt.as_tensor_variable(v))
        if "rv" in case["extra"]:
            pm.Exponential("zzz", 1.0, shape=(2,), transform=None); point["zzz"] = np.array([0.5, 1.5]); prior += -2.0
        if "potential" in case["extra"]:
            pm.Potential("pot", pt.as_tensor_variable(np.array(-1.25))); prior += -1.25
        if "det" in case["extra"]:
            pm.Deterministic("par", pt.eye(m))
        if "data" in case["extra"]:
            pm.Data("par_X", np.ones((m, m)))
        if "like_matrix" in case["extra"]:
            pm.Normal("transition", 3, 1, shape=(m, m)); point["transition"] = np.full((m, m), 2.5); prior += stats.norm.logpdf(2.5, 3, 1) * m * m
        data = pd.DataFrame(y, columns=mod.observed_states, index=pd.date_range("2020-01-01", periods=n, freq="D")) if case["frame"] else y
        mod.build_statespace_graph(data, mode="FAST_COMPILE")
    require({v.name for v in model.value_vars} == set(point), "free variables of the model are %s", [v.name for v in model.value_vars])
    got = float(model.compile_fn(model.logp(jacobian=False), inputs=model.value_vars, mode="FAST_COMPILE")(point))
    ll = w["ll"] if np.isscalar(w["ll"]) else np.sum(w["ll"])
    close(got, prior + ll, "model log-density", rtol=1e-4 if case["kf"] == "cholesky" else 1e-5, atol=1e-4)
    ctx.count()
    ctx.label(*case["extra"], *set(case["kinds"]), case["kf"])
    ctx.nontriv(case["perm"] != sorted(case["perm"]) or bool(case["extra"]))


@st.composite
def s_comp(draw):
    n = draw(st.integers(3, 6))
    k1, k2 = draw(st.integers(1, 2)), draw(st.integers(0, 2))
    ar = draw(st.integers(0, 2))
    m = 1 + ar + k1
    return dict(n=n, k1=k1, ar=ar, y=draw(gen.arr((n, 1), -4, 4)), X=draw(gen.arr((n, k1), -2, 2)), raw=draw(st.integers(0, 10**6)), perm=draw(st.permutations(list(range(8)))),
                order=draw(st.permutations([0, 1, 2, 3])), dims=draw(st.booleans()))


def build_comp(case):
    from pymc_extras.statespace import structural as S
    names = [f"x{i}" for i in range(case["k1"])]
    parts = {0: S.LevelTrendComponent(order=1, innovations_order=1), 2: S.RegressionComponent(name="reg", state_names=names, innovations=False), 3: S.MeasurementError("err")}
    if case["ar"]:
        parts[1] = S.AutoregressiveComponent(order=case["ar"])
    seq = [i for i in case["order"] if i in parts]
    comp = parts[seq[0]]
    for i in seq[1:]:
        comp = comp + parts[i]
    return comp.build(verbose=False), seq


def check_comp(case, ctx):
    mod, seq = build_comp(case)
    n, k1, ar = case["n"], case["k1"], case["ar"]
    X = np.asarray(case["X"], float); y = np.asarray(case["y"], float)
    rng = np.random.default_rng(case["raw"])
    m = mod.k_states
    L = rng.integers(-4, 5, size=(m, m)) / 8
    vals = dict(initial_trend=rng.integers(-8, 9, size=1) / 4, sigma_trend=np.array([rng.integers(1, 8) / 4]), beta_reg=rng.integers(-8, 9, size=k1) / 4,
                sigma_err=np.array(rng.integers(1, 8) / 8), P0=L @ L.T + 0.25 * np.eye(m))
    if ar:
        vals.update(ar_params=rng.integers(-4, 5, size=ar) / 8, sigma_ar=np.array(rng.integers(1, 8) / 4))
    require(set(mod.param_names) == set(vals), "parameters are %s", mod.param_names)
    order = [k for k in case["perm"] if k < len(vals) + 1]
    items = sorted(vals) + ["data_reg"]
    prior, point = 0.0, {}
    with pm.Model(coords=dict(mod.coords, **({"time": np.arange(n)} if case["dims"] else {}))) as model:
        for k in order:
            nm = items[k]
            if nm == "data_reg":
                pm.Data("data_reg", X, dims=("time", "exog_state") if case["dims"] else None)
            else:
                pm.Normal(nm, 0.25, 2.0, shape=vals[nm].shape)
                point[nm] = vals[nm]; prior += stats.norm.logpdf(vals[nm], 0.25, 2.0).sum()
        mod.build_statespace_graph(y, mode="FAST_COMPILE")
    # the system in the order of the components
    a0, Ts, Zs, Rs, Qs = [], [], [], [], []
    for i in seq:
        if i == 0:
            a0.append(vals["initial_trend"]); Ts.append(np.eye(1)); Zs.append(np.ones((n, 1))); Rs.append(np.eye(1)); Qs.append(np.diag(vals["sigma_trend"] ** 2))
        elif i == 1:
            T = np.eye(ar, k=-1); T[0, :] = vals["ar_params"]
            e = np.zeros((ar, 1)); e[0] = 1
            a0.append(np.zeros(ar)); Ts.append(T); Zs.append(np.tile(e.T, (n, 1))); Rs.append(e); Qs.append(vals["sigma_ar"].reshape(1, 1) ** 2)
        elif i == 2:
            a0.append(vals["beta_reg"]); Ts.append(np.eye(k1)); Zs.append(X); Rs.append(np.zeros((k1, 0))); Qs.append(np.zeros((0, 0)))
    from scipy.linalg import block_diag
    R = block_diag(*Rs).reshape(m, -1)
    s = dict(a0=np.concatenate(a0), P0=vals["P0"], c=np.zeros(m), d=np.zeros(1), T=block_diag(*Ts), Z=np.concatenate(Zs, axis=1)[:, None, :], R=R,
             H=vals["sigma_err"].reshape(1, 1) ** 2, Q=block_diag(*[q for q in Qs if q.size]) if R.shape[1] else np.zeros((0, 0)))
    w = solve_all(s, y)
    if w["cond"] > 1e6:
        raise Reject
    got = float(model.compile_fn(model.logp(jacobian=False), inputs=model.value_vars, mode="FAST_COMPILE")(point))
    close(got, prior + np.sum(w["ll"]), "model log-density", rtol=1e-5, atol=1e-4)
    ctx.count()
    ctx.label(f"ar={ar}", f"reg={k1}", "dims" if case["dims"] else "no dims")
    ctx.nontriv(order != sorted(order))


@st.composite
def s_missing(draw):
    return dict(drop=draw(st.lists(st.sampled_from(ssm.NAMES), min_size=1, max_size=4, unique=True)), extra=draw(st.booleans()), data=draw(st.booleans()))


def check_missing(case, ctx):
    if case["data"]:
        from pymc_extras.statespace import structural as S
        mod = (S.LevelTrendComponent(order=1) + S.RegressionComponent(name="reg", state_names=["a"])).build(verbose=False)
        with pm.Model(coords=mod.coords):
            for nm in mod.param_names:
                pm.Flat(nm, shape=mod._name_to_variable[nm].type.shape)
            try:
                mod.build_statespace_graph(np.zeros((3, 1)))
            except (ValueError, KeyError) as e:
                require("data_reg" in str(e), "the error does not name the missing data: %s", e)
                return
        raise Violation("a model without its exogenous data was accepted")
    mod = ssm.Generic(2, 2, 2)
    with pm.Model(coords=mod.coords):
        for k in ssm.NAMES:
            if k not in case["drop"]:
                pm.Flat(ssm.PAR[k], shape=mod._name_to_variable[ssm.PAR[k]].type.shape)
        if case["extra"]:
            pm.Normal("par", 0, 1)
        try:
            mod.build_statespace_graph(np.zeros((3, 2)))
        except ValueError as e:
            for k in case["drop"]:
                require(ssm.PAR[k] in str(e), "the error does not name the missing parameter %s: %s", ssm.PAR[k], e)
            ctx.nontriv()
            return
    raise Violation(f"a model without {case['drop']} was accepted")


TASKS = [Task("generic", s_generic, check_generic, quick=56, thorough=2000, shards=(6, 7)), Task("components", s_comp, check_comp, quick=24, thorough=900, shards=(4, 7)),
         Task("missing", s_missing, check_missing, quick=20, thorough=200)]
