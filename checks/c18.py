"""C18: the R2D2M2CP prior against its definition (normal effects with given sign probability and explained variance)."""
import warnings

import numpy as np
import pymc as pm
from hypothesis import strategies as st
from scipy import stats

from harness import gen
from harness.core import Reject, Task, Violation, close, require
from pymc_extras.distributions import R2D2M2CP

RULE = """A case is a full set of arguments (zero to two batch dims of one to three, one to four coefficients, scales as scalars or arrays per batch or per coefficient, R2 fixed, per batch or
with uncertainty, importance as none, concentration alone, relative importances with or without concentration, or shares with or without concentration; sign probabilities fixed or uncertain,
scalar or per coefficient, zeros and ones included; one or two priors in one model; centred or not). In joint draws the residual scale and the coefficients equal the documented functions of
R2, weights, sign probabilities and raw effects; the density of every random variable equals that of the documented distribution at those draws; names, dims and shapes are the requested
ones. Non-trivial: weights, sign probabilities or R2 differ from the defaults."""
ASSUMPTIONS = ["without importance arguments every coefficient has the variance share one, as the documentation of that special case states", "constant sign probabilities"]


@st.composite
def s_prior(draw):
    batch = draw(st.sampled_from([[], [], [2], [1], [3], [2, 1], [2, 3]]))
    n = draw(st.integers(1, 4))
    v = lambda shape, lo, hi: draw(gen.arr(tuple(shape), lo, hi))
    out = dict(batch=batch, n=n, centered=draw(st.booleans()), other=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))
    pos = lambda shape: (0.125 + np.abs(np.asarray(v(shape, -3, 3)))).tolist()
    out["os"] = pos(batch if draw(st.booleans()) else [])
    out["is"] = pos(draw(st.sampled_from([[n], [n], batch + [n], []])))
    out["r2"] = (0.0625 + 0.875 * np.abs(np.asarray(v(batch if draw(st.booleans()) else [], 0, 1)))).tolist()
    out["r2_std"] = draw(st.sampled_from([None, None, 0.05]))
    imp = draw(st.sampled_from(["none", "conc", "imp", "imp", "impconc", "share", "shareconc", "shareconc"])) if n > 1 else "none"
    out["imp"] = imp
    wshape = draw(st.sampled_from([[n], batch + [n]]))
    out["w"] = pos(wshape)
    out["conc"] = draw(st.sampled_from([1.0, 5.0, 0.5]))
    pshape = draw(st.sampled_from([[], [n], [n], batch + [n]]))
    probs = [0.5, 0.5, 0.125, 0.9, 0.7] if draw(st.booleans()) else [0.5, 0.25, 0.8, 0.0, 1.0, 1.0]
    k = int(np.prod(pshape)) if pshape else 1
    p = np.reshape([draw(st.sampled_from(probs)) for _ in range(k)], pshape)
    out["p"] = p.tolist()
    if draw(st.booleans()):
        out["p_std"] = np.where((p == 0) | (p == 1), 0.0, draw(st.sampled_from([0.05, 0.125]))).tolist()
    else:
        out["p_std"] = None
    out["aslist"] = draw(st.booleans())
    return out


def logp_beta(x, mu, sd):
    nu = mu * (1 - mu) / sd**2 - 1
    return stats.beta.logpdf(x, mu * nu, (1 - mu) * nu).sum()


def check_prior(case, ctx):
    batch, n = tuple(case["batch"]), case["n"]
    bd = tuple(f"b{i}" for i in range(len(batch)))
    coords = {**{d: list(range(s)) for d, s in zip(bd, batch)}, "v": [f"x{i}" for i in range(n)]}
    shape = batch + (n,)
    arg = (lambda x: x) if case["aslist"] else np.asarray
    kw = dict(r2=arg(case["r2"]), r2_std=case["r2_std"], positive_probs=arg(case["p"]), centered=case["centered"])
    if case["p_std"] is not None:
        kw["positive_probs_std"] = arg(case["p_std"])
    w = np.asarray(case["w"], float)
    share = w / w.sum(-1, keepdims=True)
    imp = case["imp"]
    if imp in ("imp", "impconc"):
        kw["variables_importance"] = arg(case["w"])
    if imp in ("share", "shareconc"):
        kw["variance_explained"] = share
    if imp in ("conc", "impconc", "shareconc"):
        kw["importance_concentration"] = case["conc"]
    os_ = np.asarray(case["os"], float); is_ = np.asarray(case["is"], float)
    r2a = np.asarray(case["r2"], float)
    if not case["aslist"] or os_.ndim == 0:
        given_os, given_is = os_, is_
    else:
        given_os, given_is = case["os"], case["is"]
    before = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, np.ndarray)}
    with warnings.catch_warnings(), pm.Model(coords=coords) as model:
        warnings.simplefilter("ignore")
        if case["other"]:
            R2D2M2CP("a", os_, is_, dims=[*bd, "v"], r2=0.5, centered=not case["centered"])
        eps, beta = R2D2M2CP("beta", given_os, given_is, dims="v" if not bd and case["aslist"] else [*bd, "v"], **kw)
    for k, v in before.items():
        require(np.array_equal(v, kw[k]), "the caller's %s was changed", k)
    require(model.named_vars.get("beta") is beta and tuple(model.named_vars_to_dims.get("beta", ())) == (*bd, "v"), "beta is not registered with the dims: %s", model.named_vars_to_dims.get("beta"))
    mine = [rv for rv in model.free_RVs if rv.name == "beta" or rv.name.startswith("beta::")]
    draws = pm.draw([eps, beta, *mine], draws=2, random_seed=case["seed"], mode="FAST_COMPILE")
    lps = model.compile_fn(model.logp(vars=mine, jacobian=False, sum=False), inputs=model.value_vars, mode="FAST_COMPILE", on_unused_input="ignore") if mine else None
    p = np.broadcast_to(np.asarray(case["p"], float), shape)
    pstd = None if case["p_std"] is None else np.broadcast_to(np.asarray(case["p_std"], float), shape)
    mask = (p > 0) & (p < 1)
    for i in range(2):
        e, b = draws[0][i], draws[1][i]
        val = {rv.name: draws[2 + j][i] for j, rv in enumerate(mine)}
        want = {}
        if case["r2_std"] is not None:
            r2 = val.pop("beta::r2")
            require(r2.shape == batch, "shape of r2 %s", r2.shape)
            want["beta::r2"] = logp_beta(r2, np.broadcast_to(r2a, batch), case["r2_std"])
        else:
            r2 = r2a
        if imp in ("none", "share"):
            phi = np.ones(n) if imp == "none" else share
        else:
            phi = val.pop("beta::phi")
            require(phi.shape == shape, "shape of phi %s, expected %s", phi.shape, shape)
            alpha = np.broadcast_to({"conc": case["conc"] * np.ones(n), "imp": w, "impconc": w * case["conc"], "shareconc": share * case["conc"]}[imp], shape)
            if (phi <= 1e-12).any():
                raise Reject
            want["beta::phi"] = sum(stats.dirichlet.logpdf(x / x.sum(), a) for x, a in zip(phi.reshape(-1, n), alpha.reshape(-1, n)))
        psi = p
        if pstd is not None and mask.any():
            name = "beta::psi" if mask.all() else "beta::psi::masked"
            raw = val.pop(name, None)
            require(raw is not None, "no random variable %s", name)
            require(raw.shape == (shape if mask.all() else (mask.sum(),)), "shape of %s: %s", name, raw.shape)
            psi = p.copy()
            psi[mask] = raw.reshape(-1) if not mask.all() else raw[mask]
            want[name] = logp_beta(psi[mask], p[mask], pstd[mask])
        ev = np.broadcast_to(phi * (np.asarray(r2 * os_**2)[..., None]), shape)
        close(np.asarray(e), np.sqrt((1 - r2) * os_**2), "residual scale", rtol=1e-6)
        require(b.shape == shape, "shape of the coefficients %s, expected %s", b.shape, shape)
        z = stats.norm.ppf(np.where(mask, psi, 0.5))  # mean in standard deviations, so that the sign probability is psi
        sd = np.where(mask, np.sqrt(ev / (1 + z**2)), 0.0)
        mu = np.where(mask, sd * z, np.where(p == 1, 1, -1) * np.sqrt(ev))
        isb = np.broadcast_to(is_, shape)
        close(b[~mask], (mu / isb)[~mask], "coefficients of certain sign", rtol=1e-5)
        if mask.any():
            if case["centered"]:
                name = "beta" if mask.all() else "beta::masked"
                require(name in val, "no random variable %s", name)
                x = val.pop(name)
                x = x if mask.all() else np.asarray(x)
                bm = x[mask] if mask.all() else x
                close(b[mask], bm, "coefficients", rtol=1e-6)
                want[name] = stats.norm.logpdf(bm, (mu / isb)[mask], (sd / isb)[mask]).sum()
            else:
                name = "beta::raw" if mask.all() else "beta::raw::masked"
                require(name in val, "no random variable %s", name)
                x = val.pop(name)
                xm = x[mask] if mask.all() else np.asarray(x)
                close(b[mask], ((xm * sd[mask] + mu[mask]) / isb[mask]), "coefficients", rtol=1e-5, atol=1e-9)
                want[name] = stats.norm.logpdf(xm).sum()
        require(not val, "unexpected random variables %s", sorted(val))
        if mine:
            point = model.initial_point()
            full = {rv.name: draws[2 + j][i] for j, rv in enumerate(mine)}
            for rv in mine:
                tr = model.rvs_to_transforms[rv]
                vv = model.rvs_to_values[rv]
                point[vv.name] = full[rv.name] if tr is None else tr.forward(full[rv.name], *rv.owner.inputs).eval(mode="FAST_COMPILE")
            got = {rv.name: float(np.sum(g)) for rv, g in zip(mine, lps({v.name: point[v.name] for v in model.value_vars}))}
            for name, wv in want.items():
                if np.isfinite(wv):
                    close(got[name], wv, f"log-density of {name}", rtol=1e-4, atol=1e-4)
    ctx.label("centred" if case["centered"] else "non-centred", imp, f"batch {case['batch']}", "all free" if mask.all() else "mixed" if mask.any() else "all certain",
              "uncertain sign" if pstd is not None else "fixed sign", "r2 rv" if case["r2_std"] else "r2 fixed")
    ctx.nontriv(imp != "none" or not (p == 0.5).all() or case["r2_std"] is not None)


TASKS = [Task("prior", s_prior, check_prior, quick=120, thorough=6000, shards=(7, 7))]
