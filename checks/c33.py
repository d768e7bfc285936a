"""C33: the Laplace approximation against closed-form modes and curvatures."""
import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness import mapm
from harness.core import Task, close, require
from harness.stat import check_white
from pymc_extras.inference.find_map import find_MAP
from pymc_extras.inference.fit import fit
from pymc_extras.inference.laplace import fit_laplace, fit_mvn_to_MAP, sample_laplace_posterior

RULE = """A case is a model of 1-3 units, Gaussian only (normal with or without data, multivariate normal, linear regression, hierarchy) or with log-normal, gamma, inverse gamma, beta, truncated normal, Dirichlet and conjugate count units mixed in, variables in a random interleaved order under shuffled names, of shape () to
(2, 2), with dims (coords, lengths only, none), constants or pm.Data, deterministics, possibly a model name; fitted in natural or unconstrained space through fit_laplace, fit("laplace") or the separate functions at a given mode, with 1-3 chains. The reported mean must be the closed-form mode and the covariance the
inverse of the closed-form negative Hessian of the log density (with Jacobian in unconstrained space), both labelled variable by variable and element by element; the draws, mapped to the space of the fit by my own transforms, must have that mean and covariance (whitened, per-statistic p < 1e-10), and come under
the right names with the right shapes, dims and coords; deterministics must follow from the draws, observed and constant data must be the model's, equal seeds must repeat the draws, and the model given outside a context must be used. Non-trivial: at least two free values."""
ASSUMPTIONS = ["the approximation is centred at the mode of the density in the natural space, in unconstrained space too", "curvatures below zero_tol count as zero and diag_jitter is added to the covariance, as documented"]


def strat(kinds):
    @st.composite
    def s(draw):
        c = draw(mapm.s_model(kinds=tuple(kinds)))
        c.update(space=draw(st.sampled_from(["nat", "unc"])), via=draw(st.sampled_from(["fit_laplace", "fit_laplace", "fit", "parts", "parts", "parts"])), chains=draw(st.integers(1, 3)), draws=draw(st.sampled_from([1, 2, 250])), ctx=draw(st.booleans()), order_point=draw(st.booleans()),
                 raw=draw(st.booleans()), jit=draw(st.sampled_from([1e-8, None, 1e-4])), seed=draw(st.integers(0, 10**6)))
        return c
    return s


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    model, us, order, dets, prefix = mapm.build(case)
    n = sum(int(np.prod(v.vshape)) for v in order)
    ctx.nontriv(n >= 2)
    for U in us:
        ctx.label(U.kind)
    ctx.label(case["via"] + "/" + case["space"])
    unc = case["space"] == "unc"
    # drop the near duplicates: curvature must be clearly positive for the covariance to be defined
    idx, mode, K = mapm.gaussian(us, case["space"])
    close(K, K.T, "own curvature")
    draws = case["draws"] if case["draws"] > 2 or case["via"] == "parts" else 250
    kw = dict(progressbar=False, compile_kwargs=dict(mode="FAST_COMPILE"))
    jit = case["jit"]
    mode_of = {v.name: m for U in us for v, m in zip(U.vars, U.mode)}

    def run():
        if case["via"] == "parts":
            # the point as find_MAP reports it, in any order
            point = {}
            vs = list(order)
            if case["order_point"]:
                vs = [vs[j] for j in np.random.default_rng(case["seed"]).permutation(len(vs))]
            for v in vs:
                point[prefix + v.name] = np.array(mode_of[v.name], dtype=float).reshape(v.shape)
                point[prefix + v.value_name] = v.fwd(mode_of[v.name]).reshape(v.vshape)
            keep = {k: x.copy() for k, x in point.items()}
            mu, H = fit_mvn_to_MAP(point, model=model, transform_samples=unc, diag_jitter=jit, compile_kwargs=kw["compile_kwargs"])
            require(all(np.array_equal(keep[k], point[k]) for k in keep), "fitting changed the point it was given")
            return sample_laplace_posterior(mu, H, model=model, chains=case["chains"], draws=draws, transform_samples=unc, random_seed=case["seed"], **kw)
        args = dict(model=model, fit_in_unconstrained_space=unc, chains=case["chains"], draws=draws, random_seed=case["seed"], diag_jitter=jit, optimize_method="BFGS", optimizer_kwargs=dict(tol=1e-10), return_raw=case["raw"], **kw)
        if case["via"] == "fit":
            out = fit("laplace", **args)
        else:
            out = fit_laplace(**args)
        return out[0] if isinstance(out, tuple) else out

    if case["ctx"]:
        with model:
            idata = run()
    else:
        idata = run()
    # mean and covariance, by label
    rows = [str(r) for r in idata.fit["rows"].values]
    want = {}
    for v in order:
        shape = v.vshape if unc else v.shape
        nm = prefix + (v.value_name if unc else v.name)
        for j, ix in enumerate(np.ndindex(*shape)):
            lab = [v.labels[d][i] if v.labels is not None and (v.tr != "simplex" or not unc or d < len(shape) - 1) else i for d, i in enumerate(ix)]
            want[f"{nm}[{','.join(map(str, lab))}]" if shape else nm] = idx[(v.name, j)]
    require(sorted(rows) == sorted(want), f"the fit is labelled {rows}, expected {list(want)}")
    require([str(r) for r in idata.fit["columns"].values] == rows, "rows and columns of the covariance have different labels")
    pos = np.array([want[r] for r in rows])
    exact = case["via"] == "parts"
    mean = idata.fit["mean_vector"].values
    cov = idata.fit["covariance_matrix"].values
    rt = 1e-6 if exact else 2e-3
    scale = np.sqrt(1 / np.diag(K))[pos]
    require(np.abs(mean - mode[pos]).max() <= rt * max(1, np.abs(mode).max()) + (0 if exact else 1e-3 * scale.max()), f"mean {dict(zip(rows, mean.round(5)))} of the approximation is not the mode {dict(zip(rows, mode[pos].round(5)))}")
    # near-zero curvatures are rounded by design
    C = np.linalg.inv(K)[np.ix_(pos, pos)] + (0 if jit is None else jit) * np.eye(len(pos))
    sd = np.sqrt(np.diag(C))
    close(cov / np.outer(sd, sd), C / np.outer(sd, sd), f"covariance of the approximation (scaled to unit variances) for {rows} in {'unconstrained' if unc else 'natural'} space", rtol=rt * 10, atol=rt)
    ctx.count(2)
    # draws
    post = idata.posterior
    free = {prefix + v.name for v in order}
    require(set(post.data_vars) == free | {prefix + d for d in dets}, f"the posterior holds {sorted(post.data_vars)}, expected {sorted(free | {prefix + d for d in dets})}")
    P, cols = {}, {}
    for v in order:
        x = post[prefix + v.name]
        require(x.shape == (case["chains"], draws) + v.shape, f"draws of {v.name} have shape {x.shape}, expected {(case['chains'], draws) + v.shape}")
        require(x.dims[:2] == ("chain", "draw"), f"draws of {v.name} have dims {x.dims}")
        if v.dims is not None:
            require(x.dims[2:] == v.dims, f"draws of {v.name} have dims {x.dims}, expected {v.dims}")
            for d, lab in zip(v.dims, v.labels):
                require([str(a) for a in x[d].values] == [str(a) for a in lab], f"coordinate {d} of {v.name} is {x[d].values}, expected {lab}")
        P[v.name] = x.values.reshape((-1,) + v.shape)
        u = v.fwd(P[v.name]) if unc else P[v.name]
        for j, c in enumerate(u.reshape(len(u), -1).T):
            cols[idx[(v.name, j)]] = c
    for d, f in dets.items():
        x = post[prefix + d].values
        close(x.reshape((-1,) + x.shape[2:]), f(P), f"deterministic {d} from the draws", rtol=1e-8, atol=1e-10)
        ctx.count(1)
    X = np.column_stack([cols[i] for i in range(len(mode))])
    back = np.empty(len(pos), int)
    back[pos] = np.arange(len(pos))
    m0, C0 = mean[back], cov[np.ix_(back, back)]
    require(np.isfinite(X).all(), "draws are not finite")
    W = np.linalg.solve(np.linalg.cholesky(C0), (X - m0).T).T
    check_white(W, f"draws of {[v.name for v in order]}, whitened with the reported mean and covariance")
    ctx.count(1)
    # data groups
    for U in us:
        for k, y in U.observed.items():
            close(np.reshape(idata.observed_data[prefix + k].values, np.shape(y)), y, f"observed data {k}", rtol=1e-12)
        for k, y in U.data.items():
            close(np.reshape(idata.constant_data[prefix + k].values, np.shape(y)),  y, f"constant data {k}", rtol=1e-12)
    if rng.random() < 0.15:
        again = run().posterior
        for v in order:
            require(np.array_equal(again[prefix + v.name].values, post[prefix + v.name].values), f"draws of {v.name} differ between two runs with one seed")
        ctx.count(1)


TASKS = [Task("gaussian", strat(mapm.GAUSS), check, quick=35, thorough=700, soft_s=(60, 450), shards=(4, 8)),
         Task("smooth", strat(mapm.GAUSS[:1] + mapm.OTHER), check, quick=35, thorough=700, soft_s=(60, 450), shards=(4, 8))]
