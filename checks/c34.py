"""C34: Pathfinder's draws against own transforms and against the same algorithm run on a closed-form density."""
import contextlib
import io

import blackjax
import jax
import jax.numpy as jnp
import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness import mapm
from harness.core import Reject, Task, close, require
from harness.stat import check_white
from pymc_extras.inference.fit import fit
from pymc_extras.inference.pathfinder import convert_flat_trace_to_idata, fit_pathfinder

RULE = """A case is a model of 1-3 units (normal, multivariate normal, linear regression, hierarchy, log-normal, gamma, inverse gamma, beta, truncated normal, Dirichlet, conjugate counts), variables in a random interleaved order under shuffled names, of shape () to (2, 2) with sizes of one included, with or without dims and
coords, deterministics, pm.Data, sometimes a model name. Convert: 1-6 random unconstrained vectors become inference data in which each draw of each variable (and of the unconstrained ones on request) is my own inverse transform of its own part of the vector, in the model's order, deterministics follow, and names, shapes,
dims and coords are right. Fit: the draws, mapped to unconstrained space by my own transforms, must have the normal law of one of the approximations which the same algorithm, run directly by me with six keys on the model's log-density written out in closed form from the model's starting point, chooses (whitened with its
exact mean and covariance, p < 1e-10), come in the number asked, repeat for a seed, differ between seeds, for the model given or in context, by fit_pathfinder or fit. Non-trivial: at least two values."""
ASSUMPTIONS = ["blackjax's Pathfinder is taken as the definition of the approximation (for a Gaussian it is often not the exact posterior)", "cases in which the algorithm itself gives no finite approximation are not judged"]


def strat(max_units):
    @st.composite
    def s(draw):
        c = draw(mapm.s_model(max_units=max_units))
        c.update(n=draw(st.integers(1, 6)), ctx=draw(st.booleans()), trans=draw(st.booleans()), via=draw(st.sampled_from(["fit", "fit_pathfinder"])), seed=draw(st.integers(0, 10**6)))
        return c
    return s


def quiet_call(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def check_posterior(post, case, order, dets, prefix, n, P, trans=None):
    want = {prefix + v.name for v in order} | {prefix + d for d in dets} | ({prefix + v.value_name for v in order} if trans is not None else set())
    require(set(post.data_vars) == want, f"the posterior holds {sorted(post.data_vars)}, expected {sorted(want)}")
    for v in order:
        x = post[prefix + v.name]
        require(x.shape == (1, n) + v.shape, f"{v.name} of shape {v.shape} comes back with shape {x.shape} for {n} draws")
        if v.dims is not None:
            require(x.dims == ("chain", "draw") + v.dims, f"{v.name} comes back with dims {x.dims}, expected {v.dims}")
            for d, lab in zip(v.dims, v.labels):
                require([str(a) for a in x[d].values] == [str(a) for a in lab], f"coordinate {d} of {v.name} is {x[d].values}, expected {lab}")
        if P is not None:
            close(x.values[0], P[v.name], f"values of {v.name}", rtol=1e-7, atol=1e-9)
        if trans is not None:
            close(post[prefix + v.value_name].values[0], trans[v.name], f"values of {v.value_name}", rtol=1e-9, atol=1e-12)
    Q = {v.name: post[prefix + v.name].values[0] for v in order}
    for d, f in dets.items():
        close(post[prefix + d].values[0], f(Q), f"deterministic {d}", rtol=1e-7, atol=1e-9)


def check_convert(case, ctx):
    rng = np.random.default_rng(case["seed"])
    model, us, order, dets, prefix = mapm.build(case)
    vals = {v.name: rng.normal(0, 0.7, (case["n"],) + v.vshape) for v in order}
    flat = np.concatenate([vals[v.name].reshape(case["n"], -1) for v in order], axis=1)
    ctx.nontriv(flat.shape[1] >= 2)
    keep = flat.copy()
    if case["ctx"]:
        with model:
            idata = quiet_call(convert_flat_trace_to_idata, flat, include_transformed=case["trans"])
    else:
        idata = quiet_call(convert_flat_trace_to_idata, flat, include_transformed=case["trans"], model=model)
    require(np.array_equal(keep, flat), "the draws were changed")
    check_posterior(idata.posterior, case, order, dets, prefix, case["n"], {v.name: v.bwd(vals[v.name]) for v in order}, vals if case["trans"] else None)
    ctx.count(case["n"] * flat.shape[1])


def law(state):
    """mean and covariance of blackjax's draws from an approximation: they are linear in standard normals"""
    big, _ = blackjax.vi.pathfinder.sample(jax.random.key(11), state, 4000)
    return np.asarray(big)


def check_fit(case, ctx):
    model, us, order, dets, prefix = mapm.build(case)
    sizes = [int(np.prod(v.vshape)) for v in order]
    d = sum(sizes)
    ctx.nontriv(d >= 2)
    where = dict(zip([v.name for v in order], np.split(np.arange(d), np.cumsum(sizes)[:-1])))
    parts = [(U, np.concatenate([where[v.name] for v in U.vars])) for U in us]
    ip = model.initial_point()
    x0 = jnp.asarray(np.concatenate([np.ravel(ip[prefix + v.value_name]) for v in order]))
    dens = lambda w: sum(U.dens(w[ix], jnp) for U, ix in parts)
    n = 400
    kw = dict(samples=n, random_seed=case["seed"])
    call = (lambda **k: fit("pathfinder", **k)) if case["via"] == "fit" else fit_pathfinder

    def run(**k):
        if case["ctx"]:
            with model:
                return quiet_call(call, **k)
        return quiet_call(call, model=model, **k)
    post = run(**kw).posterior
    check_posterior(post, case, order, dets, prefix, n, None)
    X = np.empty((n, d))
    for v in order:
        X[:, where[v.name]] = v.fwd(post[prefix + v.name].values[0]).reshape(n, -1)
    seen, ok, fails = [], False, []
    for s in range(6):
        state, _ = blackjax.vi.pathfinder.approximate(jax.random.key(1000 + s), dens, x0)
        if not np.isfinite(float(state.elbo)):
            raise Reject("the algorithm finds no finite approximation")
        key = tuple(np.asarray(state.position).round(9))
        if key in seen:
            continue
        seen.append(key)
        # draws are an affine function of standard normals: recover it from many
        ref = law(state)
        mean, cov = ref.mean(0), np.atleast_2d(np.cov(ref.T))
        sd = np.sqrt(np.diag(cov))
        z = np.abs(X.mean(0) - mean) / (sd * np.sqrt(1 / n + 1 / 4000))
        S = np.atleast_2d(np.cov(X.T))
        L = np.linalg.cholesky(cov + 1e-12 * np.diag(sd**2))
        M = np.linalg.solve(L, np.linalg.solve(L, S).T)
        e = np.linalg.eigvalsh((M + M.T) / 2)
        # extreme eigenvalues of a whitened sample covariance: 1 +- (sqrt(d / n) + 6.5 / sqrt(n)), squared, and the same for the reference's own error
        lim = 1 + np.sqrt(d / n) + 6.5 / np.sqrt(n) + np.sqrt(d / 4000) + 6.5 / np.sqrt(4000)
        low = 2 - lim
        if z.max() < 7 and e[-1] < lim**2 and e[0] > max(low, 0) ** 2:
            ok = True
            break
        fails.append(f"mean off by {z.max():.1f} standard errors, covariance ratios {e[0]:.2f} to {e[-1]:.2f}")
    ctx.label(f"{len(seen)} candidates")
    require(ok, f"the draws of {[U.kind for U in us]} do not have the law of any approximation the algorithm chooses for the model's density: {fails}")
    ctx.count(d)
    if case["seed"] % 3 == 0:
        again, other = run(**kw).posterior, run(**dict(kw, random_seed=case["seed"] + 1)).posterior
        k = prefix + order[0].name
        require(all(np.array_equal(again[k].values, post[k].values) for k in post.data_vars), "two runs with one seed differ")
        require(not np.array_equal(other[k].values, post[k].values), "two runs with different seeds agree")


TASKS = [Task("convert", strat(3), check_convert, quick=40, thorough=1000, soft_s=(60, 300), shards=(3, 8)),
         Task("fit", strat(2), check_fit, quick=8, thorough=200, soft_s=(80, 500), shards=(4, 8))]
