"""C35: the sequential Monte Carlo sampler's densities, starting particles, output and answers."""
import jax
import numpy as np
import pymc as pm
from hypothesis import strategies as st
from scipy import stats

from harness import mapm
from harness.core import Task, close, require
from harness.stat import check_white
from pymc_extras.inference.smc.sampling import arviz_from_particles, blackjax_particles_from_pymc_population, get_jaxified_loglikelihood, get_jaxified_logprior, initialize_population, sample_smc_blackjax

RULE = """A case is a model of 1-3 units (normal, multivariate normal, linear regression, hierarchy, log-normal, gamma, inverse gamma, beta, truncated normal, Dirichlet, conjugate counts), variables in a random interleaved order under shuffled names, of shape () to (2, 2) with sizes of one included, with or without dims
and coords, deterministics, pm.Data, sometimes a potential or a model name. Functions: prior and likelihood handed to the sampler, at 1-4 random particles in its own layout, plain and under jax.vmap, against PyMC's prior and data log-densities at the same point. Population: 1000 starting particles, mapped to natural space by my own
transforms, must have the prior's law (probability transforms to normal scores, means, variances and correlations with p < 1e-10). Particles: inference data built from 1-7 random particles must hold, for each particle and variable, my own inverse transform, deterministics included, with names, shape, dims and
coords. Sampling: a full run on a solvable Gaussian model must recover means, variances and evidence within stated wide limits, repeat for a seed, and report its settings. Non-trivial: two values or a dimension of length one."""
ASSUMPTIONS = ["continuous free variables", "full runs: means within 0.4 posterior standard deviations, variances within a factor 2, log evidence within 0.7, for 600 particles"]


def strat(kinds=tuple(mapm.GAUSS + mapm.OTHER), max_units=3):
    @st.composite
    def s(draw):
        c = draw(mapm.s_model(kinds=kinds, max_units=max_units))
        c.update(n=draw(st.integers(1, 7)), pot=draw(st.integers(0, 3)) == 0, ctx=draw(st.booleans()), kernel=draw(st.sampled_from(["HMC", "NUTS"])), seed=draw(st.integers(0, 10**6)))
        return c
    return s


def build(case):
    model, us, order, dets, prefix = mapm.build(case)
    if case["pot"]:
        with model:
            pm.Potential("pot", -0.25 * (model[prefix + order[0].name] ** 2).sum())
    return model, us, order, dets, prefix


def nontriv(ctx, order):
    ctx.nontriv(sum(int(np.prod(v.vshape)) for v in order) >= 2 or any(1 in v.shape for v in order))
    for v in order:
        if 1 in v.vshape:
            ctx.label("length one")


def values(case, order, rng):
    """Unconstrained values for each variable, n of them."""
    return {v.name: rng.normal(0, 0.7, (case["n"],) + v.vshape) for v in order}


def check_functions(case, ctx):
    rng = np.random.default_rng(case["seed"])
    model, us, order, dets, prefix = build(case)
    nontriv(ctx, order)
    vals = values(case, order, rng)
    particles = blackjax_particles_from_pymc_population(model, {prefix + v.value_name: vals[v.name] for v in order})
    for what, f, ref in (("prior", get_jaxified_logprior(model), model.varlogp), ("likelihood", get_jaxified_loglikelihood(model), model.datalogp)):
        own = model.compile_fn(ref, inputs=model.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")
        want = np.array([float(own({prefix + v.value_name: vals[v.name][i] for v in order})) for i in range(case["n"])])
        got = np.array([float(np.ravel(f([p[i] for p in particles]))[0]) for i in range(case["n"])])
        close(got, want, f"log {what} of single particles", rtol=1e-7, atol=1e-7)
        close(np.ravel(np.broadcast_to(jax.vmap(f)(particles), want.shape)), want, f"log {what} of a batch of particles", rtol=1e-7, atol=1e-7)
        ctx.count(2 * case["n"])


def check_population(case, ctx):
    model, us, order, dets, prefix = build(case)
    nontriv(ctx, order)
    n = 1000
    pop = initialize_population(model, n, np.random.default_rng(case["seed"]))
    require(set(pop) == {prefix + v.value_name for v in order}, f"the population holds {sorted(pop)}")
    nat = {}
    for v in order:
        x = np.asarray(pop[prefix + v.value_name])
        require(x.shape == (n,) + v.vshape, f"starting values of {v.value_name} have shape {x.shape}, expected {(n,) + v.vshape}")
        nat[v.name] = v.bwd(x)
    cols = []
    for U in us:
        for f in U.prior:
            u = np.clip(np.asarray(f(nat), float).reshape(n, -1), 1e-300, 1 - 1e-16)
            cols.append(stats.norm.ppf(u))
    check_white(np.column_stack(cols), f"starting particles of {[U.kind for U in us]} as normal scores under the prior")
    ctx.count(1)
    again = initialize_population(model, 3, np.random.default_rng(case["seed"]))
    third = initialize_population(model, 3, np.random.default_rng(case["seed"]))
    require(all(np.array_equal(again[k], third[k]) for k in again), "the starting particles differ between two calls with one seed")


def check_posterior(post, case, order, dets, prefix, n, P):
    require(set(post.data_vars) >= {prefix + v.name for v in order} | {prefix + d for d in dets}, f"the posterior holds {sorted(post.data_vars)}")
    for v in order:
        x = post[prefix + v.name]
        require(x.shape == (1, n) + v.shape, f"{v.name} of shape {v.shape} comes back with shape {x.shape} for {n} particles")
        if v.dims is not None:
            require(x.dims == ("chain", "draw") + v.dims, f"{v.name} comes back with dims {x.dims}, expected {v.dims}")
            for d, lab in zip(v.dims, v.labels):
                require([str(a) for a in x[d].values] == [str(a) for a in lab], f"coordinate {d} of {v.name} is {x[d].values}, expected {lab}")
        if P is not None:
            close(x.values[0], P[v.name], f"values of {v.name}", rtol=1e-7, atol=1e-9)
    Q = {v.name: post[prefix + v.name].values[0] for v in order}
    for d, f in dets.items():
        close(post[prefix + d].values[0], f(Q), f"deterministic {d}", rtol=1e-7, atol=1e-9)


def check_particles(case, ctx):
    rng = np.random.default_rng(case["seed"])
    model, us, order, dets, prefix = build(case)
    nontriv(ctx, order)
    vals = values(case, order, rng)
    particles = blackjax_particles_from_pymc_population(model, {prefix + v.value_name: vals[v.name] for v in order})
    keep = [np.array(p) for p in particles]
    if case["ctx"]:
        with model:
            idata = arviz_from_particles(model, particles)
    else:
        idata = arviz_from_particles(model, particles)
    require(all(np.array_equal(a, b) for a, b in zip(keep, particles)), "the particles were changed")
    check_posterior(idata.posterior, case, order, dets, prefix, case["n"], {v.name: v.bwd(vals[v.name]) for v in order})
    ctx.count(case["n"])


def check_sampling(case, ctx):
    case = dict(case, pot=False)
    model, us, order, dets, prefix = build(case)
    nontriv(ctx, order)
    n = 600
    idx, mode, K = mapm.gaussian(us, "nat")
    C = np.linalg.inv(K)
    inner = dict(step_size=float(0.7 * np.sqrt(np.linalg.eigvalsh(C)[0])))
    if case["kernel"] == "HMC":
        inner["integration_steps"] = 10
    kw = dict(n_particles=n, random_seed=case["seed"], kernel=case["kernel"], inner_kernel_params=inner, num_mcmc_steps=5, iterations_to_diagnose=60, target_essn=0.5)
    ctx.label(case["kernel"])

    def run():
        if case["ctx"]:
            with model:
                return sample_smc_blackjax(**kw)
        return sample_smc_blackjax(model=model, **kw)
    idata = run()
    post = idata.posterior
    check_posterior(post, case, order, dets, prefix, n, None)
    mean, sd = {}, np.sqrt(np.diag(C))
    for v in order:
        x = post[prefix + v.name].values[0].reshape(n, -1)
        for j in range(x.shape[1]):
            i = idx[(v.name, j)]
            require(abs(x[:, j].mean() - mode[i]) < 0.4 * sd[i], f"posterior mean of {v.name}[{j}] is {x[:, j].mean():.4g}, exactly {mode[i]:.4g} with standard deviation {sd[i]:.3g}")
            r = x[:, j].var() / C[i, i]
            require(0.5 < r < 2, f"posterior variance of {v.name}[{j}] is {r:.3g} times the exact one, {C[i, i]:.3g}")
            ctx.count(2)
    lam = np.asarray(post.attrs["lambda_evolution"])
    its = int(post.attrs["iterations"])
    require(lam.shape == (60,) and 1 <= its <= 60 and (np.diff(lam[:its]) > 0).all() and abs(lam[its - 1] - 1) < 1e-6, f"tempering goes through {lam[:its + 1]} in {its} iterations, it must rise to 1")
    ev = float(np.asarray(post.attrs["log_likelihood_increments"])[:its].sum())
    want = sum(U.evid for U in us)
    require(abs(ev - want) < 0.7, f"log evidence {ev:.4g} from the increments, exactly {want:.4g}")
    require(post.attrs["particles"] == n and post.attrs["num_mcmc_steps"] == 5 and post.attrs["step_size"] == inner["step_size"] and case["kernel"] in post.attrs["sampler"], "the settings are not reported as given")
    ctx.count(2)
    if case["seed"] % 4 == 0:
        again = run().posterior
        require(all(np.array_equal(again[k].values, post[k].values) for k in post.data_vars), "two runs with one seed differ")


TASKS = [Task("functions", strat(), check_functions, quick=40, thorough=1000, soft_s=(60, 300), shards=(3, 8)),
         Task("population", strat(), check_population, quick=20, thorough=500, soft_s=(60, 300), shards=(2, 8)),
         Task("particles", strat(), check_particles, quick=40, thorough=1000, soft_s=(60, 300), shards=(2, 8)),
         Task("sampling", strat(tuple(mapm.GAUSS), 2), check_sampling, quick=4, thorough=100, soft_s=(80, 500), shards=(2, 8))]
