"""C32: maximum a posteriori search against closed-form modes and the model's own density."""
import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness import mapm
from harness.core import Task, close, require
from pymc_extras.inference.find_map import find_MAP

RULE = """A case is a model of 1-3 units (normal with or without data, multivariate normal, linear regression, two-level hierarchy, log-normal, gamma, inverse gamma, beta, truncated normal, Dirichlet in one or two dims, gamma-Poisson, beta-binomial) with variables created in a random interleaved order under
shuffled names, of shape () to (2, 2), with dims that have coords, lengths only or none, constants or pm.Data, deterministics, possibly a model name, a method (L-BFGS-B, BFGS, Newton-CG, trust-exact, trust-ncg, CG, SLSQP, TNC, Powell, Nelder-Mead), derivative options, starting values for some variables, jitter for
some, and the model given or taken from the context. The result must hold exactly the model's variables by name, natural values equal to my own inverse transform of the unconstrained ones, deterministics computed from them, a density (PyMC's) no lower than at the start, the closed-form mode for every
variable, with the same answer whatever the start and options, and leave the model as it was. With no iterations allowed, the result must be the starting point: values given as asked, others at the model's own starting point except those to be jittered. Non-trivial: at least two free values."""
ASSUMPTIONS = ["the mode is that of the density in the natural space (find_MAP leaves the Jacobian out)", "derivative-free methods are only judged on the density and on consistency", "the value in the raw result is judged when the optimiser reports success (better_optimize returns something else when it stops early)", "models without discrete free variables"]
GRAD = ["L-BFGS-B", "BFGS", "Newton-CG", "trust-exact", "trust-ncg", "CG", "SLSQP", "TNC"]


@st.composite
def s_map(draw):
    c = draw(mapm.s_model())
    c.update(method=draw(st.sampled_from(["BFGS", "L-BFGS-B"] + GRAD + ["powell", "nelder-mead"])), raw=draw(st.booleans()), trans=draw(st.booleans()), ctx=draw(st.booleans()), deriv=draw(st.sampled_from([None, None, "nograd", "hess", "hessp"])),
             start=draw(st.sampled_from([None, None, "natural", "value", "some"])), jitter=draw(st.sampled_from([None, None, "some", "all"])), iters=draw(st.sampled_from(["many", "many", "none"])), seed=draw(st.integers(0, 10**6)))
    if c["iters"] == "none":
        c["method"] = "BFGS"
    return c


def start_point(case, order, prefix, rng):
    """{short name: natural starting value} for the variables given one"""
    out = {}
    for v in order:
        if case["start"] is None or (case["start"] == "some" and rng.random() < 0.5):
            continue
        u = rng.normal(0, 0.4, v.vshape)
        out[v.name] = v.bwd(u)
    return out


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    model, us, order, dets, prefix = mapm.build(case)
    n = sum(int(np.prod(v.vshape)) for v in order)
    ctx.nontriv(n >= 2)
    ctx.label(case["method"])
    full = lambda k: prefix + k
    ip = model.initial_point()
    given = start_point(case, order, prefix, rng)
    # starting values are given under the name of the variable, or under that of its value in unconstrained space
    initvals = {full(v.value_name): v.fwd(given[v.name]) for v in order if v.name in given} if case["start"] == "value" else {full(k): x for k, x in given.items()}
    jit = {None: [], "some": [v for v in order if rng.random() < 0.5], "all": list(order)}[case["jitter"]]
    kw = dict(method=case["method"], return_raw=case["raw"], include_transformed=case["trans"], initvals=initvals or None, random_seed=case["seed"], progressbar=False, compile_kwargs=dict(mode="FAST_COMPILE"))
    if jit:
        kw["jitter_rvs"] = [model[full(v.name)] for v in jit]
    m = case["method"]
    if case["deriv"] == "nograd" and m in ("BFGS", "L-BFGS-B", "SLSQP"):
        kw["use_grad"] = False
    elif case["deriv"] == "hess" and m in ("Newton-CG", "trust-exact", "trust-ncg"):
        kw.update(use_grad=True, use_hess=True, use_hessp=False)
    elif case["deriv"] == "hessp" and m in ("Newton-CG", "trust-ncg"):
        kw.update(use_grad=True, use_hess=False, use_hessp=True)
    none = case["iters"] == "none"
    if none:
        kw["options"] = dict(maxiter=0)
    else:
        kw["tol"] = 1e-9 if m not in ("powell", "nelder-mead") else 1e-6
    before = repr(sorted(model.named_vars)), repr(model.coords), {k: v.copy() for k, v in initvals.items()}
    keep_kw = dict(kw["compile_kwargs"])
    if case["ctx"]:
        with model:
            out = find_MAP(**kw)
    else:
        out = find_MAP(model=model, **kw)
    raw = None
    if case["raw"]:
        out, raw = out
    require((repr(sorted(model.named_vars)), repr(model.coords)) == before[:2], "the search changed the model")
    require(kw["compile_kwargs"] == keep_kw, f"the search changed the compile options to {kw['compile_kwargs']}")
    for k, x in before[2].items():
        require(np.array_equal(x, initvals[k]), f"the search changed the starting value of {k}")
    want = {full(v.name) for v in order} | {full(d) for d in dets} | ({full(v.value_name) for v in order} if case["trans"] else {full(v.name) for v in order})
    require(set(out) == want, f"the result has {sorted(out)}, expected {sorted(want)}")
    point, nat = {}, {}
    for v in order:
        x = np.asarray(out[full(v.name)])
        require(x.shape == v.shape, f"{v.name} of shape {v.shape} is reported with shape {x.shape}")
        nat[v.name] = x
        if case["trans"] or v.tr is None:
            u = np.asarray(out[full(v.value_name)])
            require(u.shape == v.vshape, f"{v.value_name} of shape {v.vshape} is reported with shape {u.shape}")
            close(x, v.bwd(u), f"{v.name} against the inverse transform of {v.value_name}", rtol=1e-9, atol=1e-12)
        else:
            u = v.fwd(x)
        point[full(v.value_name)] = u
        ctx.count(1)
    for d, f in dets.items():
        close(out[full(d)], f(nat), f"deterministic {d} at the reported point", rtol=1e-9, atol=1e-12)
    logp = model.compile_logp(jacobian=False, mode="FAST_COMPILE")
    init = dict(ip)
    init.update({full(v.value_name): v.fwd(given[v.name]) for v in order if v.name in given})
    for U in us:
        if len(U.vars) == 2 and U.vars[0].name in given and U.vars[1].name not in given:
            init[full(U.vars[1].name)] = np.full(U.vars[1].shape, given[U.vars[0].name])
    here, there = float(logp(point)), float(logp(init))
    if raw is not None:
        if raw.success:
            close(np.ravel(raw.fun)[0], -here, "the optimiser's value against minus the log density at the reported point", rtol=1e-8, atol=1e-8)
        require(np.size(raw.x) == n, f"the optimiser worked on {np.size(raw.x)} values for {n} unknowns")
        ctx.count(1)
    if none:
        ctx.label("start only")
        parent = {U.vars[1].name: U.vars[0].name for U in us if len(U.vars) == 2}
        for v in order:
            got = np.asarray(point[full(v.value_name)])
            # the model starts the children of a hierarchy at their parent's starting value
            base = v.fwd(given[v.name]) if v.name in given else (np.broadcast_to(nat[parent[v.name]], v.shape) if v.name in parent else ip[full(v.value_name)])
            if v in jit:
                if v.name not in given:
                    d = np.abs(got - base)
                    require((d > 0).all() and (d <= 1 + 1e-9).all(), f"{v.name} is to be jittered (by up to 1) but starts at {got}, its starting point is {base}")
                continue
            close(got, base, f"starting value of {v.name} without iterations", rtol=1e-8, atol=1e-10)
            ctx.count(1)
        return
    if not jit:
        require(here >= there - 1e-8 * (1 + abs(there)), f"the log density {here:.8g} at the result is lower than at the start, {there:.8g}")
        ctx.count(1)
    if m in GRAD:
        tol = 5e-3 if (m in ("CG", "TNC", "SLSQP") or kw.get("use_grad") is False) else 1e-3
        for U in us:
            for v, mode in zip(U.vars, U.mode):
                u0, u1 = v.fwd(mode), v.fwd(nat[v.name])
                close(u1, u0, f"mode of {v.name} ({U.kind}) found with {m}, in unconstrained space", rtol=tol, atol=tol)
                ctx.count(1)


TASKS = [Task("modes", s_map, check, quick=72, thorough=1500, soft_s=(60, 500), shards=(6, 8))]
