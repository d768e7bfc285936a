"""C28: Gaussian priors built from posterior draws against moments of the transformed draws."""
import numpy as np
import pymc as pm
import pytensor
import xarray as xr
from hypothesis import strategies as st
from pymc.distributions import transforms as tr
from scipy import special

from harness.core import Task, close, require
import arviz as az
from pymc_extras.utils.prior import prior_from_idata

RULE = """A case is a posterior of 1-5 variables of shapes (), (2,), (3,), (2,3), (1,), (3,1,2) with correlated draws in 1-4 chains (dimensions stored in any order around the sample), of which a random subset is used in random order, as is or with new names, dims and
log, logit, interval, simplex, or ordered transforms, configured by every accepted shorthand, under a default or given name, in a model that may already have variables. The only free variable must be a standard normal vector; pushing zero and the
unit vectors through the compiled deterministics and a transform written in numpy recovers the affine map, whose offset and Gram matrix are compared with the mean and covariance of the transformed draws, variable by variable and jointly; names,
dims, shapes and dictionary keys are compared, the posterior must be unchanged, and another order of the same variables gives the same moments. Non-trivial: at least two elements."""
ASSUMPTIONS = ["more draws than elements, so that the covariance is regular (otherwise the Cholesky factorisation refuses)", "dims are given in the order of the variable's own dimensions"]
SHAPES = [(), (2,), (3,), (2, 3), (1,), (3, 1, 2)]
KINDS = ["none", "none", "log", "logodds", "interval", "simplex", "ordered"]


def fwd(kind, x):
    if kind == "log":
        return np.log(x)
    if kind == "logodds":
        return special.logit(x)
    if kind == "interval":
        return np.log(x + 1) - np.log(3 - x)
    if kind == "simplex":
        lx = np.log(x)
        return lx[..., :-1] - lx.mean(-1, keepdims=True)
    if kind == "ordered":
        return np.concatenate([x[..., :1], np.log(np.diff(x, axis=-1))], axis=-1)
    return x


def bwd(kind, y):
    if kind == "log":
        return np.exp(y)
    if kind == "logodds":
        return special.expit(y)
    if kind == "interval":
        return -1 + 4 * special.expit(y)
    if kind == "simplex":
        return special.softmax(np.concatenate([y, -y.sum(-1, keepdims=True)], -1), -1)
    if kind == "ordered":
        return np.cumsum(np.concatenate([y[..., :1], np.exp(y[..., 1:])], -1), -1)
    return y


def transform(kind):
    return {"log": tr.log, "logodds": tr.logodds, "interval": tr.Interval(-1, 3), "simplex": tr.simplex, "ordered": tr.ordered, "none": None}[kind]


@st.composite
def s_case(draw):
    n = draw(st.integers(1, 5))
    vs = []
    for i in range(n):
        shape = draw(st.integers(0, 5))
        kind = draw(st.sampled_from(KINDS))
        if kind in ("simplex", "ordered") and (not SHAPES[shape] or SHAPES[shape][-1] < 2):
            kind = "log"
        vs.append(dict(shape=shape, kind=kind, dims=draw(st.booleans()), rename=draw(st.booleans()), form=draw(st.sampled_from(["short", "dict", "name"])), layout=draw(st.integers(0, 2))))
    use = draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n))
    return dict(vs=vs, use=use, perm=draw(st.permutations(use)), chains=draw(st.integers(1, 4)), draws=draw(st.sampled_from([40, 60])), base=draw(st.sampled_from([None, "zz", "prior_x"])), other=draw(st.booleans()), corr=draw(st.sampled_from([0.0, 0.5, 2.0])),
                scale=draw(st.sampled_from([1.0, 1.0, 0.01, 30.0])), seed=draw(st.integers(0, 10**6)))


def posterior(case, rng):
    c, d = case["chains"], case["draws"]
    common = rng.normal(size=(c, d))
    data, vals, dims = {}, {}, {}
    for i, v in enumerate(case["vs"]):
        sh = SHAPES[v["shape"]]
        fsh = sh[:-1] + (sh[-1] - 1,) if v["kind"] == "simplex" else sh
        y = rng.normal(size=(c, d) + fsh) + case["corr"] * common.reshape((c, d) + (1,) * len(fsh)) * rng.normal(size=fsh) + rng.normal(size=fsh)
        if v["kind"] == "none":
            y = y * case["scale"]
        x = bwd(v["kind"], y)
        vals[i] = x
        dims[i] = tuple(f"x{i}_{j}" for j in range(len(sh)))

        da = xr.DataArray(x, dims=("chain", "draw") + dims[i], coords={"chain": range(c), "draw": range(10, 10 + d)})
        if v["layout"] == 1:
            da = da.transpose("draw", "chain", ...)
        elif v["layout"] == 2:
            da = da.transpose(*dims[i], "chain", "draw")
        data[f"x{i}"] = da

    return az.InferenceData(posterior=xr.Dataset(data)), vals


def config(case, order):
    """Arguments for prior_from_idata and, per variable, its new name and dims."""
    var_names, kw, new = [], {}, {}
    for i in order:
        v = case["vs"][i]
        sh = SHAPES[v["shape"]]
        name = f"new{i}" if v["rename"] else f"x{i}"
        dims = tuple(f"d{i}_{j}" for j in range(len(sh))) if v["dims"] and sh else None
        t = transform(v["kind"])
        opts = [o for o, u in (("name", v["rename"]), ("dims", dims), ("transform", t)) if u]
        if not opts and v["form"] != "dict":
            var_names.append(f"x{i}") if v["form"] == "name" else kw.__setitem__(f"x{i}", None)
        elif len(opts) == 1 and v["form"] != "dict":
            kw[f"x{i}"] = {"name": name, "dims": dims, "transform": t}[opts[0]]
        else:
            cfg = {}
            if v["rename"]:
                cfg["name"] = name
            if dims:
                cfg["dims"] = dims[0] if len(dims) == 1 and v["form"] == "short" else dims
            if t is not None:
                cfg["transform"] = t
            kw[f"x{i}"] = cfg
        new[i] = (name, dims)
    return var_names, kw, new


def build(case, idata, order):
    var_names, kw, new = config(case, order)
    coords = {f"d{i}_{j}": range(n) for i, v in enumerate(case["vs"]) for j, n in enumerate(SHAPES[v["shape"]])}
    with pm.Model(coords=coords) as m:
        if case["other"]:
            pm.Normal("other", 1.0, 2.0)
        extra = {} if case["base"] is None else dict(name=case["base"])
        keep = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
        pri = prior_from_idata(idata, var_names=var_names, **extra, **kw)
        require(all((dict(kw[k]) if isinstance(kw[k], dict) else kw[k]) == keep[k] for k in kw), "the caller's configuration changed")
    return m, pri, new


def moments(case, m, pri, new, vals, order):
    base = [rv for rv in m.free_RVs if rv.name != "other"]
    require([rv.name for rv in base] == [case["base"] or "trace_prior_"], f"free variables {[rv.name for rv in m.free_RVs]}")
    base = base[0]
    want = {nm for nm, _ in new.values()}
    require(set(pri) == want, f"returned variables {sorted(pri)}, expected {sorted(want)}")
    require({v.name for v in m.deterministics} == want and len(m.deterministics) == len(want), f"deterministics {[v.name for v in m.deterministics]}, expected {sorted(want)}")
    sizes = {i: fwd(case["vs"][i]["kind"], vals[i])[0, 0].size for i in order}
    n = sum(sizes.values())
    z = m.rvs_to_values[base]
    outs = [m[new[i][0]] for i in order]
    for i, o in zip(order, outs):
        require(pri[new[i][0]] is o, f"the returned {new[i][0]} is not the model's variable")
        d = m.named_vars_to_dims.get(new[i][0])
        require((tuple(d) if d else None) == (new[i][1] or None), f"{new[i][0]}: dims {d}, expected {new[i][1]}")
    rep = m.replace_rvs_by_values(outs)
    f = pytensor.function([z], rep, mode="FAST_COMPILE")
    lp = m.compile_fn(m.logp(vars=[base]), inputs=[z], mode="FAST_COMPILE", point_fn=False)
    rng = np.random.default_rng(case["seed"] + 1)
    for p in (np.zeros(n), rng.normal(size=n)):
        close(float(lp(p)), float(-0.5 * (p ** 2).sum() - 0.5 * n * np.log(2 * np.pi)), "log-density of the base variable", rtol=1e-9, atol=1e-9)

    def flat(p):
        vals_ = f(p)
        for i, x in zip(order, vals_):
            require(np.shape(x) == SHAPES[case["vs"][i]["shape"]], f"{new[i][0]} has shape {np.shape(x)}, expected {SHAPES[case['vs'][i]['shape']]}")
        return np.concatenate([fwd(case["vs"][i]["kind"], x).ravel() for i, x in zip(order, vals_)])
    mean = flat(np.zeros(n))
    # small steps keep constrained values away from their limits; the map is affine in the transformed space
    h = 1e-1
    A = np.stack([(flat(h * e) - flat(-h * e)) / (2 * h) for e in np.eye(n)], 1)
    p = rng.normal(size=n) * 0.1
    close(flat(p), mean + A @ p, "the prior is an affine map of the base variable", rtol=1e-5, atol=1e-5 * case["scale"] + 1e-7)
    return mean, A @ A.T, np.repeat(order, [sizes[i] for i in order])


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    idata, vals = posterior(case, rng)
    keep = idata.posterior.copy(deep=True)
    order = case["use"]
    res = {}
    for label, o in (("first", order), ("permuted", case["perm"])):
        m, pri, new = build(case, idata, o)
        mean, cov, owner = moments(case, m, pri, new, vals, o)
        flat = np.concatenate([fwd(case["vs"][i]["kind"], vals[i]).reshape(case["chains"] * case["draws"], -1) for i in o], 1)
        wm, wc = flat.mean(0), np.atleast_2d(np.cov(flat, rowvar=False))
        tol = np.sqrt(np.diag(wc))
        require(bool(np.all(np.abs(mean - wm) <= 1e-5 * (tol + np.abs(wm)) + 1e-9)), f"mean of the prior differs from that of the draws: {mean} and {wm} for elements of variables {owner.tolist()}")
        bad = np.abs(cov - wc) > 1e-4 * np.outer(tol, tol) + 1e-10
        require(not bad.any(), f"covariance of the prior differs from that of the draws at {np.argwhere(bad)[:3].tolist()}: {cov[bad][:3]} and {wc[bad][:3]} (variables {owner.tolist()})")
        for i in o:
            res.setdefault(i, []).append((mean[owner == i], cov[np.ix_(owner == i, owner == i)]))
        ctx.count()
    for i, (a, b) in res.items():
        close(b[0], a[0], f"mean of x{i} after reordering", rtol=1e-4, atol=1e-6 * case["scale"] + 1e-6)
        s = np.sqrt(np.diag(a[1]))
        close(b[1] / np.outer(s, s), a[1] / np.outer(s, s), f"covariance of x{i} after reordering", rtol=1e-3, atol=1e-4)
    require(keep.identical(idata.posterior), "the posterior was changed")
    with pm.Model() as m:
        require(prior_from_idata(idata) == {} and not m.named_vars, "no variables requested, but some were made")
    ctx.label(*{case["vs"][i]["kind"] for i in order}, f"variables={len(order)}", f"chains={case['chains']}")
    ctx.nontriv(len(owner) >= 2)


def s_draws():
    return s_case()


def check_draws(case, ctx):
    """Forward draws have the moments of the draws (the graph used by sampling is the one used by densities)."""
    rng = np.random.default_rng(case["seed"])
    idata, vals = posterior(case, rng)
    order = case["use"]
    m, pri, new = build(case, idata, order)
    N = 1500
    d = pm.draw([m[new[i][0]] for i in order], draws=N, random_seed=case["seed"], mode="FAST_COMPILE")
    got = np.concatenate([fwd(case["vs"][i]["kind"], x).reshape(N, -1) for i, x in zip(order, d)], 1)
    flat = np.concatenate([fwd(case["vs"][i]["kind"], vals[i]).reshape(case["chains"] * case["draws"], -1) for i in order], 1)
    ok = np.isfinite(got).all(0) & (np.abs(got).max(0) < 25)  # values at the limit of their support lose digits
    mean, cov = flat.mean(0), np.atleast_2d(np.cov(flat, rowvar=False))
    s = np.sqrt(np.diag(cov))
    zs = (got.mean(0) - mean)[ok] / (s[ok] / np.sqrt(N))
    require(bool(np.all(np.abs(zs) < 6.5)), f"means of the draws are {np.abs(zs).max():.1f} standard errors from the posterior's")
    g = (got[:, ok] - mean[ok]) / s[ok]
    c = cov[np.ix_(ok, ok)] / np.outer(s[ok], s[ok])
    se = np.sqrt((1 + c ** 2) / N)
    require(bool(np.all(np.abs(g.T @ g / N - c) < 6.5 * se)), f"correlations of the draws differ from the posterior's by {np.max(np.abs(g.T @ g / N - c) / se):.1f} standard errors")
    ctx.label(f"variables={len(order)}")
    ctx.nontriv(len(s) >= 2)


TASKS = [Task("moments", s_case, check, 60, 2500, soft_s=(60, 900), shards=(3, 5)), Task("draws", s_draws, check_draws, 16, 400, soft_s=(40, 600), shards=(2, 3))]
