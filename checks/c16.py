"""C16: draws, shapes and initial points of the added distributions."""
import numpy as np
import pymc as pm
import pytensor
from hypothesis import strategies as st
from scipy import stats

from harness import dists, gen, stat
from harness.core import Task, limit, require

RULE = """A case is one of the six families, parameter arrays of none to two broadcastable dims (boundary values and mixed signs included), a size, shape or dims request, and a seed. Draws
have the requested shape, lie in the support and follow the reference law member by member (Kolmogorov-Smirnov, or exact binomial intervals per value), members are uncorrelated, equal
seeds repeat and different seeds differ; initial points have the shape and a finite density. Non-trivial: every case."""
ASSUMPTIONS = ["generalised Poisson dispersion at most 0.75 for draws (heavier tails make the branching algorithm arbitrarily slow)",
               "its law for negative dispersion is the stated mass function up to the mass beyond the last possible value, which the formula leaves unassigned"]
MODE = "FAST_COMPILE"


@st.composite
def s_draws(draw):
    kind = draw(st.sampled_from(list(dists.CLS)))
    return dict(kind=kind, params=draw(dists.s_params(kind, draws=True)), scipy=draw(st.booleans()) if kind == "gev" else False, seed=draw(st.integers(0, 10**6)))


def kwargs(case):
    ps = dists.arrays(case["kind"], case["params"])
    kw = dict(zip(dists.PARAMS[case["kind"]], ps))
    if case.get("scipy"):
        kw["xi"] = -kw["xi"]; kw["scipy"] = True
    return ps, kw


def table(kind, ps):
    """(values, probabilities) of a count law covering all but a negligible mass, plus what the formula leaves unassigned."""
    ps = [float(p) for p in ps]
    if kind == "skellam":
        w = 12 * np.sqrt(sum(ps)) + 30
        xs = np.arange(int(ps[0] - ps[1] - w), int(ps[0] - ps[1] + w) + 1)
    elif kind == "gp":
        top = dists.gp_max(*ps)
        xs = np.arange(0, int(min(top, 4000)) + 1)
    else:
        xs = np.arange(0, 3000)
    return xs, np.exp([dists.ref_logp(kind, x, *ps) for x in xs])


def check_draws(case, ctx):
    kind, N = case["kind"], 1500
    ps, kw = kwargs(case)
    shape = np.broadcast_shapes(*[p.shape for p in ps])
    rv = dists.CLS[kind].dist(**kw, size=(N,) + shape)
    with limit(120, "drawing"):
        x = np.asarray(pm.draw(rv, random_seed=case["seed"], mode=MODE))
    require(x.shape == (N,) + shape, "draws have shape %s, expected %s", x.shape, (N,) + shape)
    full = [np.broadcast_to(np.asarray(p, float), shape) for p in ps]
    require(np.isfinite(x).all(), "non-finite draws")
    for j in np.ndindex(*shape):
        pj = [float(p[j]) for p in full]
        s = x[(slice(None),) + j]
        what = f"{kind}{tuple(pj)}"
        if kind not in dists.DISCRETE:
            lo, hi = dists.quantile(kind, 0.0, *pj), dists.quantile(kind, 1.0, *pj)
            require(((s >= lo) & (s <= hi)).all(), "%s: draws outside the support", what)
            stat.ks_uniform(dists.ref_cdf(kind, s, *pj), what)
            continue
        require(np.all(s == np.round(s)), "%s: fractional counts", what)
        lp = np.array([dists.ref_logp(kind, v, *pj) for v in np.unique(s)])
        require(np.isfinite(lp).all(), "%s: impossible values %s drawn", what, np.unique(s)[~np.isfinite(lp)])
        xs, p = table(kind, pj)
        # group values so that every group has a sizeable expectation
        groups = np.minimum((np.cumsum(p) * 12).astype(int), 11)
        idx = {int(v): int(g) for v, g in zip(xs, groups)}
        counts = np.bincount([idx.get(int(v), 12) for v in s], minlength=13)
        mass = np.bincount(groups, weights=p, minlength=13).clip(0, 1)
        slack = max(0.0, 1 - p.sum())
        for g in range(12):
            hi = stats.binom.sf(counts[g] - 1, N, min(1, mass[g] + slack)) if counts[g] > N * mass[g] else 1
            lo = stats.binom.cdf(counts[g], N, mass[g]) if counts[g] < N * mass[g] else 1
            require(min(lo, hi) > stat.ALPHA, "%s: values %s drawn %d/%d times, expected probability %.4f", what, xs[groups == g].tolist()[:4], counts[g], N, mass[g])
        require(stats.binom.sf(counts[12] - 1, N, min(1, slack + 1e-12)) > stat.ALPHA, "%s: %d draws beyond every tabulated value", what, counts[12])
    if np.prod(shape) > 1:
        flat = x.reshape(N, -1)
        r = stats.rankdata(flat, axis=0)
        if r[:, 0].std() > 0 and r[:, 1].std() > 0:
            c = np.corrcoef(r[:, 0], r[:, 1])[0, 1] * np.sqrt(N)
            require(abs(c) < 7, "two members of a batch have rank correlation %.3f", c / np.sqrt(N))
    again = np.asarray(pm.draw(rv, random_seed=case["seed"], mode=MODE))
    require(np.array_equal(again, x), "equal seeds gave different draws")
    if x.std() > 0 and N * np.prod(shape) > 50:
        require(not np.array_equal(np.asarray(pm.draw(rv, random_seed=case["seed"] + 1, mode=MODE)), x), "different seeds gave equal draws")
    ctx.label(kind, f"{len(shape)} dims")
    ctx.nontriv()


@st.composite
def s_shapes(draw):
    kind = draw(st.sampled_from(list(dists.CLS)))
    return dict(kind=kind, params=draw(dists.s_params(kind, draws=False)), how=draw(st.sampled_from(["default", "size", "shape", "shape", "dims", "observed"])), extra=draw(st.sampled_from([[], [1], [2], [3, 2]])),
                expand=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def check_shapes(case, ctx):
    kind = case["kind"]
    ps, kw = kwargs(case)
    cls = dists.CLS[kind]
    base = np.broadcast_shapes(*[p.shape for p in ps])
    full = base if case["how"] == "default" else tuple(case["extra"]) + (tuple(n if n > 1 or not case["expand"] else 2 for n in base))
    extra = dict(default={}, size=dict(size=full), shape=dict(shape=full), dims=dict(dims=tuple(f"d{i}" for i in range(len(full)))), observed={})[case["how"]]
    heavy = (kind == "gp" and np.max(ps[1]) > 0.8) or (kind == "bnb" and np.min(ps[0]) < 0.5)
    if case["how"] in ("default", "size", "shape"):
        rv = cls.dist(**kw, **extra)
        require(rv.type.ndim == len(full), "the variable has %d dims, expected shape %s", rv.type.ndim, full)
        if not heavy:
            with limit(60, "drawing"):
                x = pm.draw(rv, draws=2, random_seed=case["seed"], mode=MODE)
            require(x.shape == (2,) + full, "draws have shape %s, expected %s", x.shape[1:], full)
    rng = np.random.default_rng(case["seed"])
    obs = rng.integers(1, 3, full) if kind in dists.DISCRETE else np.broadcast_to(dists.quantile(kind, 0.4, *ps), full)
    with pm.Model(coords={f"d{i}": range(n) for i, n in enumerate(full)}) as m:
        if case["how"] == "observed":
            cls("x", **kw, observed=obs)
        elif case["how"] in ("size",):
            cls("x", **kw, shape=full)
        else:
            cls("x", **kw, **extra)
    if not heavy:
        with limit(90, "drawing"):
            x = pm.draw(m["x"], random_seed=case["seed"], mode=MODE)
        require(x.shape == full, "draws of the model variable have shape %s, expected %s", x.shape, full)
        require(all(np.isfinite(dists.ref_logp(kind, v, *[float(p) for p in t])) for v, *t in zip(np.ravel(x), *[np.ravel(np.broadcast_to(p, full)) for p in ps])), "a draw lies outside the support")
    if case["how"] != "observed":
        with limit(90, "initial point"):
            ip = m.initial_point()
            (v,) = m.value_vars
            require(ip[v.name].shape == full, "the initial point has shape %s, expected %s", ip[v.name].shape, full)
            lp = float(m.compile_logp(mode=MODE)(ip))
        require(np.isfinite(lp), "log-density %s at the initial point %s of %s%s", lp, ip[v.name].tolist(), kind, [np.asarray(p).tolist() for p in ps])
    ctx.label(kind, case["how"])
    ctx.nontriv()


TASKS = [Task("draws", s_draws, check_draws, quick=90, thorough=6000, shards=(4, 4)), Task("shapes", s_shapes, check_shapes, quick=120, thorough=8000, shards=(4, 4))]
