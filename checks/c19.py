"""C19: histogram summaries against plain counting, and the approximated likelihood against the sum over observations."""
import warnings

import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness import gen
from harness.core import Reject, Task, close, require
from pymc_extras.distributions.histogram_utils import discrete_histogram, histogram_approximation, quantile_histogram

RULE = """A case is a data array (up to 60 rows, none to two trailing dims; continuous with or without ties, negative values and exact zeros; integers of several types, small or
huge; numpy, dask in several chunks, dask data frame) with a number of quantiles, zero inflation flag or minimal count. Every observation is counted exactly once, in the bin that contains it (for
discrete data: its own value, zeros in their own bin), bins cover the data range, representatives lie inside their bins, and the
potential equals the sum over observations of the log-density at their representative (exactly the log-likelihood for discrete data). Non-trivial: ties, zeros, negative or
several columns."""
ASSUMPTIONS = ["finite data with at least one entry outside zero when zeros get their own bin", "a value exactly on an edge may be counted in either neighbouring bin's closure", "rare values below min_count are dropped"]


@st.composite
def s_cont(draw):
    tail = draw(st.sampled_from([[], [], [2], [1], [3], [2, 2]]))
    n = draw(st.integers(1, 60 // max(1, int(np.prod(tail)))))
    kind = draw(st.sampled_from(["plain", "plain", "ties", "tiny", "large", "one"]))
    zi = draw(st.booleans())
    seed = draw(st.integers(0, 10**6))
    return dict(tail=tail, n=n, kind=kind, zi=zi, neg=draw(st.booleans()), zeros=draw(st.sampled_from([0, 0.2, 0.6])) if zi else 0, seed=seed, q=draw(st.sampled_from([2, 3, 5, 10, 33, 100, 1000])),
                box=draw(st.sampled_from(["numpy", "numpy", "numpy", "dask", "frame"])), chunk=draw(st.integers(1, 30)), pot=draw(st.booleans()))


def values(case):
    rng = np.random.default_rng(case["seed"])
    shape = (case["n"], *case["tail"])
    x = rng.normal(size=shape)
    if case["kind"] == "ties":
        x = np.round(x * 2) / 2
    elif case["kind"] == "tiny":
        x = 1.0 + x * 1e-9
    elif case["kind"] == "large":
        x = x * 1e9
    elif case["kind"] == "one":
        x = np.full(shape, 1.5)
    if not case["neg"]:
        x = np.abs(x)
    if case["zi"] and case["zeros"]:
        x[rng.uniform(size=shape) < case["zeros"]] = 0.0
    return x


def boxed(x, case):
    if case["box"] == "numpy":
        return x
    import dask.array
    import dask.dataframe
    if case["box"] == "dask" or x.ndim > 2:
        return dask.array.from_array(x, chunks=(case["chunk"], *x.shape[1:]))
    return dask.dataframe.from_array(x, chunksize=case["chunk"])


def computed(h):
    import dask
    return dask.compute(h)[0]


def check_cont(case, ctx):
    x = values(case)
    nz = x[x != 0] if case["zi"] else x
    if nz.size == 0:
        raise Reject
    keep = x.copy()
    data = boxed(x, case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = computed(quantile_histogram(data, n_quantiles=case["q"], zero_inflation=case["zi"]))
    require(np.array_equal(keep, x), "the data was changed")
    tail = tuple(case["tail"])
    size = case["q"] - 1 + case["zi"]
    count, lo, hi, mid = (np.asarray(h[k]) for k in ("count", "lower", "upper", "mid"))
    require(count.shape == (size, *tail) and all(v.shape == (size,) + (1,) * len(tail) for v in (lo, hi, mid)), "shapes %s %s for %s quantiles of data %s", count.shape, mid.shape, case["q"], x.shape)
    l, u, m = lo.ravel(), hi.ravel(), mid.ravel()
    flat = x.reshape(case["n"], -1)
    cnt = count.reshape(size, -1)
    require((cnt.sum(0) == case["n"]).all(), "%s observations are counted %s times", case["n"], cnt.sum(0).tolist())
    require((l <= m).all() and (m <= u).all(), "representatives outside their bins")
    if case["zi"]:
        require(l[0] == u[0] == m[0] == 0 and (cnt[0] == (flat == 0).sum(0)).all(), "zeros: bin [%s, %s], counts %s of %s", l[0], u[0], cnt[0].tolist(), (flat == 0).sum(0).tolist())
        l, u, m, cnt = l[1:], u[1:], m[1:], cnt[1:]
        cols = [c[c != 0] for c in flat.T]
    else:
        cols = list(flat.T)
    require((l[1:] == u[:-1]).all() and (np.diff(np.append(l, u[-1])) >= 0).all(), "bins are not adjacent and increasing")
    require(l[0] == nz.min() and u[-1] == nz.max(), "bins cover [%s, %s], data [%s, %s]", l[0], u[-1], nz.min(), nz.max())
    if case["box"] == "numpy" and case["q"] > 2:
        want = np.quantile(np.sort(nz.ravel()), np.linspace(0, 1, case["q"]))
        close(np.append(l, u[-1]), want, "bin edges", rtol=1e-9, atol=1e-12 * np.abs(nz).max())
    edges = np.append(l, u[-1])
    for c, k in zip(cols, cnt.T):
        # cumulative counts at every edge lie between the numbers of values below and up to the edge
        cum = np.append(0, np.cumsum(k))
        below = np.array([(c < e).sum() for e in edges]); upto = np.array([(c <= e).sum() for e in edges])
        require((below <= cum).all() and (cum <= upto).all(), "cumulative counts %s outside %s..%s", cum[:6].tolist(), below[:6].tolist(), upto[:6].tolist())
    if case["pot"] and case["kind"] in ("plain", "ties"):
        positive = not case["neg"] and not case["zi"] and case["n"] > 0 and (x > 0).all()
        with warnings.catch_warnings(), pm.Model() as model:
            warnings.simplefilter("ignore")
            mu = pm.Normal("mu", shape=tail)
            dist = pm.LogNormal.dist(mu, 2.0) if positive else pm.Normal.dist(mu, 2.0)
            pot = histogram_approximation("pot", dist, observed=boxed(x, case), n_quantiles=case["q"], zero_inflation=case["zi"])
        require([p.name for p in model.potentials] == ["pot"], "potential is not registered")
        v = np.linspace(-1, 1, int(np.prod(tail)) if tail else 1).reshape(tail)
        got = model.compile_fn(model.logp(vars=model.potentials), inputs=model.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")(dict(mu=v))
        full_m = mid
        z = (np.log(full_m) if positive else full_m) - v
        lp = -0.5 * (z / 2) ** 2 - np.log(2) - 0.5 * np.log(2 * np.pi) - (np.log(full_m) if positive else 0)
        close(float(got), float((lp * count).sum()), "potential", rtol=1e-8)
        ctx.label("potential")
    ctx.label(case["kind"], case["box"], "zero inflated" if case["zi"] else "plain", "negative" if case["neg"] else "positive", f"tail {case['tail']}")
    ctx.nontriv(case["kind"] == "ties" or case["zi"] or len(tail) > 0)


@st.composite
def s_disc(draw):
    tail = draw(st.sampled_from([[], [], [2], [1], [3], [2, 2]]))
    n = draw(st.integers(1, 60 // max(1, int(np.prod(tail)))))
    dtype = draw(st.sampled_from(["int64", "int64", "int32", "int8", "uint8", "uint16"]))
    base = draw(st.sampled_from([0, 0, 0, -5, 100, 250]))
    spread = draw(st.sampled_from([1, 3, 6, 20]))
    return dict(tail=tail, n=n, dtype=dtype, base=base, spread=spread, step=draw(st.sampled_from([1, 1, 2, 7])), seed=draw(st.integers(0, 10**6)), min_count=draw(st.sampled_from([None, None, 1, 2, 3, 5])),
                box=draw(st.sampled_from(["numpy", "numpy", "numpy", "dask", "frame"])), chunk=draw(st.integers(1, 30)), pot=draw(st.booleans()))


def check_disc(case, ctx):
    rng = np.random.default_rng(case["seed"])
    shape = (case["n"], *case["tail"])
    info = np.iinfo(case["dtype"])
    x = np.clip(case["base"] + case["step"] * rng.integers(0, case["spread"] + 1, size=shape), info.min, info.max).astype(case["dtype"])
    tail = tuple(case["tail"])
    mc = case["min_count"]
    vals, tot = np.unique(x, return_counts=True)
    keep = vals[tot >= (mc or 0)]
    if len(keep) == 0:
        raise Reject
    before = x.copy()
    h = computed(discrete_histogram(boxed(x, case), min_count=mc))
    require(np.array_equal(before, x), "the data was changed")
    mid, count = np.asarray(h["mid"]), np.asarray(h["count"])
    require(mid.shape == (len(keep),) + (1,) * len(tail) and count.shape == (len(keep), *tail), "shapes %s %s for %s values of data %s", mid.shape, count.shape, len(keep), x.shape)
    require([int(v) for v in mid.ravel()] == [int(v) for v in keep], "values %s, expected %s", mid.ravel()[:8].tolist(), keep[:8].tolist())
    want = np.array([(x == v).sum(0) for v in keep])
    require((count == want).all(), "counts %s, expected %s", count.ravel()[:10].tolist(), want.ravel()[:10].tolist())
    if case["pot"] and x.min() >= 0:
        with pm.Model() as model:
            r = pm.Normal("r", shape=tail)
            if case["seed"] % 2:
                top = int(x.max()) if not tail else x.reshape(case["n"], -1).max(0).reshape(tail)  # bins of one column can be impossible in another
                dist = pm.DiscreteUniform.dist(0, top)
            else:
                dist = pm.Poisson.dist(pm.math.exp(r))
            histogram_approximation("pot", dist, observed=boxed(x, case), **({} if mc is None else {"min_count": mc}))
        v = np.linspace(-1, 1, int(np.prod(tail)) if tail else 1).reshape(tail)
        got = model.compile_fn(model.logp(vars=model.potentials), inputs=model.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")(dict(r=v))
        xs = x.astype(float)
        if case["seed"] % 2:
            lp = np.broadcast_to(-np.log(np.asarray(top, float) + 1), x.shape)
        else:
            from scipy.special import gammaln
            lp = xs * v - np.exp(v) - gammaln(xs + 1)
        close(float(got), float((lp * np.isin(x, keep)).sum()), "potential against the log-likelihood", rtol=1e-6)
        ctx.label("potential")
    ctx.label(case["dtype"], case["box"], f"min_count {mc}", f"tail {case['tail']}", "rare values dropped" if len(keep) < len(vals) else "all kept")
    ctx.nontriv(len(keep) > 1)


TASKS = [Task("cont", s_cont, check_cont, quick=300, thorough=20000, shards=(4, 4)), Task("disc", s_disc, check_disc, quick=300, thorough=20000, shards=(4, 4))]
