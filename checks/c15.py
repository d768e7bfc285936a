"""C15: log-densities and distribution functions of the added distributions against independent formulas."""
import warnings

import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import dists, gen
from harness.core import Task, Violation, close, known, limit, require

RULE = """A case is one of the six families, parameter arrays of none to two broadcastable dims (integers, extremes and boundary values included), a variable shape, and values at quantiles, far in
the tails, at and outside the ends of the support. The evaluated log-density equals an independent formula (convolution, mixture and transformed forms) and is minus infinity exactly outside the
support; distribution functions equal the reference or, for counts, the cumulated density; one invalid parameter raises. Non-trivial: every case."""
ASSUMPTIONS = ["values of counts are integers", "the end points of continuous supports are not judged", "densities below exp(-650) are not judged"]
MODE = "FAST_COMPILE"


def ev(x, **kw):
    with limit(60, "evaluation"):
        return np.asarray(pytensor.function([], x, mode=MODE, on_unused_input="ignore")())


@st.composite
def s_logp(draw):
    kind = draw(st.sampled_from(list(dists.CLS)))
    case = dict(kind=kind, params=draw(dists.s_params(kind)), scipy=draw(st.booleans()) if kind == "gev" else False)
    case["extra"] = draw(st.sampled_from([[], [], [2], [1]]))
    case["form"] = draw(st.sampled_from(["const", "model", "observed"]))
    n = 8
    if kind in dists.DISCRETE:
        case["x"] = draw(st.lists(st.one_of(st.integers(-3, 12), st.integers(0, 60), st.integers(-60, 60), st.sampled_from([150, 400, -150])), min_size=n, max_size=n))
    else:
        case["x"] = draw(st.lists(st.one_of(gen.q(0.01, 0.99, 64), st.sampled_from([1e-6, 1 - 1e-6, -0.5, 1.5, -1.0, 3.0])), min_size=n, max_size=n))
    return case


def values_for(case, ps, shape):
    """One array of values of the variable's shape per generated entry."""
    kind = case["kind"]
    rng = np.random.default_rng(len(case["x"]))
    for q in case["x"]:
        full = [np.broadcast_to(p, shape) for p in ps]
        if kind in dists.DISCRETE:
            yield np.full(shape, q) + rng.integers(0, 2, shape)
            continue
        lo, hi = dists.quantile(kind, 0.0, *full), dists.quantile(kind, 1.0, *full)
        if 0 < q < 1:
            x = dists.quantile(kind, q, *full)
        else:  # relative to the ends of the support, or far out
            w = dists.quantile(kind, 0.9, *full) - dists.quantile(kind, 0.1, *full)
            if q < 0:
                x = np.where(np.isfinite(lo), lo + q * w, dists.quantile(kind, 0.01, *full) + q * w)
            else:
                x = np.where(np.isfinite(hi), hi + (q - 1) * w, dists.quantile(kind, 0.99, *full) + q * w)
        yield np.asarray(x, float)


def judge(got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "%s has shape %s, expected %s", what, got.shape, want.shape)
    keep = (want > -650) | np.isneginf(want)
    require(not np.isnan(got[keep]).any(), "%s is not a number where the density is %s", what, want[np.isnan(got)][:3])
    bad = np.isneginf(got) != np.isneginf(want)
    require(not (bad & keep).any(), "%s: support wrong: got %s, expected %s", what, got[bad & keep][:3], want[bad & keep][:3])
    k = keep & np.isfinite(want)
    close(got[k], want[k], what, rtol=1e-6, atol=1e-6)


def check_logp(case, ctx):
    kind = case["kind"]
    ps = dists.arrays(kind, case["params"])
    cls, names = dists.CLS[kind], dists.PARAMS[kind]
    kw = dict(zip(names, ps))
    if case["scipy"]:
        kw["xi"] = -kw["xi"]; kw["scipy"] = True
    shape = tuple(case["extra"]) + np.broadcast_shapes(*[p.shape for p in ps])
    vec = np.vectorize(lambda x, *a: dists.ref_logp(kind, x, *a), otypes=[float])
    rv = cls.dist(**kw, shape=shape)
    v = rv.type()
    with limit(90, "compilation"):
        f = pytensor.function([v], pm.logp(rv, v), mode=MODE)
    vals = [x.astype(v.dtype) for x in values_for(case, ps, shape)]
    for x in vals:
        judge(f(x), vec(x, *ps) if shape else np.asarray(vec(x, *ps)), f"log-density of {kind} at {x.tolist()}")
    if case["form"] != "const":
        x = next((x for x in vals if np.isfinite(vec(x, *ps)).all() and (vec(x, *ps) > -300).all()), None)
        if x is not None:
            with pm.Model() as m:
                if case["form"] == "observed":
                    cls("x", **kw, observed=x)
                else:
                    cls("x", **kw, shape=shape)
            if case["form"] == "observed":
                close(float(m.compile_logp(mode=MODE)({})), float(np.sum(vec(x, *ps))), "model log-density of observed data", rtol=1e-6, atol=1e-6)
            else:
                val = m.value_vars[0]
                tr = m.rvs_to_transforms[m["x"]]
                require(tr is None or kind == "chi", "unexpected transform")
                x = np.abs(x) + 1e-3 if kind == "chi" else x
                point = {val.name: (np.log(x) if tr is not None else x).astype(val.dtype)}
                want = float(np.sum(vec(x, *ps) + (np.log(x) if tr is not None else 0)))
                close(float(m.compile_logp(mode=MODE)(point)), want, "model log-density", rtol=1e-6, atol=1e-6)
    # distribution functions
    try:
        with limit(90, "log distribution function"):
            g = pytensor.function([v], pm.logcdf(rv, v), mode=MODE)
            cdf = [g(x) for x in vals]
    except NotImplementedError:
        cdf = None
        require(kind != "gev", "the distribution function is missing")
    if cdf is not None:
        ctx.label(f"logcdf {kind}")
        for x, got in zip(vals, cdf):
            require(got.shape == shape, "log distribution function has shape %s", got.shape)
            if kind in dists.DISCRETE:
                if x.max() > 80 or kind == "skellam":
                    continue
                want = np.vectorize(lambda t, *a: np.sum(np.exp([dists.ref_logp(kind, k, *a) for k in range(0, int(t) + 1)])), otypes=[float])(x, *ps)
            else:
                want = dists.ref_cdf(kind, x, *[np.asarray(p, float) for p in ps])
            if kind == "gev" and known("gev-logcdf-above"):
                # listed finding: minus infinity instead of zero above the upper end point (xi < 0)
                above = (np.asarray(ps[2]) < 0) & (want == 1.0) & np.isneginf(got)
                got = np.where(above, 0.0, got)
            close(np.exp(got), want, f"distribution function of {kind} at {x.tolist()}", rtol=1e-6, atol=1e-8)
    ctx.label(kind, f"{len(shape)} dims")
    ctx.nontriv()


BAD = dict(gev=[("sigma", -1.0), ("sigma", 0.0), ("xi", 1.5), ("xi", -1.25)], chi=[("nu", -1.0), ("nu", 0.0)], maxwell=[("a", -1.0), ("a", 0.0)],
           gp=[("mu", -1.0), ("mu", 0.0), ("lam", 1.5), ("lam", -1.5), ("lam", "low")], bnb=[("alpha", -1.0), ("alpha", 0.0), ("beta", -0.5), ("beta", 0.0), ("r", 0.0), ("r", -2.0)],
           skellam=[("mu1", -1.0), ("mu2", -0.5)])


@st.composite
def s_bad(draw):
    kind = draw(st.sampled_from(list(dists.CLS)))
    return dict(kind=kind, params=draw(dists.s_params(kind, maxdim=1)), bad=draw(st.sampled_from(BAD[kind])), pos=draw(st.integers(0, 5)), q=draw(gen.q(0.1, 0.9, 16)), k=draw(st.integers(0, 3)))


def check_bad(case, ctx):
    kind = case["kind"]
    ps = [np.array(p, float) for p in dists.arrays(kind, case["params"])]
    name, val = case["bad"]
    i = dists.PARAMS[kind].index(name)
    if val == "low":
        val = -float(np.min(ps[0])) / 4 - 0.05
    full = np.broadcast_shapes(*[p.shape for p in ps])
    x = np.broadcast_to(dists.quantile(kind, case["q"], *ps) if kind not in dists.DISCRETE else np.array(case["k"]), full)
    flat = ps[i].reshape(-1).copy(); flat[case["pos"] % flat.size] = val
    bad = list(ps); bad[i] = flat.reshape(ps[i].shape)
    rv = dists.CLS[kind].dist(**dict(zip(dists.PARAMS[kind], bad)))
    for what, fn in [("log-density", pm.logp), ("log distribution function", pm.logcdf)]:
        try:
            got = ev(fn(rv, x.astype(rv.dtype)))
        except Violation:
            raise
        except (ValueError, NotImplementedError):  # ParameterValueError is a ValueError
            continue
        raise Violation(f"{what} of {kind} with {name}={val} evaluated to {got.tolist()} instead of an error")
    ctx.label(f"{kind} {name}")
    ctx.nontriv()


TASKS = [Task("logp", s_logp, check_logp, quick=240, thorough=12000, shards=(6, 6)), Task("invalid", s_bad, check_bad, quick=50, thorough=3000, shards=(2, 2))]


def probe_above():
    v = float(ev(pm.logcdf(dists.GenExtreme.dist(0.0, 1.0, -0.5), 3.0)))
    return None if v == 0 else f"logcdf above the upper end point is {v}"


PROBES = {"gev-logcdf-above": probe_above}
