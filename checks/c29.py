"""C29: spline bases and interpolation against the Cox-de Boor recursion."""
import numpy as np
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness.core import Task, close, require
from pymc_extras.utils.spline import BSplineBasis, bspline_basis, bspline_interpolation, numpy_bspline_basis

RULE = """A case is a degree 0-6, a number of outputs from degree+1 to 40, 1-40 evaluation points (regular grid, knots, end points, random, unsorted, repeated, points next to knots) of 32 or 64 bit floats, and values of one to four dimensions,
32 or 64 bits, constant, shared or symbolic with a length that changes between calls. Dense, sparse and numpy bases are compared with a Cox-de Boor recursion written in extended precision, and must be nonnegative, sum to one, have at most
degree+1 consecutive nonzero entries and reproduce the ends; interpolation must be the basis applied to the 0th axis, with its inferred shape and gradient, exact for constants and (degree 1 and more) for values equal to the Greville abscissae.
Non-trivial: more outputs than degree+1 and a point inside the domain."""
ASSUMPTIONS = ["at least degree+1 outputs (fewer are refused)", "evaluation points lie in [0, 1]", "evaluation points are floats (integers are refused)"]


@st.composite
def s_case(draw):
    d = draw(st.integers(0, 6))
    k = d + 1 + draw(st.one_of(st.integers(0, 4), st.integers(0, 33)))
    shape = draw(st.sampled_from([(), (), (3,), (1,), (k,), (2, 3), (k, 2), (2, 1, 2)]))
    return dict(d=d, k=k, m=draw(st.integers(1, 40)), pts=draw(st.sampled_from(["n", "grid", "knots", "ends", "random", "near", "same"])), dtype=draw(st.sampled_from(["float64", "float64", "float32"])), xtype=draw(st.sampled_from(["float64", "float64", "float32"])),
                shape=shape, how=draw(st.sampled_from(["constant", "shared", "symbolic", "symbolic"])), sparse=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def knots(k, d):
    return np.concatenate([np.zeros(d), np.linspace(0, 1, k - d + 1), np.ones(d)]).astype(np.longdouble)


def cox(x, k, d):
    t = knots(k, d)
    x = np.asarray(x, dtype=np.longdouble)
    nb = len(t) - 1
    B = np.zeros((len(x), nb), dtype=np.longdouble)
    for i, v in enumerate(x):
        # the last nonempty interval is closed
        j = np.searchsorted(t, v, side="right") - 1
        B[i, min(max(j, d), k - 1)] = 1
    for p in range(1, d + 1):
        N = np.zeros((len(x), nb - p), dtype=np.longdouble)
        for j in range(nb - p):
            a, b = t[j + p] - t[j], t[j + p + 1] - t[j + 1]
            if a > 0:
                N[:, j] += (x - t[j]) / a * B[:, j]
            if b > 0:
                N[:, j] += (t[j + p + 1] - x) / b * B[:, j + 1]
        B = N
    return B.astype(float)


def points(case, rng):
    m, k, d, dt = case["m"], case["k"], case["d"], case["dtype"]
    kn = np.unique(knots(k, d).astype(float))
    kind = case["pts"]
    if kind in ("n", "grid"):
        x = np.linspace(0, 1, m)
    elif kind == "knots":
        x = rng.choice(kn, m)
    elif kind == "ends":
        x = rng.choice([0.0, 1.0, 0.5], m)
    elif kind == "near":
        x = np.clip(rng.choice(kn, m) + rng.choice([-1e-9, 1e-9, 1e-4, -1e-4, 0], m), 0, 1)
    elif kind == "same":
        x = np.full(m, rng.uniform())
    else:
        x = rng.uniform(size=m)
    return np.clip(x.astype(dt), 0, 1)


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    k, d, m = case["k"], case["d"], case["m"]
    x = points(case, rng)
    want = cox(x, k, d)
    tol = 2e-6 if case["dtype"] == "float32" else 1e-11
    # at a knot degree 0 jumps: knots computed by another formula may be one rounding away
    jump = np.zeros(m, bool)
    if d == 0:
        jump = np.min(np.abs(np.asarray(x, float)[:, None] - np.linspace(0, 1, k + 1)[None, 1:-1]), axis=1, initial=1.0) < 1e-12
    ops = {s: BSplineBasis(sparse=s)(x, pt.constant(k), pt.constant(d)).eval() for s in (True, False)}
    got = {"numpy": numpy_bspline_basis(x, k, d), "dense": ops[False], "sparse": np.asarray(ops[True].todense())}
    if case["pts"] in ("n", "grid"):
        got["bspline_basis"] = bspline_basis(m, k, d, dtype=case["dtype"], sparse=False).eval()
        got["sparse bspline_basis"] = np.asarray(bspline_basis(m, k, d, dtype=case["dtype"]).eval().todense())
    for nm, B in got.items():
        require(B.shape == (m, k) and B.dtype == case["dtype"], f"{nm} basis has shape {B.shape} and type {B.dtype}, expected {(m, k)} {case['dtype']}")
        close(B[~jump], want[~jump], f"{nm} basis", rtol=tol, atol=tol)
        require(bool(np.all(B >= -tol)), f"{nm} basis has a negative entry {B.min()}")
        close(B.sum(1), np.ones(m), f"{nm} basis row sums", rtol=tol * 10, atol=tol * 10)
        for i, row in enumerate(B):
            nz = np.nonzero(np.abs(row) > tol)[0]
            require(len(nz) and nz[-1] - nz[0] <= d, f"{nm} basis at {x[i]} has entries {nz.tolist()}, more than degree+1 apart")
            if x[i] == 0:
                close(row, np.eye(k)[0], f"{nm} basis at 0", atol=tol)
            if x[i] == 1:
                close(row, np.eye(k)[-1], f"{nm} basis at 1", atol=tol)
    # interpolation
    shape = (k,) + tuple(case["shape"])
    vals = rng.normal(size=shape).astype(case["xtype"])
    kw = dict(n=m) if case["pts"] == "n" else dict(eval_points=x)
    base = want if case["pts"] != "n" else cox(np.linspace(0, 1, m, dtype=case["xtype"]), k, d)
    if d == 0 and case["pts"] == "n":
        jump = np.min(np.abs(np.linspace(0, 1, m, dtype=case["xtype"]).astype(float)[:, None] - np.linspace(0, 1, k + 1)[None, 1:-1]), axis=1, initial=1.0) < 1e-7
    tol2 = 1e-4 if "float32" in (case["dtype"], case["xtype"]) else 1e-9
    ok = ~jump

    def interp(v):
        return np.tensordot(base, np.asarray(v, float), axes=(1, 0))
    if case["how"] == "symbolic":
        xv = pt.TensorType(case["xtype"], shape=(None,) * len(shape))("x")
        runs = [vals, rng.normal(size=shape).astype(case["xtype"])]
    elif case["how"] == "shared":
        xv = pytensor.shared(vals)
        runs = [vals]
    else:
        xv = pt.as_tensor(vals)
        runs = [vals]
    y = bspline_interpolation(xv, degree=d, sparse=case["sparse"], **kw)
    require(y.ndim == len(shape), f"interpolated values have {y.ndim} dimensions, expected {len(shape)}")
    w = rng.normal(size=(m,) + shape[1:])
    outs = [y, y.shape]
    if case["how"] != "constant":
        outs.append(pytensor.grad((y * w).sum(), xv))
    f = pytensor.function([xv] if case["how"] == "symbolic" else [], outs, mode="FAST_COMPILE")
    for v in runs:
        out, shp, *g = f(v) if case["how"] == "symbolic" else f()
        require(tuple(shp) == (m,) + shape[1:], f"inferred shape {tuple(shp)}, expected {(m,) + shape[1:]}")
        require(out.shape == (m,) + shape[1:], f"interpolated shape {out.shape}, expected {(m,) + shape[1:]}")
        close(out[ok], interp(v)[ok], f"interpolation ({'sparse' if case['sparse'] else 'dense'})", rtol=tol2, atol=tol2)
        if g and ok.all():
            close(g[0], np.tensordot(base.T, w, axes=(1, 0)), "gradient of the interpolation", rtol=tol2 * 10, atol=tol2 * 10)
    if case["how"] == "symbolic":
        # the number of values may change between calls
        k2 = k + 3
        v = rng.normal(size=(k2,) + shape[1:]).astype(case["xtype"])
        pts = np.linspace(0, 1, m, dtype=case["xtype"]) if case["pts"] == "n" else x
        out = f(v)[0]
        if d:
            close(out, np.tensordot(cox(pts, k2, d), np.asarray(v, float), axes=(1, 0)), "interpolation of a longer vector with the same function", rtol=tol2, atol=tol2)
        close(f(np.ones((k,) + shape[1:], case["xtype"]) * 3)[0], np.full((m,) + shape[1:], 3.0), "interpolation of a constant", rtol=tol2, atol=tol2)
        if d:
            t = knots(k, d)
            grev = np.array([t[j + 1:j + d + 1].mean() for j in range(k)], float).reshape((k,) + (1,) * (len(shape) - 1))
            close(f(np.broadcast_to(grev, shape).astype(case["xtype"]))[0], np.broadcast_to(np.asarray(pts, float).reshape((m,) + (1,) * (len(shape) - 1)), (m,) + shape[1:]), "interpolation of a straight line", rtol=tol2, atol=tol2)
    ctx.count(len(got))
    ctx.label(f"degree={d}", case["pts"], case["how"], f"ndim={len(shape)}", "sparse" if case["sparse"] else "dense")
    ctx.nontriv(k > d + 1 and bool(np.any((x > 0) & (x < 1))))


TASKS = [Task("basis", s_case, check, 150, 8000, soft_s=(60, 900), shards=(3, 6))]
