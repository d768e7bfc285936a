"""C01: Kalman filters against dense Gaussian conditioning."""
from functools import lru_cache

import numpy as np
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import gen
from harness.core import Reject, Task, close
from harness.dense import solve_all
from pymc_extras.statespace.filters import SquareRootFilter, StandardFilter, UnivariateFilter

RULE = """A case is a random system (dims, static/time-varying matrices, intercepts, dense/diagonal/zero observation noise), a data
set with a missing pattern (NaN or fill marker), a jitter and a fill value. Non-trivial: at least two time steps and (more than one series, or a
missing entry, or a non-zero intercept, or a time-varying matrix). Compared: every output of the filter graph at every step."""
ASSUMPTIONS = ["predictive covariances of the generated case have condition number < 1e7 (else rejected)",
               "univariate filter: diagonal observation noise, as its derivation requires"]
F = dict(standard=StandardFilter, cholesky=SquareRootFilter, univariate=UnivariateFilter)
ORDER = ["c", "d", "T", "Z", "R", "H", "Q"]
FILLS = [None, -9999.0, 7.5]


@lru_cache(None)
def compiled(kind, p, m, r, tv, jitter, fill, n=None):
    shp = dict(c=(m,), d=(p,), T=(m, m), Z=(p, m), R=(m, r), H=(p, p), Q=(r, r))
    data = pt.tensor(name="data", dtype="float64", shape=(n, p))
    a0 = pt.tensor(name="init_a", dtype="float64", shape=(m,))
    P0 = pt.tensor(name="P0", dtype="float64", shape=(m, m))
    ins = [data, a0, P0] + [pt.tensor(name=k, dtype="float64", shape=((n,) + shp[k]) if k in tv else shp[k]) for k in ORDER]
    out = F[kind]().build_graph(*ins, cov_jitter=jitter, missing_fill_value=fill)
    return pytensor.function(ins, out, on_unused_input="ignore", mode="FAST_COMPILE")


CONFIGS = [  # p, m, r, time-varying
    (1, 1, 1, ()), (1, 2, 1, ()), (2, 2, 2, ()), (2, 3, 2, ()), (3, 2, 1, ()),
    (1, 2, 2, ("Z", "d")), (2, 2, 1, ("H", "Q", "T")), (2, 3, 2, ("R", "c", "d", "Z")), (2, 2, 2, ("H", "Q", "R", "T", "Z", "c", "d")),
]


def strategy_for(kind):
    @st.composite
    def s(draw):
        p, m, r, tv = draw(st.sampled_from(CONFIGS))
        n = draw(st.integers(2, 6))
        hk = "diag" if kind == "univariate" else draw(st.sampled_from(["dense", "dense", "diag"]))
        if draw(st.integers(0, 5)) == 0 and p <= m and kind != "cholesky":
            hk = "zero"
        case = draw(gen.lgss(p, m, r, n, tv, H0=hk))
        case["y"] = draw(gen.arr((n, p), -4, 4))
        miss = draw(st.sampled_from(["none", "some", "some", "rows"]))
        case["miss"] = (np.zeros((n, p), int).tolist() if miss == "none" else
                        draw(st.lists(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=p, max_size=p), min_size=n, max_size=n))
                        if miss == "some" else [[k] * p for k in draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=n, max_size=n))])
        case["opt"] = draw(st.integers(0, 2))
        case["kind"] = kind
        return case
    return s


OPTS = [(0.0, None), (None, 7.5), (1e-9, -9999.0)]


def check(case, ctx):
    kind, p, m, r, n, tv = case["kind"], case["p"], case["m"], case["r"], case["n"], tuple(case["tv"])
    s = gen.build_lgss(case)
    jitter, fill = OPTS[case["opt"]]
    y = np.asarray(case["y"], float)
    miss = np.asarray(case["miss"])
    fv = -9999.0 if fill is None else fill
    if (y == fv).any():
        y = y + 0.0625
    want = solve_all(s, np.where(miss > 0, np.nan, y))
    if want["cond"] > (1e7 if jitter == 0 else 1e4):
        raise Reject
    data = np.where(miss == 1, np.nan, np.where(miss == 2, fv, y))
    P0 = np.linalg.cholesky(s["P0"]) if kind == "cholesky" else s["P0"]
    f = compiled(kind, p, m, r, tv, jitter, fill)
    got = f(data, s["a0"], P0, *[s[k] for k in ORDER])
    rt = 1e-6 if jitter == 0.0 else 2e-5
    scale = max(1.0, np.abs(want["filt"]).max(), np.abs(want["predc"]).max())
    names = ["filt", "pred", "yhat", "filtc", "predc", "F", "ll"]
    part = (miss > 0).any(1) & ~(miss > 0).all(1)
    ctx.label(kind, "H:" + case["Hk"], f"p={p}", "tv" if tv else "static", "partial-missing" if part.any() else
              "full-missing" if (miss > 0).any() else "complete")
    ctx.nontriv(p > 1 or (miss > 0).any() or np.any(s["c"]) or np.any(s["d"]) or bool(tv))
    for name, g in zip(names, got):
        ctx.count(np.asarray(want[name]).size)
        close(g, want[name], f"{kind} {name}", rtol=rt, atol=rt * scale)


def probe_offdiag():
    """The univariate filter drops the off-diagonal of H without saying so."""
    rng = np.random.default_rng(0)
    p, m, r, n = 2, 2, 2, 4
    s = gen.build_lgss(dict({k: rng.normal(size=sh).tolist() for k, sh in dict(a0=(m,), P0=(m, m), c=(m,), d=(p,), T=(m, m), Z=(p, m), R=(m, r),
                                                                               H=(p, p), Q=(r, r)).items()}, Hk="dense"))
    y = rng.normal(size=(n, p))
    got = compiled("univariate", p, m, r, (), 0.0, None)(y, s["a0"], s["P0"], *[s[k] for k in ORDER])
    want = solve_all(s, y)
    return None if np.allclose(got[-1], want["ll"], rtol=1e-6) else "log-likelihood differs"


PROBES = {"univariate-offdiagonal-H": probe_offdiag}
TASKS = [Task("standard", strategy_for("standard"), check, quick=220, thorough=8000, shards=(3, 4)),
         Task("cholesky", strategy_for("cholesky"), check, quick=120, thorough=6000, shards=(3, 4)),
         Task("univariate", strategy_for("univariate"), check, quick=180, thorough=6000, shards=(2, 4))]
