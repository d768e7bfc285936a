"""Strategies for numbers and matrices, all JSON-able (lists of floats on a dyadic grid)."""
from . import deps  # noqa: F401
import numpy as np
from hypothesis import strategies as st


def q(lo, hi, den=8):
    """Dyadic numbers in [lo, hi]."""
    return st.integers(int(np.ceil(lo * den)), int(np.floor(hi * den))).map(lambda k: k / den)


def vec(n, lo=-2, hi=2, den=8):
    return st.lists(q(lo, hi, den), min_size=n, max_size=n)


def mat(r, c, lo=-2, hi=2, den=8):
    return st.lists(vec(c, lo, hi, den), min_size=r, max_size=r)


def arr(shape, lo=-2, hi=2, den=8):
    if len(shape) == 0:
        return q(lo, hi, den)
    s = vec(shape[-1], lo, hi, den)
    for k in reversed(shape[:-1]):
        s = st.lists(s, min_size=k, max_size=k)
    return s


def psd_from(L, ridge):
    L = np.asarray(L, float)
    return L @ L.T + ridge * np.eye(L.shape[0])


def prob(k):
    """Probability vectors with no exact zero."""
    return st.lists(st.integers(1, 12), min_size=k, max_size=k).map(lambda v: [x / sum(v) for x in v])


@st.composite
def lgss(draw, p, m, r, n, tv=(), stable=True, H0=None, with_c=True):
    """A random linear Gaussian system; ``tv`` names the time-varying matrices. Values are raw factors, see build_lgss."""
    def maybe(name, shape, lo, hi):
        return draw(arr(((n,) + shape) if name in tv else shape, lo, hi))
    case = dict(p=p, m=m, r=r, n=n, tv=sorted(tv))
    case["a0"] = draw(vec(m))
    case["P0"] = draw(mat(m, m, -1, 1, 4))
    zero_c = (not with_c) or draw(st.integers(0, 3)) == 0
    case["c"] = np.zeros(((n, m) if "c" in tv else (m,))).tolist() if zero_c else maybe("c", (m,), -2, 2)
    zero_d = draw(st.integers(0, 3)) == 0
    case["d"] = np.zeros(((n, p) if "d" in tv else (p,))).tolist() if zero_d else maybe("d", (p,), -2, 2)
    case["T"] = maybe("T", (m, m), -1, 1)
    case["Z"] = maybe("Z", (p, m), -2, 2)
    case["R"] = maybe("R", (m, r), -2, 2)
    case["H"] = maybe("H", (p, p), -1, 1)
    case["Q"] = maybe("Q", (r, r), -1, 1)
    case["Hk"] = H0 if H0 is not None else draw(st.sampled_from(["dense", "dense", "diag", "zero"]))
    return case


def _psd(L, ridge):
    L = np.asarray(L, float)
    return L @ np.swapaxes(L, -1, -2) + ridge * np.eye(L.shape[-1])


def build_lgss(case):
    """numpy system (dict) from a raw case. T is scaled to operator norm <= 1 so nothing explodes."""
    s = {k: np.asarray(case[k], float) for k in ("a0", "c", "d", "Z", "R")}
    T = np.asarray(case["T"], float)
    nrm = np.linalg.norm(T, 2, axis=(-2, -1), keepdims=True)
    s["T"] = T / np.maximum(1.0, nrm)
    s["P0"] = _psd(case["P0"], 0.25)
    s["Q"] = _psd(case["Q"], 0.25)
    H = np.asarray(case["H"], float)
    if case["Hk"] == "zero":
        s["H"] = np.zeros_like(H)
    elif case["Hk"] == "diag":
        s["H"] = np.eye(H.shape[-1]) * (np.diagonal(_psd(H, 0.125), axis1=-2, axis2=-1)[..., None])
    else:
        s["H"] = _psd(H, 0.125)
    return s


def lgss_raw(seed, p, m, r, n, tv=()):
    """The same raw factors as ``lgss``, drawn by numpy from one integer (dyadic values; some blocks zeroed)."""
    rng = np.random.default_rng(seed)

    def a(name, shape, lo, hi, den=8):
        return rng.integers(int(lo * den), int(hi * den) + 1, size=((n,) + shape) if name in tv else shape) / den
    out = dict(a0=a("a0", (m,), -2, 2), P0=a("P0", (m, m), -1, 1), c=a("c", (m,), -2, 2), d=a("d", (p,), -2, 2), T=a("T", (m, m), -1, 1),
               Z=a("Z", (p, m), -2, 2), R=a("R", (m, r), -2, 2), H=a("H", (p, p), -1, 1), Q=a("Q", (r, r), -1, 1))
    for k, prob_zero in (("c", 0.2), ("d", 0.2)):
        if rng.random() < prob_zero:
            out[k] = out[k] * 0
    return out
