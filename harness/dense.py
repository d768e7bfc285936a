"""Dense Gaussian oracle for linear Gaussian state space models: no recursion over conditional moments, only stacked joints."""
import numpy as np

from .core import Reject


class Degenerate(Reject):
    pass


def at(M, t, base):
    M = np.asarray(M, float)
    return M[t] if M.ndim == base + 1 else M


def mats(s, t):
    return (at(s["c"], t, 1), at(s["d"], t, 1), at(s["T"], t, 2), at(s["Z"], t, 2), at(s["R"], t, 2), at(s["H"], t, 2),
            at(s["Q"], t, 2))


def joint(s, n):
    """Mean/cov of stacked states, and the observation map: y = ZZ x + dd + e, e ~ N(0, HH)."""
    m = len(s["a0"]); p = mats(s, 0)[1].shape[0]
    # x = A [x0; eta_0; eta_1 ...] + b
    r = mats(s, 0)[4].shape[1]
    N = m + r * max(n - 1, 0)
    A = np.zeros((n * m, N)); b = np.zeros(n * m)
    S = np.zeros((N, N)); S[:m, :m] = s["P0"]
    mu0 = np.zeros(N); mu0[:m] = s["a0"]
    A[:m, :m] = np.eye(m)
    for t in range(n - 1):
        c, d, T, Z, R, H, Q = mats(s, t)
        A[(t + 1) * m:(t + 2) * m] = T @ A[t * m:(t + 1) * m]
        A[(t + 1) * m:(t + 2) * m, m + t * r:m + (t + 1) * r] += R
        b[(t + 1) * m:(t + 2) * m] = T @ b[t * m:(t + 1) * m] + c
        S[m + t * r:m + (t + 1) * r, m + t * r:m + (t + 1) * r] = Q
    mx = A @ mu0 + b
    Sx = A @ S @ A.T
    ZZ = np.zeros((n * p, n * m)); dd = np.zeros(n * p); HH = np.zeros((n * p, n * p))
    for t in range(n):
        c, d, T, Z, R, H, Q = mats(s, t)
        ZZ[t * p:(t + 1) * p, t * m:(t + 1) * m] = Z; dd[t * p:(t + 1) * p] = d
        HH[t * p:(t + 1) * p, t * p:(t + 1) * p] = H
    return mx, Sx, ZZ, dd, HH


def solve_all(s, y):
    """y (n,p) with NaN for missing. Returns dict of exact quantities and the worst conditioning met."""
    y = np.asarray(y, float); n, p = y.shape; m = len(s["a0"])
    mx, Sx, ZZ, dd, HH = joint(s, n)
    my = ZZ @ mx + dd; Sxy = Sx @ ZZ.T; Sy = ZZ @ Sx @ ZZ.T + HH
    yf = y.ravel(); obs = ~np.isnan(yf)
    out = dict(filt=np.zeros((n, m)), filtc=np.zeros((n, m, m)), pred=np.zeros((n, m)), predc=np.zeros((n, m, m)),
               smooth=np.zeros((n, m)), smoothc=np.zeros((n, m, m)), yhat=np.zeros((n, p)), F=np.zeros((n, p, p)), ll=np.zeros(n))
    cond = 1.0

    def given(idx, mean, cov_xy, cov_xx):
        nonlocal cond
        if len(idx) == 0:
            return mean, cov_xx
        K = Sy[np.ix_(idx, idx)]
        w = np.linalg.eigvalsh(K)
        cond = max(cond, w[-1] / max(w[0], 1e-300))
        if cond > 1e10 or w[0] < 1e-5:
            raise Degenerate
        G = np.linalg.solve(K, cov_xy[:, idx].T).T
        return mean + G @ (yf[idx] - my[idx]), cov_xx - G @ cov_xy[:, idx].T

    for t in range(n):
        sl = slice(t * m, (t + 1) * m); yl = slice(t * p, (t + 1) * p)
        past = [i for i in range(t * p) if obs[i]]
        upto = [i for i in range((t + 1) * p) if obs[i]]
        out["pred"][t], out["predc"][t] = given(past, mx[sl], Sxy[sl], Sx[sl, sl])
        out["filt"][t], out["filtc"][t] = given(upto, mx[sl], Sxy[sl], Sx[sl, sl])
        out["yhat"][t], out["F"][t] = given(past, my[yl], Sy[yl], Sy[yl, yl])
        o = obs[yl]
        if o.any():
            v = y[t][o] - out["yhat"][t][o]; Fo = out["F"][t][np.ix_(o, o)]
            w = np.linalg.eigvalsh(Fo); cond = max(cond, w[-1] / max(w[0], 1e-300))
            if cond > 1e10 or w[0] < 1e-5:
                raise Degenerate
            out["ll"][t] = -0.5 * (o.sum() * np.log(2 * np.pi) + np.linalg.slogdet(Fo)[1] + v @ np.linalg.solve(Fo, v))
    allo = [i for i in range(n * p) if obs[i]]
    for t in range(n):
        sl = slice(t * m, (t + 1) * m)
        out["smooth"][t], out["smoothc"][t] = given(allo, mx[sl], Sxy[sl], Sx[sl, sl])
    out["cond"] = cond
    return out
