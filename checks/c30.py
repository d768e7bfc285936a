"""C30: the conjugate gradient solver against a direct solution."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from harness.core import Task, close, require
from pymc_extras.utils.linear_cg import linear_cg

RULE = """A case is a symmetric positive definite system of 1-30 unknowns (random spectrum with condition number up to 300, diagonal, clustered eigenvalues, multiples of the identity, kernel matrices with noise; dense, sparse or np.matrix) scaled by 1e-2 to 1e3, a vector or 1-5 right-hand sides
(including zero columns and columns of very different size), no guess, a random, exact or nearly exact guess, no preconditioner or a diagonal, exact, partial or scaled one, with tolerance 1e-2 to 1e-8, enough iterations or as many as unknowns, and optional tridiagonalisation.
The relative residual averaged over right-hand sides must be within tolerance, the error within the tolerance times the condition number, the shape that of the right-hand side, and inputs unchanged; with too few iterations the solver must raise or still be within
tolerance. The first entry of a tridiagonalisation is the Rayleigh quotient of the first direction. Non-trivial: at least three unknowns and a matrix that is no multiple of the identity."""
ASSUMPTIONS = ["the tolerance bounds the average relative residual, the absolute one for zero right-hand sides, as the error message says", "the thresholds eps are set below the square of the tolerance (by default directions stop being conjugate at relative residuals of 1e-5)",
               "zero right-hand sides with a nonzero guess are solved to an absolute tolerance", "a refusal (RuntimeError) is right only when the allowed iterations do not suffice"]


@st.composite
def s_case(draw):
    n = draw(st.integers(1, 30))
    return dict(n=n, kind=draw(st.sampled_from(["spectrum", "spectrum", "diag", "cluster", "identity", "kernel"])), cond=draw(st.sampled_from([1.5, 10.0, 100.0, 300.0])), scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 10.0, 1e3])), form=draw(st.sampled_from(["dense", "dense", "sparse", "matrix"])),
                k=draw(st.sampled_from([0, 0, 1, 2, 3, 5, n])), cols=draw(st.sampled_from(["random", "scales", "zero", "eig"])), guess=draw(st.sampled_from([None, None, "random", "exact", "near", "zero"])), pre=draw(st.sampled_from([None, None, "diag", "exact", "partial", "scaled"])),
                tol=draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-8])), iters=draw(st.sampled_from(["many", "many", "size", "few"])), tri=draw(st.integers(0, 3)) == 0, rscale=draw(st.sampled_from([1.0, 1e-3, 1e4])), seed=draw(st.integers(0, 10**6)))


def system(case, rng):
    n, c = case["n"], case["cond"]
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if case["kind"] == "diag":
        A = np.diag(rng.uniform(1, c, n))
    elif case["kind"] == "identity":
        A = np.eye(n)
    elif case["kind"] == "kernel":
        x = rng.uniform(size=(n, 1))
        A = np.exp(-0.5 * (x - x.T) ** 2 / 0.09) + np.eye(n) * (n / c + 0.01)
    else:
        ev = np.exp(rng.uniform(0, np.log(c), n)) if case["kind"] == "spectrum" else rng.choice([1.0, c, c / 2], n)
        A = (Q * ev) @ Q.T
    A = (A + A.T) / 2 * case["scale"]
    k = max(case["k"], 1)
    B = rng.normal(size=(n, k))
    if case["cols"] == "scales":
        B = B * 10.0 ** rng.integers(-4, 5, k)
    elif case["cols"] == "zero":
        B[:, rng.integers(0, k)] = 0.0
    elif case["cols"] == "eig":
        B = np.linalg.eigh(A)[1][:, rng.integers(0, n, k)].copy()
    return A, B * case["rscale"]


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    A, B = system(case, rng)
    n, k = B.shape
    X = np.linalg.solve(A, B)
    cond = np.linalg.cond(A)
    guess = {None: None, "zero": np.zeros_like(B), "exact": X.copy(), "near": X * (1 + 1e-3 * rng.normal(size=X.shape)), "random": rng.normal(size=X.shape) * np.abs(X).max()}[case["guess"]]
    M = {None: None, "diag": np.diag(1 / np.diag(A)), "exact": np.linalg.inv(A), "partial": np.linalg.inv(A + np.eye(n) * case["scale"]), "scaled": np.eye(n) / case["scale"]}[case["pre"]]
    if M is not None:
        M = (M + M.T) / 2
    pre = None if M is None else (lambda v: M @ v)
    mat = {"dense": A, "sparse": sp.csr_matrix(A), "matrix": np.matrix(A)}[case["form"]]
    vec = case["k"] == 0
    rhs, g0 = (B[:, 0], None if guess is None else guess[:, 0]) if vec else (B, guess)
    keep = A.copy(), rhs.copy(), None if g0 is None else g0.copy()
    tol = case["tol"]
    kw = dict(tolerance=tol, eps=1e-12 * tol ** 2 * min(case["scale"], 1 / case["scale"]), stop_updating_after=min(1e-10, tol * 1e-4))
    few = case["iters"] == "few"
    if case["iters"] == "many":
        kw["max_iter"] = 1000
    elif case["iters"] == "size":
        kw["terminate_cg_by_size"] = True
    else:
        kw.update(max_iter=int(rng.integers(1, 6)), max_tridiag_iter=1)
    nt = int(rng.integers(1, k + 1)) if case["tri"] and not few else 0
    try:
        out, T = linear_cg(mat, rhs, initial_guess=g0, preconditioner=pre, n_tridiag=nt, **kw)
    except RuntimeError as e:
        # as many iterations as unknowns suffice in exact arithmetic only
        require(few or (case["iters"] == "size" and cond * np.finfo(float).eps ** 0.5 > tol * 1e-3), f"refused although {kw.get('max_iter', n)} iterations are allowed for {n} unknowns with condition number {cond:.0f}: {e}")
        ctx.label("refused")
        return
    require(isinstance(out, np.ndarray) and out.shape == rhs.shape, f"solution has shape {np.shape(out)}, expected {rhs.shape}")
    out = np.asarray(out, float).reshape(n, k)
    res = np.linalg.norm(B - A @ out, axis=0)
    nb = np.linalg.norm(B, axis=0)
    rel = res / np.where(nb == 0, 1, nb)
    require(rel.mean() <= tol * 1.01 + 1e-11 * cond, f"average relative residual {rel.mean():.3g} exceeds the tolerance {tol:g} (columns {np.round(rel, 9).tolist()})")
    err = np.linalg.norm(out - X, axis=0)
    lam = np.linalg.eigvalsh(A)[0]
    bound = k * (tol * 1.01 + 1e-11 * cond) * np.where(nb == 0, 1, nb) / lam
    require(bool(np.all(err <= bound)), f"error {err.max():.3g} exceeds the bound {bound.max():.3g}")
    require(np.array_equal(A, keep[0]) and np.array_equal(rhs, keep[1]) and (g0 is None or np.array_equal(g0, keep[2])), "the inputs were changed")
    if nt:
        require(T.shape[0] == nt and T.shape[1] == T.shape[2] <= n, f"tridiagonal matrices of shape {T.shape} for {nt} probes and {n} unknowns")
        if guess is None and np.all(nb > 0) and case["iters"] == "many":
            first = T[0][:1, :1]
            r0 = B[:, 0] / nb[0]
            z = r0 if M is None else M @ r0
            close(first[0, 0], (z @ A @ z) / (r0 @ z), "first entry of the tridiagonal matrix", rtol=1e-6)
    ctx.count()
    ctx.label(case["kind"], "vector" if vec else f"columns={k}", f"guess={case['guess']}", f"pre={case['pre']}", case["form"], case["iters"])
    ctx.nontriv(n >= 3 and case["kind"] != "identity")


TASKS = [Task("solve", s_case, check, 600, 60000, soft_s=(40, 900), shards=(3, 6))]
