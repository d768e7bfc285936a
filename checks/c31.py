"""C31: Gaussian process approximations against dense formulas in numpy."""
import numpy as np
import pymc as pm
import pytensor
from hypothesis import strategies as st

from harness.core import Reject, Task, close, require
from pymc_extras.gp import KarhunenLoeveExpansion, ProjectedProcess

RULE = """A case is a kernel (squared exponential, Matern 1/2, 3/2, 5/2, rational quadratic, periodic, linear, sums, products and multiples of them, on all or some columns), a mean (zero, constant, linear), 2-12 inputs of 1-3 columns, and either inducing inputs (a subset, other points, all the
inputs, chosen by k-means) or a number of eigenvectors or a share of variance, with different jitters, one or two processes in one model and one or two sets of prediction points including the training inputs. The compiled prior must be an affine map of standard normal variables whose offset and Gram
matrix are the dense mean and covariance of the approximation, predictions must have the dense conditional mean and covariance given the drawn process, complete approximations must reproduce the kernel matrix, and predictions at the training
inputs must agree with the prior. Non-trivial: an approximation of rank at least two, or a mean that is not zero."""
ASSUMPTIONS = ["cases whose truncation splits nearly equal eigenvalues, or whose share of variance is within rounding of a cut, are not judged", "k-means may return fewer inducing points than asked for when inputs coincide"]


@st.composite
def s_kernel(draw, d, depth=0):
    kind = draw(st.sampled_from(["eq", "m52", "m32", "m12", "rq", "per", "lin"] + (["sum", "prod", "scale"] * 2 if depth < 2 else [])))
    if kind in ("sum", "prod"):
        return dict(kind=kind, a=draw(s_kernel(d, depth + 1)), b=draw(s_kernel(d, depth + 1)))
    if kind == "scale":
        return dict(kind=kind, c=draw(st.sampled_from([0.25, 2.0, 9.0])), a=draw(s_kernel(d, depth + 1)))
    cols = draw(st.one_of(st.none(), st.lists(st.integers(0, d - 1), min_size=1, max_size=d, unique=True)))
    return dict(kind=kind, cols=cols if cols is None else sorted(cols), ls=draw(st.sampled_from([0.3, 0.7, 1.5])))


@st.composite
def s_case(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(2, 12))
    return dict(d=d, n=n, kernel=draw(s_kernel(d)), mean=draw(st.sampled_from(["zero", "const", "linear"])), which=draw(st.sampled_from(["pp", "kl"])), jitter=draw(st.sampled_from([1e-6, 1e-5, 1e-4, None])), cjit=draw(st.sampled_from([1e-6, 1e-4, None])),
                inducing=draw(st.sampled_from(["subset", "other", "all", "all", "kmeans"])), m=draw(st.integers(1, 12)), rank=draw(st.sampled_from(["n_eigs", "n_eigs", "all", "limit", "limit", "limit1"])), limit=draw(st.sampled_from([0.01, 0.5, 0.9, 0.99])), two=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def np_kernel(k, X, Y):
    if k["kind"] == "sum":
        return np_kernel(k["a"], X, Y) + np_kernel(k["b"], X, Y)
    if k["kind"] == "prod":
        return np_kernel(k["a"], X, Y) * np_kernel(k["b"], X, Y)
    if k["kind"] == "scale":
        return k["c"] * np_kernel(k["a"], X, Y)
    c = list(range(X.shape[1])) if k["cols"] is None else k["cols"]
    diff = X[:, None, c] - Y[None, :, c]
    r2 = (diff ** 2).sum(-1) / k["ls"] ** 2
    r = np.sqrt(r2)
    if k["kind"] == "eq":
        return np.exp(-r2 / 2)
    if k["kind"] == "m52":
        return (1 + np.sqrt(5) * r + 5 * r2 / 3) * np.exp(-np.sqrt(5) * r)
    if k["kind"] == "m32":
        return (1 + np.sqrt(3) * r) * np.exp(-np.sqrt(3) * r)
    if k["kind"] == "m12":
        return np.exp(-r)
    if k["kind"] == "rq":
        return (1 + r2 / (2 * 1.5)) ** -1.5
    if k["kind"] == "per":
        return np.exp(-0.5 * (np.sin(np.pi * diff / 1.3) ** 2).sum(-1) / k["ls"] ** 2)
    return (X[:, c] - k["ls"]) @ (Y[:, c] - k["ls"]).T


def pm_kernel(k, d):
    if k["kind"] == "sum":
        return pm_kernel(k["a"], d) + pm_kernel(k["b"], d)
    if k["kind"] == "prod":
        return pm_kernel(k["a"], d) * pm_kernel(k["b"], d)
    if k["kind"] == "scale":
        return k["c"] * pm_kernel(k["a"], d)
    kw = dict(input_dim=d, active_dims=k["cols"])
    C = pm.gp.cov
    return {"eq": lambda: C.ExpQuad(ls=k["ls"], **kw), "m52": lambda: C.Matern52(ls=k["ls"], **kw), "m32": lambda: C.Matern32(ls=k["ls"], **kw), "m12": lambda: C.Matern12(ls=k["ls"], **kw), "rq": lambda: C.RatQuad(alpha=1.5, ls=k["ls"], **kw),
            "per": lambda: C.Periodic(period=1.3, ls=k["ls"], **kw), "lin": lambda: C.Linear(c=k["ls"], **kw)}[k["kind"]]()


def means(case, d):
    if case["mean"] == "const":
        return pm.gp.mean.Constant(1.7), lambda X: np.full(len(X), 1.7)
    if case["mean"] == "linear":
        co = np.array([0.5, -1.0, 2.0])[:d]
        return pm.gp.mean.Linear(coeffs=co, intercept=-0.4), lambda X: X @ co - 0.4
    return pm.gp.mean.Zero(), lambda X: np.zeros(len(X))


def affine(f, n):
    b = f(np.zeros(n))
    return b, np.stack([f(e) - b for e in np.eye(n)], 1) if n else np.zeros((len(b), 0))


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    n, d = case["n"], case["d"]
    X = rng.uniform(-1.5, 1.5, size=(n, d))
    Xs = rng.uniform(-2, 2, size=(int(rng.integers(1, 5)), d))
    kern = case["kernel"]
    mean_p, mean_n = means(case, d)
    jit = 1e-6 if case["jitter"] is None else case["jitter"]
    cj = 1e-6 if case["cjit"] is None else case["cjit"]
    jkw = {} if case["jitter"] is None else dict(jitter=jit)
    ckw = {} if case["cjit"] is None else dict(jitter=cj)
    K = np_kernel(kern, X, X)
    scale = float(np.abs(K).max()) + 1e-3
    Xk = X.copy()
    with pm.Model() as m:
        gkw = dict(mean_func=mean_p, cov_func=pm_kernel(kern, d))
        if case["which"] == "pp":
            if case["inducing"] == "kmeans":
                mi = min(case["m"], n)
                gp = ProjectedProcess(n_inducing=mi, **gkw)
                np.random.seed(case["seed"] % 1000)
                f = gp.prior("f", X, **jkw)
                Xu = np.asarray(gp.X_inducing)
                require(Xu.ndim == 2 and 1 <= len(Xu) <= mi and Xu.shape[1] == d, f"k-means gave {Xu.shape} inducing inputs for n_inducing={mi}")
                require(bool(np.all(Xu >= X.min(0) - 1e-9) and np.all(Xu <= X.max(0) + 1e-9)), "inducing inputs lie outside the range of the inputs")
            else:
                Xu = {"all": X, "subset": X[rng.permutation(n)[:max(1, min(case["m"], n))]], "other": rng.uniform(-1.5, 1.5, size=(case["m"], d))}[case["inducing"]]
                gp = ProjectedProcess(**gkw)
                f = gp.prior("f", X, X_inducing=Xu, **jkw)
        else:
            opt = {"n_eigs": dict(n_eigs=min(case["m"], n)), "all": dict(n_eigs=n), "limit": dict(variance_limit=case["limit"]), "limit1": dict(variance_limit=1)}[case["rank"]]
            gp = KarhunenLoeveExpansion(**opt, **gkw)
            f = gp.prior("f", X, **jkw)
        preds = {"p": gp.conditional("p", Xs, **ckw), "t": gp.conditional("t", X, **ckw)}
        if case["two"]:
            other = type(gp)(**(dict() if case["which"] == "pp" else dict(n_eigs=n)), mean_func=pm.gp.mean.Constant(-3.0), cov_func=pm.gp.cov.ExpQuad(d, ls=1.0))
            other.prior("g", X, **(dict(X_inducing=X[:1]) if case["which"] == "pp" else {}))
            preds["p2"] = gp.conditional("p2", Xs[::-1].copy(), **ckw)
    require(np.array_equal(X, Xk), "the inputs were changed")
    require(m["f"] is f, "the prior is not the model's variable")
    base = [rv for rv in m.free_RVs if rv.name not in ("p", "t", "p2") and not rv.name.startswith(("g", "_gp_g"))]
    require(len(base) == 1, f"variables {[v.name for v in m.free_RVs]}")
    base = base[0]
    z = m.rvs_to_values[base]
    params = [base.owner.inputs[-2], base.owner.inputs[-1]]
    for a, w in zip(pytensor.function([], [x for x in params], mode="FAST_COMPILE")(), (0.0, 1.0)):
        require(bool(np.all(a == w)), "the base variable is not standard normal")
    require(type(base.owner.op).__name__ == "NormalRV", "the base variable is not normal")
    outs = {"f": f}
    if case["which"] == "pp":
        outs["u"] = m["f_u"]
    for nm, rv in preds.items():
        require(rv.owner.op.name == "multivariate_normal", f"{nm} is {rv.owner.op}")
        outs["mu_" + nm], outs["cov_" + nm] = rv.owner.inputs[-2], rv.owner.inputs[-1]
    rep = m.replace_rvs_by_values(list(outs.values()))
    fn = pytensor.function([z], rep + [pytensor.tensor.prod(base.shape)], mode="FAST_COMPILE", on_unused_input="ignore")
    rank = int(pytensor.function([], base.shape[0], mode="FAST_COMPILE")())

    def at(p):
        return dict(zip(list(outs), fn(p)))
    b, A = affine(lambda p: at(p)["f"], rank)
    tol = 1e-6 * scale
    close(b, mean_n(X), "mean of the prior", rtol=1e-6, atol=1e-7 * scale)
    G = A @ A.T
    pts = [np.zeros(rank), rng.normal(size=rank), rng.normal(size=rank)]
    if case["which"] == "pp":
        require(rank == len(Xu), f"{rank} base variables for {len(Xu)} inducing inputs")
        Kuu = np_kernel(kern, Xu, Xu)
        Kf = np_kernel(kern, X, Xu)
        Lu = np.linalg.cholesky(Kuu + jit * np.eye(rank))
        V = np.linalg.solve(Lu, Kf.T)
        close(G, V.T @ V, "covariance of the prior", rtol=1e-5, atol=3e-5 * scale)
        bu, Au = affine(lambda p: at(p)["u"], rank)
        close(bu, np.zeros(rank), "mean of the inducing values", atol=1e-9 * scale)
        close(Au @ Au.T, Kuu + jit * np.eye(rank), "covariance of the inducing values", rtol=1e-6, atol=tol)
        close(A @ Au.T, Kf, "covariance of prior and inducing values", rtol=1e-5, atol=3e-5 * scale)
        complete = case["inducing"] == "all"
        for p in pts:
            o = at(p)
            for nm, pt_ in (("p", Xs), ("t", X), ("p2", Xs[::-1])):
                if nm not in preds:
                    continue
                Ks = np_kernel(kern, pt_, Xu)
                W = np.linalg.solve(Lu, Ks.T)
                close(o["mu_" + nm], mean_n(pt_) + W.T @ np.linalg.solve(Lu, o["u"]), f"conditional mean of {nm}", rtol=1e-5, atol=1e-4 * scale)
                close(o["cov_" + nm], np_kernel(kern, pt_, pt_) - W.T @ W + cj * np.eye(len(pt_)), f"conditional covariance of {nm}", rtol=1e-5, atol=3e-5 * scale)
            close(o["mu_t"], o["f"], "prediction at the training inputs", rtol=1e-6, atol=1e-5 * scale)
    else:
        ev, U = np.linalg.eigh(K + jit * np.eye(n))
        ratio = np.cumsum(ev[::-1]) / ev.sum()
        if case["rank"] == "limit":
            if np.any(np.abs(ratio - case["limit"]) < 1e-9):
                raise Reject
            want = int(np.nonzero(ratio > case["limit"])[0][0]) + 1
        else:
            want = {"n_eigs": min(case["m"], n), "all": n, "limit1": n}[case["rank"]]
        require(rank == want, f"{rank} eigenvectors, expected {want} ({case['rank']}, cumulative shares {np.round(ratio, 4).tolist()})")
        if want < n and ev[-want] - ev[-want - 1] < 1e-3 * ev[-1]:
            raise Reject
        Uk, sk = U[:, n - want:], ev[n - want:]
        close(G, (Uk * sk) @ Uk.T, "covariance of the prior", rtol=1e-5, atol=3e-5 * scale)
        complete = want == n
        S = (Uk / sk) @ Uk.T
        for p in pts:
            o = at(p)
            for nm, pt_ in (("p", Xs), ("t", X), ("p2", Xs[::-1])):
                if nm not in preds:
                    continue
                Ks = np_kernel(kern, pt_, X)
                amp = scale * np.sqrt(np.abs(sk).max() / sk.min()) * 1e-9
                close(o["mu_" + nm], mean_n(pt_) + Ks @ S @ (o["f"] - mean_n(X)), f"conditional mean of {nm}", rtol=1e-5, atol=1e-4 * scale + amp)
                close(o["cov_" + nm], np_kernel(kern, pt_, pt_) - Ks @ S @ Ks.T + cj * np.eye(len(pt_)), f"conditional covariance of {nm}", rtol=1e-5, atol=3e-5 * scale + amp)
            close(o["mu_t"], o["f"], "prediction at the training inputs", rtol=1e-6, atol=(np.abs(p).sum() + 1) * np.sqrt(jit) * 1.5 + 1e-6 * scale)
    if complete:
        close(G, K, "prior covariance of a complete approximation", atol=3 * jit + 3e-5 * scale)
    ctx.count(len(pts))
    ctx.label(case["which"], case["inducing"] if case["which"] == "pp" else case["rank"], case["mean"], kern["kind"])
    ctx.nontriv(rank >= 2 or case["mean"] != "zero")


TASKS = [Task("dense", s_case, check, 60, 2500, soft_s=(60, 900), shards=(3, 6))]
