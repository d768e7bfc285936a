"""Models with closed-form modes, curvatures and priors, for the checks of the inference algorithms."""
import numpy as np
import pymc as pm
import pytensor.tensor as pt
from hypothesis import strategies as st
from scipy import stats
from scipy.special import expit, logit

NAMES = ["beta", "alpha", "zeta", "mu", "k", "c1", "A", "theta", "w", "x", "b2", "sigma"]
GAUSS = ["normal", "mvn", "linear", "hier"]
OTHER = ["lognormal", "gamma", "invgamma", "beta", "truncnormal", "dirichlet", "poisson", "binomial"]
f4 = lambda lo, hi: st.integers(int(lo * 4), int(hi * 4)).map(lambda i: i / 4)


@st.composite
def s_unit(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    shape = draw(st.sampled_from([[], [], [1], [2], [3], [2, 2], [1, 2]]))
    if kind in ("linear", "mvn", "dirichlet"):
        shape = draw(st.sampled_from([[2], [3]] if kind == "dirichlet" else [[1], [2], [3]]))
    if kind == "dirichlet" and draw(st.booleans()):
        shape = [2] + shape
    return dict(kind=kind, shape=shape, dims=draw(st.sampled_from(["none", "none", "coords", "coords", "length", "intcoords"])), det=draw(st.sampled_from([None, None, "dims", "plain"])), data=draw(st.booleans()), obs=draw(st.booleans()), nobs=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10**5)))


@st.composite
def s_model(draw, kinds=tuple(GAUSS + OTHER), max_units=3):
    units = draw(st.lists(s_unit(list(kinds)), min_size=1, max_size=max_units))
    return dict(units=units, names=draw(st.permutations(NAMES))[: 2 * max_units], order=draw(st.integers(0, 10**6)), joint=draw(st.booleans()), name=draw(st.sampled_from(["", "", "", "mod"])))


class Var:
    """One free variable: its name, shape, transform and where it sits."""

    def __init__(self, name, shape, tr=None, lo=0.0, hi=1.0, dims=None, labels=None):
        self.name, self.shape, self.tr, self.lo, self.hi, self.dims, self.labels = name, tuple(shape), tr, lo, hi, dims, labels
        self.value_name = name if tr is None else f"{name}_{tr}__"
        self.vshape = self.shape if tr != "simplex" else self.shape[:-1] + (self.shape[-1] - 1,)

    def bwd(self, v):
        v = np.asarray(v, dtype=float)
        if self.tr is None:
            return v
        if self.tr == "log":
            return np.exp(v)
        if self.tr == "logodds":
            return expit(v)
        if self.tr == "interval":
            return self.lo + (self.hi - self.lo) * expit(v)
        y = np.concatenate([v, -v.sum(-1, keepdims=True)], -1)
        y = np.exp(y - y.max(-1, keepdims=True))
        return y / y.sum(-1, keepdims=True)

    def fwd(self, x):
        x = np.asarray(x, dtype=float)
        if self.tr is None:
            return x
        if self.tr == "log":
            return np.log(x)
        if self.tr == "logodds":
            return logit(x)
        if self.tr == "interval":
            return np.log(x - self.lo) - np.log(self.hi - x)
        y = np.log(x)
        return (y - y.mean(-1, keepdims=True))[..., :-1]


def _diag(a):
    return np.diag(np.ravel(a))


class Unit:
    """steps: list of (var, builder(model_vars, dims) -> rv); obs: builder or None; mode: natural values per variable;
    nat, unc: negative Hessians (over the raveled variables in step order) in natural and in unconstrained space, the latter with Jacobian."""


def unit(u, names, i):
    rng = np.random.default_rng([u["seed"], 7])
    q = lambda lo, hi, size: np.round(rng.uniform(lo, hi, size) * 8) / 8
    kind, shape = u["kind"], tuple(u["shape"])
    U = Unit()
    U.kind, U.spec, U.i = kind, u, i
    dims = labels = None
    U.coords, U.lengths = {}, {}
    if u["dims"] != "none" and shape:
        dims = tuple(f"dim{i}{'abc'[j]}" for j in range(len(shape)))
        labels = []
        for d, n in zip(dims, shape):
            if u["dims"] == "length":
                U.lengths[d] = n
                labels.append(list(range(n)))
            else:
                c = [f"{d}_{'zyx'[j]}" for j in range(n)] if u["dims"] == "coords" else [10 * (n - j) for j in range(n)]
                U.coords[d] = c
                labels.append(c)
    U.data = {}
    U.observed = {}
    obs_name = f"obs{i}"

    def V(j=0, tr=None, shape=shape, **k):
        return Var(names[j], shape, tr, dims=dims if shape else None, labels=labels if shape else None, **k)

    def give(name, value):
        """a constant or a data container"""
        value = np.asarray(value, dtype=float)
        if u["data"]:
            U.data[name] = value
            return lambda: pm.Data(name, value)
        return lambda: value

    kw = lambda v: dict(dims=v.dims) if v.dims is not None else dict(shape=v.shape)
    mu, s = q(-2, 2, shape), q(0.5, 2, shape) if kind != "mvn" else None
    U.obs = None
    n = u["nobs"]
    if kind == "normal":
        v = V()
        m = give(f"m{i}", mu)
        U.steps = [(v, lambda R: pm.Normal(v.name, m(), s, **kw(v)))]
        U.prior = [lambda P: stats.norm(mu, s).cdf(P[v.name])]
        if u["obs"]:
            y = mu[None] + q(-2, 2, (n,) + shape)
            U.obs = lambda R: pm.Normal(obs_name, R[v.name], 0.75, observed=y)
            U.observed[obs_name] = y
            prec = 1 / s**2 + n / 0.75**2
            U.mode = [(mu / s**2 + y.sum(0) / 0.75**2) / prec]
            U.evid = _evid_normal(y.reshape(n, -1), np.ravel(mu), np.ravel(s), 0.75)
        else:
            prec = 1 / s**2
            U.mode = [mu]
            U.evid = 0.0
        U.nat = U.unc = _diag(prec * np.ones(shape))
    elif kind == "mvn":
        v = V()
        k = shape[0]
        L = np.tril(rng.uniform(-1, 1, (k, k)), -1) + np.diag(rng.uniform(0.5, 1.5, k))
        S = L @ L.T
        U.steps = [(v, lambda R: pm.MvNormal(v.name, mu, cov=S, **kw(v)))]
        U.prior = [lambda P: stats.norm.cdf(np.linalg.solve(L, (P[v.name] - mu).T).T)]
        U.mode, U.nat = [mu], np.linalg.inv(S)
        U.unc, U.evid = U.nat, 0.0
    elif kind == "linear":
        v = V()
        k = shape[0]
        X = rng.normal(size=(n + 2, k)).round(2)
        y = q(-3, 3, n + 2)
        Xg = give(f"X{i}", X)
        U.steps = [(v, lambda R: pm.Normal(v.name, mu, s, **kw(v)))]
        U.obs = lambda R: pm.Normal(obs_name, Xg() @ R[v.name], 0.8, observed=y)
        U.observed[obs_name] = y
        U.prior = [lambda P: stats.norm(mu, s).cdf(P[v.name])]
        U.nat = U.unc = np.diag(1 / s**2) + X.T @ X / 0.64
        U.mode = [np.linalg.solve(U.nat, mu / s**2 + X.T @ y / 0.64)]
        U.evid = stats.multivariate_normal(X @ mu, X @ np.diag(s**2) @ X.T + 0.64 * np.eye(n + 2)).logpdf(y)
    elif kind == "hier":
        a, v = V(0, shape=()), V(1)
        m0 = float(q(-1, 1, ()))
        s = float(np.ravel(s)[0])
        y = q(-2, 2, (n,) + shape)
        U.steps = [(a, lambda R: pm.Normal(a.name, m0, 1.25)), (v, lambda R: pm.Normal(v.name, R[a.name], s, **kw(v)))]
        U.prior = [lambda P: stats.norm(m0, 1.25).cdf(P[a.name]), lambda P: stats.norm.cdf((P[v.name] - P[a.name].reshape((-1,) + (1,) * len(shape))) / s)]
        sz = int(np.prod(shape))
        K = np.zeros((1 + sz, 1 + sz))
        K[0, 0] = 1 / 1.25**2 + sz / s**2
        K[0, 1:] = K[1:, 0] = -1 / s**2
        K[1:, 1:] = np.eye(sz) / s**2
        h = np.r_[m0 / 1.25**2, np.zeros(sz)]
        U.evid = 0.0
        if u["obs"]:
            U.obs = lambda R: pm.Normal(obs_name, R[v.name], 0.9, observed=y)
            U.observed[obs_name] = y
            K[1:, 1:] += np.eye(sz) * n / 0.81
            h[1:] += np.ravel(y.sum(0)) / 0.81
            C0 = np.full((sz, sz), 1.25**2) + np.eye(sz) * s**2
            big = np.kron(np.ones((n, n)), C0) + 0.81 * np.eye(n * sz)
            U.evid = stats.multivariate_normal(np.full(n * sz, m0), big).logpdf(y.reshape(-1))
        sol = np.linalg.solve(K, h)
        U.mode, U.nat, U.unc = [sol[0], sol[1:].reshape(shape)], K, K
    else:
        U.evid = None if kind in ("poisson", "binomial") else 0.0
        one = np.ones(shape)
        if kind == "lognormal":
            v = V(tr="log")
            sg = q(0.25, 0.75, shape)
            U.steps = [(v, lambda R: pm.LogNormal(v.name, mu, sg, **kw(v)))]
            U.prior = [lambda P: stats.norm(mu, sg).cdf(np.log(P[v.name]))]
            x = np.exp(mu - sg**2)
            nat, unc = -(1 / x**2 - (1 - (np.log(x) - mu)) / (sg**2 * x**2)), one / sg**2
        elif kind in ("gamma", "poisson"):
            v = V(tr="log")
            a, b = q(2, 6, shape), q(0.5, 3, shape)
            U.steps = [(v, lambda R: pm.Gamma(v.name, a, b, **kw(v)))]
            U.prior = [lambda P: stats.gamma(a, scale=1 / b).cdf(P[v.name])]
            a1, b1 = a, b
            if kind == "poisson":
                y = rng.poisson(3, (n,) + shape)
                U.obs = lambda R: pm.Poisson(obs_name, R[v.name], observed=y)
                U.observed[obs_name] = y
                a1, b1 = a + y.sum(0), b + n
            x = (a1 - 1) / b1
            nat, unc = (a1 - 1) / x**2, b1 * x
        elif kind == "invgamma":
            v = V(tr="log")
            a, b = q(2, 6, shape), q(0.5, 3, shape)
            U.steps = [(v, lambda R: pm.InverseGamma(v.name, a, b, **kw(v)))]
            U.prior = [lambda P: stats.invgamma(a, scale=b).cdf(P[v.name])]
            x = b / (a + 1)
            nat, unc = -(a + 1) / x**2 + 2 * b / x**3, b / x
        elif kind in ("beta", "binomial"):
            v = V(tr="logodds")
            a, b = q(1.75, 5, shape), q(1.75, 5, shape)
            U.steps = [(v, lambda R: pm.Beta(v.name, a, b, **kw(v)))]
            U.prior = [lambda P: stats.beta(a, b).cdf(P[v.name])]
            a1, b1 = a, b
            if kind == "binomial":
                y = rng.binomial(6, 0.4, (n,) + shape)
                U.obs = lambda R: pm.Binomial(obs_name, 6, R[v.name], observed=y)
                U.observed[obs_name] = y
                a1, b1 = a + y.sum(0), b + 6 * n - y.sum(0)
            x = (a1 - 1) / (a1 + b1 - 2)
            nat, unc = (a1 - 1) / x**2 + (b1 - 1) / (1 - x) ** 2, (a1 + b1) * x * (1 - x)
        elif kind == "truncnormal":
            lo, hi = -1.5, 2.5
            v = V(tr="interval", lo=lo, hi=hi)
            mu = q(-1, 2, shape)
            U.steps = [(v, lambda R: pm.TruncatedNormal(v.name, mu, s, lower=lo, upper=hi, **kw(v)))]
            U.prior = [lambda P: stats.truncnorm((lo - mu) / s, (hi - mu) / s, loc=mu, scale=s).cdf(P[v.name])]
            x = mu
            p = (x - lo) / (hi - lo)
            d1 = (hi - lo) * p * (1 - p)
            nat, unc = 1 / s**2, d1**2 / s**2 + 2 * p * (1 - p)
        else:
            v = V(tr="simplex")
            a = q(1.75, 5, shape)
            U.steps = [(v, lambda R: pm.Dirichlet(v.name, a, **kw(v)))]
            U.prior = [lambda P: stats.beta(a[..., 0], a[..., 1:].sum(-1)).cdf(P[v.name][..., 0])]
            x = (a - 1) / (a - 1).sum(-1, keepdims=True)
            nat = (a - 1) / x**2
            k = shape[-1]
            T = np.vstack([np.eye(k - 1), -np.ones((1, k - 1))])
            rows = [T.T @ (ai.sum() * (np.diag(xi) - np.outer(xi, xi))) @ T for ai, xi in zip(a.reshape(-1, k), x.reshape(-1, k))]
            U.unc = np.zeros((len(rows) * (k - 1),) * 2)
            for j, r in enumerate(rows):
                U.unc[j * (k - 1):(j + 1) * (k - 1), j * (k - 1):(j + 1) * (k - 1)] = r
        par = np.ravel(a * one if kind not in ("lognormal", "truncnormal") else mu * one)
        if kind in ("lognormal", "truncnormal"):
            par2 = np.ravel((sg if kind == "lognormal" else s) * one)
        elif kind != "dirichlet":
            par, par2 = (np.ravel(a * one), np.ravel(b * one)) if kind == "invgamma" else (np.ravel(a1 * one), np.ravel(b1 * one))

        def dens(w, np):
            """log density in unconstrained space with Jacobian, up to a constant; np may be jax.numpy"""
            ls = lambda t: -np.logaddexp(0.0, -t)
            if kind == "lognormal":
                return (-0.5 * ((w - par) / par2) ** 2).sum()
            if kind in ("gamma", "poisson"):
                return (par * w - par2 * np.exp(w)).sum()
            if kind == "invgamma":
                return (-par * w - par2 * np.exp(-w)).sum()
            if kind in ("beta", "binomial"):
                return (par * ls(w) + par2 * ls(-w)).sum()
            if kind == "truncnormal":
                return (-0.5 * ((lo + (hi - lo) * np.exp(ls(w)) - par) / par2) ** 2 + ls(w) + ls(-w)).sum()
            k = shape[-1]
            t = 0.0
            for r, (row, al) in enumerate(zip(w.reshape(-1, k - 1), a.reshape(-1, k))):
                y = np.concatenate([row, -row.sum(keepdims=True)])
                t = t + (al * (y - np.log(np.exp(y).sum()))).sum()
            return t
        U.dens = dens
        U.mode, U.nat = [x], _diag(nat * one)
        if kind != "dirichlet":
            U.unc = _diag(unc * one)
    U.vars = [v for v, _ in U.steps]
    if not hasattr(U, "dens"):
        m_all = np.concatenate([np.ravel(m) for m in U.mode])
        U.dens = lambda w, np: -0.5 * (w - m_all) @ U.unc @ (w - m_all)
    return U


def _evid_normal(y, mu, s, so):
    n, k = y.shape
    return float(sum(stats.multivariate_normal(np.full(n, mu[j]), so**2 * np.eye(n) + s[j] ** 2 * np.ones((n, n))).logpdf(y[:, j]) for j in range(k)))


def units(case):
    names = list(case["names"])
    return [unit(u, names[2 * i: 2 * i + 2], i) for i, u in enumerate(case["units"])]


def build(case):
    """model, units (in the order of the case), free variables in creation order, deterministics {name: function of natural values}"""
    us = units(case)
    rng = np.random.default_rng(case["order"])
    queues = [list(U.steps) for U in us]
    model = pm.Model(name=case["name"])
    prefix = case["name"] + "::" if case["name"] else ""
    R, order, dets = {}, [], {}
    with model:
        for U in us:
            for d, c in U.coords.items():
                model.add_coord(d, c)
            for d, k in U.lengths.items():
                model.add_coord(d, length=k)
        while any(queues):
            j = int(rng.choice([j for j, s in enumerate(queues) if s]))
            v, make = queues[j].pop(0)
            R[v.name] = make(R)
            order.append(v)
            U = us[j]
            if U.spec["det"] and v is U.vars[-1]:
                pm.Deterministic(f"det{j}", 2 * R[v.name] + 1, dims=v.dims if U.spec["det"] == "dims" else None)
                dets[f"det{j}"] = lambda P, n=v.name: 2 * P[n] + 1
        for U in us:
            if U.obs is not None:
                U.obs(R)
        if case["joint"]:
            total = [sum(R[v.name].sum() for v in order)]
            pm.Deterministic("total", total[0])
            dets["total"] = lambda P, o=list(order): sum(P[v.name].reshape(P[v.name].shape[: P[v.name].ndim - len(v.shape)] + (-1,)).sum(-1) for v in o)
    return model, us, order, dets, prefix


def gaussian(us, space):
    """{(name, flat index): position}, mode vector (in the space) and negative Hessian over all variables"""
    idx, mode, mats = {}, [], []
    for U in us:
        for v, m in zip(U.vars, U.mode):
            x = np.ravel(v.fwd(m) if space == "unc" else m)
            for j in range(x.size):
                idx[(v.name, j)] = len(mode) + j
            mode += list(x)
        mats.append(U.unc if space == "unc" else U.nat)
    K = np.zeros((len(mode),) * 2)
    o = 0
    for M in mats:
        K[o:o + len(M), o:o + len(M)] = M
        o += len(M)
    return idx, np.array(mode), K
