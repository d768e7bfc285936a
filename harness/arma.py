"""Reference ARMA quantities, from lag polynomials."""
import numpy as np
import pymc as pm


def pacf_to_ar(r):
    """Stationary AR coefficients from partial autocorrelations in (-1, 1)."""
    a = np.zeros(0)
    for x in r:
        a = np.r_[a - x * a[::-1], x]
    return a


def poly(coefs, S=1, sign=-1):
    """1 + sign*(c_1 L^S + c_2 L^2S + ...) as ascending coefficients."""
    out = np.zeros(len(coefs) * S + 1)
    out[0] = 1
    for i, c in enumerate(coefs):
        out[(i + 1) * S] = sign * c
    return out


def power(p, n):
    out = np.ones(1)
    for _ in range(n):
        out = np.convolve(out, p)
    return out


def psi(ar, ma, n):
    """First n coefficients of ma(L)/ar(L), both ascending with leading one."""
    out = np.zeros(n)
    for j in range(n):
        v = ma[j] if j < len(ma) else 0.0
        for i in range(1, min(j, len(ar) - 1) + 1):
            v -= ar[i] * out[j - i]
        out[j] = v
    return out


def toeplitz_cov(ar, ma, sigma, n):
    K = 600
    w = psi(ar, ma, K)
    g = np.array([w[: K - h] @ w[h:] for h in range(n)]) * sigma**2
    return g[np.abs(np.subtract.outer(np.arange(n), np.arange(n)))]


def check_info(mod, require, label):
    """Names, shapes, dims and coordinates announced to the user agree with the variables the model expects."""
    names = mod.param_names
    require(sorted(names) == sorted(mod._name_to_variable), "%s: param_names %s but placeholders %s", label, names, sorted(mod._name_to_variable))
    require(len(set(mod.state_names)) == len(mod.state_names) == mod.k_states, "%s: %d states but names %s", label, mod.k_states, mod.state_names)
    require(len(mod.shock_names) == mod.k_posdef and len(mod.observed_states) == mod.k_endog, "%s: names %s, %s", label, mod.shock_names, mod.observed_states)
    require(set(mod.param_info) == set(names), "%s: param_info describes %s", label, sorted(mod.param_info))
    coords = mod.coords
    for p, v in mod._name_to_variable.items():
        shape = tuple(v.type.shape)
        info = mod.param_info[p]
        require((info["shape"] or ()) == shape, "%s: param_info of %s has shape %s, the model takes %s", label, p, info["shape"], shape)
        dims = mod.param_dims.get(p)
        require((dims or ()) == (info["dims"] or ()), "%s: dims of %s are %s and %s", label, p, dims, info["dims"])
        if dims:
            require(tuple(len(coords[d]) for d in dims) == shape, "%s: coords of %s have lengths %s, the model takes %s", label, p, [len(coords[d]) for d in dims], shape)


def graph_logp(mod, data, P, mode="FAST_COMPILE"):
    """Log-likelihood of a real model built with the announced dims and coords, at parameter values P."""
    with pm.Model(coords=mod.coords) as model:
        for p in mod.param_names:
            dims = mod.param_dims.get(p)
            pm.Normal(p, dims=dims) if dims else pm.Normal(p)
        mod.build_statespace_graph(data, mode=mode)
    f = model.compile_fn(model.logp(model.observed_RVs, sum=True), mode=mode, inputs=[model.rvs_to_values[v] for v in model.free_RVs])
    return float(f({v.name: P[v.name] for v in model.free_RVs}))
