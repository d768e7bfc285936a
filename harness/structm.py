"""Structural time series components: generated options, independent recursions, and evaluation of built models."""
import numpy as np
import pytensor
from hypothesis import strategies as st

from pymc_extras.statespace import structural as S
from pymc_extras.statespace.utils.constants import LONG_MATRIX_NAMES

KINDS = ["trend", "ar", "season", "freq", "cycle", "reg", "me"]


@st.composite
def s_spec(draw, kind, i=0, small=False):
    name = f"{kind}{i}" if draw(st.integers(0, 4)) else None
    k = dict(kind=kind, name=name)
    if kind == "trend":
        o = draw(st.integers(1, 3 if small else 5))
        k["order"] = o if draw(st.booleans()) else [1] * o
        k["innov"] = draw(st.one_of(st.none(), st.integers(0, o + 1), st.lists(st.integers(0, 1), min_size=o, max_size=o)))
    elif kind == "ar":
        k["order"] = draw(st.one_of(st.integers(1, 3 if small else 5),
                                    st.lists(st.integers(0, 1), min_size=0, max_size=3).map(lambda x: x + [1]), st.just([1, 0])))
    elif kind == "season":
        k["s"] = draw(st.integers(2, 5 if small else 9)); k["innov"] = draw(st.booleans()); k["pop"] = draw(st.sampled_from([True, True, False]))
        k["states"] = draw(st.booleans())
    elif kind == "freq":
        k["s"] = draw(st.sampled_from([2, 3, 4, 5, 2.5, 3.5, 7.25] if small else [2, 3, 4, 5, 6, 7, 12, 2.5, 3.5, 7.25, 4.0, 10.5]))
        k["n"] = draw(st.one_of(st.none(), st.integers(1, max(1, min(int(k["s"] // 2), 4)))))
        k["innov"] = draw(st.booleans())
    elif kind == "cycle":
        k["est"] = draw(st.booleans()); k["dampen"] = draw(st.booleans()); k["innov"] = draw(st.booleans())
        k["len"] = draw(st.sampled_from([2, 3, 4, 5, 8.5, 12, 2.75]))
    elif kind == "reg":
        k["k"] = draw(st.integers(1, 3)); k["states"] = draw(st.booleans()); k["innov"] = draw(st.booleans())
    return k


def season_names(k):
    return [f"day{i}" for i in range(k["s"])]


def make(k):
    kw = {} if k["name"] is None else {"name": k["name"]}
    kind = k["kind"]
    if kind == "trend":
        return S.LevelTrendComponent(order=k["order"], innovations_order=k["innov"], **kw)
    if kind == "ar":
        return S.AutoregressiveComponent(order=k["order"], **kw)
    if kind == "season":
        return S.TimeSeasonality(k["s"], innovations=k["innov"], pop_state=k["pop"], state_names=season_names(k) if k["states"] else None, **kw)
    if kind == "freq":
        return S.FrequencySeasonality(k["s"], n=k["n"], innovations=k["innov"], **kw)
    if kind == "cycle":
        return S.CycleComponent(cycle_length=None if k["est"] else k["len"], estimate_cycle_length=k["est"], dampen=k["dampen"], innovations=k["innov"], **kw)
    if kind == "reg":
        nm = k["name"] or "Exogenous"
        return S.RegressionComponent(k_exog=k["k"], state_names=[f"{nm}_v{i}" for i in range(k["k"])] if k["states"] else None, innovations=k["innov"], **kw)
    return S.MeasurementError(**kw)


def full_name(k):
    if k["name"]:
        return k["name"]
    kind = k["kind"]
    if kind == "freq":
        return f"Frequency[s={k['s']}, n={n_freq(k)}]"
    if kind == "cycle":
        return f"Cycle[s={'Estimate' if k['est'] else int(k['len'])}, dampen={k['dampen']}, innovations={k['innov']}]"
    return dict(trend="LevelTrend", ar="AutoRegressive", season=f"Seasonal[s={k.get('s')}]", reg="Exogenous", me="MeasurementError")[kind]


def n_freq(k):
    return int(k["s"] // 2) if k["n"] is None else k["n"]


def mask(o, n=None):
    return [1] * o if isinstance(o, int) else list(o)


def innov_mask(k):
    n = len(mask(k["order"]))
    if k["innov"] is None:
        return [1] * n
    if isinstance(k["innov"], int):
        return [1 if i < k["innov"] else 0 for i in range(n)]
    return list(k["innov"])


def param_shapes(k):
    """{parameter: (shape, dims or None, labels)} a user of the component must provide, from its documentation."""
    n, kind = full_name(k), k["kind"]
    if kind == "trend":
        names = S_NAMES[: len(mask(k["order"]))]
        out = {"initial_trend": ((len(names),), ("trend_state",), [names])}
        sh = [a for a, b in zip(names, innov_mask(k)) if b]
        if sh:
            out["sigma_trend"] = ((len(sh),), ("trend_shock",), [sh])
        return out
    if kind == "ar":
        lags = [i + 1 for i, v in enumerate(mask(k["order"])) if v]
        return {"ar_params": ((len(lags),), ("ar_lag",), [lags]), "sigma_ar": ((), None, None)}
    if kind == "season":
        c = k["s"] - int(k["pop"])
        labels = season_names(k) if k["states"] else [f"{n}_{i}" for i in range(k["s"])]
        out = {f"{n}_coefs": ((c,), (f"{n}_state",), [labels[k["s"] - c:]])}
    elif kind == "freq":
        c = 2 * n_freq(k)
        labels = [f"{n}_{f}_{i}" for i in range(n_freq(k)) for f in ("Cos", "Sin")]
        if k["s"] / n_freq(k) == 2:
            c -= 1
        out = {n: ((c,), (f"{n}_state",), [labels[:c]])}
    elif kind == "cycle":
        out = {n: ((2,), (f"{n}_state",), [[f"{n}_Cos", f"{n}_Sin"]])}
        if k["est"]:
            out[f"{n}_length"] = ((), None, None)
        if k["dampen"]:
            out[f"{n}_dampening_factor"] = ((), None, None)
    elif kind == "reg":
        labels = [f"{n}_v{i}" for i in range(k["k"])] if k["states"] else [f"{n}_{i + 1}" for i in range(k["k"])]
        out = {f"beta_{n}": ((k["k"],), (f"{n}_state",), [labels])}
        if k["innov"]:
            out[f"sigma_beta_{n}"] = ((k["k"],), (f"{n}_state",), [labels])
        return out
    else:
        return {f"sigma_{n}": ((), None, None)}
    if k["innov"]:
        out[f"sigma_{n}"] = ((), None, None)
    return out


S_NAMES = ["level", "trend", "acceleration", "jerk", "snap", "crackle", "pop"]


def n_states(k):
    kind = k["kind"]
    if kind in ("trend", "ar"):
        return len(mask(k["order"]))
    if kind == "season":
        return k["s"] - int(k["pop"])
    return dict(freq=lambda: 2 * n_freq(k), cycle=lambda: 2, reg=lambda: k["k"], me=lambda: 0)[kind]()


def draw_params(k, rng):
    out = {}
    n, kind = full_name(k), k["kind"]
    for p, (shape, _, _) in param_shapes(k).items():
        v = rng.normal(size=shape)
        if p.startswith("sigma"):
            v = np.abs(v) + 0.1
        if kind == "ar" and p == "ar_params":
            v = v * 0.4
        if kind == "season" and p.endswith("_coefs") and not k["pop"]:
            v = v - v.mean()
        if p.endswith("_length"):
            v = np.asarray(float(k["len"]))
        if p.endswith("_dampening_factor"):
            v = np.asarray(rng.uniform(0.2, 1.0))
        out[p] = v
    return out


def draw_data(k, n, rng):
    return {f"data_{full_name(k)}": rng.normal(size=(n, k["k"]))} if k["kind"] == "reg" else {}


def n_shocks(k):
    kind = k["kind"]
    if kind == "trend":
        return sum(innov_mask(k))
    if kind == "ar":
        return 1
    if kind == "season":
        return int(k["innov"])
    if kind in ("freq", "cycle", "reg"):
        return n_states(k) * int(k["innov"])
    return 0


def path(k, P, D, n, e):
    """The component's contribution to y_0..y_{n-1} by its documented recursion; e[t] are standard normal shocks entering step t+1."""
    name, kind = full_name(k), k["kind"]
    y = np.zeros(n)
    if kind == "trend":
        m = innov_mask(k)
        x = np.array(P["initial_trend"], float)
        for t in range(n):
            y[t] = x[0]
            x = np.cumsum(x[::-1])[::-1].copy()  # every derivative is added to all lower ones
            if t < n - 1 and sum(m):
                x[np.flatnonzero(m)] += P["sigma_trend"] * e[t]
    elif kind == "ar":
        lags = [i + 1 for i, v in enumerate(mask(k["order"])) if v]
        for t in range(1, n):
            y[t] = sum(a * y[t - l] for a, l in zip(P["ar_params"], lags) if t - l >= 0) + P["sigma_ar"] * e[t - 1][0]
    elif kind == "season":
        c = np.asarray(P[f"{name}_coefs"], float); s = k["s"]
        if k["pop"]:
            hist = list(c[::-1])  # ..., gamma_-1, gamma_0
            y[0] = hist[-1]
            for t in range(1, n):
                g = -sum(hist[len(hist) - s + 1:]) + (P[f"sigma_{name}"] * e[t - 1][0] if k["innov"] else 0.0)
                hist.append(g); y[t] = g
        else:
            # every season has its own effect; the current effect is perturbed and comes back a season later
            cur = list(c)
            for t in range(n):
                y[t] = cur[0]
                cur = cur[1:] + cur[:1]
                if k["innov"] and t < n - 1:
                    cur[0] += P[f"sigma_{name}"] * e[t][0]
    elif kind in ("freq", "cycle"):
        nf = n_freq(k) if kind == "freq" else 1
        s = k["s"] if kind == "freq" else P.get(f"{name}_length", k["len"])
        rho = P.get(f"{name}_dampening_factor", 1.0)
        x = np.zeros(2 * nf); v = np.asarray(P[name], float); x[: len(v)] = v
        for t in range(n):
            y[t] = x[::2].sum()
            new = np.zeros_like(x)
            for j in range(nf):
                lam = 2 * np.pi * (j + 1) / s
                a, b = x[2 * j], x[2 * j + 1]
                new[2 * j] = rho * (a * np.cos(lam) + b * np.sin(lam))
                new[2 * j + 1] = rho * (-a * np.sin(lam) + b * np.cos(lam))
            if k["innov"] and t < n - 1:
                new = new + P[f"sigma_{name}"] * e[t]
            x = new
    elif kind == "reg":
        b = np.array(P[f"beta_{name}"], float); X = D[f"data_{name}"]
        for t in range(n):
            y[t] = X[t] @ b
            if k["innov"] and t < n - 1:
                b = b + P[f"sigma_beta_{name}"] * e[t]
    return y


def law(k, P, D, n):
    """Mean and covariance of the contribution to y_0..y_{n-1} from a known initial state."""
    r = n_shocks(k)
    mean = path(k, P, D, n, np.zeros((n - 1, r)))
    if k["kind"] == "me":
        return mean, np.eye(n) * float(P[f"sigma_{full_name(k)}"]) ** 2
    A = np.zeros((n, (n - 1) * r))
    for i in range((n - 1) * r):
        e = np.zeros((n - 1) * r); e[i] = 1
        A[:, i] = path(k, P, D, n, e.reshape(n - 1, r)) - mean
    return mean, A @ A.T


def compile_ssm(mod):
    ins = list(mod._name_to_variable.values()) + list(mod._name_to_data.values())
    names = list(mod._name_to_variable) + list(mod._name_to_data)
    f = pytensor.function(ins, [mod.ssm[n] for n in LONG_MATRIX_NAMES], mode="FAST_COMPILE", on_unused_input="ignore")
    return names, f


def evaluate(compiled, P):
    names, f = compiled
    vals = f(*[np.asarray(P[n]) for n in names])
    return dict(zip(["a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"], vals))
