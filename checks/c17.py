"""C17: discrete Markov chains against path-by-path enumeration: log-density, draws, initial points, and the specialised step's exact transition kernel."""
import itertools, warnings

import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import gen, stat
from harness.core import Reject, Task, close, limit, require
from pymc_extras.distributions import DiscreteMarkovChain
from pymc_extras.distributions.timeseries import DiscreteMarkovChainGibbsMetropolis

RULE = """A case is a chain: two or three states, one to three lags, up to four transitions, transition probabilities or logits with no to two batch dims (singletons included, zero entries
included), an initial distribution with its own batch dims, per lag, or defaulted, and a size, shape, dims, steps or observed data that fix the length. Log-densities of whole batches of
paths, impossible ones included, equal the product of the tabulated probabilities; draws have the exact path frequencies, shape and range; the default initial point is possible; one step of
the Gibbs sampler from a given state moves with the probabilities of the enumerated kernel. Non-trivial: every accepted case with at least one transition."""
ASSUMPTIONS = ["chains of at most 243 paths for frequencies", "the size is given explicitly when the initial distribution has batch dims of its own", "strictly positive probabilities for the sampler's proportional proposal"]


@st.composite
def s_chain(draw, max_paths=10**9, zeros=True, max_batch=6):
    K = draw(st.integers(2, 3))
    L = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    S = draw(st.integers(1, 4))
    while K ** (L + S) > max_paths and (S > 1 or L > 1):
        if S > 1:
            S -= 1
        else:
            L -= 1
    bP = draw(st.sampled_from([[], [], [], [2], [1], [3], [2, 2], [1, 2]]))
    batch = draw(st.sampled_from(["none", "same", "more"]))
    full = list(bP)
    if batch == "more":
        full = [draw(st.integers(1, 2))] + [n if n > 1 else draw(st.integers(1, 2)) for n in bP]
    rows = int(np.prod(bP)) * K ** L
    P = [draw(gen.prob(K)) for _ in range(rows)]
    if zeros and draw(st.booleans()):
        P[draw(st.integers(0, rows - 1))] = [1.0] + [0.0] * (K - 1)
    init = draw(st.sampled_from(["vec", "vec", "lag", "batch", "default"]))
    n_init = {"vec": 1, "lag": L, "batch": int(np.prod(full)) * L, "default": 0}[init]
    return dict(K=K, L=L, S=S, bP=bP, full=full, explicit=batch != "none" or bool(full and init in ("lag", "batch")), P=P, init=init, tab=[draw(gen.prob(K)) for _ in range(n_init)], logit=draw(st.booleans()) and not any(0.0 in r for r in P),
                length=draw(st.sampled_from(["steps", "shape"])), seed=draw(st.integers(0, 10**6)))


def arrays(case):
    K, L = case["K"], case["L"]
    P = np.array(case["P"], float).reshape(tuple(case["bP"]) + (K,) * (L + 1))
    full = tuple(case["full"])
    if case["init"] == "default":
        init = np.full((K,), 1 / K)
    elif case["init"] == "vec":
        init = np.array(case["tab"], float)[0]
    elif case["init"] == "lag":
        init = np.array(case["tab"], float).reshape((L,) + (1,) * len(full) + (K,))
    else:
        init = np.array(case["tab"], float).reshape((L,) + full + (K,))
    return P, init


def dist_kwargs(case, lead=()):
    """Keyword arguments of DiscreteMarkovChain; ``lead`` prepends batch dims."""
    P, init = arrays(case)
    kw = dict(n_lags=case["L"])
    if lead and init.ndim > 1:
        init = init[(slice(None),) + (None,) * len(lead)]
    kw["logit_P" if case["logit"] else "P"] = np.log(P) + 0.7 if case["logit"] else P
    if case["init"] != "default":
        kw["init_dist"] = pm.Categorical.dist(p=init)
    full = tuple(lead) + tuple(case["full"])
    if case["length"] == "steps":
        kw["steps"] = case["S"]
        if case["explicit"] or lead:
            kw["size"] = full
    else:
        kw["shape"] = full + (case["L"] + case["S"],)
    return kw


def make(case, name=None, lead=(), **extra):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dist_kwargs(case, lead)
        if name is None:
            return DiscreteMarkovChain.dist(**kw)
        kw.update(extra)
        return DiscreteMarkovChain(name, **kw)


def path_logp(case, path, b):
    """Log-probability of one path of batch member b (index in full)."""
    P, init = arrays(case)
    L = case["L"]
    bP = P.reshape(tuple(case["bP"]) + P.shape[len(case["bP"]):])
    k = len(case["bP"])
    bi = b[len(b) - k:] if k else ()
    Pb = bP[tuple(0 if n == 1 else i for n, i in zip(case["bP"], bi))]
    with np.errstate(divide="ignore"):
        lp = 0.0
        for l in range(L):
            p = init if init.ndim == 1 else init[l].reshape(-1, case["K"])[0] if case["init"] == "lag" else init[(l,) + tuple(b)]
            lp += np.log(p[path[l]])
        for t in range(L, len(path)):
            lp += np.log(Pb[tuple(path[t - L:t + 1])])
    return lp


def full_of(case):
    """Batch shape of the variable."""
    if case["explicit"]:
        return tuple(case["full"])
    if case["init"] == "batch":
        return tuple(np.broadcast_shapes(tuple(case["bP"]), tuple(case["full"])))
    return tuple(case["bP"])


def check_logp(case, ctx):
    full, T = full_of(case), case["L"] + case["S"]
    rng = np.random.default_rng(case["seed"])
    rv = make(case)
    mode = "FAST_COMPILE"
    value = rv.type()
    with limit(120, "compilation"):
        f = pytensor.function([value], pm.logp(rv, value), mode=mode, on_unused_input="ignore")
    for _ in range(6):
        v = rng.integers(0, case["K"], size=full + (T,))
        want = np.array([path_logp(case, v[b], b) for b in np.ndindex(*full)]).reshape(full)
        close(np.asarray(f(v)), want, f"log-density of {v.tolist()}", rtol=1e-8, atol=1e-8)
    ctx.label(f"{case['L']} lags", f"batch {len(full)}", "init " + case["init"], "logits" if case["logit"] else "probabilities")
    # the same chain in a model
    coords = {f"b{i}": range(n) for i, n in enumerate(full)} | {"time": range(T)}
    how = case["seed"] % 4
    v = rng.integers(0, case["K"], size=full + (T,))
    with pm.Model(coords=coords) as m, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dist_kwargs(case)
        for k in ("steps", "shape", "size"):
            kw.pop(k, None)
        if how == 0:
            DiscreteMarkovChain("x", dims=tuple(coords), **kw)
        elif how == 1:
            DiscreteMarkovChain("x", shape=full + (T,), **kw)
        elif how == 2:
            DiscreteMarkovChain("x", observed=v, **kw)
        else:
            DiscreteMarkovChain("x", steps=case["S"], shape=full + (T,), **kw)
    require(m["x"].eval().shape == full + (T,), "variable has shape %s, expected %s", m["x"].eval().shape, full + (T,))
    want = sum(path_logp(case, v[b], b) for b in np.ndindex(*full))
    lf = m.compile_logp(mode=mode)
    got = float(lf({} if how == 2 else {"x": v}))
    close(got, want, "log-density of the model", rtol=1e-8, atol=1e-8)
    if how != 2:
        ip = m.initial_point()["x"]
        require(ip.shape == full + (T,) and np.isin(ip, range(case["K"])).all(), "initial point %s", ip.tolist())
        require(np.isfinite(float(lf({"x": ip}))), "the initial point %s is impossible", ip.tolist())
    ctx.label(["dims", "shape", "observed", "steps and shape"][how])
    ctx.nontriv()


def check_draws(case, ctx):
    full, T, K = full_of(case), case["L"] + case["S"], case["K"]
    N = 2000
    case = {**case, "full": list(full), "explicit": True}
    rv = make(case, lead=(N,))
    with limit(120, "drawing"):
        d = pm.draw(rv, random_seed=case["seed"], mode="FAST_COMPILE")
    require(d.shape == (N,) + full + (T,), "draws have shape %s, expected %s", d.shape, (N,) + full + (T,))
    require(np.isin(d, range(K)).all(), "states out of range")
    paths = list(itertools.product(range(K), repeat=T))
    code = (d * K ** np.arange(T - 1, -1, -1)).sum(-1)
    for b in np.ndindex(*full):
        p = np.exp([path_logp(case, q, b) for q in paths])
        stat.freq(np.bincount(code[(slice(None),) + b], minlength=len(paths)), p, f"paths of chain {b}")
    if len(full) and np.prod(full) > 1:
        # different members of a batch are independent: agreement of the first two members' last states
        flat = d.reshape(N, -1, T)
        pa, pb = [np.array([sum(np.exp(path_logp(case, q, b)) for q in paths if q[-1] == k) for k in range(K)]) for b in list(np.ndindex(*full))[:2]]
        counts = np.zeros((K, K))
        np.add.at(counts, (flat[:, 0, -1], flat[:, 1, -1]), 1)
        stat.freq(counts.ravel(), np.outer(pa, pb).ravel(), "joint last states of two members")
    ctx.label(f"{case['L']} lags", f"batch {len(full)}")
    ctx.nontriv()


@st.composite
def s_gibbs(draw):
    plan = draw(st.sampled_from(["single", "batch", "batch", "two"]))
    chains = [draw(s_chain(max_paths=27 if plan != "batch" else draw(st.sampled_from([4, 8, 9])), zeros=False, max_batch=1)) for _ in range(2 if plan == "two" else 1)]
    for c in chains:
        c.update(bP=[], full=[], explicit=False, P=c["P"][: c["K"] ** c["L"]], init="vec" if c["init"] in ("lag", "batch") else c["init"], tab=c["tab"][:1])
    if plan == "batch":
        small = chains[0]["K"] == 2 and chains[0]["L"] + chains[0]["S"] == 2
        chains[0].update(full=draw(st.sampled_from([[2], [2], [3], [2, 1]] if small else [[2], [1, 2]])), explicit=True)
    n = sum((c["L"] + c["S"]) * int(np.prod(c["full"])) for c in chains)
    return dict(chains=chains, proposal=draw(st.sampled_from(["uniform", "proportional", "default"])), order=draw(st.sampled_from(["random", "fixed", "fixed"])), perm=draw(st.permutations(range(n))),
                free=draw(st.booleans()), obs=draw(st.lists(gen.q(-2, 2, 4), min_size=n, max_size=n)), beta=draw(gen.q(-1, 1, 4)), which=draw(st.booleans()), start=draw(st.integers(0, 10**6)), seed=draw(st.integers(0, 10**6)))


def check_gibbs(case, ctx):
    chains = case["chains"]
    shapes = [tuple(c["full"]) + (c["L"] + c["S"],) for c in chains]
    n = [int(np.prod(s)) for s in shapes]
    Ks = [c["K"] for c, k in zip(chains, n) for _ in range(k)]
    if np.prod(Ks) > 300:
        raise Reject
    with pm.Model() as m, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        beta = pm.Normal("beta") if case["free"] else case["beta"]
        off = 0
        for i, (c, s, k) in enumerate(zip(chains, shapes, n)):
            x = make(c, f"x{i}")
            pm.Normal(f"y{i}", beta + 0.8 * x, 1.0, observed=np.array(case["obs"][off:off + k]).reshape(s)); off += k
        for c, name in zip(chains, ["x0", "x1"]):
            require(DiscreteMarkovChainGibbsMetropolis.competence(m[name]).name == "IDEAL", "the sampler does not claim the chain")
        kw = {} if case["proposal"] == "default" else dict(proposal=case["proposal"])
        order = "random" if case["order"] == "random" else list(case["perm"])
        step = DiscreteMarkovChainGibbsMetropolis([m[f"x{i}"] for i in range(len(chains))], order=order, compile_kwargs=dict(mode="FAST_COMPILE"), rng=np.random.default_rng(case["seed"]), **kw)
    states = list(itertools.product(*[range(k) for k in Ks]))
    index = {s: i for i, s in enumerate(states)}

    def lp(s):
        out, off = 0.0, 0
        for c, shape, k in zip(chains, shapes, n):
            v = np.array(s[off:off + k]).reshape(shape)
            y = np.array(case["obs"][off:off + k]).reshape(shape)
            out += sum(path_logp(c, v[b], b) for b in np.ndindex(*shape[:-1])) + float(np.sum(-0.5 * (y - case["beta"] - 0.8 * v) ** 2))
            off += k
        return out
    table = np.array([lp(s) for s in states])

    def site(dim):
        M = np.zeros((len(states),) * 2)
        for s in states:
            i = index[s]
            alts = [index[s[:dim] + (k,) + s[dim + 1:]] for k in range(Ks[dim])]
            w = np.exp(table[alts] - table[alts].max()); w /= w.sum()
            cur = s[dim]
            for k, j in enumerate(alts):
                if k == cur:
                    continue
                if case["proposal"] == "proportional":
                    q = w[k] / (1 - w[cur])
                    M[i, j] = q * min(1, (1 - w[cur]) / (1 - w[k]))  # Metropolised Gibbs (Liu 1996)
                else:
                    M[i, j] = min(1.0, np.exp(min(0.0, table[j] - table[i]))) / (Ks[dim] - 1)
            M[i, i] = 1 - M[i].sum()
        return M
    sites = [site(d) for d in range(len(Ks))]
    start = states[case["start"] % len(states)]
    row = np.zeros(len(states)); row[index[start]] = 1
    if case["order"] == "fixed":
        for d in order:
            row = row @ sites[d]
    else:
        perms = list(itertools.permutations(range(len(Ks))))
        if len(perms) * len(states) > 50000:
            raise Reject
        row = np.mean([np.linalg.multi_dot([row] + [sites[d] for d in p]) if len(p) > 0 else row for p in perms], axis=0)
    point = m.initial_point()
    off = 0
    for i, (shape, k) in enumerate(zip(shapes, n)):
        point[f"x{i}"] = np.array(start[off:off + k], dtype=point[f"x{i}"].dtype).reshape(shape); off += k
    if case["free"]:
        point["beta"] = np.asarray(case["beta"], dtype=point["beta"].dtype)
    counts = np.zeros(len(states))
    with limit(200, "sampling"):
        for _ in range(400):
            new, _stats = step.step({k: v.copy() for k, v in point.items()})
            s = tuple(int(x) for i in range(len(chains)) for x in np.ravel(new[f"x{i}"]))
            require(s in index, "the sampler moved to %s", s)
            require(not case["free"] or new["beta"] == point["beta"], "the sampler changed another variable")
            counts[index[s]] += 1
    stat.freq(counts, row, f"one sweep of the {case['proposal']} sampler from {start}")
    ctx.label(case["proposal"], case["order"], f"{len(chains)} chains", f"batch {chains[0]['full']}")
    ctx.nontriv()


TASKS = [Task("logp", s_chain, check_logp, quick=70, thorough=4000, shards=(4, 4)), Task("draws", lambda: s_chain(max_paths=243), check_draws, quick=30, thorough=1500, shards=(2, 2)),
         Task("gibbs", s_gibbs, check_gibbs, quick=20, thorough=600, shards=(2, 2))]
