"""Random models with finite discrete variables (as data), their PyMC build, and the exact density by enumeration."""
import itertools, warnings

import numpy as np
import pymc as pm
import pytensor.tensor as pt
from hypothesis import strategies as st

from . import gen
from pymc_extras.distributions import DiscreteMarkovChain

def domain(d):
    return list(range(d["lo"], d["lo"] + d["K"]))


@st.composite
def s_disc(draw, name, prev, allow_cont=True, max_size=4):
    kind = draw(st.sampled_from(["bern", "cat", "cat", "du"]))
    shape = draw(st.sampled_from([[], [], [2], [3], [1], [2, 2], [3, 1], [1, 2], [2, 1, 2], [1, 2, 2], [2, 2, 2]]))
    K = 2 if kind == "bern" else draw(st.integers(2, 3))
    d = dict(name=name, kind=kind, shape=shape, K=K, lo=draw(st.integers(-1, 2)) if kind == "du" else 0, par="const", logit=draw(st.booleans()))
    if kind != "du":
        opts = ["const", "const", "batch"]
        if allow_cont:
            opts += ["cont"]
        par = [i for i, e in enumerate(prev) if e["lo"] == 0 and (e["shape"] == shape or e["shape"] == [])]
        if par:
            opts += ["disc", "disc"]
        d["par"] = draw(st.sampled_from(opts))
        if d["par"] == "disc":
            d["parent"] = draw(st.sampled_from(par))
            d["tab"] = [draw(gen.prob(K)) for _ in range(prev[d["parent"]]["K"])]
        elif d["par"] == "batch":
            d["tab"] = [draw(gen.prob(K)) for _ in range(int(np.prod(shape)))]
        else:
            d["tab"] = draw(gen.prob(K))
    return d


def n_joint(discs):
    return int(np.prod([d["K"] ** int(np.prod(d["shape"])) for d in discs]))


@st.composite
def s_steps(draw, disc, safe, maxn=4):
    """A program applied to a discrete variable; returns (steps, final shape)."""
    shape, integer, steps = list(disc["shape"]), disc["lo"] == 0, []
    for _ in range(draw(st.integers(0, maxn))):
        nd = len(shape)
        opts = ["aff", "switch", "expand", "vec", "cont", "square"]
        if nd >= 2:
            opts += ["transpose"] * 2
        if integer:
            opts += ["table"] * 2
        if not safe:
            if nd:
                opts += ["index", "slice", "fancy", "reduce", "reduce", "cumsum", "sort", "concat", "reverse", "stackself", "matvec", "diff", "take", "repeat", "maxall", "dotT"]
            opts += ["bcast", "reshape", "adv2"]
            if integer:
                opts += ["tabcol", "tabrow", "tabboth"]
        if 1 in shape:
            opts += ["grow"] * 2
        op = draw(st.sampled_from(opts))
        if op == "grow":  # broadcast a length-one axis against a vector
            a = draw(st.sampled_from([i for i, n in enumerate(shape) if n == 1])); v = draw(gen.vec(2, -1, 1, 4))
            steps.append([op, a, v]); shape[a] = 2; integer = False
        elif op in ("aff",):
            steps.append([op, draw(gen.q(-2, 2, 4)), draw(gen.q(-1, 1, 4))]); integer = False
        elif op == "square":
            steps.append([op]); integer = False
        elif op == "switch":
            steps.append([op, draw(gen.q(-2, 2, 4)), draw(gen.q(-2, 2, 4))]); integer = False
        elif op == "vec":  # add a vector along the last axis
            n = shape[-1] if shape else draw(st.integers(1, 2))
            steps.append([op, draw(gen.vec(n, -1, 1, 4))]); integer = False
            if not shape:
                shape = [n]
            elif shape[-1] == 1:
                pass
        elif op == "cont":
            steps.append([op]); integer = False
        elif op == "expand":
            if nd >= 4:
                continue
            a = draw(st.integers(0, nd)); steps.append([op, a]); shape.insert(a, 1)
        elif op == "transpose":
            p = draw(st.permutations(range(nd))); steps.append([op, list(p)]); shape = [shape[i] for i in p]
        elif op == "table":
            steps.append([op, draw(gen.vec(disc["K"], -2, 2, 4))]); integer = False
        elif op == "index":
            a = draw(st.integers(0, nd - 1)); i = draw(st.integers(0, shape[a] - 1)); steps.append([op, a, i]); shape.pop(a)
        elif op == "slice":
            a = draw(st.integers(0, nd - 1)); s = draw(st.integers(0, shape[a] - 1)); steps.append([op, a, s]); shape[a] -= s
        elif op == "reverse":
            a = draw(st.integers(0, nd - 1)); steps.append([op, a])
        elif op in ("fancy", "take"):
            a = draw(st.integers(0, nd - 1)); idx = draw(st.lists(st.integers(0, shape[a] - 1), min_size=1, max_size=3)); steps.append([op, a, idx]); shape[a] = len(idx)
        elif op == "reduce":
            a = draw(st.integers(0, nd - 1)); f = draw(st.sampled_from(["sum", "mean", "max", "prod", "any"])); steps.append([op, a, f]); shape.pop(a); integer = False
        elif op == "maxall":
            steps.append([op, draw(st.sampled_from(["sum", "max", "min"]))]); shape = []; integer = False
        elif op in ("cumsum", "sort"):
            a = draw(st.integers(0, nd - 1)); steps.append([op, a]); integer = integer and op == "sort"
        elif op == "diff":
            a = draw(st.integers(0, nd - 1))
            if shape[a] < 2:
                continue
            steps.append([op, a]); shape[a] -= 1; integer = False
        elif op == "concat":
            a = draw(st.integers(0, nd - 1))
            steps.append([op, a]); shape[a] *= 2
        elif op == "stackself":
            a = draw(st.integers(0, nd))
            if nd >= 4:
                continue
            steps.append([op, a]); shape.insert(a, 2)
        elif op == "matvec":
            n = shape[-1]; steps.append([op, draw(gen.vec(n, -1, 1, 4))]); shape.pop(); integer = False
        elif op == "dotT":
            if nd != 2:
                continue
            steps.append([op]); shape = [shape[0], shape[0]]; integer = False
        elif op == "repeat":
            a = draw(st.integers(0, nd - 1)); steps.append([op, a]); shape[a] *= 2
        elif op == "bcast":
            n = draw(st.integers(1, 2))
            if nd >= 4:
                continue
            steps.append([op, n]); shape = [n] + shape
        elif op == "reshape":
            steps.append([op]); shape = [int(np.prod(shape))]
        elif op == "adv2":  # x[:, None] + x[None, :]-like self mixing
            if nd != 1:
                continue
            steps.append([op]); shape = [shape[0], shape[0]]; integer = False
        elif op in ("tabcol", "tabrow"):
            m = draw(st.integers(1, 2)); steps.append([op, draw(gen.mat(disc["K"], m, -2, 2, 4))]); shape = (shape + [m]) if op == "tabrow" else ([m] + shape); integer = False
        elif op == "tabboth":
            steps.append([op, draw(gen.mat(disc["K"], disc["K"], -2, 2, 4))]); integer = False
        if int(np.prod(shape)) > 12:
            break
    return steps, shape


def apply_steps(x, steps, cont, raw):
    for s in steps:
        op = s[0]
        if op == "aff":
            x = x * s[1] + s[2]
        elif op == "square":
            x = pt.sqr(x) - 0.5
        elif op == "grow":
            x = x + np.array(s[2], float).reshape([-1 if i == s[1] else 1 for i in range(x.ndim)])
        elif op == "switch":
            x = pt.switch(pt.gt(x, 0.5), s[1], s[2])
        elif op == "vec":
            x = x + np.array(s[1], float)
        elif op == "cont":
            x = x * cont if cont is not None else x * 1.5
        elif op == "expand":
            x = pt.expand_dims(x, s[1])
        elif op == "transpose":
            x = x.transpose(*s[1])
        elif op == "table":
            x = pt.as_tensor_variable(np.array(s[1], float))[x]
        elif op == "tabrow":
            x = pt.as_tensor_variable(np.array(s[1], float))[x, :]
        elif op == "tabcol":
            x = pt.as_tensor_variable(np.array(s[1], float).T)[:, x]
        elif op == "tabboth":
            x = pt.as_tensor_variable(np.array(s[1], float))[x, x]
        elif op == "index":
            x = x[(slice(None),) * s[1] + (s[2],)]
        elif op == "slice":
            x = x[(slice(None),) * s[1] + (slice(s[2], None),)]
        elif op == "reverse":
            x = x[(slice(None),) * s[1] + (slice(None, None, -1),)]
        elif op == "fancy":
            x = x[(slice(None),) * s[1] + (np.array(s[2]),)]
        elif op == "take":
            x = pt.take(x, np.array(s[2]), axis=s[1])
        elif op == "reduce":
            x = {"sum": pt.sum, "mean": pt.mean, "max": pt.max, "prod": pt.prod, "any": lambda v, axis: pt.any(pt.gt(v, 0.5), axis=axis).astype("float64")}[s[2]](x, axis=s[1])
        elif op == "maxall":
            x = {"sum": pt.sum, "max": pt.max, "min": pt.min}[s[1]](x)
        elif op == "cumsum":
            x = pt.cumsum(x, axis=s[1])
        elif op == "sort":
            x = pt.sort(x, axis=s[1])
        elif op == "diff":
            x = pt.diff(x, axis=s[1])
        elif op == "concat":
            x = pt.concatenate([x, x], axis=s[1])
        elif op == "stackself":
            x = pt.stack([x, x], axis=s[1])
        elif op == "matvec":
            x = pt.dot(x, np.array(s[1], float))
        elif op == "dotT":
            x = pt.dot(x.astype("float64"), x.astype("float64").T)
        elif op == "repeat":
            x = pt.repeat(x, 2, axis=s[1])
        elif op == "bcast":
            x = pt.broadcast_to(x, (s[1], *[x.shape[i] for i in range(x.ndim)]))
        elif op == "reshape":
            x = x.reshape((-1,))
        elif op == "adv2":
            x = x[:, None] + 2.0 * x[None, :]
        else:
            raise KeyError(op)
    return x


@st.composite
def s_model(draw, safe=False, max_joint=256, chain_cont=True, n_disc=None, max_deps=3):
    discs, cap = [], max_joint
    for i in range(n_disc or draw(st.sampled_from([1, 1, 2, 2, 3]))):
        d = draw(s_disc(f"d{i}", discs))
        if n_joint(discs + [d]) > cap:
            d["shape"] = []
            if d["par"] == "batch":
                d["tab"] = d["tab"][:1]
        if d["par"] == "disc" and discs[d["parent"]]["shape"] not in ([], d["shape"]):
            d["par"] = "const"; d["tab"] = d["tab"][0]
        discs.append(d)
    deps = []
    for i in range(max(draw(st.integers(1, max_deps)), len(discs) if safe else 1)):
        terms = []
        used = draw(st.lists(st.integers(0, len(discs) - 1), min_size=1, max_size=1 if safe else 2))
        if i < len(discs):
            used[0] = i
        for u in used:
            steps, shape = draw(s_steps(discs[u], safe))
            terms.append(dict(d=u, steps=steps, shape=shape))
        dist = draw(st.sampled_from(["normal", "normal", "normal", "poisson", "bernlogit", "lognormal", "sigma", "halfnormal"] + ([] if safe else ["mvn", "mixture", "zip", "cattab"])))
        deps.append(dict(name=f"y{i}", terms=terms, dist=dist, extra=draw(st.sampled_from([[], [], [2]])), observed=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
                         comb=draw(st.sampled_from(["add", "mul"]))))
    has = {t["d"] for e in deps for t in e["terms"]} | {d["parent"] for d in discs if d["par"] == "disc"}
    which = draw(st.permutations(sorted(has)))
    which = list(which)[: draw(st.integers(1, len(which)))] if draw(st.booleans()) else list(which)
    if not safe and draw(st.integers(0, 9)) == 0:
        which = list(range(len(discs)))
    rare = ["none"] * 12 + ["disc", "cont", "cont"] if not safe else ["none", "none", "cont"]
    dims = draw(st.booleans()) and not any(1 in d["shape"] for d in discs)
    return dict(discs=discs, deps=deps, which=[discs[i]["name"] for i in which], calls=draw(st.integers(1, 2)), cont=draw(st.booleans()), pot=draw(st.sampled_from(rare)), det=draw(st.sampled_from(rare)),
                indirect=draw(st.sampled_from([False, False, True])), dims=dims)


def bshape(a, b):
    try:
        return list(np.broadcast_shapes(tuple(a), tuple(b)))
    except ValueError:
        return None


def dep_shape(case, dep):
    s = dep["terms"][0]["shape"]
    for t in dep["terms"][1:]:
        s = bshape(s, t["shape"])
        if s is None:
            return None
    return s


def build(case, cls=pm.Model, coords=None):
    """Build the model; returns it. Raises ValueError('shape') when the case's pieces cannot be combined."""
    c = {}
    if case["dims"]:
        for d in case["discs"]:
            for a, n in enumerate(d["shape"]):
                c[f"{d['name']}_a{a}"] = [f"{d['name']}{a}{k}" for k in range(n)]
    with cls(coords=c) as m:
        w = pm.Normal("w", 0.3, 1.3) if case["cont"] else None
        rvs = []
        for d in case["discs"]:
            kw = dict(dims=tuple(f"{d['name']}_a{a}" for a in range(len(d["shape"])))) if case["dims"] and d["shape"] else dict(shape=tuple(d["shape"]))
            if d["kind"] == "du":
                rvs.append(pm.DiscreteUniform(d["name"], d["lo"], d["lo"] + d["K"] - 1, **kw)); continue
            tab = np.array(d["tab"], float)
            if d["kind"] == "dmc":
                P, init = np.array(d["P"], float), tab
                P = pt.special.softmax(pt.as_tensor_variable(np.log(P)) + w * np.arange(d["K"]), axis=-1) if w is not None and d["par"] in ("P", "both") else P
                init = pt.special.softmax(pt.as_tensor_variable(np.log(init)) - w * np.arange(d["K"]), axis=-1) if w is not None and d["par"] in ("init", "both") else init
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    rvs.append(DiscreteMarkovChain(d["name"], **(dict(logit_P=pt.log(P)) if d["logit"] else dict(P=P)), init_dist=pm.Categorical.dist(p=init) if d["has_init"] else None, **kw))
                continue
            if d["par"] == "disc":
                p = pt.as_tensor_variable(tab)[rvs[d["parent"]]]
            elif d["par"] == "batch":
                p = pt.as_tensor_variable(tab.reshape(tuple(d["shape"]) + (d["K"],)))
            elif d["par"] == "cont" and w is not None:
                p = pt.special.softmax(pt.as_tensor_variable(np.log(tab)) + w * np.arange(d["K"]), axis=-1)
            else:
                p = pt.as_tensor_variable(tab)
            if d["kind"] == "bern":
                rvs.append(pm.Bernoulli(d["name"], **(dict(logit_p=pt.log(p[..., 1]) - pt.log(p[..., 0])) if d["logit"] else dict(p=p[..., 1])), **kw))
            else:
                rvs.append(pm.Categorical(d["name"], **(dict(logit_p=pt.log(p)) if d["logit"] else dict(p=p)), **kw))
        prev = None
        for i, dep in enumerate(case["deps"]):
            shape = dep_shape(case, dep)
            if shape is None:
                raise ValueError("shape")
            es = [apply_steps(rvs[t["d"]], t["steps"], w, case["discs"][t["d"]]) for t in dep["terms"]]
            mu = es[0]
            for e in es[1:]:
                mu = mu + e if dep["comb"] == "add" else mu * (e + 0.5)
            rng = np.random.default_rng(dep["seed"])
            full = tuple(dep["extra"]) + tuple(shape)
            kind = dep["dist"]
            if kind == "mvn" and not shape:
                kind = "normal"
            if kind == "cattab" and not (len(dep["terms"]) == 1 and dep["terms"][0]["steps"] == [] and case["discs"][dep["terms"][0]["d"]]["lo"] == 0):
                kind = "normal"
            if case["indirect"] and prev is not None and kind != "cattab":
                mu = mu + 0.3 * pt.mean(prev)
            kw = dict(shape=full)
            if dep["observed"] or kind in ("poisson", "bernlogit", "zip", "cattab"):
                kw["observed"] = {"poisson": lambda: rng.integers(0, 4, full), "zip": lambda: rng.integers(0, 3, full), "bernlogit": lambda: rng.integers(0, 2, full), "cattab": lambda: rng.integers(0, 2, full)}.get(
                    kind, lambda: np.round(rng.uniform(0.1, 2, full), 3))()
            n = dep["name"]
            if kind == "normal":
                v = pm.Normal(n, mu, 0.8, **kw)
            elif kind == "sigma":
                v = pm.Normal(n, 0.2, pt.exp(0.5 * pt.clip(mu, -3, 3)), **kw)
            elif kind == "halfnormal":
                v = pm.HalfNormal(n, pt.exp(0.5 * pt.clip(mu, -3, 3)), **kw)
            elif kind == "lognormal":
                v = pm.LogNormal(n, mu, 0.7, **kw)
            elif kind == "poisson":
                v = pm.Poisson(n, pt.exp(pt.clip(mu, -2, 2)), **kw)
            elif kind == "bernlogit":
                v = pm.Bernoulli(n, logit_p=mu, **kw)
            elif kind == "mvn":
                k = full[-1]
                v = pm.MvNormal(n, mu, np.eye(k) + 0.3 * np.ones((k, k)), **kw)
            elif kind == "mixture":
                v = pm.NormalMixture(n, w=[0.3, 0.7], mu=pt.stack([mu, mu + 1.0], axis=-1), sigma=0.8, **kw)
            elif kind == "zip":
                v = pm.ZeroInflatedPoisson(n, 0.6, pt.exp(pt.clip(mu, -2, 2)), **kw)
            elif kind == "cattab":
                K = case["discs"][dep["terms"][0]["d"]]["K"]
                tab = rng.dirichlet(np.ones(2), size=K)
                v = pm.Categorical(n, p=pt.as_tensor_variable(tab)[mu], **kw)
            if kind in ("normal", "lognormal"):
                prev = v
        if case["pot"] == "disc":
            pm.Potential("pot", -0.3 * pt.sum(rvs[0]))
        elif case["pot"] == "cont" and w is not None:
            pm.Potential("pot", -0.2 * w**2)
        if case["det"] == "disc":
            pm.Deterministic("det", 2 * rvs[0])
        elif case["det"] == "cont" and w is not None:
            pm.Deterministic("det", 2 * w)
    return m


def assignments(discs):
    spaces = [itertools.product(domain(d), repeat=int(np.prod(d["shape"]))) for d in discs]
    for combo in itertools.product(*[list(s) for s in spaces]):
        yield {d["name"]: np.array(v, dtype="int64").reshape(tuple(d["shape"])) for d, v in zip(discs, combo)}


class Exact:
    """The joint density of the plain model, tabulated over every joint value of its discrete variables."""

    def __init__(self, model, case, which=None):
        self.case, self.model = case, model
        self.free = [d for d in case["discs"] if which is None or d["name"] in which]
        self.fn = model.compile_fn(model.logp(), inputs=model.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")
        self.others = [v for v in model.value_vars if v.name not in {d["name"] for d in self.free}]
        self.ass = list(assignments(self.free))

    def table(self, point):
        dt = {v.name: v.dtype for v in self.model.value_vars}
        return np.array([float(self.fn({**point, **{k: x.astype(dt[k]) for k, x in a.items()}})) for a in self.ass])

    def points(self, seed, n, scales=(1,)):
        rng = np.random.default_rng(seed)
        ip = self.model.initial_point()
        disc = {d["name"]: d for d in self.case["discs"]}
        return [{v.name: (rng.integers(disc[v.name]["lo"], disc[v.name]["lo"] + disc[v.name]["K"], size=np.shape(ip[v.name])).astype(v.dtype) if v.name in disc
                          else np.round(rng.normal(0, scales[i % len(scales)], size=np.shape(ip[v.name])), 4)) for v in self.others} for i in range(n)]


def lse(a):
    a = np.asarray(a, float)
    m = np.max(a)
    return -np.inf if m == -np.inf else m + np.log(np.sum(np.exp(a - m)))
