"""C24: automatic reparameterisation against the change of variables computed by hand."""
import numpy as np
import pymc as pm
import pytensor.tensor as pt
from hypothesis import strategies as st
from scipy import stats

from harness.core import Task, close, require
from harness.stat import ks_uniform
from pymc_extras.model.transforms.autoreparam import vip_reparametrize

RULE = """A case is a hierarchical model of 1-5 normal, exponential, half-normal and gamma variables of shapes (), (3,), (2,3) given by size, dims or implied by parameters, whose
locations and scales depend on earlier variables, with an observed variable, a random subset and order of variables to reparametrise, and degrees of non-centring (per
variable or per element, including exactly 0 and 1). At random unconstrained points the log-density equals the original model's at the mapped point plus the log-Jacobian of the affine map, the
deterministics equal the inverse map, degrees can be read back and truncated, unselected variables and the original model are unchanged, and forward draws have uniform conditional
probability transforms. Non-trivial: a selected variable with parents, or a vector."""
ASSUMPTIONS = ["normal variables with their own transform are refused (NotImplementedError) and not generated", "when a shape is implied by parameters all elements may share one degree (listed as an open finding)"]
SHAPES = [(), (3,), (2, 3)]
COORDS = dict(r=["a", "b"], c=[10, 20, 30])
DIMS = {(): (), (3,): ("c",), (2, 3): ("r", "c")}


@st.composite
def s_case(draw):
    n = draw(st.integers(1, 5))
    vs = []
    for i in range(n):
        sh = draw(st.integers(0, 2))
        parents = [j for j in range(i) if vs[j]["sh"] <= sh]
        vs.append(dict(kind=draw(st.sampled_from(["normal", "normal", "exponential", "halfnormal", "gamma"])), sh=sh, how=draw(st.sampled_from(["size", "dims", "implied"])),
                       loc=draw(st.one_of(st.none(), st.sampled_from(parents))) if parents else None, scale=draw(st.one_of(st.none(), st.sampled_from(parents))) if parents else None,
                       a=draw(st.integers(-8, 8)) / 4, s=draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0])), nolog=draw(st.integers(0, 4)) == 0))
    sel = [i for i in range(n) if vs[i]["kind"] in ("normal", "exponential")]
    pick = draw(st.lists(st.sampled_from(sel), unique=True, min_size=1, max_size=len(sel))) if sel else []
    lam = [draw(st.sampled_from([None, "all", 0.0, 1.0, 0.5, 0.25, 0.9, "vec", "vec"])) for _ in pick]
    return dict(vs=vs, pick=pick, lam=lam, all=draw(st.sampled_from([0.0, 1.0, 0.3])), eps=draw(st.sampled_from([None, 0.1, 0.3])), obs=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def pars(vs, i, vals, lib):
    """Location and scale of variable i, in numpy or PyTensor."""
    v = vs[i]
    loc = v["a"] + (0.0 if v["loc"] is None else lib.tanh(vals[v["loc"]]) * 1.5)
    scale = v["s"] * (1.0 if v["scale"] is None else lib.exp(0.5 * lib.tanh(vals[v["scale"]])))
    return loc, scale


def build(case):
    vs = case["vs"]
    with pm.Model(coords=COORDS) as m:
        xs = []
        for i, v in enumerate(vs):
            sh = SHAPES[v["sh"]]
            loc, scale = pars(vs, i, xs, pt)
            kw = {}
            if v["how"] == "dims" and sh:
                kw["dims"] = DIMS[sh]
            elif v["how"] == "size":
                kw["shape"] = sh
            else:
                scale = scale * np.ones(sh)
            if v["nolog"] and v["kind"] == "exponential":
                kw["default_transform"] = None
            if v["kind"] == "normal":
                xs.append(pm.Normal(f"v{i}", loc, scale, **kw))
            elif v["kind"] == "exponential":
                xs.append(pm.Exponential(f"v{i}", scale=scale, **kw))
            elif v["kind"] == "halfnormal":
                xs.append(pm.HalfNormal(f"v{i}", scale, **kw))
            else:
                xs.append(pm.Gamma(f"v{i}", 2.0, 1 / scale, **kw))
        if case["obs"]:
            pm.Normal("y", xs[-1].sum(), 1.0, observed=0.7)
            pm.Deterministic("total", xs[0].sum() * 2)
    return m


def one_degree(vip, case):
    """Selected variables whose shape is implied by parameters may have all elements sharing one degree (open finding implied-shape-lambda)."""
    return {i for i in case["pick"] if case["vs"][i]["how"] == "implied" and np.shape(vip.get_lambda()[f"v{i}"]) == ()}


def probe_implied():
    with pm.Model() as m:
        pm.Normal("b", np.asarray([1.0, 2.0]))
    shape = np.shape(vip_reparametrize(m, ["b"])[1].get_lambda()["b"])
    return None if shape == (2,) else f"degree of a variable of two elements has shape {shape}"


PROBES = {"implied-shape-lambda": probe_implied}


def check(case, ctx):
    vs = case["vs"]
    model = build(case)
    names = [f"v{i}" for i in case["pick"]]
    new, vip = vip_reparametrize(model, names)
    rng = np.random.default_rng(case["seed"])
    require(set(vip.get_lambda()) == set(names), "degrees for %s instead of %s", sorted(vip.get_lambda()), names)
    for l in vip.get_lambda().values():
        close(l, np.full(np.shape(l), 0.5), "initial degree")
    lam = {}
    if any(l == "all" for l in case["lam"]):
        vip.set_all_lambda(case["all"])
    shared = one_degree(vip, case)
    for i, l in zip(case["pick"], case["lam"]):
        sh = () if i in shared else SHAPES[vs[i]["sh"]]
        if l == "all" or (l is None and any(x == "all" for x in case["lam"])):
            lam[i] = np.full(sh, case["all"])
        elif l is None:
            lam[i] = np.full(sh, 0.5)
        else:
            val = rng.uniform(0, 1, size=sh) if l == "vec" else l
            vip.set_lambda(**{f"v{i}": val})
            lam[i] = np.broadcast_to(val, sh)
    if case["eps"]:
        vip.truncate_all_lambda(case["eps"])
        lam = {i: np.where(l < case["eps"], 0.0, np.where(l > 1 - case["eps"], 1.0, l)) for i, l in lam.items()}
    got = vip.get_lambda()
    for i, l in lam.items():
        require(np.shape(got[f"v{i}"]) == (() if i in shared else SHAPES[vs[i]["sh"]]), "degree of v%s has shape %s", i, np.shape(got[f"v{i}"]))
        close(got[f"v{i}"], l, f"degree of v{i}", rtol=1e-9, atol=1e-12)
    free = {f"v{i}" if i not in lam else f"v{i}::tau_" for i in range(len(vs))}
    require({v.name for v in new.free_RVs} == free, "free variables %s instead of %s", [v.name for v in new.free_RVs], sorted(free))
    require({d.name for d in new.deterministics} == set(names) | ({"total"} if case["obs"] else set()), "deterministics %s", [d.name for d in new.deterministics])
    require([o.name for o in new.observed_RVs] == [o.name for o in model.observed_RVs], "observed variables changed")
    require(new.coords == model.coords, "coords changed")
    for i, v in enumerate(vs):
        d = model.named_vars_to_dims.get(f"v{i}")
        for nm in ([f"v{i}", f"v{i}::tau_"] if i in lam else [f"v{i}"]):
            have = new.named_vars_to_dims.get(nm)
            require((tuple(have) if have else ()) == (tuple(d) if d else ()), "dims of %s are %s instead of %s", nm, have, d)
    f_new, f_old = new.compile_fn(new.logp(), inputs=new.value_vars, mode="FAST_COMPILE"), model.compile_fn(model.logp(), inputs=model.value_vars, mode="FAST_COMPILE")
    det = new.compile_fn(new.replace_rvs_by_values([new[nm] for nm in names]), inputs=new.value_vars, mode="FAST_COMPILE", on_unused_input="ignore") if names else None
    for _ in range(3):
        x, pn, po, jac = [], {}, {}, 0.0
        for i, v in enumerate(vs):
            sh = SHAPES[v["sh"]]
            loc, scale = pars(vs, i, x, np)
            z = rng.normal(size=sh)
            pos = v["kind"] != "normal"
            log = pos and not (v["nolog"] and v["kind"] == "exponential")
            if i in lam:
                l = lam[i]
                tau = np.exp(z) if pos else z * 2
                if pos:
                    val = scale ** (1 - l) * tau
                else:
                    val = loc + scale ** (1 - l) * (tau - l * loc)
                if not log:
                    jac += np.sum(np.broadcast_to((1 - l) * np.log(scale), sh))
                rv = new[f"v{i}::tau_"]
                pn[new.rvs_to_values[rv].name] = np.log(tau) if log else tau
            else:
                val = np.exp(z) if pos else z * 2
                pn[new.rvs_to_values[new[f"v{i}"]].name] = np.log(val) if log else val
            val = np.asarray(val) + np.zeros(sh)
            po[model.rvs_to_values[model[f"v{i}"]].name] = np.log(val) if log else val
            x.append(val)
        a, b = float(f_new(pn)), float(f_old(po)) + jac
        close(a, b, f"log-density with {names} reparametrised", rtol=1e-8, atol=1e-8)
        if det:
            for i, g in zip(case["pick"], det(pn)):
                require(np.shape(g) == SHAPES[vs[i]["sh"]], "v%s has shape %s", i, np.shape(g))
                close(g, x[i], f"value of v{i}", rtol=1e-9, atol=1e-10)
    ctx.count(3)
    require([v.name for v in model.free_RVs] == [f"v{i}" for i in range(len(vs))] and abs(float(model.compile_fn(model.logp(), inputs=model.value_vars, mode="FAST_COMPILE")(po)) - (b - jac)) < 1e-9, "the original model changed")
    sel = [vs[i] for i in case["pick"]]
    ctx.label(*[v["kind"] for v in sel], *["implied" for v in sel if v["how"] == "implied"], "extreme" if any(np.any((l == 0) | (l == 1)) for l in lam.values()) else "interior")
    ctx.nontriv(any(v["sh"] or v["loc"] is not None or v["scale"] is not None for v in sel))


def check_draws(case, ctx):
    vs = case["vs"]
    model = build(dict(case, obs=False))
    names = [f"v{i}" for i in case["pick"]]
    new, vip = vip_reparametrize(model, names)
    rng = np.random.default_rng(case["seed"])
    shared = one_degree(vip, case)
    for i, l in zip(case["pick"], case["lam"]):
        vip.set_lambda(**{f"v{i}": rng.uniform(0, 1, size=() if i in shared else SHAPES[vs[i]["sh"]]) if l in (None, "all", "vec") else l})
    draws = pm.draw([new[f"v{i}"] for i in range(len(vs))], draws=400, random_seed=case["seed"], mode="FAST_COMPILE")
    for i, v in enumerate(vs):
        sh = SHAPES[v["sh"]]
        ext = [d.reshape((400,) + (1,) * (len(sh) - (d.ndim - 1)) + d.shape[1:]) for d in draws[:i]]
        loc, scale = pars(vs, i, ext, np)
        d = draws[i]
        require(d.shape == (400,) + sh, "draws of v%s have shape %s", i, d.shape)
        dist = {"normal": lambda: stats.norm(loc, scale), "exponential": lambda: stats.expon(0, scale), "halfnormal": lambda: stats.halfnorm(0, scale), "gamma": lambda: stats.gamma(2.0, 0, scale)}[v["kind"]]()
        ks_uniform(dist.cdf(d).ravel(), f"draws of v{i}")
        ctx.count()
    ctx.label(f"variables={len(vs)}")
    ctx.nontriv(bool(names))


TASKS = [
    Task("density", s_case, check, 60, 900, soft_s=(80, 1200), shards=(3, 4)),
    Task("draws", s_case, check_draws, 20, 200, soft_s=(60, 1200), shards=(2, 3)),
]
