"""C25: functions decorated with as_model against the body run inside an ordinary model context."""
import numpy as np
import pymc as pm
from hypothesis import strategies as st

from harness.core import Task, close, require
import pymc_extras as pmx

RULE = """A case is a decorator (optional name, coordinates, check_bounds, initial values) and a body of 1-4 variables with dims, data, deterministics and observed values that depends on positional and
keyword arguments, called 2-5 times with random arguments and call-time coordinates, possibly inside another model's context, after a failing call, or through another decorated function
or decorator instance. After every call the returned model must equal the one obtained from a plain model context: variable names and order, dims, coordinates and lengths, log-density at a random point, and be a new object sharing no variables
with earlier ones, which still give the answers they gave. Non-trivial: at least two calls with decorator or call-time coordinates."""
ASSUMPTIONS = ["coordinates given as None mean no coordinates, as for pm.Model"]
DIMS = ["obs", "grp", "t"]
LABELS = {"obs": [["a", "b"], ["x", "y", "z"], ["q"]], "grp": [[1, 2, 3], [10, 20], ["u"]], "t": [[0.5, 1.5], [1, 2, 3, 4], ["t0"]]}


def s_coords(p_none=True):
    def mk(d):
        return {k: LABELS[k][i] for k, i in d.items()}
    return st.dictionaries(st.sampled_from(DIMS), st.integers(0, 2), max_size=3).map(mk)


@st.composite
def s_case(draw):
    calls = [dict(coords=draw(st.one_of(st.none(), s_coords())), mu=draw(st.integers(-3, 3)), sigma=draw(st.sampled_from([None, 0.5, 2.0])), extra=draw(st.booleans()), flag=draw(st.integers(0, 2)),
                  fail=draw(st.integers(0, 6)) == 0, nested=draw(st.integers(0, 4)) == 0, kw=draw(st.booleans())) for _ in range(draw(st.integers(2, 5)))]
    vs = [dict(dim=draw(st.one_of(st.none(), st.sampled_from(DIMS))), kind=draw(st.sampled_from(["normal", "halfnormal", "data", "obs", "det"]))) for _ in range(draw(st.integers(1, 4)))]
    return dict(name=draw(st.sampled_from([None, "", "mod", "kw:mod"])), coords=draw(st.one_of(st.none(), s_coords(), s_coords())), bounds=draw(st.sampled_from([None, True, False])), vs=vs, calls=calls,
                bare=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


class Boom(Exception):
    pass


def make_body(case):
    def body(mu, sigma=1.0, *, extra=False, flag=0, fail=False):
        """the body"""
        model = pm.modelcontext(None)
        xs = [pm.Normal("base", mu, sigma)]
        for i, v in enumerate(case["vs"]):
            # dims the model does not have are dropped, so that every call is a valid model
            have = v["dim"] in model.coords
            dims = (v["dim"],) if have else None
            n = len(model.coords[v["dim"]]) if have else 2
            kw = dict(dims=dims) if have else dict(shape=n)
            if v["kind"] == "normal":
                xs.append(pm.Normal(f"v{i}", xs[-1].sum(), sigma, **kw))
            elif v["kind"] == "halfnormal":
                xs.append(pm.HalfNormal(f"v{i}", 1.0 + flag, **kw))
            elif v["kind"] == "data":
                d = pm.Data(f"v{i}", np.arange(n, dtype=float) + mu, dims=dims)
                xs.append(pm.Normal(f"w{i}", d, 1.0))
            elif v["kind"] == "obs":
                pm.Normal(f"v{i}", xs[-1].sum(), sigma, observed=np.linspace(0, 1, n) * mu, dims=dims)
            else:
                xs.append(pm.Deterministic(f"v{i}", xs[-1].sum() * np.ones(n), dims=dims))
        if extra:
            pm.Normal("extra", flag, 1.0)
        if fail:
            raise Boom
    return body


def facts(model, seed):
    rng = np.random.default_rng(seed)
    ip = model.initial_point()
    pts = {k: np.asarray(v) + rng.normal(size=np.shape(v)) * 0.5 for k, v in ip.items()}
    logps = model.compile_fn(model.logp(sum=False), inputs=model.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")(pts)
    return dict(name=model.name, vars=list(model.named_vars), free=[v.name for v in model.free_RVs], obs=[v.name for v in model.observed_RVs], det=[v.name for v in model.deterministics],
                data=[v.name for v in model.data_vars], dims={k: tuple(v) for k, v in model.named_vars_to_dims.items()}, coords={k: None if v is None else tuple(v) for k, v in model.coords.items()},
                lens={k: int(v.eval()) for k, v in model.dim_lengths.items()}, bounds=model.check_bounds), [np.asarray(x) for x in logps]


def same(a, b, msg):
    for k in b[0]:
        require(a[0][k] == b[0][k], f"{msg}: {k} is {a[0][k]!r}, a plain model has {b[0][k]!r}")
    require(len(a[1]) == len(b[1]), f"{msg}: number of log-density terms")
    for x, y in zip(a[1], b[1]):
        close(x, y, rtol=1e-8, atol=1e-8, what=f"{msg}: log-density")


def check(case, ctx):
    body = make_body(case)
    body.__name__ = "some_model"
    args, kwargs = (), {}
    if case["name"] is not None:
        if case["name"].startswith("kw:"):
            kwargs["name"] = case["name"][3:]
        else:
            args = (case["name"],)
    if case["coords"] is not None:
        kwargs["coords"] = {k: list(v) for k, v in case["coords"].items()}
    if case["bounds"] is not None:
        kwargs["check_bounds"] = case["bounds"]
    keep_coords = {k: list(v) for k, v in case["coords"].items()} if case["coords"] is not None else None
    user_coords = kwargs.get("coords")
    deco = pmx.as_model(*args, **kwargs)
    fn = deco(body)
    other = deco(body)  # the same decorator applied to another function
    require(fn.__name__ == "some_model" and fn.__doc__ == "the body", "the decorated function lost its name or docstring")
    seen = []
    used_coords = bool(case["coords"])
    for i, call in enumerate(case["calls"]):
        c_args, c_kw = [call["mu"]], dict(extra=call["extra"], flag=call["flag"])
        if call["sigma"] is not None:
            (c_kw.__setitem__("sigma", call["sigma"]) if call["kw"] else c_args.append(call["sigma"]))
        cc = None if call["coords"] is None else {k: list(v) for k, v in call["coords"].items()}
        ck = {} if cc is None else dict(coords=cc)
        used_coords |= bool(cc)
        f = other if (i % 2 and case["bare"]) else fn
        if call["fail"]:
            try:
                f(*c_args, **c_kw, **ck, fail=True)
                raise AssertionError("an error in the body was swallowed")
            except Boom:
                pass
            require(not _in_context(), "a failed call leaves its model context open")
        outer = pm.Model(coords={"outer": [1, 2]})
        merged = (keep_coords or {}) | (cc or {})
        ref_kw = {k: v for k, v in kwargs.items() if k != "coords"}
        if call["nested"]:
            with outer:
                m = f(*c_args, **c_kw, **ck)
            outer2 = pm.Model(coords={"outer": [1, 2]})
            with outer2:
                with pm.Model(*args, coords=merged, **ref_kw) as ref:
                    body(*c_args, **c_kw)
            require(list(outer.named_vars) == list(outer2.named_vars), f"call {i} inside another model: the outer model has {list(outer.named_vars)}, expected {list(outer2.named_vars)}")
        else:
            m = f(*c_args, **c_kw, **ck)
            with pm.Model(*args, coords=merged, **ref_kw) as ref:
                body(*c_args, **c_kw)
        require(isinstance(m, pm.Model), f"call {i} returned {type(m).__name__}")
        require(not _in_context(), "a call leaves its model context open")
        if cc is not None:
            require(cc == {k: list(v) for k, v in call["coords"].items()}, f"call {i} altered the caller's coordinates")
        require(user_coords == keep_coords, f"call {i} altered the decorator's coordinates")
        got = facts(m, case["seed"] + i)
        same(got, facts(ref, case["seed"] + i), f"call {i} ({'second use of the decorator' if f is other else 'first use'})")
        for m0, _ in seen:
            require(m0 is not m, f"call {i} returned an earlier model")
            shared = {id(v) for v in m0.basic_RVs} & {id(v) for v in m.basic_RVs}
            require(not shared, f"call {i} shares variables with an earlier model")
        seen.append((m, got))
    for i, (m, got) in enumerate(seen):
        same(facts(m, case["seed"] + i), got, f"model of call {i} after later calls")
    ctx.count(len(seen) - 1)
    ctx.label(f"calls={len(seen)}", *(["nested"] if any(c["nested"] for c in case["calls"]) else []), *(["failed call"] if any(c["fail"] for c in case["calls"]) else []))
    ctx.nontriv(used_coords)


def _in_context():
    return pm.Model.get_context(error_if_none=False) is not None


TASKS = [Task("as_model", s_case, check, 40, 1500, soft_s=(60, 900), shards=(3, 6))]
