"""C23: sequences of marginalise / clone / un-marginalise / recover operations over several live models, against a shadow record of each."""
import warnings

import numpy as np
import pymc as pm
from hypothesis import strategies as st

from checks import c22
from harness import marg
from harness.core import Reject, Task, Violation, close, limit, require
from pymc_extras.model.marginal.marginal_model import MarginalModel, marginalize

RULE = """A case is a model with discrete variables as in C20 (plus data, a dimension without coordinates, deterministics and potentials) and a history of up to eight operations over the models alive:
marginalise by function or method, copy, clone, un-marginalise (by name or variable), recover, refused requests, evaluation, some inside a model context. After every operation every live model
shows exactly the variables, dims, coordinates and marginalised names its own history implies; at the end every log-density equals the enumerated one. Non-trivial: at least one
marginalisation succeeded and another operation followed."""
ASSUMPTIONS = ["remaining free variables without a transform", "at most 128 joint values", "a model whose own in-place marginalisation was refused is discarded"]


@st.composite
def s_case(draw):
    case = draw(marg.s_model(safe=draw(st.integers(0, 4)) > 0, max_joint=128))
    for e in case["deps"]:
        if e["dist"] in ("halfnormal", "lognormal"):
            e["observed"] = True
    names = [d["name"] for d in case["discs"]]
    some = st.lists(st.sampled_from(names), min_size=1, max_size=len(names), unique=True)
    how = st.sampled_from(["name", "var"])
    op = st.one_of(
        st.tuples(st.just("function"), st.integers(0, 7), some, how), st.tuples(st.just("method"), st.integers(0, 7), some, how),
        st.tuples(st.sampled_from(["copy", "clone"]), st.integers(0, 7)), st.tuples(st.just("un"), st.integers(0, 7), some, how), st.tuples(st.just("un"), st.integers(0, 7), st.just(names), how),
        st.tuples(st.just("recover"), st.integers(0, 7), st.booleans()), st.tuples(st.just("bad"), st.integers(0, 7), st.sampled_from(["y0", "w", "nonsense", "again"])),
        st.tuples(st.just("logp"), st.integers(0, 7)))
    case["ops"] = [("function", 0, case["which"], "name")] + draw(st.lists(op, min_size=1, max_size=7))
    case["context"] = draw(st.booleans())
    case["data"] = draw(st.booleans())
    case["direct"] = draw(st.booleans())
    case["seed"] = draw(st.integers(0, 10**6))
    return case


def build(case):
    try:
        m = marg.build(case, cls=MarginalModel if case["direct"] else pm.Model)
    except ValueError as e:
        if str(e) != "shape":
            raise
        raise Reject
    with m:
        if case["data"]:
            pm.Data("extra", np.arange(3.0), dims=("nocoord",))
        m.add_coord("unused", values=["p", "q"])
    return m


class Shadow:
    def __init__(self, model, plain, gone, restored=()):
        self.m, self.plain, self.gone, self.restored = model, plain, set(gone), set(restored)

    def check(self, what):
        m, p = self.m, self.plain
        names = lambda vs: sorted(v.name for v in vs)
        free = [n for n in p["free"] if n not in self.gone]
        require(names(m.free_RVs) == sorted(free), "%s: free variables are %s, expected %s", what, names(m.free_RVs), sorted(free))
        kept = [n for n in free if n not in self.restored]
        require([v.name for v in m.free_RVs if v.name not in self.restored] == kept, "%s: free variables reordered to %s", what, [v.name for v in m.free_RVs])
        require([v.name for v in m.observed_RVs] == p["obs"], "%s: observed variables are %s", what, names(m.observed_RVs))
        require([v.name for v in m.potentials] == p["pots"] and [v.name for v in m.deterministics] == p["dets"], "%s: potentials or deterministics changed", what)
        require(set(m.named_vars) == p["named"] - self.gone, "%s: named variables are %s", what, sorted(m.named_vars))
        want = {k: v for k, v in p["dims"].items() if k not in self.gone}
        require({k: tuple(v) for k, v in m.named_vars_to_dims.items()} == want, "%s: dims are %s, expected %s", what, dict(m.named_vars_to_dims), want)
        require({k: (None if v is None else tuple(v)) for k, v in m.coords.items()} == p["coords"], "%s: coords are %s", what, dict(m.coords))
        require({k: int(v.eval()) for k, v in m.dim_lengths.items()} == p["lengths"], "%s: dimension lengths changed", what)
        require(sorted(v.name for v in m.value_vars) == sorted(p["values"][n] for n in free), "%s: value variables are %s", what, names(m.value_vars))
        for v in m.basic_RVs:
            require(m[v.name] is v and m.values_to_rvs[m.rvs_to_values[v]] is v and v in m.rvs_to_transforms, "%s: mappings of %s are inconsistent", what, v.name)
        require(len(m.rvs_to_values) == len(m.basic_RVs) == len(m.values_to_rvs), "%s: stale value mappings", what)
        if isinstance(m, MarginalModel):
            require(sorted(v.name for v in m.marginalized_rvs) == sorted(self.gone), "%s: marginalised variables are %s, expected %s", what, names(m.marginalized_rvs), sorted(self.gone))
            require({k: tuple(v) for k, v in m._marginalized_named_vars_to_dims.items() if k in self.gone} == {k: v for k, v in p["dims"].items() if k in self.gone}, "%s: dims of marginalised variables", what)


def facts(m):
    return dict(free=[v.name for v in m.free_RVs], obs=[v.name for v in m.observed_RVs], pots=[v.name for v in m.potentials], dets=[v.name for v in m.deterministics], named=set(m.named_vars),
                dims={k: tuple(v) for k, v in m.named_vars_to_dims.items()}, coords={k: (None if v is None else tuple(v)) for k, v in m.coords.items()},
                lengths={k: int(v.eval()) for k, v in m.dim_lengths.items()}, values={v.name: m.rvs_to_values[v].name for v in m.free_RVs})


REFUSALS = (NotImplementedError, ValueError, TypeError, IndexError, AssertionError)


def try_marg(f):
    try:
        out = f()
        mm = out
        fn = mm.compile_fn(mm.logp(), inputs=mm.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")
        return out, fn
    except REFUSALS:
        return None, None


def check_case(case, ctx):
    plain, oracle = build(case), marg.build(case)
    p = facts(plain)
    live = [Shadow(plain, p, ())]
    order = [v for v in plain.free_RVs]
    done = followed = 0
    with warnings.catch_warnings(), limit(200, "history"):
        warnings.simplefilter("ignore")
        import contextlib
        for op in case["ops"]:
            s = live[op[1] % len(live)]
            m = s.m
            cm = m if case["context"] else contextlib.nullcontext()
            followed += done > 0
            if op[0] in ("function", "method"):
                ask = [n for n in op[2] if n not in s.gone]
                if not ask or (op[0] == "method" and not isinstance(m, MarginalModel)):
                    continue
                vs = [m[n] for n in ask] if op[3] == "var" else ask
                if len(vs) == 1 and case["seed"] % 2:
                    vs = vs[0]
                with cm:
                    if op[0] == "function":
                        out, fn = try_marg(lambda: marginalize(m, vs))
                        if out is not None:
                            live.append(Shadow(out, p, s.gone | set(ask), s.restored - set(ask))); done += 1
                    else:
                        out, fn = try_marg(lambda: (m.marginalize(vs), m)[1])
                        if out is None:
                            if s is live[0]:
                                raise Reject
                            live.remove(s)
                        else:
                            s.gone |= set(ask); s.restored -= set(ask); done += 1
            elif op[0] in ("copy", "clone"):
                if op[0] == "clone" and not isinstance(m, MarginalModel):
                    continue
                with cm:
                    live.append(Shadow(MarginalModel.from_model(m) if op[0] == "copy" else m.clone(), p, s.gone, s.restored))
            elif op[0] == "un":
                ask = [n for n in op[2] if n in s.gone]
                if not ask or not isinstance(m, MarginalModel):
                    continue
                with cm:
                    m.unmarginalize([next(v for v in m.marginalized_rvs if v.name == n) for n in ask] if op[3] == "var" else ask)
                s.gone -= set(ask); s.restored |= set(ask)
                ctx.label("un-marginalised")
            elif op[0] == "recover":
                if not s.gone:
                    continue
                c = dict(case, which=sorted(s.gone), chains=1, draws=2, samples=op[2], extend=False)
                ex = marg.Exact(oracle, case, s.gone)
                idata = c22.posterior_of(m, ex.points(case["seed"], 2), 1, 2)
                try:
                    m.compile_fn(m.logp(), inputs=m.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")(ex.points(0, 1)[0])
                except REFUSALS:
                    continue
                try:
                    ds = c22.run(c, m, idata, None)
                except NotImplementedError:
                    continue
                for n in s.gone:
                    require(p["dims"].get(n, ()) == () or ds["lp_" + n].dims[2:-1] == p["dims"][n], "recovered %s has dims %s", n, ds["lp_" + n].dims)
                ctx.label("recovered")
            elif op[0] == "bad":
                target = next(iter(sorted(s.gone)), None) if op[2] == "again" else op[2]
                if target is None or (target == "w" and not case["cont"]) or (target == "y0" and any(v.name == "y0" for v in m.free_RVs)):
                    continue
                try:
                    marginalize(m, [target])
                except (ValueError, KeyError, NotImplementedError):
                    pass
                else:
                    raise Violation(f"marginalising {target!r} was not refused")
            elif op[0] == "logp":
                try_marg(lambda: m)
            for k, t in enumerate(live):
                t.check(f"model {k} after {op[0]}")
            if len(live) > 5:
                break
        for k, s in enumerate(live):
            ex = marg.Exact(oracle, case, s.gone)
            try:
                fn = s.m.compile_fn(s.m.logp(), inputs=s.m.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")
                points = ex.points(case["seed"], 2)
                got = [float(fn({v.name: q[v.name] for v in s.m.value_vars})) for q in points]
            except REFUSALS:
                if not s.gone:
                    raise
                ctx.label("refused")
                continue
            want = [marg.lse(ex.table(q)) for q in points]
            close(np.array(got), np.array(want), f"log-density of model {k} ({len(s.gone)} marginalised)", rtol=1e-5, atol=1e-5)
    require([v for v in plain.free_RVs] == order or case["direct"], "variables of the original model replaced")
    ctx.label(f"{len(live)} models")
    if done and followed:
        ctx.nontriv()


TASKS = [Task("history", s_case, check_case, quick=49, thorough=3000, shards=(7, 7))]
