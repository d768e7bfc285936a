"""C20: marginalised densities against the plain model's density summed over every joint value of the discrete variables."""
import warnings

import numpy as np
import pymc as pm

from harness import marg
from harness.core import Reject, Task, close, limit, require
from pymc_extras.model.marginal.marginal_model import MarginalModel, marginalize

RULE = """A case is a model: one to three discrete variables (Bernoulli, categorical, discrete uniform; up to three dims, some of length one; parameters constant, batched,
dependent on a continuous variable or on another discrete one) and dependents reached through random programs of elementwise, broadcasting, transposing, indexing, table-lookup,
slicing, stacking, reducing, sorting and matrix steps, with univariate, multivariate, mixture and table distributions, potentials and deterministics. A subset is marginalised in any order.
The marginal model's log-density at random points equals the enumerated one, or marginalisation (or its log-density) raises. Non-trivial: marginalisation was accepted."""
ASSUMPTIONS = ["a raised error counts as a refusal", "at most 256 joint values", "float tolerance 1e-6"]


def accept(case, model, direct):
    """The marginalised model, or None when it is refused."""
    which = case["which"]
    try:
        if direct:
            mm = model
            cut = len(which) // 2 if case["calls"] == 2 else 0
            for part in (which[:cut], which[cut:]):
                if part:
                    mm.marginalize([mm[n] for n in part] if case["calls"] == 2 else part)
        else:
            mm = marginalize(model, which)
        return mm, mm.compile_fn(mm.logp(), inputs=mm.value_vars, mode="FAST_COMPILE", on_unused_input="ignore")
    except (NotImplementedError, ValueError, TypeError, IndexError, AssertionError) as e:
        return None, e


def check_density(case, ctx, npoints=2):
    try:
        plain = marg.build(case)
    except ValueError as e:
        if str(e) != "shape":
            raise
        raise Reject
    direct = case["deps"][0]["seed"] % 2 == 0
    with warnings.catch_warnings(), limit(150, "marginal log-density"):
        warnings.simplefilter("ignore")
        mm, fn = accept(case, marg.build(case, MarginalModel) if direct else plain, direct)
    if mm is None:
        ctx.label("refused", "refused: " + str(fn)[:40])
        return
    require(not any(n in {v.name for v in mm.value_vars} for n in case["which"]), "a marginalised variable is still among the value variables")
    ex = marg.Exact(plain, case, case["which"])
    for point in ex.points(case["deps"][0]["seed"], npoints):
        want = marg.lse(ex.table(point))
        close(float(fn(point)), want, "marginal log-density", rtol=1e-6, atol=1e-6)
    steps = {s[0] for e in case["deps"] for t in e["terms"] for s in t["steps"]}
    ctx.label("accepted", f"{len(case['which'])} variables", *[f"step {s}" for s in steps], *[e["dist"] for e in case["deps"]])
    if any(d["par"] == "disc" for d in case["discs"]):
        ctx.label("nested")
    ctx.nontriv()


TASKS = [Task("documented", lambda: marg.s_model(safe=True), check_density, quick=70, thorough=3000, shards=(4, 7)),
         Task("any", lambda: marg.s_model(safe=False), check_density, quick=170, thorough=8000, shards=(4, 7))]
