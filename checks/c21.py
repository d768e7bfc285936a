"""C21: marginalised Markov chains against the plain model's density summed over every state path."""
import warnings

import numpy as np
import pytensor
from hypothesis import strategies as st

from harness import gen, marg
from harness.core import Reject, Task, close, limit, require
from pymc_extras.model.marginal.marginal_model import MarginalModel, marginalize

# The default mode of users stabilises log-sum-exp expressions, FAST_COMPILE alone does not
STABLE = pytensor.compile.mode.get_mode("FAST_COMPILE").including("canonicalize", "stabilize")

RULE = """A case is a Markov chain (two or three states, two to five steps, none to two batch dims of one to three chains, constant or parameter-dependent transition matrix and initial
distribution, given as probabilities or logits, zero entries included) with one to three emission variables (random elementwise, transposing, broadcasting and lookup programs; extra dims;
univariate, multivariate and table emissions; observed or free) and possibly a second, mutually independent discrete variable feeding the same emissions and marginalised too. The marginal
log-density at random points equals the one enumerated over every path, or it is refused. Non-trivial: accepted."""
ASSUMPTIONS = ["a raised error counts as a refusal", "at most 600 joint values", "one lag and a matrix of transition probabilities, as documented"]


@st.composite
def s_hmm(draw):
    K = draw(st.integers(2, 3))
    T = draw(st.integers(2, 5))
    batch = draw(st.sampled_from([[], [], [2], [1], [3], [1, 2], [2, 1]]))
    while K ** (T * int(np.prod(batch))) > 600 and (T > 2 or batch):
        if T > 2:
            T -= 1
        else:
            batch = batch[1:]
    P = [draw(gen.prob(K)) for _ in range(K)]
    zeros = draw(st.sampled_from([0, 0, 1, 2, 3]))
    for i in range(K):  # forbidden transitions: absorbing states and left-to-right chains
        if zeros == 1 and i == 0:
            P[i] = [1.0] + [0.0] * (K - 1)
        elif zeros == 2 and i > 0:
            P[i] = [0.0] * i + [v / sum(P[i][i:]) for v in P[i][i:]]
        elif zeros == 3:
            P[i] = [float(j == (i + 1) % K) for j in range(K)]
    d = dict(name="d0", kind="dmc", shape=batch + [T], K=K, lo=0, P=P, tab=draw(gen.prob(K)), par=draw(st.sampled_from(["const", "const", "P", "init", "both"])), logit=draw(st.booleans()),
             has_init=draw(st.integers(0, 4)) > 0)
    if any(x == 0 for row in P for x in row):
        d["logit"] = False
        d["par"] = "const"
    discs = [d]
    second = draw(st.sampled_from([None, None, None, "mix", "own"]))
    if second:
        discs.append(dict(name="d1", kind="bern", shape=[], K=2, lo=0, par="const", logit=False, tab=draw(gen.prob(2))))
    deps = []
    for i in range(draw(st.integers(1, 3))):
        safe = draw(st.integers(0, 7)) > 0
        steps, shape = draw(marg.s_steps(d, safe, 3))
        terms = [dict(d=0, steps=steps, shape=shape)]
        if second == "mix" and draw(st.booleans()):
            s2, sh2 = draw(marg.s_steps(discs[1], True, 1))
            terms.append(dict(d=1, steps=s2, shape=sh2))
        dist = draw(st.sampled_from(["normal", "normal", "normal", "poisson", "bernlogit", "bernlogit", "sigma", "sigma", "lognormal", "cattab", "mvn"]))
        deps.append(dict(name=f"y{i}", terms=terms, dist=dist, extra=draw(st.sampled_from([[], [], [2]])), observed=draw(st.integers(0, 2)) == 0, seed=draw(st.integers(0, 10**6)), comb=draw(st.sampled_from(["add", "mul"]))))
    if second == "own":
        deps.append(dict(name=f"y{len(deps)}", terms=[dict(d=1, steps=[], shape=[])], dist="normal", extra=[], observed=True, seed=1, comb="add"))
    elif second and not any(len(e["terms"]) > 1 for e in deps):
        discs.pop()
    which = draw(st.permutations([x["name"] for x in discs]))
    return dict(discs=discs, deps=deps, which=list(which), calls=1, cont=draw(st.booleans()), pot="none", det="none", indirect=False, dims=draw(st.integers(0, 7)) == 0 and 1 not in d["shape"])


def check_hmm(case, ctx):
    try:
        plain = marg.build(case)
    except ValueError as e:
        if str(e) != "shape":
            raise
        raise Reject
    with warnings.catch_warnings(), limit(150, "marginal log-density"):
        warnings.simplefilter("ignore")
        try:
            mm = marginalize(plain, case["which"])
            fn = mm.compile_fn(mm.logp(), inputs=mm.value_vars, mode=STABLE, on_unused_input="ignore")
        except (NotImplementedError, ValueError, TypeError, IndexError, AssertionError) as e:
            ctx.label("refused: " + str(e)[:40])
            return
    ex = marg.Exact(plain, case)
    for point in ex.points(case["deps"][0]["seed"], 3, scales=(1, 6, 30)):
        want = marg.lse(ex.table(point))
        close(float(fn(point)), want, "marginal log-density of the chain", rtol=1e-6, atol=1e-6)
    d = case["discs"][0]
    ctx.label("accepted", f"batch {d['shape'][:-1]}", f"{len(case['deps'])} emissions", f"{len(case['discs'])} variables", d["par"], "forbidden transitions" if any(x == 0 for row in d["P"] for x in row) else "all transitions", *[e["dist"] for e in case["deps"]])
    ctx.nontriv()


TASKS = [Task("hmm", s_hmm, check_hmm, quick=90, thorough=6000, shards=(8, 8))]
