"""C26: the printed model table against what is known about the generated model."""
import io

import numpy as np
import pymc as pm
import pytensor.tensor as pt
from hypothesis import strategies as st
from pytensor.graph.basic import ancestors
from pytensor.tensor.random.type import RandomType
from rich.console import Console

from harness.core import Task, require
from pymc_extras.model.transforms.autoreparam import vip_reparametrize
from pymc_extras.printing import model_parameter_count, model_table

RULE = """A case is a model of 1-9 data containers, random variables (normal, half-normal, exponential, Dirichlet, multivariate normal, mixture, censored, truncated, random walk, partly observed), deterministics
and potentials in any order, with shapes by size, dims (declared, repeated, introduced by data, resized afterwards), model prefixes, names resembling markup, and parameters that are constants, earlier variables
or expressions, printed with every option and rendered to text. Every row is compared with the generator's record: variables in definition order in the right group, exactly once, with the right symbol, distribution and arguments, expression (the
longest prefix that fits when truncated), dims with current lengths or shape, and the parameter count. Random states, graph and values of the model must be unchanged. Non-trivial: at least three rows in two groups."""
ASSUMPTIONS = ["the number of parameters is the number of values of the free variables in their natural space (as the pinned examples count)", "the order of arguments in an expression is not judged", "names contain no comma, newline or dollar sign"]
NAMES = ["x", "beta", "mu_trial", "a[red]", "b[i]x[/i]", "c:smile:d", "al\\pha", "e ~ f", "[bold]", "k[0]", "g(1)", "ñ", "w = 2", "long_name_of_a_variable"]
DIMS = {"obs": 3, "grp": 2, "t": 1}


@st.composite
def s_case(draw):
    n = draw(st.integers(1, 9))
    names = draw(st.permutations(NAMES))[:n]
    vs = []
    for i in range(n):
        kind = draw(st.sampled_from(["normal", "normal", "halfnormal", "exp", "data", "data", "det", "det", "pot", "obs", "obs", "partial", "dirichlet", "mvn", "mix", "cens", "trunc", "rw"]))
        vs.append(dict(name=names[i], kind=kind, how=draw(st.sampled_from(["scalar", "size", "dims", "dims2", "rep", "new"])), args=draw(st.lists(st.integers(0, max(i - 1, 0)), min_size=1, max_size=3)) if i else [],
                       form=draw(st.sampled_from(["const", "name", "expr"])), c=draw(st.sampled_from([0.0, 1.0, -2.5, 0.123456, 12345.678]))))
    return dict(vs=vs, prefix=draw(st.sampled_from(["", "", "mod", "m[b]"])), resize=draw(st.booleans()), vip=draw(st.integers(0, 5)) == 0, split=draw(st.booleans()), trunc=draw(st.sampled_from([None, None, 0, 4, 8, 12, 20, 40])), count=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def build(case):
    """The model and the record of its rows: name -> (group, symbol, expression, dims)."""
    full = (lambda n: f"{case['prefix']}::{n}") if case["prefix"] else (lambda n: n)
    rows, xs, new_dims = [], [], {}  # xs: (variable, full name, is random, ancestors, is deterministic)
    used = set()
    with pm.Model(name=case["prefix"], coords={d: list(range(k)) for d, k in DIMS.items()}) as m:
        for i, v in enumerate(case["vs"]):
            kind, how, nm = v["kind"], v["how"], full(v["name"])
            args = [xs[j] for j in dict.fromkeys(v["args"]) if xs[j] is not None]
            rvs = [a for a in args if a[2]]
            expr_var = sum((a[0].sum() for a in args), pt.constant(0.0)) if args else None
            expr_anc = sorted({n for a in args for n in a[3]})
            if how == "scalar" and kind != "data":
                kw, shape, dims = {}, (), ""
            elif how in ("size", "scalar"):
                kw, shape, dims = dict(shape=(3, 2)), (3, 2), "[3, 2]"
            elif how == "dims2":
                kw, shape, dims = dict(dims=("grp", "obs")), (2, 3), "grp[2] × obs[3]"
            elif how == "rep" and kind != "data":
                kw, shape, dims = dict(dims=("obs", "obs")), (3, 3), "obs[3] × obs[3]"
            elif how == "new" and new_dims and kind != "data":
                d = list(new_dims)[i % len(new_dims)]
                kw, shape, dims = dict(dims=d), (new_dims[d],), f"{d}[{new_dims[d]}]"
            else:
                kw, shape, dims = dict(dims="obs"), (3,), "obs[3]"
            if kind == "data":
                if how == "new":
                    d = f"new{i}"
                    x = pm.Data(v["name"], np.zeros(4), dims=(d,))
                    new_dims[d] = 4
                    dims = f"{d}[4]"
                else:
                    kw.pop("shape", None)
                    x = pm.Data(v["name"], np.zeros(shape), **kw)
                rows.append(dict(name=nm, group="data", sym="=", expr=("text", "Data"), dims=dims, size=0))
                xs.append((x, nm, False, set(), False))
                continue
            if kind in ("det", "pot"):
                if expr_var is None:
                    expr_var, expr_anc = pt.constant(1.0) * 2, []
                if kind == "det":
                    out = expr_var * pt.ones(shape)
                    x = pm.Deterministic(v["name"], out, dims=kw.get("dims"))
                    rows.append(dict(name=nm, group="det", sym="=", expr=("f", expr_anc), dims=dims, size=0))
                    xs.append((x, nm, False, set(expr_anc), True))
                else:
                    x = pm.Potential(v["name"], expr_var * 2.0)
                    rows.append(dict(name=nm, group="pot", sym="=", expr=("Potential", [("f", expr_anc)]), dims="", size=0))
                    xs.append(None)
                continue
            # a random variable: its first argument is a constant, an earlier variable or an expression
            if v["form"] == "name" and (rvs or [a for a in args if a[4]]):
                a = (rvs or [a for a in args if a[4]])[0]
                # only what broadcasts to the shape is used by name; otherwise through an expression
                if a[0].ndim == 0 and kind not in ("exp", "halfnormal"):
                    mu, mu_e = a[0], ("text", a[1])
                else:
                    mu, mu_e = pt.exp(a[0]).sum(), ("f", sorted(a[3]))
            elif v["form"] == "expr" and args:
                mu, mu_e = pt.exp(expr_var), ("f", expr_anc)
            else:
                c = abs(v["c"]) + 1 if kind in ("exp", "halfnormal") else v["c"]
                mu, mu_e = c, ("text", f"{c:.3g}")
            group, size, free = "free", int(np.prod(shape)), True
            if kind == "normal":
                x, e = pm.Normal(v["name"], mu, 2.0, **kw), ("Normal", [mu_e, ("text", "2")])
            elif kind == "obs":
                x, e, group, free = pm.Normal(v["name"], mu, 0.5, observed=np.zeros(shape), dims=kw.get("dims")), ("Normal", [mu_e, ("text", "0.5")]), "obs", False
            elif kind == "halfnormal":
                x, e = pm.HalfNormal(v["name"], mu, **kw), ("HalfNormal", [("text", "0"), mu_e])
            elif kind == "exp":
                x, e = pm.Exponential(v["name"], scale=mu, **kw), ("Exponential", [mu_e])
            elif kind == "dirichlet":
                x, e, size, dims = pm.Dirichlet(v["name"], np.ones(4)), ("Dirichlet", [("text", "<constant>")]), 4, "[4]"
            elif kind == "mvn":
                x, e, size, dims = pm.MvNormal(v["name"], np.zeros(3), np.eye(3), dims="obs"), None, 3, "obs[3]"
            elif kind == "mix":
                x = pm.NormalMixture(v["name"], [0.5, 0.5], [0.0, 1.0], 2.0, **kw)
                e = None
            elif kind == "cens":
                x, e = pm.Censored(v["name"], pm.Normal.dist(mu, 3.0), -1.0, 1.0, **kw), ("Censored", [("Normal", [mu_e, ("text", "3")]), ("text", "-1"), ("text", "1")])
            elif kind == "trunc":
                x, e = pm.TruncatedNormal(v["name"], mu, 3.0, lower=-1.0, upper=2.0, **kw), ("TruncatedNormal", [mu_e, ("text", "3"), ("text", "-1"), ("text", "2")])
            elif kind == "rw":
                x, e, size, dims = pm.GaussianRandomWalk(v["name"], mu=0.0, sigma=1.0, init_dist=pm.Normal.dist(0, 1), steps=4), None, 5, "[5]"
            else:  # partial
                x = pm.Normal(v["name"], mu, 1.5, observed=np.array([0.5, np.nan, 1.0, np.nan]))
                rows.append(dict(name=nm + "_unobserved", group="free", sym="~", expr=None, start="Normal(", dims="[2]", size=2))
                rows.append(dict(name=nm + "_observed", group="obs", sym="~", expr=None, start="Normal(", dims="[2]", size=0))
                rows.append(dict(name=nm, group="det", sym="=", expr=("f", [nm + "_observed", nm + "_unobserved"]), dims="[4]", size=0))
                xs.append((x, nm, False, {nm + "_observed", nm + "_unobserved"}, True))
                continue
            rows.append(dict(name=nm, group=group, sym="~", expr=e, start={"mix": "MarginalMixture(", "rw": "RandomWalk(", "mvn": "MultivariateNormal("}.get(kind), dims=dims, size=size if free else 0))
            xs.append((x, nm, True, {nm}, False))
            used.add(i)
    return m, rows, xs, new_dims


def split_top(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch == "("
        depth -= ch == ")"
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() or out else []


def expr_ok(got, e):
    if e[0] == "text":
        return got == e[1]
    if e[0] == "f":
        return got.startswith("f(") and got.endswith(")") and sorted(x for x in got[2:-1].split(", ") if x) == sorted(e[1])
    if not (got.startswith(e[0] + "(") and got.endswith(")")):
        return False
    parts = split_args(got[len(e[0]) + 1:-1], e[1])
    return parts is not None


def split_args(s, es):
    """Match a comma separated list of arguments (names may contain brackets) against the expected ones."""
    if not es:
        return [] if not s else None
    for k in [i for i in range(len(s)) if s.startswith(", ", i)] + [len(s)]:
        if expr_ok(s[:k], es[0]):
            if len(es) == 1:
                if k == len(s):
                    return [s[:k]]
                continue
            rest = split_args(s[k + 2:], es[1:])
            if rest is not None:
                return [s[:k]] + rest
    return None


def render(table):
    con = Console(width=3000, file=io.StringIO(), color_system=None, legacy_windows=False)
    con.print(table)
    lines = [ln.rstrip() for ln in con.file.getvalue().splitlines()]
    head = lines[0]
    a, b = head.index("Expression"), head.index("Dimensions")
    require(head.split() == ["Variable", "Expression", "Dimensions"], f"header {head!r}")
    return [(ln[:a].strip(), ln[a:b].strip(), ln[b:].strip()) for ln in lines[2:]]


def state(m):
    rngs = {id(v): str(v.get_value(borrow=True).bit_generator.state) for rv in m.basic_RVs for v in ancestors([rv]) if isinstance(v.type, RandomType) and v.owner is None}
    return dict(names=list(m.named_vars), ids=[id(v) for v in m.named_vars.values()], vnames=[v.name for v in m.named_vars.values()], data=[np.array(d.get_value()).tobytes() for d in m.data_vars], dims={k: tuple(v) for k, v in m.named_vars_to_dims.items()},
                coords=dict(m.coords), rngs=rngs, free=[id(v) for v in m.free_RVs], values=[id(v) for v in m.value_vars], owners=[id(v.owner) for v in m.basic_RVs], ip={k: np.asarray(v).tolist() for k, v in m.initial_point(0).items()})


def check(case, ctx):
    m, rows, xs, new_dims = build(case)
    if case["resize"]:
        sizes = {"obs": DIMS["obs"], **new_dims}
        upd, grown = {}, set()
        # dims introduced by data follow the data
        for v, r in zip(case["vs"], xs):
            if r is not None and v["kind"] == "data" and v["how"] == "new":
                grown.add(m.named_vars_to_dims[r[1]][0])
                upd[v["name"]] = np.zeros(6)
        if upd:
            with m:
                pm.set_data(upd)
            for r in rows:
                for d in grown:
                    r["size"] = r["size"] // 4 * 6 if r["dims"] == f"{d}[4]" else r["size"]
                    r["dims"] = r["dims"].replace(f"{d}[4]", f"{d}[6]")
    vip = case["vip"] and not case["prefix"] and [r for r in rows if r["expr"] and r["expr"][0] == "Normal" and r["group"] == "free" and r["dims"] in ("", "obs[3]")]
    if vip:
        tgt = vip[0]
        try:
            m, _ = vip_reparametrize(m, [tgt["name"]])
        except Exception:
            ctx.label("not reparametrised")
            vip = None
    total = sum(r["size"] for r in rows)
    before = state(m)
    got = render(model_table(m, split_groups=case["split"], truncate_deterministic=case["trunc"], parameter_count=case["count"]))
    after = state(m)
    for k in before:
        require(before[k] == after[k], f"printing changed the model: {k}")
    if vip:
        # only the totals and the set of rows: the reparametrised variable becomes several
        names = [g[0][:-2] for g in got if g[0]]
        require(sorted(names) == sorted(m.named_vars), f"rows {sorted(names)}, variables {sorted(m.named_vars)}")
        require(int(model_parameter_count(m)) == total, f"{model_parameter_count(m)} parameters, expected {total}")
        ctx.count(1)
        ctx.label("reparametrised")
        return
    order = ["data", "free", "det", "pot", "obs"]
    if case["split"]:
        want = [[r for r in rows if r["group"] == g] for g in order]
        groups = [w for w in want if w]
        has_free = any(r["group"] == "free" for r in rows)
    else:
        names = list(m.named_vars)
        groups = [sorted(rows, key=lambda r: names.index(r["name"]))]
        has_free = True
    require([g for g in got if g[2].startswith("Parameter count")] == ([("", "", f"Parameter count = {total}")] if case["count"] and has_free else []), f"parameter count rows {[g for g in got if 'Param' in g[2]]}, expected {total}")
    if not got:
        require(not rows, "empty table")
    # groups are separated by blank lines
    blocks, cur = [], []
    for g in got:
        if g == ("", "", ""):
            blocks.append(cur)
            cur = []
        else:
            cur.append(g)
    blocks = [b for b in blocks + [cur] if b]
    require(len(blocks) == len(groups), f"{len(blocks)} groups in the table, expected {len(groups)}")
    for b, w in zip(blocks, groups):
        if case["count"] and w and (not case["split"] or w[0]["group"] == "free"):
            require(b[-1][2] == f"Parameter count = {total}", f"the parameter count is not at the end of its group: {b}")
        body = [g for g in b if not g[2].startswith("Parameter count")]
        require([g[0] for g in body] == [f"{r['name']} {r['sym']}" for r in w], f"rows {[g[0] for g in body]}, expected {[r['name'] + ' ' + r['sym'] for r in w]}")
        for g, r in zip(body, w):
            require(g[2] == r["dims"], f"{r['name']}: dimensions {g[2]!r}, expected {r['dims']!r}")
            if r["expr"] is None:
                require(g[1].startswith(r["start"]) and g[1].endswith(")"), f"{r['name']}: expression {g[1]!r}, expected {r['start']}...)")
            elif r["expr"][0] == "f" and case["trunc"] is not None and len("f(" + ", ".join(r["expr"][1]) + ")") > case["trunc"] and r["expr"][1]:
                require(g[1].startswith("f(") and g[1].endswith("...)"), f"{r['name']}: truncated expression {g[1]!r}")
                shown = [x for x in g[1][2:-4].split(", ") if x]
                require(len(set(shown)) == len(shown) and set(shown) < set(r["expr"][1]), f"{r['name']}: truncated expression {g[1]!r} of {r['expr'][1]}")
                used = sum(len(x) + 2 for x in shown)
                require(used <= case["trunc"], f"{r['name']}: truncated to {case['trunc']} but shows {g[1]!r}")
                left = [x for x in r["expr"][1] if x not in shown]
                require(len(left) == 1 or used + max(map(len, left)) + 2 > case["trunc"], f"{r['name']}: {g[1]!r} leaves out more than {case['trunc']} characters require")
            else:
                require(expr_ok(g[1], r["expr"]), f"{r['name']}: expression {g[1]!r}, expected {r['expr']}")
    ctx.count(len(rows))
    ctx.label(*{r["group"] for r in rows}, "split" if case["split"] else "one list", f"truncate={case['trunc']}")
    ctx.nontriv(len(rows) >= 3 and len({r["group"] for r in rows}) >= 2)


TASKS = [Task("table", s_case, check, 120, 4000, soft_s=(60, 900), shards=(3, 6))]
