"""C07: histories of reads, writes, copies and refused writes on the matrix container against plain numpy arrays."""
import copy

import numpy as np
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import gen
from harness.core import Task, Violation, close, require
from pymc_extras.statespace.core.representation import PytensorRepresentation

RULE = """A case is a history of 2-14 operations on a PytensorRepresentation with 1-4 states, series and shocks: whole-matrix writes (array, constant or symbolic;
static or time-varying), writes to cells, rows, columns, slices, index arrays and with a time index, reads with the same forms, writes that must be refused (unknown name, wrong
core shape, wrong number of dimensions, too many indices), copies, and switching between the copies. A numpy model with the same
assignments predicts every read, the static shapes, and the final contents of every copy. Non-trivial: at least one indexed write, two
whole writes or a copy followed by a write."""
ASSUMPTIONS = ["indices without the time dimension address the first time step of a time-varying matrix (documented as sliced away)",
               "slice writes of mismatching shape are only caught when the graph runs, and are not generated"]
NAMES = ["design", "obs_intercept", "obs_cov", "transition", "state_intercept", "selection", "state_cov", "initial_state", "initial_state_cov"]
NEVER = {"initial_state", "initial_state_cov"}


def core_shapes(p, m, r):
    return dict(design=(p, m), obs_intercept=(p,), obs_cov=(p, p), transition=(m, m), state_intercept=(m,), selection=(m, r), state_cov=(r, r),
                initial_state=(m,), initial_state_cov=(m, m))


@st.composite
def s_index(draw, shape):
    """An index for an array of this shape, at most one per dimension, JSON-able; fancy arrays never repeat an entry."""
    out = []
    arrays = draw(st.integers(0, 3))
    pairs = arrays == 0 and len(shape) >= 2
    if pairs:
        k = draw(st.integers(1, min(shape[-2:])))
        out = [{"s": [None, None, None]} for _ in shape[:-2]]
        for d in shape[-2:]:
            out.append({"a": draw(st.lists(st.integers(0, d - 1), min_size=k, max_size=k, unique=True))})
        return out
    used = False
    n = draw(st.integers(1, len(shape)))
    for d in shape[:n]:
        kind = draw(st.sampled_from(["i", "i", "s", ":", "a"]))
        if kind == "a" and used:
            kind = "s"
        if kind == "i":
            out.append({"i": draw(st.integers(-d, d - 1))})
        elif kind == ":":
            out.append({"s": [None, None, None]})
        elif kind == "s":
            out.append({"s": [draw(st.one_of(st.none(), st.integers(-d, d))), draw(st.one_of(st.none(), st.integers(-d, d + 1))), draw(st.sampled_from([None, 1, 2, -1]))]})
        else:
            used = True
            out.append({"a": draw(st.lists(st.integers(-d, d - 1), min_size=1, max_size=d, unique_by=lambda v, d=d: v % d))})
    if draw(st.integers(0, 9)) == 0 and len(out) < len(shape):
        out.append({"e": 1})
    return out


def to_index(spec):
    out = []
    for e in spec:
        if "i" in e:
            out.append(e["i"])
        elif "s" in e:
            out.append(slice(*e["s"]))
        elif "e" in e:
            out.append(Ellipsis)
        else:
            out.append(np.array(e["a"], dtype=int))
    return tuple(out)


@st.composite
def strategy(draw):
    p, m, r = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    shp = core_shapes(p, m, r)
    ops, tv = [], {}
    init = []
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)):
        n = draw(st.sampled_from([None, None, 3])) if name not in NEVER else None
        init.append(dict(name=name, n=n, kind=draw(st.sampled_from(["numpy", "const", "sym"])), seed=draw(st.integers(0, 999))))
        tv[name] = n
    cur, copies = [tv], 1
    active = 0
    for _ in range(draw(st.integers(2, 14))):
        tv = cur[active]
        op = draw(st.sampled_from(["full", "slice", "slice", "slice", "get", "get", "getfull", "bad", "copy", "switch"]))
        name = draw(st.sampled_from(NAMES[:4] + NAMES))
        seed = draw(st.integers(0, 999))
        if op == "full":
            n = draw(st.sampled_from([None, None, 1, 2, 4])) if name not in NEVER else None
            ops.append(dict(op="full", name=name, n=n, kind=draw(st.sampled_from(["numpy", "const", "sym"])), seed=seed))
            tv[name] = n
        elif op in ("slice", "get"):
            n = tv.get(name)
            with_time = name not in NEVER and draw(st.integers(0, 3)) == 0
            lead = (n or 1,) if with_time else ()
            full = lead + shp[name]
            spec = draw(s_index(full))
            if with_time and (len(spec) < len(full) or any("e" in e for e in spec)):
                spec = [e for e in spec if "e" not in e]
                spec += [{"s": [None, None, None]}] * (len(full) - len(spec))
            if not with_time and any("e" in e for e in spec) and name in NEVER:
                spec = [e for e in spec if "e" not in e]
            ops.append(dict(op=op, name=name, idx=spec, time=with_time, seed=seed, scalar=draw(st.booleans()), sym=draw(st.booleans())))
        elif op == "getfull":
            ops.append(dict(op=op, name=name, how=draw(st.sampled_from(["name", "colons", "allcolons"]))))
        elif op == "bad":
            ops.append(dict(op=op, name=name, how=draw(st.sampled_from(["name", "core", "core_tv", "ndim", "many", "manyget", "badget"])), kind=draw(st.sampled_from(["numpy", "const", "sym"])), seed=seed))
        elif op == "copy" and copies < 3:
            ops.append(dict(op=op))
            cur.append(dict(tv)); copies += 1
        elif op == "switch" and copies > 1:
            active = draw(st.integers(0, copies - 1))
            ops.append(dict(op=op, to=active))
    return dict(p=p, m=m, r=r, init=init, ops=ops)


def values(seed, shape):
    return np.random.default_rng(seed).integers(-16, 17, size=shape) / 4


class Model:
    """name -> (array with explicit time axis unless never time-varying)."""

    def __init__(self, shp):
        self.a = {k: np.zeros((s if k in NEVER else (1,) + s)) for k, s in shp.items()}

    def full(self, name):
        x = self.a[name]
        return x if name in NEVER or x.shape[0] != 1 else x[0]

    def view(self, name, time):
        x = self.a[name]
        return x if name in NEVER or time else x[0]


def check(case, ctx):
    p, m, r = case["p"], case["m"], case["r"]
    shp = core_shapes(p, m, r)
    ins, vals = [], []

    def wrap(v, kind):
        if kind == "numpy":
            return v
        if kind == "const":
            return pt.as_tensor_variable(v)
        x = pt.tensor(name=f"in{len(ins)}", dtype="float64", shape=v.shape)
        ins.append(x); vals.append(v)
        return x
    model = Model(shp)
    kw = {}
    for e in case["init"]:
        v = values(e["seed"], ((e["n"],) if e["n"] else ()) + shp[e["name"]])
        kw[e["name"]] = wrap(v, e["kind"])
        model.a[e["name"]] = v if e["name"] in NEVER or e["n"] else v[None]
    reps = [PytensorRepresentation(k_endog=p, k_states=m, k_posdef=r, **kw)]
    models, active = [model], 0
    outs, wants, what = [], [], []
    writes = fulls = after_copy = 0

    def expect(x, w, label, shape=None):
        outs.append(pt.as_tensor_variable(x)); wants.append(np.array(w)); what.append(label)
        if shape is not None:
            require(tuple(x.type.shape) == tuple(shape), "%s: static shape %s, expected %s", label, x.type.shape, shape)

    for k, o in enumerate(case["ops"]):
        rep, mod = reps[active], models[active]
        lab = f"step {k} {o}"
        if o["op"] == "full":
            v = values(o["seed"], ((o["n"],) if o["n"] else ()) + shp[o["name"]])
            rep[o["name"]] = wrap(v, o["kind"])
            mod.a[o["name"]] = (v if o["name"] in NEVER or o["n"] else v[None]).copy()
            fulls += 1; after_copy += len(reps) > 1
        elif o["op"] == "slice":
            idx = to_index(o["idx"])
            view = mod.view(o["name"], o["time"])
            target = view[idx]
            v = values(o["seed"], () if o["scalar"] else np.shape(target))
            rep[(o["name"],) + idx] = wrap(v, "sym" if o["sym"] else "numpy") if v.ndim or o["sym"] else float(v)
            new = mod.a[o["name"]].copy()
            (new if o["name"] in NEVER or o["time"] else new[0])[idx] = v
            mod.a[o["name"]] = new
            writes += 1; after_copy += len(reps) > 1
        elif o["op"] == "get":
            idx = to_index(o["idx"])
            expect(rep[(o["name"],) + idx], mod.view(o["name"], o["time"])[idx], lab)
        elif o["op"] == "getfull":
            nm = o["name"]
            if o["how"] == "name":
                expect(rep[nm], mod.full(nm), lab, mod.full(nm).shape)
            else:
                x = mod.a[nm]
                c = (slice(None),) * (x.ndim if o["how"] == "allcolons" or nm in NEVER else x.ndim - 1)
                expect(rep[(nm,) + c], x if len(c) == x.ndim else x[0], lab)
        elif o["op"] == "bad":
            s = shp[o["name"]]
            how = o["how"]
            key, v = o["name"], None
            if how == "name":
                key, v = "no_such_matrix", np.zeros(s)
            elif how == "core":
                v = values(o["seed"], s[:-1] + (s[-1] + 1,))
            elif how == "core_tv":
                v = values(o["seed"], (2,) + (s[0] + 1,) + s[1:])
            elif how == "ndim":
                v = values(o["seed"], (2, 2) + s)
            elif how in ("many", "manyget"):
                key, v = (o["name"],) + (0,) * (len(s) + 2), 1.0
            try:
                if how == "badget":
                    rep["no_such_matrix", 0, 0]
                elif how == "manyget":
                    rep[key]
                else:
                    rep[key] = v if isinstance(v, float) else wrap(v, o["kind"])
            except (IndexError, ValueError):
                ctx.label("refused")
            else:
                raise Violation(f"{lab}: an invalid {'read' if 'get' in how else 'assignment'} was accepted")
        elif o["op"] == "copy":
            reps.append(reps[active].copy())
            models.append(copy.deepcopy(models[active]))
        elif o["op"] == "switch":
            active = o["to"]
    for i, (rep, mod) in enumerate(zip(reps, models)):
        for nm in NAMES:
            expect(rep[nm], mod.full(nm), f"final {nm} of container {i}", mod.full(nm).shape)
            require(rep[nm].name == nm, "%s is named %s", nm, rep[nm].name)
    fn = pytensor.function(ins, outs, mode="FAST_COMPILE", on_unused_input="ignore")
    for g, w, lab in zip(fn(*vals), wants, what):
        close(g, w, lab, rtol=0, atol=1e-12)
        ctx.count()
    ctx.label(*{o["op"] for o in case["ops"]}, f"containers={len(reps)}")
    ctx.nontriv(writes > 0 or fulls > 1 or after_copy > 0)


TASKS = [Task("history", strategy, check, quick=400, thorough=12000, shards=(6, 7))]
