"""C09: registered data against the data handed in, for every container, index and pattern of gaps."""
import warnings

import numpy as np
import pandas as pd
import pymc as pm
import pytensor
import pytensor.tensor as pt
from hypothesis import strategies as st

from harness import gen, ssm
from harness.core import Reject, Task, Violation, close, require
from harness.dense import solve_all
from pymc_extras.statespace.utils.data_tools import register_data_with_pymc

RULE = """A case is a data set (integers or floats, any pattern of gaps, fill value default or given, possibly present in the data) in an array, series, frame, shared
variable or constant, with a range, datetime (with or without frequency, regular or irregular), string, integer or period index; it is registered
directly or by building a model. Values, gap marks, time labels, dims, the warnings, refusals, and the caller's objects afterwards are compared with what went in.
Non-trivial: a gap, a datetime index, a refusal, or a non-array container."""
ASSUMPTIONS = ["no infinite values", "models whose coordinates are in the model"]


@st.composite
def s_reg(draw):
    n, p = draw(st.integers(1, 8)), draw(st.integers(1, 3))
    box = draw(st.sampled_from(["array", "series", "frame", "frame", "shared", "const"]))
    if box == "series":
        p = 1
    kind = draw(st.sampled_from(["float", "float", "int"]))
    y = draw(gen.arr((n, p), -20, 20, 1 if kind == "int" else 8))
    miss = draw(st.lists(st.lists(st.sampled_from([0, 0, 1]), min_size=p, max_size=p), min_size=n, max_size=n)) if kind == "float" and draw(st.booleans()) else None
    return dict(n=n, p=p, box=box, kind=kind, y=y, miss=miss, fill=draw(st.sampled_from([None, None, 5.0, -9999.0, 0.0])),
                index=draw(st.sampled_from(["range", "range", "D", "D-nofreq", "MS", "irregular", "str", "int", "period", "tz"])), name=draw(st.sampled_from([None, "foo"])),
                dims=draw(st.booleans()), width=draw(st.sampled_from([0, 0, 0, 0, 1])), pre=draw(st.sampled_from(["none", "none", "same", "other"])), register=draw(st.booleans()),
                shift=draw(st.integers(0, 3)))


def make_index(case):
    n, k = case["n"], case["index"]
    if k == "range":
        return pd.RangeIndex(n)
    if k == "str":
        return pd.Index([f"a{i}" for i in range(n)])
    if k == "int":
        return pd.Index(np.arange(n)[::-1].copy())
    if k == "period":
        return pd.period_range("2020-01", periods=n, freq="M")
    if k == "irregular":
        return pd.DatetimeIndex(pd.Timestamp("2020-01-01") + pd.to_timedelta(np.cumsum(np.arange(n) % 3 + 1), unit="D"))
    i = pd.date_range("2020-01-01", periods=n, freq="MS" if k == "MS" else "D", tz="UTC" if k == "tz" else None)
    return pd.DatetimeIndex(i.values) if k == "D-nofreq" else i


def check_reg(case, ctx):
    n, p = case["n"], case["p"]
    y = np.array(case["y"], dtype=int if case["kind"] == "int" else float)
    if case["miss"] is not None:
        y = np.where(np.array(case["miss"]) > 0, np.nan, y)
    gaps = np.isnan(y)
    fill = -9999.0 if case["fill"] is None else case["fill"]
    index = make_index(case)
    box = case["box"]
    labelled = box in ("series", "frame")
    if box == "series":
        obj = pd.Series(y[:, 0].copy(), index=index, name=case["name"])
    elif box == "frame":
        obj = pd.DataFrame(y.copy(), index=index, columns=[f"c{i}" for i in range(p)])
    elif box == "shared":
        obj = pytensor.shared(y.copy(), name=case["name"])
    elif box == "const":
        obj = pt.as_tensor_variable(y.copy(), name=case["name"])
    else:
        obj = y.copy()
    before = obj.copy(deep=True) if labelled else None
    freq0 = getattr(index, "freq", None)
    dates = labelled and case["index"] in ("D", "D-nofreq", "MS", "irregular", "tz")
    want_idx = index if dates else np.arange(n)
    bad = None
    if case["width"]:
        bad = "width"
    elif labelled and case["index"] in ("str", "int", "period"):
        bad = "index"
    elif np.any(y[~gaps] == fill):
        bad = "fill"
    coords = {"observed_state": [f"c{i}" for i in range(p + case["width"])]}
    if case["pre"] == "same":
        coords["time"] = want_idx
    elif case["pre"] == "other":
        coords["time"] = np.arange(n) + 7 if not dates else index + pd.Timedelta(days=1000)
        if bad is None and case["register"]:
            bad = "time"
    with pm.Model(coords=coords) as model, warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            data, mask = register_data_with_pymc(obj, n_obs=p + case["width"], obs_coords=coords["observed_state"] if case["dims"] else None, register_data=case["register"],
                                                 missing_fill_value=case["fill"])
        except (ValueError, IndexError) as e:
            require(bad is not None, "valid data were refused: %s", e)
            ctx.label("refused " + bad); ctx.nontriv()
            data = None
    if labelled:  # the caller's object must be as it was
        if box == "series":
            pd.testing.assert_series_equal(obj, before, check_freq=False)
            require(obj.name == case["name"], "the caller's series was renamed from %r to %r", case["name"], obj.name)
        else:
            pd.testing.assert_frame_equal(obj, before, check_freq=False)
        require(getattr(obj.index, "freq", None) == freq0, "the frequency of the caller's index changed from %s to %s", freq0, getattr(obj.index, "freq", None))
    elif box == "array":
        require(np.array_equal(obj, y, equal_nan=True), "the caller's array was changed")
    if data is None:
        return
    require(bad is None, "data with an unusable %s were accepted", bad)
    got = data.get_value()
    close(np.asarray(got, float), np.where(gaps, fill, y).astype(float), "registered values", rtol=0, atol=0)
    require(np.array_equal(np.broadcast_to(mask, y.shape), gaps), "gap mask %s, expected %s", mask, gaps)
    warned = any(issubclass(w.category, pm.ImputationWarning) for w in ws)
    require(warned == bool(gaps.any()), "missing values %s, imputation warning %s", gaps.any(), warned)
    if case["register"]:
        require(model["data"] is data, "data were not registered in the model")
        require(tuple(model.named_vars_to_dims["data"]) == ("time", "observed_state"), "data dims are %s", model.named_vars_to_dims["data"])
        lab = model.coords["time"]
        require(len(lab) == n and all(a == b for a, b in zip(lab, want_idx)), "time labels %s, expected %s", list(lab)[:3], list(want_idx)[:3])
    else:
        require("data" not in model.named_vars, "data were registered although register_data=False")
    ctx.label(box, case["index"] if labelled else "no index", "gaps" if gaps.any() else "complete")
    ctx.nontriv(gaps.any() or dates or box != "array")


@st.composite
def s_build(draw):
    n, p = draw(st.integers(2, 5)), draw(st.integers(1, 2))
    case = draw(gen.lgss(p, 2, 1, n, (), H0="dense"))
    case["y"] = draw(gen.arr((n, p), -4, 4))
    case["miss"] = draw(st.lists(st.lists(st.sampled_from([0, 0, 1]), min_size=p, max_size=p), min_size=n, max_size=n))
    case["box"] = draw(st.sampled_from(["array", "frame", "frame", "shared", "series"] if p == 1 else ["array", "frame", "shared"]))
    case["index"] = draw(st.sampled_from(["range", "D", "D-nofreq", "MS"]))
    case["fill"] = draw(st.sampled_from([None, 77.0]))
    case["register"] = draw(st.booleans())
    case["coords"] = draw(st.booleans())
    return case


def check_build(case, ctx):
    n, p = case["n"], case["p"]
    y = np.where(np.array(case["miss"]) > 0, np.nan, np.array(case["y"], float))
    s = gen.build_lgss(case)
    w = solve_all(s, y)
    if w["cond"] > 1e6:
        raise Reject
    mod = ssm.Generic(p, 2, 1)
    index = make_index(case)
    obj = dict(array=lambda: y, frame=lambda: pd.DataFrame(y, index=index, columns=mod.observed_states), shared=lambda: pytensor.shared(y),
               series=lambda: pd.Series(y[:, 0], index=index, name="o0"))[case["box"]]()
    model = ssm.model_for(mod, obj, coords=case["coords"] or case["register"], register_data=case["register"], missing_fill_value=case["fill"], mode="FAST_COMPILE")
    got = model.compile_fn(model.logp(vars=[model["obs"]], sum=False), inputs=model.value_vars, mode="FAST_COMPILE")(ssm.params(s))[0]
    close(np.ravel(got), np.asarray(w["ll"]), "likelihood terms of the registered data", rtol=1e-5, atol=1e-5)
    if case["register"]:
        want = index if case["box"] in ("frame", "series") and case["index"] != "range" else range(n)
        require(all(a == b for a, b in zip(model.coords["time"], want)), "time labels %s", model.coords["time"])
    ctx.label(case["box"], case["index"], "registered" if case["register"] else "not registered")
    ctx.nontriv(np.isnan(y).any())


TASKS = [Task("register", s_reg, check_reg, quick=500, thorough=12000, shards=(2, 7)), Task("build", s_build, check_build, quick=30, thorough=1500, shards=(5, 7))]
