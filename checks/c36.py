"""C36: StandardScalerDF against column statistics computed by hand."""
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Task, close, require
from pymc_extras.preprocessing.standard_scaler import StandardScalerDF

RULE = """A case is a numeric frame (1-30 rows, 1-6 columns of floats, integers, 32-bit floats and booleans with offsets and scales from 1e-3 to 1e6, constant and partly missing columns) with a range, shuffled, duplicated,
text, date or two-level index and text, integer, duplicated or two-level column labels, and an unseen frame with other rows, both put through fit, fit_transform, transform, inverse_transform, with and without centring and scaling, directly, after pickling, cloning, refitting,
incremental fitting or set_output, and inside a pipeline. Values are compared with means and population standard deviations computed per column in extended precision; labels must be identical and the caller's frames unchanged. Non-trivial: at least two
rows and a column that varies."""
ASSUMPTIONS = ["columns must have the fitted names in the fitted order (anything else is refused by scikit-learn when names are text)", "a constant column is centred and not scaled", "scikit-learn's set_output relabels columns whose names are not text, so it is used with text names only", "missing values are left missing and out of the statistics",
               "inverse scaling may return an array or a frame; a frame must carry the labels of its input"]


@st.composite
def s_frame(draw, ncols=None, rows=None):
    n = draw(st.integers(1, 30)) if rows is None else rows
    cols = draw(st.lists(st.fixed_dictionaries(dict(kind=st.sampled_from(["float", "float", "int", "f32", "const", "nan", "bool"]), loc=st.sampled_from([0.0, 0.0, 1.0, -5.0, 1e3, -1e4]), scale=st.sampled_from([1.0, 1e-2, 10.0, 1e4]))), min_size=1, max_size=6))
    return dict(n=n, cols=cols)


@st.composite
def s_case(draw):
    f = draw(s_frame())
    return dict(frame=f, n2=draw(st.integers(1, 12)), index=draw(st.sampled_from(["range", "shift", "perm", "dup", "text", "date", "multi", "float"])), index2=draw(st.sampled_from(["range", "shift", "perm", "dup", "text", "date", "multi"])),
                names=draw(st.sampled_from(["text", "text", "int", "dup", "multi", "named"])), mean=draw(st.booleans()) or draw(st.booleans()), std=draw(st.booleans()) or draw(st.booleans()),
                route=draw(st.sampled_from(["fit", "fit_transform", "refit", "pickle", "clone", "output", "pipeline", "partial"])), seed=draw(st.integers(0, 10**6)))


def index(kind, n, rng):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "shift":
        return pd.RangeIndex(5, 5 + 2 * n, 2, name="row")
    if kind == "perm":
        return pd.Index(rng.permutation(n))
    if kind == "dup":
        return pd.Index(rng.integers(0, 3, n))
    if kind == "text":
        return pd.Index([f"r{i}" for i in rng.permutation(n)], name="id")
    if kind == "date":
        return pd.date_range("2020-01-31", periods=n, freq="ME")[::-1]
    if kind == "float":
        return pd.Index(rng.normal(size=n))
    return pd.MultiIndex.from_arrays([rng.integers(0, 3, n), [f"k{i}" for i in range(n)]], names=["a", None])


def columns(kind, k):
    if kind == "int":
        return pd.Index([10 * i - 7 for i in range(k)])
    if kind == "dup":
        return pd.Index([f"c{i // 2}" for i in range(k)])
    if kind == "multi":
        return pd.MultiIndex.from_tuples([("g" + str(i % 2), i) for i in range(k)])
    return pd.Index([f"z{k - i}" for i in range(k)], name="var" if kind == "named" else None)


def make(case, n, kind, rng):
    arrs = []
    for c in case["frame"]["cols"]:
        x = rng.normal(size=n) * c["scale"] + c["loc"]
        if c["kind"] == "int":
            x = np.round(x * 3).astype(int)
        elif c["kind"] == "f32":
            x = np.round(x, 3).astype("float32")
        elif c["kind"] == "const":
            x = np.full(n, c["loc"])
        elif c["kind"] == "nan" and n > 1:
            x[rng.uniform(size=n) < 0.3] = np.nan
            x[0] = c["loc"]
        elif c["kind"] == "bool":
            x = x > c["loc"]
        arrs.append(pd.Series(x))
    df = pd.concat(arrs, axis=1)
    df.index, df.columns = index(kind, n, rng), columns(case["names"], len(arrs))
    return df


def stats_of(df):
    a = df.astype("float64").to_numpy().astype(np.longdouble)
    with np.errstate(all="ignore"):
        m = np.nanmean(a, axis=0)
        s = np.sqrt(np.nanmean((a - m) ** 2, axis=0))
    # a column whose spread is rounding noise around its mean counts as constant
    s = np.where(s <= 1e-12 * np.maximum(np.abs(m), 1e-300), 1, s)
    return m, np.where(s == 0, 1, s)


def same_labels(got, df, what):
    require(isinstance(got, pd.DataFrame), f"{what}: returned {type(got).__name__}, expected a DataFrame")
    require(got.index.equals(df.index) and list(got.index.names) == list(df.index.names), f"{what}: index {list(got.index)[:6]} {got.index.names}, expected {list(df.index)[:6]} {df.index.names}")
    require(got.columns.equals(df.columns) and list(got.columns.names) == list(df.columns.names), f"{what}: columns {list(got.columns)}, expected {list(df.columns)}")


def check(case, ctx):
    from sklearn.base import clone
    from sklearn.pipeline import make_pipeline
    rng = np.random.default_rng(case["seed"])
    df, df2 = make(case, case["frame"]["n"], case["index"], rng), make(case, case["n2"], case["index2"], rng)
    keep, keep2 = df.copy(deep=True), df2.copy(deep=True)
    mean, std = case["mean"], case["std"]
    sc = StandardScalerDF(with_mean=mean, with_std=std)
    require(sc.get_params()["with_mean"] is mean and sc.get_params()["with_std"] is std, "parameters are not kept")
    route = case["route"]
    if route in ("refit", "clone"):
        other = make(case, 7, "range", rng) * 3 + 1
        sc.fit(other)
        if route == "clone":
            sc = clone(sc)
    if route == "output" and case["names"] == "text":
        sc.set_output(transform="pandas")
    if route == "pipeline":
        sc = make_pipeline(sc)
    if route == "partial":
        h = max(1, len(df) // 2)
        sc.partial_fit(df.iloc[:h])
        if h < len(df):
            sc.partial_fit(df.iloc[h:])
        z = sc.transform(df)
    elif route in ("fit_transform", "pipeline", "output"):
        z = sc.fit_transform(df)
    else:
        require(sc.fit(df) is sc, "fit does not return the scaler")
        z = sc.transform(df)
    if route == "pickle":
        sc = pickle.loads(pickle.dumps(sc))
    m, s = stats_of(df)
    mu, sd = (m if mean else 0 * m), (s if std else 0 * s + 1)
    tol = 1e-3 if any(c["kind"] == "f32" for c in case["frame"]["cols"]) and all(c["kind"] in ("f32", "bool") for c in case["frame"]["cols"]) else 1e-6

    def want(frame):
        return np.asarray((frame.astype("float64").to_numpy() - mu) / sd, float)

    # offsets up to 1e4 times the spread and beyond cost digits
    atol = tol * float(max(1, np.max(np.abs(m) / s) * 1e-2))
    for what, f, z_ in [("fitted frame", df, z), ("fitted frame again", df, sc.transform(df)), ("unseen frame", df2, sc.transform(df2)), ("first row", df.iloc[:1], sc.transform(df.iloc[:1])), ("reversed", df.iloc[::-1], sc.transform(df.iloc[::-1]))]:
        same_labels(z_, f, what)
        close(z_.to_numpy(), want(f), f"{what}: scaled values", rtol=max(tol, 1e-7), atol=atol)
    back = sc.inverse_transform(sc.transform(df2))
    if isinstance(back, pd.DataFrame):
        same_labels(back, df2, "inverse")
    scale = float(np.max(np.nan_to_num(np.abs(keep2.astype("float64").to_numpy())), initial=1.0)) + float(np.max(np.abs(m)))
    close(np.asarray(back, float), keep2.astype("float64").to_numpy(), "inverse of the scaled unseen frame", rtol=tol, atol=(1e-4 if tol > 1e-4 else 1e-9) * scale)
    if mean and std:
        zz = z.to_numpy(float)
        vary = np.asarray(stats_of(df)[1] != 1)
        with np.errstate(all="ignore"):
            close(np.nanmean(zz, axis=0), np.zeros(zz.shape[1]), "mean of the scaled columns", atol=atol * 10)
            close(np.nanstd(zz, axis=0)[vary], np.ones(vary.sum()), "standard deviation of the scaled columns", rtol=1e-3 if tol > 1e-4 else 1e-5)
    pd.testing.assert_frame_equal(df, keep)
    pd.testing.assert_frame_equal(df2, keep2)
    ctx.count(8)
    ctx.label(route, f"index={case['index']}", f"columns={case['names']}", *({c["kind"] for c in case["frame"]["cols"]}))
    ctx.nontriv(len(df) > 1 and bool(np.any(stats_of(df)[1] != 1)))


TASKS = [Task("scale", s_case, check, 400, 20000, soft_s=(40, 900), shards=(2, 4))]
