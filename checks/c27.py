"""C27: model builders through random histories of fitting, predicting, saving and loading."""
import copy
import json
import os
import shutil
import tempfile

import arviz as az
import numpy as np
import pandas as pd
import pymc as pm
from hypothesis import strategies as st

from harness.core import Task, close, require
from pymc_extras.linearmodel import LinearModel
from pymc_extras.model_builder import ModelBuilder

RULE = """A case is a model builder (the shipped LinearModel, or a regression of mine on 1-3 columns with configurations nested up to three levels of numbers, texts, nulls, booleans, arrays and dims) with posterior draws taken from the prior (fast) or by a short real sampling run, training data of 1-8 rows with default,
shuffled, text, date, duplicated or fractional index and a target given as an array, a Series with the same or another index, or not at all, followed by 1-5 operations: predict, predict_posterior or sample_posterior_predictive for 1-9 rows in frames with any index, prior predictive draws, saving and loading, fitting again,
loading with another class, version or altered configuration. After each operation: training rows and targets in the model and in the stored data are paired by position, predictions are the posterior mean of the regression at each row in the order given (noise is negligible), draws have the right count, a loaded builder has the
same configurations, identity, training data, posterior and predictions for a seed, foreign files are refused, and the caller's frames and configurations, and the posterior and training data, are unchanged by predicting. Non-trivial: at least two rows and either an index other than the default one or a save and load."""
ASSUMPTIONS = ["X and y are paired by position, as the models do", "lists directly inside configurations come back as arrays, as documented, and so are given as arrays", "an index name or column named like the target is not used"]


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, tuple):
        return ("tuple", [norm(v) for v in x])
    if isinstance(x, list):
        return ("list", [norm(v) for v in x])
    return x


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x.tolist() if isinstance(x, np.ndarray) else x


class FromPrior:
    """posterior draws that cost nothing"""

    def sample_model(self, **kwargs):
        if not getattr(self, "cheap", True):
            return super().sample_model(**kwargs)
        with self.model:
            prior = pm.sample_prior_predictive(12, random_seed=kwargs.get("random_seed"))
        return self.set_idata_attrs(az.InferenceData(posterior=prior.prior, observed_data=prior.observed_data, constant_data=prior.constant_data))


class Linear(FromPrior, LinearModel):
    pass


class Multi(FromPrior, ModelBuilder):
    _model_type = "Multi"
    version = "1.2"

    @staticmethod
    def get_default_model_config():
        return {"w": {"loc": np.zeros(1), "scale": 1.0, "dims": ("column",)}, "b": {"loc": 0, "scale": 1}, "noise": 1e-7}

    @staticmethod
    def get_default_sampler_config():
        return {"draws": 7}

    @property
    def output_var(self):
        return "target"

    @property
    def _serializable_model_config(self):
        return plain(self.model_config)

    def _generate_and_preprocess_model_data(self, X, y):
        self.X, self.y = X, y

    def build_model(self, X, y, **kwargs):
        c = self.model_config
        with pm.Model(coords={"column": [str(k) for k in X.columns]}) as self.model:
            x = pm.Data("x", np.asarray(X, dtype=float))
            t = pm.Data("t", np.asarray(y, dtype=float))
            w = pm.Normal("w", c["w"]["loc"], c["w"]["scale"], dims=c["w"]["dims"])
            b = pm.Normal("b", c["b"]["loc"], c["b"]["scale"])
            s = pm.HalfNormal("s", c["noise"])
            pm.Normal("target", x @ w + b, s, shape=x.shape[0], observed=t)

    def _data_setter(self, X, y=None):
        with self.model:
            pm.set_data({"x": np.asarray(X, dtype=float)})
            if y is not None:
                pm.set_data({"t": np.asarray(y, dtype=float)})


class Multi2(Multi):
    version = "1.3"


class Other(Multi):
    _model_type = "Other"


@st.composite
def s_extra(draw, depth=0):
    """configuration entries which do not matter to the model"""
    leaf = st.one_of(st.integers(-3, 3), st.floats(-2, 2, width=16), st.sampled_from(["a", "b c", "", "é"]), st.none(), st.booleans())
    out = {}
    for i in range(draw(st.integers(0, 2))):
        k = draw(st.sampled_from(["p", "q", "dims", "loc"])) + str(i if draw(st.booleans()) else "")
        kind = draw(st.sampled_from(["leaf", "array", "dims", "dict", "array2"]))
        if kind == "dict" and depth < 2:
            out[k] = draw(s_extra(depth + 1))
        elif kind.startswith("array") and depth > 0 and k != "dims":
            v = draw(st.lists(st.integers(-4, 4), min_size=1, max_size=3))
            out[k] = ["A", v if kind == "array" else [v, v]]
        elif kind == "dims" and depth > 0:
            out["dims"] = ["T", draw(st.lists(st.sampled_from(["u", "v"]), min_size=1, max_size=2))]
        else:
            v = draw(leaf)
            if k != "dims":
                out[k] = v
    return out


def thaw(x):
    if isinstance(x, dict):
        return {k: thaw(v) for k, v in x.items()}
    if isinstance(x, list) and x and x[0] == "A":
        return np.array(x[1])
    if isinstance(x, list) and x and x[0] == "T":
        return tuple(x[1])
    return x


IDX = ["default", "shuffled", "text", "dates", "duplicates", "fractions", "offset"]
frame = st.fixed_dictionaries(dict(n=st.integers(1, 8), idx=st.sampled_from(IDX), seed=st.integers(0, 10**5)))


@st.composite
def s_case(draw, real=False):
    ops = st.one_of(st.fixed_dictionaries(dict(op=st.sampled_from(["predict", "predict", "posterior", "ppc", "prior"]), f=frame, extend=st.booleans(), combined=st.booleans())), st.fixed_dictionaries(dict(op=st.sampled_from(["saveload", "saveload", "saveload", "refit", "foreign"]), f=frame, how=st.sampled_from(["version", "type", "config", "id"]))))
    return dict(cls=draw(st.sampled_from(["Linear", "Multi", "Multi"])), k=draw(st.integers(1, 3)), train=draw(frame), y=draw(st.sampled_from(["array", "array", "series", "other index", "none"])), extra=draw(s_extra()), scfg=draw(st.dictionaries(st.sampled_from(["draws", "tune", "chains", "target_accept"]), st.integers(1, 5), max_size=3)),
                real=real, ops=draw(st.lists(ops, min_size=1, max_size=2 if real else 5)), seed=draw(st.integers(0, 10**5)))


def make_frame(f, k, names):
    rng = np.random.default_rng(f["seed"])
    n = f["n"]
    idx = dict(default=pd.RangeIndex(n), shuffled=pd.Index(rng.permutation(n)), text=pd.Index([f"r{i}" for i in rng.permutation(n)]), dates=pd.date_range("2020-01-05", periods=n)[::-1], duplicates=pd.Index(rng.integers(0, 3, n)), fractions=pd.Index(rng.permutation(n) / 4), offset=pd.RangeIndex(5, 5 + n))[f["idx"]]
    X = pd.DataFrame(rng.normal(size=(n, k)).round(3), columns=names, index=idx)
    return X, rng


def check(case, ctx):
    if shutil.disk_usage("/tmp").free < 10**8:
        raise OSError("no disk space for scratch files")
    d = tempfile.mkdtemp(prefix="c27_")
    try:
        run(case, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case, ctx, d):
    linear = case["cls"] == "Linear"
    k = 1 if linear else case["k"]
    names = ["input", "x b", "z"][:k]
    cls = Linear if linear else Multi
    rng = np.random.default_rng(case["seed"])
    if linear:
        cfg = {"intercept": {"loc": 1, "scale": 2}, "slope": {"loc": -1, "scale": 0.5}, "obs_error": 1e-7}
    else:
        cfg = {"w": {"loc": np.arange(k) * 0.5, "scale": 1.5, "dims": ("column",)}, "b": {"loc": 1, "scale": 2}, "noise": 1e-7}
    for key, v in thaw({} if linear else case["extra"]).items():
        cfg.setdefault(key, v)
    scfg = dict(case["scfg"])
    if case["real"]:
        cfg["obs_error" if linear else "noise"] = 1.0
        scfg = dict(draws=8, tune=8, chains=1, cores=1)
    keep_cfg, keep_scfg = norm(copy.deepcopy(cfg)), copy.deepcopy(scfg)
    m = cls(model_config=cfg, sampler_config=scfg)
    m.cheap = not case["real"]
    if case["real"]:
        ctx.label("real sampling")
    out = m.output_var
    state = {}

    def fit(m, f):
        X, r = make_frame(f, k, names)
        y = r.normal(size=len(X)).round(3)
        given = dict(array=y.copy(), series=pd.Series(y, index=X.index), none=None, **{"other index": pd.Series(y, index=pd.Index(r.permutation(len(y)) + 1))})[case["y"]]
        if given is None:
            y = np.zeros(len(X))
        before = X.copy(deep=True), copy.deepcopy(given)
        idata = m.fit(X, given, progressbar=False, random_seed=case["seed"])
        pd.testing.assert_frame_equal(X, before[0])
        require(given is None or np.array_equal(np.asarray(given), np.asarray(before[1])), "fitting changed the target it was given")
        require(idata is m.idata, "fit returns other inference data than it keeps")
        state.update(X=X, y=y)

    def paired(m, what, data=True):
        X, y = state["X"], state["y"]
        df = m.idata.fit_data.to_dataframe()
        require(len(df) == len(y), f"{what}: {len(df)} rows are stored for {len(y)} training rows")
        require(list(df.columns) == names + [out], f"{what}: the stored columns are {list(df.columns)}")
        close(df[names].values, X.values, f"{what}: stored training rows", rtol=1e-12)
        close(df[out].values, y, f"{what}: targets stored with the training rows (index {case['train']['idx']}, target as {case['y']})", rtol=1e-12)
        if data:
            close(np.reshape(m.model["x"].get_value(), X.shape), X.values, f"{what}: rows in the model", rtol=1e-12)
            close(m.model["y_data" if linear else "t"].get_value(), y, f"{what}: targets in the model", rtol=1e-12)
        ctx.count(2)

    def configs(m, what):
        require(norm(m.model_config) == keep_cfg, f"{what}: the model configuration is {m.model_config}, it was {keep_cfg}")
        require(m.sampler_config == keep_scfg, f"{what}: the sampler configuration is {m.sampler_config}, it was {keep_scfg}")

    def line(m, X):
        p = m.idata.posterior
        if linear:
            f = p["intercept"].values[..., None] + p["slope"].values[..., None] * X.values[:, 0]
        else:
            f = p["b"].values[..., None] + p["w"].values @ X.values.T
        return f  # chain, draw, row

    fit(m, case["train"])
    ctx.nontriv(len(state["y"]) > 1 and (case["train"]["idx"] != "default" or any(o["op"] == "saveload" for o in case["ops"])))
    ctx.label(case["train"]["idx"])
    paired(m, "after fitting")
    configs(m, "after fitting")
    require(m.idata.attrs["id"] == m.id and m.idata.attrs["model_type"] == m._model_type and m.idata.attrs["version"] == m.version, "the fit is not labelled with the builder's identity")
    exact = not case["real"]
    for i, o in enumerate(case["ops"]):
        what = f"operation {i} ({o['op']})"
        ctx.label(o["op"])
        X, r = make_frame(o["f"], k, names)
        posterior = m.idata.posterior.copy(deep=True)
        groups = sorted(m.idata.groups())
        if o["op"] in ("predict", "posterior", "ppc"):
            before = X.copy(deep=True)
            old_ppc = m.idata.posterior_predictive.copy(deep=True) if "posterior_predictive" in groups else None
            F = line(m, X)
            n_draws = F.shape[0] * F.shape[1]
            if o["op"] == "predict":
                got = m.predict(X, extend_idata=o["extend"], random_seed=case["seed"], progressbar=False)
                require(np.shape(got) == (len(X),), f"{what}: {np.shape(got)} predictions for {len(X)} rows")
                if exact:
                    close(got, F.mean((0, 1)), f"{what}: predictions row by row", rtol=1e-4, atol=1e-4)
            else:
                if o["op"] == "posterior":
                    got = m.predict_posterior(X, extend_idata=o["extend"], combined=o["combined"], random_seed=case["seed"], progressbar=False)
                else:
                    got = m.sample_posterior_predictive(X, o["extend"], o["combined"], random_seed=case["seed"], progressbar=False)[out]
                got = got.transpose(..., "sample") if o["combined"] else got.transpose("chain", "draw", ...)
                want = F.reshape(n_draws, -1).T if o["combined"] else F
                require(got.shape == want.shape, f"{what}: draws of shape {got.shape}, expected {want.shape}")
                if exact:
                    close(got.values, want, f"{what}: predictive draws by row", rtol=1e-4, atol=1e-4)
            pd.testing.assert_frame_equal(X, before)
            if o["extend"]:
                require(m.idata.posterior_predictive[out].shape == F.shape, f"{what}: the kept predictive draws have shape {m.idata.posterior_predictive[out].shape}, expected {F.shape}")
            else:
                require(sorted(m.idata.groups()) == groups, f"{what}: groups of the inference data change from {groups} to {sorted(m.idata.groups())}")
                require(old_ppc is None or old_ppc.equals(m.idata.posterior_predictive), f"{what}: kept predictive draws change")
        elif o["op"] == "prior":
            n = 1 + o["f"]["seed"] % 6
            got = m.sample_prior_predictive(X, samples=n, extend_idata=o["extend"], combined=o["combined"], random_seed=3)[out]
            require(got.sizes["sample"] == n if o["combined"] else got.sizes["draw"] == n, f"{what}: {dict(got.sizes)} for {n} samples")
            require(got.size == n * len(X), f"{what}: prior predictive draws of shape {got.shape} for {n} samples and {len(X)} rows")
        elif o["op"] == "refit":
            fit(m, o["f"])
            paired(m, what)
            continue
        elif o["op"] == "saveload":
            path = os.path.join(d, f"f{i}.nc")
            m.save(path)
            new = cls.load(path)
            new.cheap = m.cheap
            configs(new, what)
            require(new.id == m.id, f"{what}: identity {new.id} instead of {m.id}")
            require(sorted(new.idata.groups()) == groups, f"{what}: groups {sorted(new.idata.groups())} instead of {groups}")
            for v in posterior.data_vars:
                require(np.array_equal(new.idata.posterior[v].values, posterior[v].values) and new.idata.posterior[v].dims == posterior[v].dims, f"{what}: the posterior of {v} changes")
            paired(new, what)
            a, b = (z.predict(X, extend_idata=False, random_seed=11, progressbar=False) for z in (m, new))
            close(b, a, f"{what}: predictions of the loaded builder", rtol=1e-10, atol=1e-12)
            m = new
        else:
            path = os.path.join(d, f"g{i}.nc")
            keep = dict(m.idata.attrs)
            bad = cls
            if o["how"] in ("version", "type") and not linear:
                bad = Multi2 if o["how"] == "version" else Other
            elif o["how"] == "config":
                alt = json.loads(keep["model_config"])
                alt["intercept" if linear else "b"]["loc"] = 1.5
                m.idata.attrs["model_config"] = json.dumps(alt)
            else:
                m.idata.attrs["id"] = "0" * 16
            try:
                m.save(path)
            finally:
                m.idata.attrs.update(keep)
            try:
                bad.load(path)
            except ValueError as e:
                require("does not contain" in str(e), f"{what}: refused with {e}")
            else:
                require(False, f"{what}: a file written with another {o['how']} was loaded")
        for v in posterior.data_vars:
            require(posterior[v].equals(m.idata.posterior[v]), f"{what}: the posterior of {v} changes")
        paired(m, what, data=False)
        configs(m, what)
        ctx.count(1)


TASKS = [Task("histories", s_case, check, quick=60, thorough=1500, soft_s=(60, 500), shards=(6, 8)),
         Task("sampled", lambda: s_case(real=True), check, quick=3, thorough=60, soft_s=(60, 400), shards=(3, 8))]


def probe_list():
    m = Multi(model_config={"w": {"loc": [0.0], "scale": 1.0, "dims": ("column",)}, "b": {"loc": 0, "scale": 1}, "noise": 1.0})
    d = tempfile.mkdtemp(prefix="c27_")
    try:
        m.fit(pd.DataFrame({"a": [1.0, 2.0]}), np.array([1.0, 2.0]), progressbar=False, random_seed=1)
        m.save(os.path.join(d, "m.nc"))
        Multi.load(os.path.join(d, "m.nc"))
    except ValueError as e:
        return f"a builder whose configuration holds a list inside an entry, {{'w': {{'loc': [0.0]}}}}, can be saved but not loaded: {str(e)[-90:]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROBES = {"list-config": probe_list}
