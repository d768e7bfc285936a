"""A PyMCStateSpace model whose every matrix is a parameter, and helpers to run its methods on hand-made posteriors."""
from functools import lru_cache

import arviz as az
import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt

from pymc_extras.statespace.core.statespace import PyMCStateSpace
from pymc_extras.statespace.utils.constants import (
    ALL_STATE_AUX_DIM, ALL_STATE_DIM, OBS_STATE_AUX_DIM, OBS_STATE_DIM, SHOCK_AUX_DIM, SHOCK_DIM, SHORT_NAME_TO_LONG)

NAMES = ["a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]
PAR = {k: f"par_{k}" for k in NAMES}  # parameter names must not look like matrix names


def shapes(p, m, r):
    return dict(a0=(m,), P0=(m, m), c=(m,), d=(p,), T=(m, m), Z=(p, m), R=(m, r), H=(p, p), Q=(r, r))


class Generic(PyMCStateSpace):
    def __init__(self, p, m, r, tv=(), n=None, filter_type="standard", measurement_error=True):
        self._tv, self._n, self._dims = tuple(tv), n, (p, m, r)
        super().__init__(k_endog=p, k_states=m, k_posdef=r, filter_type=filter_type, verbose=False,
                         measurement_error=measurement_error)

    def full_shapes(self):
        return {k: ((self._n,) + s if k in self._tv else s) for k, s in shapes(*self._dims).items()}

    @property
    def param_names(self):
        return [PAR[k] for k in NAMES]

    @property
    def data_names(self):
        return []

    @property
    def state_names(self):
        return [f"s{i}" for i in range(self.k_states)]

    @property
    def observed_states(self):
        return [f"o{i}" for i in range(self.k_endog)]

    @property
    def shock_names(self):
        return [f"e{i}" for i in range(self.k_posdef)]

    @property
    def coords(self):
        return {ALL_STATE_DIM: self.state_names, ALL_STATE_AUX_DIM: self.state_names, OBS_STATE_DIM: self.observed_states,
                OBS_STATE_AUX_DIM: self.observed_states, SHOCK_DIM: self.shock_names, SHOCK_AUX_DIM: self.shock_names}

    @property
    def param_dims(self):
        return {}

    def make_symbolic_graph(self):
        for k, s in self.full_shapes().items():
            v = self.make_and_register_variable(PAR[k], shape=s)
            long = "initial_state" if k == "a0" else SHORT_NAME_TO_LONG[k]
            if k in self._tv:
                self.ssm[long] = v
            else:
                self.ssm[(long,) + (slice(None),) * len(s)] = v


def params(s):
    """dict of numpy parameter values from a build_lgss system."""
    return {PAR[k]: np.asarray(s[k], float) for k in NAMES}


def model_for(mod, data, coords=True, **kw):
    """A PyMC model around ``mod`` with flat parameters."""
    c = mod.coords if coords else {}
    with pm.Model(coords=c) as m:
        for name in mod.param_names:
            pm.Flat(name, shape=mod._name_to_variable[name].type.shape)
        mod.build_statespace_graph(data, **kw)
    return m


def idata_from(draws, group="posterior", chains=1):
    """InferenceData from a list of parameter dicts (split evenly over chains)."""
    per = len(draws) // chains
    d = {k: np.stack([np.stack([draws[c * per + i][k] for i in range(per)]) for c in range(chains)]) for k in draws[0]}
    return az.from_dict(**{group: d})
