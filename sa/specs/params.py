"""Parameter schedules: value as a function of the visits of the addressed entry."""
import numpy as np
from mushroom_rl.approximators.table import Table
from mushroom_rl.rl_utils.parameters import Parameter


def to_parameter(x):
    if isinstance(x, Parameter):
        return x
    else:
        return Parameter(x)


def Parameter___init__(self, value, min_value=None, max_value=None, size=(1,)):
    self._initial_value = value
    self._min_value = min_value
    self._max_value = max_value
    self._n_updates = Table(size)


def Parameter___call__(self, *idx, **kwargs):
    if self._n_updates.table.size == 1:
        idx = list()
    self.update(*idx, **kwargs)
    return self.get_value(*idx, **kwargs)


def Parameter_get_value(self, *idx, **kwargs):
    new_value = self._compute(*idx, **kwargs)
    if self._min_value is None and self._max_value is None:
        return new_value
    else:
        return np.clip(new_value, self._min_value, self._max_value)


def Parameter__compute(self, *idx, **kwargs):
    return self._initial_value


def Parameter_update(self, *idx, **kwargs):
    self._n_updates[idx] += 1


def Parameter_shape(self):
    return self._n_updates.table.shape


def Parameter_initial_value(self):
    return self._initial_value


def LinearParameter___init__(self, value, threshold_value, n, size=(1,)):
    self._coeff = (threshold_value - value) / n
    self._initial_value = value
    self._min_value = None if self._coeff >= 0 else threshold_value
    self._max_value = threshold_value if self._coeff >= 0 else None
    self._n_updates = Table(size)


def LinearParameter__compute(self, *idx, **kwargs):
    return self._coeff * self._n_updates[idx] + self._initial_value


def DecayParameter___init__(self, value, exp=1., min_value=None, max_value=None, size=(1,)):
    self._exp = exp
    self._initial_value = value
    self._min_value = min_value
    self._max_value = max_value
    self._n_updates = Table(size)


def DecayParameter__compute(self, *idx, **kwargs):
    return self._initial_value / np.maximum(self._n_updates[idx], 1) ** self._exp


def VarianceParameter___init__(self, value, exponential=False, min_value=None, tol=1., size=(1,)):
    self._exponential = exponential
    self._tol = tol
    self._weights_var = Table(size)
    self._x = Table(size)
    self._x2 = Table(size)
    self._parameter_value = Table(size)
    self._initial_value = value
    self._min_value = min_value
    self._max_value = None
    self._n_updates = Table(size)


def VarianceParameter__compute(self, *idx, **kwargs):
    return self._parameter_value[idx]


def VarianceParameter_update(self, *idx, **kwargs):
    x = kwargs['target']
    factor = kwargs.get('factor', 1.)
    n = self._n_updates[idx]
    self._n_updates[idx] += 1
    if n < 2:
        parameter_value = self._initial_value
    else:
        var = n * (self._x2[idx] - self._x[idx] ** 2) / (n - 1.)
        parameter_value = self._compute_parameter(var * self._weights_var[idx], sigma_process=var, index=idx)
    self._x[idx] += (x - self._x[idx]) / self._n_updates[idx]
    self._x2[idx] += (x ** 2 - self._x2[idx]) / self._n_updates[idx]
    self._weights_var[idx] = (1. - factor * parameter_value) ** 2 * self._weights_var[idx] + (factor * parameter_value) ** 2.
    self._parameter_value[idx] = parameter_value


def WindowedVarianceParameter___init__(self, value, exponential=False, min_value=None, tol=1., window=100, size=(1,)):
    self._exponential = exponential
    self._tol = tol
    self._weights_var = Table(size)
    self._samples = Table(size + (window,))
    self._index = Table(size, dtype=int)
    self._window = window
    self._parameter_value = Table(size)
    self._initial_value = value
    self._min_value = min_value
    self._max_value = None
    self._n_updates = Table(size)


def WindowedVarianceParameter_update(self, *idx, **kwargs):
    x = kwargs['target']
    factor = kwargs.get('factor', 1.)
    if self._n_updates.table.size == 1:
        idx = (0,) * len(self.shape)
    n = self._n_updates[idx]
    self._n_updates[idx] += 1
    if n < 2:
        parameter_value = self._initial_value
    else:
        samples = self._samples[idx]
        if n < self._window:
            samples = samples[:int(n)]
        var = np.var(samples)
        parameter_value = self._compute_parameter(var * self._weights_var[idx], sigma_process=var, index=idx)
    index = np.array([self._index[idx]], dtype=int)
    self._samples[idx + (index,)] = x
    self._index[idx] += 1
    if self._index[idx] >= self._window:
        self._index[idx] = 0
    self._weights_var[idx] = (1. - factor * parameter_value) ** 2 * self._weights_var[idx] + (factor * parameter_value) ** 2.
    self._parameter_value[idx] = parameter_value


def increasing(self, sigma, **kwargs):
    if self._exponential:
        return 1 - np.exp(sigma * np.log(0.5) / self._tol)
    else:
        return sigma / (sigma + self._tol)


def decreasing(self, sigma, **kwargs):
    if self._exponential:
        return np.exp(sigma * np.log(0.5) / self._tol)
    else:
        return 1. / (sigma + self._tol)
