"""Running statistics and preprocessors."""
from collections import deque
from mushroom_rl.core import Serializable, ArrayBackend
from mushroom_rl.rl_utils.preprocessors import Preprocessor, StandardizationPreprocessor, MinMaxPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningStandardization
from mushroom_rl.rl_utils.running_stats import RunningStandardization, RunningExpWeightedAverage, RunningAveragedWindow
import numpy as np



def StandardizationPreprocessor___init__(self, mdp_info, backend, clip_obs=10.0, alpha=1e-32):
    self._clip_obs = clip_obs
    self._obs_shape = mdp_info.observation_space.shape
    self._array_backend = ArrayBackend.get_array_backend(backend)
    self._obs_runstand = RunningStandardization(shape=self._obs_shape, backend=backend, alpha=alpha)


def StandardizationPreprocessor___call__(self, obs):
    norm_obs = self._array_backend.clip((obs - self._obs_runstand.mean) / self._obs_runstand.std, -self._clip_obs, self._clip_obs)
    return norm_obs


def StandardizationPreprocessor_update(self, obs):
    self._obs_runstand.update_stats(obs)


def MinMaxPreprocessor___init__(self, mdp_info, backend, clip_obs=10.0, alpha=1e-32):
    super(MinMaxPreprocessor, self).__init__(mdp_info, backend, clip_obs, alpha)
    obs_low, obs_high = self._array_backend.convert(mdp_info.observation_space.low.copy(), mdp_info.observation_space.high.copy())
    self._obs_mask = self._array_backend.where((self._array_backend.abs(obs_low) < 1e+20) & (self._array_backend.abs(obs_high) < 1e+20))
    self._obs_mask = self._array_backend.concatenate(self._obs_mask)
    assert len(self._obs_mask) > 0, 'All observations have unlimited/extremely large range, you should use StandardizationPreprocessor instead.'
    self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
    self._obs_mean = self._array_backend.zeros_like(obs_low)
    self._obs_delta = self._array_backend.ones_like(obs_low)
    self._obs_mean[self._obs_mask] = (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.0
    self._obs_delta[self._obs_mask] = (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.0


def MinMaxPreprocessor___call__(self, obs):
    orig_obs = obs
    if self._run_norm_obs:
        obs = super(MinMaxPreprocessor, self).__call__(obs)
    else:
        obs = self._array_backend.copy(obs)
    obs[self._obs_mask] = ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
    return obs



def RunningStandardization___init__(self, shape, backend, alpha=1e-32):
    assert backend in ['numpy', 'torch']
    self._shape = shape
    assert 0.0 < alpha < 1.0
    self._alpha = alpha
    self._array_backend = ArrayBackend.get_array_backend(backend)
    self._n = 1
    self._m = self._array_backend.zeros(*self._shape)
    self._s = self._array_backend.ones(*self._shape)


def RunningStandardization_reset(self):
    self._n = 1
    self._m = self._array_backend.zeros(1, *self._shape)
    self._s = self._array_backend.ones(1, *self._shape)


def RunningStandardization_update_stats(self, value):
    value = self._array_backend.atleast_2d(value)
    batch_size = len(value)
    self._n += batch_size
    alpha = max(batch_size / self._n, self._alpha)
    new_m = (1 - alpha) * self._m + alpha * value.mean(0)
    new_s = self._s + (value.mean(0) - self._m) * (value.mean(0) - new_m)
    self._m, self._s = (new_m, new_s)


def RunningStandardization_mean(self):
    return self._array_backend.squeeze(self._m)


def RunningStandardization_std(self):
    return self._array_backend.squeeze(self._array_backend.sqrt(self._s / self._n))


def RunningExpWeightedAverage___init__(self, shape, alpha, backend, init_value=None):
    assert backend in ['numpy', 'torch']
    self._shape = shape
    self._alpha = alpha
    self._array_backend = ArrayBackend.get_array_backend(backend)
    self.reset(init_value)


def RunningExpWeightedAverage_reset(self, init_value=None):
    if init_value is None:
        self._avg_value = self._array_backend.zeros(1, *self._shape)
    else:
        self._avg_value = self._array_backend.atleast_2d(self._array_backend.convert(init_value))


def RunningExpWeightedAverage_update_stats(self, value):
    value = self._array_backend.atleast_2d(value)
    batch_size = len(value)
    for i in range(batch_size):
        self._avg_value = (1.0 - self._alpha) * self._avg_value + self._alpha * value[i]


def RunningExpWeightedAverage_mean(self):
    return self._avg_value


def RunningAveragedWindow___init__(self, shape, window_size, backend, init_value=None):
    assert backend in ['numpy', 'torch']
    self._shape = shape
    self._window_size = window_size
    self._array_backend = ArrayBackend.get_array_backend(backend)
    self.reset(init_value)


def RunningAveragedWindow_reset(self, init_value=None):
    if init_value is None:
        self._avg_buffer = deque(self._array_backend.zeros(1, *self._shape), maxlen=self._window_size)
    else:
        self._avg_buffer = deque([self._array_backend.convert(init_value)], maxlen=self._window_size)


def RunningAveragedWindow_update_stats(self, value):
    value = self._array_backend.atleast_2d(value)
    batch_size = len(value)
    for i in range(batch_size):
        self._avg_buffer.append(value[i])


def RunningAveragedWindow_mean(self):
    return self._array_backend.convert(self._avg_buffer).mean(0)
