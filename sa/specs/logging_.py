from mushroom_rl.utils.callbacks.callback import Callback, CallbackList


def CallbackList___init__(self):
    self._data_list = list()


def CallbackList_get(self):
    return self._data_list


def CallbackList_clean(self):
    self._data_list = list()
from mushroom_rl.utils.callbacks.callback import Callback
from mushroom_rl.core.dataset import VectorizedDataset
from mushroom_rl.utils.callbacks.collect_dataset import CollectDataset


def CollectDataset___init__(self):
    self._dataset = None


def CollectDataset___call__(self, dataset):
    if isinstance(dataset, VectorizedDataset):
        dataset = dataset.flatten()
    if self._dataset is None:
        self._dataset = dataset.copy()
    else:
        self._dataset += dataset


def CollectDataset_clean(self):
    if self._dataset is not None:
        self._dataset.clear()


def CollectDataset_get(self):
    return self._dataset
from mushroom_rl.utils.callbacks.callback import CallbackList
import numpy as np
from mushroom_rl.utils.callbacks.collect_max_q import CollectMaxQ


def CollectMaxQ___init__(self, approximator, state):
    self._approximator = approximator
    self._state = state
    super().__init__()


def CollectMaxQ___call__(self, dataset):
    q = self._approximator.predict(self._state)
    max_q = np.max(q)
    self._data_list.append(max_q)
from mushroom_rl.utils.callbacks.callback import CallbackList
import numpy as np
from mushroom_rl.utils.callbacks.collect_parameters import CollectParameters


def CollectParameters___init__(self, parameter, *idx):
    self._parameter = parameter
    self._idx = idx
    super().__init__()


def CollectParameters___call__(self, dataset):
    value = self._parameter.get_value(*self._idx)
    if isinstance(value, np.ndarray):
        value = np.array(value)
    self._data_list.append(value)
import numpy as np
from copy import deepcopy
from mushroom_rl.utils.callbacks.callback import CallbackList
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.utils.callbacks.collect_q import CollectQ


def CollectQ___init__(self, approximator):
    self._approximator = approximator
    super().__init__()


def CollectQ___call__(self, dataset):
    if isinstance(self._approximator, EnsembleTable):
        qs = list()
        for m in self._approximator.model:
            qs.append(m.table)
        self._data_list.append(deepcopy(np.mean(qs, 0)))
    else:
        self._data_list.append(deepcopy(self._approximator.table))
import numpy as np


def numerical_diff_policy(policy, state, action, eps=1e-06):
    w_start = policy.get_weights()
    g = np.zeros(policy.weights_size)
    for i in range(len(w_start)):
        perturb = np.zeros(policy.weights_size)
        perturb[i] = eps
        policy.set_weights(w_start - perturb)
        v1 = policy(state, action)
        policy.set_weights(w_start + perturb)
        v2 = policy(state, action)
        g[i] = (v2 - v1) / (2 * eps)
    policy.set_weights(w_start)
    return g


def numerical_diff_dist(dist, theta, eps=1e-06):
    rho_start = dist.get_parameters()
    g = np.zeros(dist.parameters_size)
    for i in range(len(rho_start)):
        perturb = np.zeros(dist.parameters_size)
        perturb[i] = eps
        dist.set_parameters(rho_start - perturb)
        v1 = dist(theta)
        dist.set_parameters(rho_start + perturb)
        v2 = dist(theta)
        g[i] = (v2 - v1) / (2 * eps)
    dist.set_parameters(rho_start)
    return g


def numerical_diff_function(function, params, eps=1e-06):
    g = np.zeros_like(params, dtype=float)
    n_params = len(params)
    for i in range(n_params):
        perturb = np.zeros(n_params)
        perturb[i] = eps
        v1 = function(params - perturb)
        v2 = function(params + perturb)
        g[i] = (v2 - v1) / (2 * eps)
    return g
import numpy as np
import scipy.stats as st


def get_mean_and_confidence(data):
    mean = np.mean(data, axis=0)
    se = st.sem(data, axis=0)
    n = len(data)
    _, interval = st.t.interval(0.95, n - 1, scale=se)
    return (mean, interval)


def plot_mean_conf(data, ax, color='blue', line='-', facecolor=None, alpha=0.4, label=None):
    facecolor = color if facecolor is None else facecolor
    mean, conf = get_mean_and_confidence(np.array(data))
    upper_bound = mean + conf
    lower_bound = mean - conf
    ax.plot(mean, color=color, linestyle=line, label=label)
    ax.fill_between(np.arange(np.size(mean)), upper_bound, lower_bound, facecolor=facecolor, alpha=alpha)
import pickle
import numpy as np
from pathlib import Path
from mushroom_rl.core.logger.data_logger import DataLogger


def DataLogger___init__(self, results_dir, suffix='', append=False):
    self._results_dir = results_dir
    self._suffix = suffix
    self._data_dict = dict()
    self._best_J = -np.inf
    if append:
        self._load_numpy()


def DataLogger_log_numpy(self, **kwargs):
    for name, data in kwargs.items():
        if name not in self._data_dict:
            self._data_dict[name] = list()
        self._data_dict[name].append(data)
        filename = name + self._suffix + '.npy'
        path = self._results_dir / filename
        current_data = np.array(self._data_dict[name])
        np.save(path, current_data)


def DataLogger_log_numpy_array(self, **kwargs):
    for name, data in kwargs.items():
        filename = name + self._suffix + '.npy'
        path = self._results_dir / filename
        np.save(path, data)


def DataLogger_log_agent(self, agent, epoch=None, full_save=False):
    epoch_suffix = '' if epoch is None else '-' + str(epoch)
    filename = 'agent' + self._suffix + epoch_suffix + '.msh'
    path = self._results_dir / filename
    agent.save(path, full_save=full_save)


def DataLogger_log_best_agent(self, agent, J, full_save=False):
    if J >= self._best_J:
        self._best_J = J
        filename = 'agent' + self._suffix + '-best.msh'
        path = self._results_dir / filename
        agent.save(path, full_save=full_save)


def DataLogger_log_dataset(self, dataset):
    filename = 'dataset' + self._suffix + '.pkl'
    path = self._results_dir / filename
    with path.open(mode='wb') as f:
        pickle.dump(dataset, f)


def DataLogger_path(self):
    return self._results_dir


def DataLogger__load_numpy(self):
    for file in self._results_dir.iterdir():
        if file.is_file() and file.suffix == '.npy':
            if file.stem.endswith(self._suffix):
                name = file.stem[:len(file.stem) - len(self._suffix)]
                data = np.load(str(file)).tolist()
                self._data_dict[name] = data
import logging
import tqdm
from mushroom_rl.core.logger.console_logger import TqdmHandler, ConsoleLogger


def ConsoleLogger_debug(self, msg):
    self._logger.debug(msg)


def ConsoleLogger_info(self, msg):
    self._logger.info(msg)


def ConsoleLogger_warning(self, msg):
    self._logger.warning(msg)


def ConsoleLogger_error(self, msg):
    self._logger.error(msg)


def ConsoleLogger_critical(self, msg):
    self._logger.critical(msg)


def ConsoleLogger_exception(self, msg):
    self._logger.exception(msg)


def ConsoleLogger_strong_line(self):
    self.info('###################################################################################################')


def ConsoleLogger_weak_line(self):
    self.info('---------------------------------------------------------------------------------------------------')


def ConsoleLogger_epoch_info(self, epoch, **kwargs):
    msg = 'Epoch ' + str(epoch) + ' |'
    for name, data in kwargs.items():
        msg += ' ' + name + ': ' + str(data)
    self.info(msg)
from datetime import datetime
from pathlib import Path
from mushroom_rl.core.logger.console_logger import ConsoleLogger
from mushroom_rl.core.logger.data_logger import DataLogger
from mushroom_rl.core.logger.logger import Logger


def Logger___init__(self, log_name='', results_dir='./logs', log_console=False, use_timestamp=False, append=False, seed=None, **kwargs):
    if log_console:
        assert results_dir is not None
    timestamp = datetime.now().strftime('%Y-%m-%d-%H-%M-%S')
    if not log_name:
        log_name = timestamp
    elif use_timestamp:
        log_name += '_' + timestamp
    if results_dir:
        results_dir = Path(results_dir) / log_name
        results_dir.mkdir(parents=True, exist_ok=True)
    suffix = '' if seed is None else '-' + str(seed)
    DataLogger.__init__(self, results_dir, suffix=suffix, append=append)
    ConsoleLogger.__init__(self, log_name, results_dir if log_console else None, suffix=suffix, **kwargs)
import pickle
from collections import deque
from mushroom_rl.utils.plots.databuffer import DataBuffer


def DataBuffer___init__(self, name, length=None):
    self._buffer = deque(maxlen=length)
    self.name = name
    self._tracking_enabled = True
    assert isinstance(name, str), 'Name of DataBuffer needs to be a string'


def DataBuffer_size(self):
    return len(self._buffer)


def DataBuffer_update(self, data):
    if self._tracking_enabled:
        self._buffer.extend(data)


def DataBuffer_get(self):
    return self._buffer


def DataBuffer_set(self, buffer):
    self._buffer = buffer


def DataBuffer_reset(self):
    self._buffer.clear()


def DataBuffer_enable_tracking(self, status):
    self._tracking_enabled = status


def DataBuffer_save(self, path):
    path = path + '/{}'.format(self.name)
    with open(path, 'wb') as file:
        pickle.dump(self, file)


def DataBuffer_load(path):
    with open(path, 'rb') as file:
        loaded_instance = pickle.load(file)
    return loaded_instance
