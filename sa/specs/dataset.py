import numpy as np
from collections import defaultdict
import torch
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.core.array_backend import ArrayBackend
from mushroom_rl.core.extra_info import ExtraInfo
from mushroom_rl.core._impl import *
from mushroom_rl.core.dataset import DatasetInfo, Dataset, VectorizedDataset


def DatasetInfo___init__(self, backend, device, horizon, gamma, state_shape, state_dtype, action_shape, action_dtype, policy_state_shape, n_envs=1):
    assert backend == 'torch' or device is None
    self.backend = backend
    self.device = device
    self.horizon = horizon
    self.gamma = gamma
    self.state_shape = state_shape
    self.state_dtype = state_dtype
    self.action_shape = action_shape
    self.action_dtype = action_dtype
    self.policy_state_shape = policy_state_shape
    self.n_envs = n_envs
    super().__init__()


def DatasetInfo_is_agent_stateful(self):
    return self.policy_state_shape is not None


def DatasetInfo_create_dataset_info(mdp_info, agent_info, n_envs=1, device=None):
    backend = mdp_info.backend
    horizon = mdp_info.horizon
    gamma = mdp_info.gamma
    state_shape = mdp_info.observation_space.shape
    state_dtype = mdp_info.observation_space.data_type
    action_shape = mdp_info.action_space.shape
    action_dtype = mdp_info.action_space.data_type
    policy_state_shape = agent_info.policy_state_shape
    return DatasetInfo(backend, device, horizon, gamma, state_shape, state_dtype, action_shape, action_dtype, policy_state_shape, n_envs)


def DatasetInfo_create_replay_memory_info(mdp_info, agent_info, device=None):
    backend = agent_info.backend
    horizon = mdp_info.horizon
    gamma = mdp_info.gamma
    state_shape = mdp_info.observation_space.shape
    state_dtype = mdp_info.observation_space.data_type
    action_shape = mdp_info.action_space.shape
    action_dtype = mdp_info.action_space.data_type
    policy_state_shape = agent_info.policy_state_shape
    return DatasetInfo(backend, device, horizon, gamma, state_shape, state_dtype, action_shape, action_dtype, policy_state_shape)


def Dataset___init__(self, dataset_info, n_steps=None, n_episodes=None):
    assert n_steps is not None and n_episodes is None or (n_steps is None and n_episodes is not None)
    self._array_backend = ArrayBackend.get_array_backend(dataset_info.backend)
    if n_steps is not None:
        n_samples = n_steps
    else:
        horizon = dataset_info.horizon
        assert np.isfinite(horizon)
        n_samples = horizon * n_episodes
    if dataset_info.n_envs == 1:
        base_shape = (n_samples,)
        mask_shape = None
    else:
        base_shape = (n_samples, dataset_info.n_envs)
        mask_shape = base_shape
    state_shape = base_shape + dataset_info.state_shape
    action_shape = base_shape + dataset_info.action_shape
    reward_shape = base_shape
    if dataset_info.is_agent_stateful:
        policy_state_shape = base_shape + dataset_info.policy_state_shape
    else:
        policy_state_shape = None
    self._info = ExtraInfo(dataset_info.n_envs, dataset_info.backend, dataset_info.device)
    self._episode_info = ExtraInfo(dataset_info.n_envs, dataset_info.backend, dataset_info.device)
    self._theta_list = list()
    if dataset_info.backend == 'numpy':
        self._data = NumpyDataset(dataset_info.state_dtype, state_shape, dataset_info.action_dtype, action_shape, reward_shape, base_shape, policy_state_shape, mask_shape)
    elif dataset_info.backend == 'torch':
        self._data = TorchDataset(dataset_info.state_dtype, state_shape, dataset_info.action_dtype, action_shape, reward_shape, base_shape, policy_state_shape, mask_shape, device=dataset_info.device)
    else:
        self._data = ListDataset(policy_state_shape is not None, mask_shape is not None)
    self._dataset_info = dataset_info
    super().__init__()


def Dataset_generate(cls, mdp_info, agent_info, n_steps=None, n_episodes=None, n_envs=1):
    dataset_info = DatasetInfo.create_dataset_info(mdp_info, agent_info, n_envs)
    return cls(dataset_info, n_steps, n_episodes)


def Dataset_create_raw_instance(cls, dataset=None):
    new_dataset = cls.__new__(cls)
    if dataset is not None:
        new_dataset._array_backend = dataset._array_backend
        new_dataset._dataset_info = dataset._dataset_info
    else:
        new_dataset._dataset_info = None
    new_dataset._info = None
    new_dataset._episode_info = None
    new_dataset._data = None
    new_dataset._theta_list = None
    return new_dataset


def Dataset_from_array(cls, states, actions, rewards, next_states, absorbings, lasts, policy_state=None, policy_next_state=None, info=None, episode_info=None, theta_list=None, horizon=None, gamma=0.99, backend='numpy', device=None):
    assert len(states) == len(actions) == len(rewards) == len(next_states) == len(absorbings) == len(lasts)
    if policy_state is not None:
        assert len(states) == len(policy_state) == len(policy_next_state)
    dataset = cls.create_raw_instance()
    if info is None:
        dataset._info = ExtraInfo(1, backend)
    else:
        dataset._info = info.copy()
    if episode_info is None:
        dataset._episode_info = ExtraInfo(1, backend)
    else:
        dataset._episode_info = episode_info.copy()
    if theta_list is None:
        dataset._theta_list = list()
    else:
        dataset._theta_list = theta_list
    dataset._array_backend = ArrayBackend.get_array_backend(backend)
    if backend == 'numpy':
        dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts, policy_state, policy_next_state)
    elif backend == 'torch':
        dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts, policy_state, policy_next_state)
    else:
        dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts, policy_state, policy_next_state)
    state_shape = states.shape[1:]
    action_shape = actions.shape[1:]
    policy_state_shape = None if policy_state is None else policy_state.shape[1:]
    dataset._dataset_info = DatasetInfo(backend, device, horizon, gamma, state_shape, states.dtype, action_shape, actions.dtype, policy_state_shape)
    return dataset


def Dataset_append(self, step, info):
    self._data.append(*step)
    self._info.append(info)


def Dataset_append_episode_info(self, info):
    self._append_info(self._episode_info, info)


def Dataset_append_theta(self, theta):
    self._theta_list.append(theta)


def Dataset_get_info(self, field, index=None):
    if index is None:
        return self._info[field]
    else:
        return self._info[field][index]


def Dataset_clear(self):
    self._episode_info.clear()
    self._theta_list = list()
    self._info.clear()
    self._data.clear()


def Dataset_get_view(self, index, copy=False):
    dataset = self.create_raw_instance(dataset=self)
    dataset._info = self._info.get_view(index, copy)
    dataset._episode_info = self._episode_info.get_view(index, copy)
    dataset._data = self._data.get_view(index, copy)
    return dataset


def Dataset_item(self):
    assert len(self) == 1
    return self[0]


def Dataset___getitem__(self, index):
    if isinstance(index, (slice, np.ndarray)) or isinstance(index, (slice, torch.Tensor)):
        return self.get_view(index)
    elif isinstance(index, int) and index < len(self._data):
        return self._data[index]
    else:
        raise IndexError


def Dataset___add__(self, other):
    result = self.create_raw_instance(dataset=self)
    result._info = self._info + other._info
    result._episode_info = self._episode_info + other._episode_info
    result._theta_list = self._theta_list + other._theta_list
    result._data = self._data + other._data
    return result


def Dataset___len__(self):
    return len(self._data)


def Dataset_state(self):
    return self._data.state


def Dataset_action(self):
    return self._data.action


def Dataset_reward(self):
    return self._data.reward


def Dataset_next_state(self):
    return self._data.next_state


def Dataset_absorbing(self):
    return self._data.absorbing


def Dataset_last(self):
    return self._data.last


def Dataset_policy_state(self):
    return self._data.policy_state


def Dataset_policy_next_state(self):
    return self._data.policy_next_state


def Dataset_info(self):
    return self._info


def Dataset_episode_info(self):
    return self._episode_info


def Dataset_theta_list(self):
    return self._theta_list


def Dataset_episodes_length(self):
    lengths = list()
    l = 0
    for sample in self:
        l += 1
        if sample[-1] == 1:
            lengths.append(l)
            l = 0
    return self._array_backend.from_list(lengths)


def Dataset_n_episodes(self):
    return self._data.n_episodes


def Dataset_undiscounted_return(self):
    return self.compute_J()


def Dataset_discounted_return(self):
    return self.compute_J(self._dataset_info.gamma)


def Dataset_array_backend(self):
    return self._array_backend


def Dataset_is_stateful(self):
    return self._data.is_stateful


def Dataset_parse(self, to=None):
    if to is None:
        to = self._array_backend.get_backend_name()
    return self._convert(self.state, self.action, self.reward, self.next_state, self.absorbing, self.last, to=to)


def Dataset_parse_policy_state(self, to=None):
    if to is None:
        to = self._array_backend.get_backend_name()
    return self._convert(self.policy_state, self.policy_next_state, to=to)


def Dataset_select_first_episodes(self, n_episodes):
    assert n_episodes > 0, 'Number of episodes must be greater than zero.'
    last_idxs = np.argwhere(self.last).ravel()
    return self[:last_idxs[n_episodes - 1] + 1]


def Dataset_select_random_samples(self, n_samples):
    assert n_samples >= 0, 'Number of samples must be greater than or equal to zero.'
    if n_samples == 0:
        return np.array([[]])
    idxs = np.random.randint(len(self), size=n_samples)
    return self[idxs]


def Dataset_get_init_states(self):
    pick = True
    x_0 = list()
    for step in self:
        if pick:
            x_0.append(step[0])
        pick = step[-1]
    return self._array_backend.from_list(x_0)


def Dataset_compute_J(self, gamma=1.0):
    js = list()
    j = 0.0
    episode_steps = 0
    for i in range(len(self)):
        j += gamma ** episode_steps * self.reward[i]
        episode_steps += 1
        if self.last[i] or i == len(self) - 1:
            js.append(j)
            j = 0.0
            episode_steps = 0
    if len(js) == 0:
        js = [0.0]
    return self._array_backend.from_list(js)


def Dataset_compute_metrics(self, gamma=1.0):
    i = 0
    for i in reversed(range(len(self))):
        if self.last[i]:
            i += 1
            break
    dataset = self[:i]
    if len(dataset) > 0:
        J = dataset.compute_J(gamma)
        median = self._array_backend.median(J)
        return (J.min(), J.max(), J.mean(), median, len(J))
    else:
        return (0, 0, 0, 0, 0)


def Dataset__convert(self, *arrays, to='numpy'):
    if to == 'numpy':
        return self._array_backend.arrays_to_numpy(*arrays)
    elif to == 'torch':
        return self._array_backend.arrays_to_torch(*arrays)
    else:
        raise NotImplementedError


def Dataset__add_all_save_attr(self):
    pass


def Dataset__append_info(info, step_info):
    for key, value in step_info.items():
        info[key].append(value)


def Dataset__merge_info(info, other_info):
    new_info = defaultdict(list)
    for key in info.keys():
        new_info[key] = info[key] + other_info[key]
    return new_info


def VectorizedDataset___init__(self, dataset_info, n_steps=None, n_episodes=None):
    super().__init__(dataset_info, n_steps, n_episodes)
    self._initialize_theta_list(self._dataset_info.n_envs)


def VectorizedDataset_append(self, step, info):
    raise RuntimeError('Trying to use append on a vectorized dataset')


def VectorizedDataset_append_vectorized(self, step, info, mask):
    self._data.append(*step, mask=mask)
    self._info.append(info)


def VectorizedDataset_append_theta_vectorized(self, theta, mask):
    for i in range(len(theta)):
        if mask[i]:
            self._theta_list[i].append(theta[i])


def VectorizedDataset_clear(self, n_steps_per_fit=None):
    n_envs = len(self._theta_list)
    residual_data = None
    if n_steps_per_fit is not None:
        n_steps_dataset = self._data.mask.sum().item()
        if n_steps_dataset > n_steps_per_fit:
            n_extra_steps = n_steps_dataset - n_steps_per_fit
            n_parallel_steps = int(np.ceil(n_extra_steps / self._dataset_info.n_envs))
            view_size = slice(-n_parallel_steps, None)
            residual_data = self._data.get_view(view_size, copy=True)
            mask = residual_data.mask
            original_shape = mask.shape
            mask = mask.flatten()
            mask[n_extra_steps:] = False
            residual_data.mask = mask.reshape(original_shape)
            residual_info = self._info.get_view(view_size, copy=True)
            residual_episode_info = self._episode_info.get_view(view_size, copy=True)
    super().clear()
    self._initialize_theta_list(n_envs)
    if n_steps_per_fit is not None and residual_data is not None:
        self._data = residual_data
        self._info = residual_info
        self._episode_info = residual_episode_info


def VectorizedDataset_flatten(self, n_steps_per_fit=None):
    if len(self) == 0:
        return None
    states = self._array_backend.pack_padded_sequence(self._data.state, self._data.mask)
    actions = self._array_backend.pack_padded_sequence(self._data.action, self._data.mask)
    rewards = self._array_backend.pack_padded_sequence(self._data.reward, self._data.mask)
    next_states = self._array_backend.pack_padded_sequence(self._data.next_state, self._data.mask)
    absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, self._data.mask)
    last_padded = self._array_backend.copy(self._data.last)
    last_padded[-1, :] = True
    lasts = self._array_backend.pack_padded_sequence(last_padded, self._data.mask)
    policy_state = None
    policy_next_state = None
    if self._data.is_stateful:
        policy_state = self._array_backend.pack_padded_sequence(self._data.policy_state, self._data.mask)
        policy_next_state = self._array_backend.pack_padded_sequence(self._data.policy_next_state, self._data.mask)
    if n_steps_per_fit is not None:
        states = states[:n_steps_per_fit]
        actions = actions[:n_steps_per_fit]
        rewards = rewards[:n_steps_per_fit]
        next_states = next_states[:n_steps_per_fit]
        absorbings = absorbings[:n_steps_per_fit]
        lasts = lasts[:n_steps_per_fit]
        if self._data.is_stateful:
            policy_state = policy_state[:n_steps_per_fit]
            policy_next_state = policy_next_state[:n_steps_per_fit]
    flat_theta_list = self._flatten_theta_list()
    flat_info = self._info.flatten(self.mask)
    if n_steps_per_fit is not None:
        flat_info = flat_info.get_view(slice(n_steps_per_fit))
    flat_episode_info = self._episode_info.flatten(self.mask)
    return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts, policy_state=policy_state, policy_next_state=policy_next_state, info=flat_info, episode_info=flat_episode_info, theta_list=flat_theta_list, horizon=self._dataset_info.horizon, gamma=self._dataset_info.gamma, backend=self._array_backend.get_backend_name())


def VectorizedDataset__flatten_theta_list(self):
    flat_theta_list = list()
    for env_theta_list in self._theta_list:
        flat_theta_list += env_theta_list
    return flat_theta_list


def VectorizedDataset__initialize_theta_list(self, n_envs):
    self._theta_list = list()
    for i in range(n_envs):
        self._theta_list.append(list())


def VectorizedDataset_mask(self):
    return self._data.mask
import numpy as np
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.core._impl.numpy_dataset import NumpyDataset


def NumpyDataset___init__(self, state_type, state_shape, action_type, action_shape, reward_shape, flag_shape, policy_state_shape, mask_shape):
    self._state_type = state_type
    self._action_type = action_type
    self._states = np.empty(state_shape, dtype=self._state_type)
    self._actions = np.empty(action_shape, dtype=self._action_type)
    self._rewards = np.empty(reward_shape, dtype=float)
    self._next_states = np.empty(state_shape, dtype=self._state_type)
    self._absorbing = np.empty(flag_shape, dtype=bool)
    self._last = np.empty(flag_shape, dtype=bool)
    self._len = 0
    if policy_state_shape is None:
        self._policy_states = None
        self._policy_next_states = None
    else:
        self._policy_states = np.empty(policy_state_shape, dtype=float)
        self._policy_next_states = np.empty(policy_state_shape, dtype=float)
    if mask_shape is None:
        self._mask = None
    else:
        self._mask = np.empty(mask_shape, dtype=bool)
    super().__init__()


def NumpyDataset_create_new_instance(cls, dataset=None):
    new_dataset = cls.__new__(cls)
    if dataset is not None:
        new_dataset._state_type = dataset._state_type
        new_dataset._action_type = dataset._action_type
    else:
        new_dataset._state_type = None
        new_dataset._action_type = None
    new_dataset._states = None
    new_dataset._actions = None
    new_dataset._rewards = None
    new_dataset._next_states = None
    new_dataset._absorbing = None
    new_dataset._last = None
    new_dataset._len = None
    new_dataset._policy_states = None
    new_dataset._policy_next_states = None
    new_dataset._mask = None
    return new_dataset


def NumpyDataset_from_array(cls, states, actions, rewards, next_states, absorbings, lasts, policy_states=None, policy_next_states=None):
    if not isinstance(states, np.ndarray):
        states = states.numpy()
        actions = actions.numpy()
        rewards = rewards.numpy()
        next_states = next_states.numpy()
        absorbings = absorbings.numpy()
        lasts = lasts.numpy()
    dataset = cls.create_new_instance()
    dataset._state_type = states.dtype
    dataset._action_type = actions.dtype
    dataset._states = states
    dataset._actions = actions
    dataset._rewards = rewards
    dataset._next_states = next_states
    dataset._absorbing = absorbings
    dataset._last = lasts
    dataset._len = len(lasts)
    if policy_states is not None and policy_next_states is not None:
        if not isinstance(policy_states, np.ndarray):
            policy_states = policy_states.numpy()
            policy_next_states = policy_next_states.numpy()
        dataset._policy_states = policy_states
        dataset._policy_next_states = policy_next_states
    else:
        dataset._policy_states = None
        dataset._policy_next_states = None
    return dataset


def NumpyDataset___len__(self):
    return self._len


def NumpyDataset_append(self, state, action, reward, next_state, absorbing, last, policy_state=None, policy_next_state=None, mask=None):
    i = self._len
    self._states[i] = state
    self._actions[i] = action
    self._rewards[i] = reward
    self._next_states[i] = next_state
    self._absorbing[i] = absorbing
    self._last[i] = last
    if self.is_stateful:
        self._policy_states[i] = policy_state
        self._policy_next_states[i] = policy_next_state
    else:
        assert policy_state is None and policy_next_state is None
    if mask is not None:
        self._mask[i] = mask
    self._len += 1


def NumpyDataset_clear(self):
    self._states = np.empty_like(self._states)
    self._actions = np.empty_like(self._actions)
    self._rewards = np.empty_like(self._rewards)
    self._next_states = np.empty_like(self._next_states)
    self._absorbing = np.empty_like(self._absorbing)
    self._last = np.empty_like(self._last)
    if self.is_stateful:
        self._policy_states = np.empty_like(self._policy_states)
        self._policy_next_states = np.empty_like(self._policy_next_states)
    self._len = 0


def NumpyDataset_get_view(self, index, copy=False):
    view = self.create_new_instance(self)
    if copy:
        view._states = np.empty_like(self._states)
        view._actions = np.empty_like(self._actions)
        view._rewards = np.empty_like(self._rewards)
        view._next_states = np.empty_like(self._next_states)
        view._absorbing = np.empty_like(self._absorbing)
        view._last = np.empty_like(self._last)
        new_states = self.state[index, ...]
        new_len = new_states.shape[0]
        view._states[:new_len] = new_states
        view._actions[:new_len] = self.action[index, ...]
        view._rewards[:new_len] = self.reward[index, ...]
        view._next_states[:new_len] = self.next_state[index, ...]
        view._absorbing[:new_len] = self.absorbing[index, ...]
        view._last[:new_len] = self.last[index, ...]
        view._len = new_len
        if self.is_stateful:
            view._policy_states = np.empty_like(self._policy_states)
            view._policy_next_states = np.empty_like(self._policy_next_states)
            view._policy_states[:new_len] = self.policy_state[index, ...]
            view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
        if self._mask is not None:
            view._mask = np.empty_like(self._mask)
            view._mask[:new_len] = self.mask[index, ...]
    else:
        view._states = self.state[index, ...]
        view._actions = self.action[index, ...]
        view._rewards = self.reward[index, ...]
        view._next_states = self.next_state[index, ...]
        view._absorbing = self.absorbing[index, ...]
        view._last = self.last[index, ...]
        view._len = view._states.shape[0]
        if self.is_stateful:
            view._policy_states = self.policy_state[index, ...]
            view._policy_next_states = self.policy_next_state[index, ...]
        if self._mask is not None:
            view._mask = self.mask[index, ...]
    return view


def NumpyDataset___getitem__(self, index):
    return (self.state[index], self.action[index], self.reward[index], self.next_state[index], self.absorbing[index], self.last[index])


def NumpyDataset___add__(self, other):
    result = self.create_new_instance(self)
    result._states = np.concatenate((self.state, other.state))
    result._actions = np.concatenate((self.action, other.action))
    result._rewards = np.concatenate((self.reward, other.reward))
    result._next_states = np.concatenate((self.next_state, other.next_state))
    result._absorbing = np.concatenate((self.absorbing, other.absorbing))
    result._last = np.concatenate((self.last, other.last))
    result._last[len(self) - 1] = True
    result._len = len(self) + len(other)
    if self.is_stateful:
        result._policy_states = np.concatenate((self.policy_state, other.policy_state))
        result._policy_next_states = np.concatenate((self.policy_next_state, other.policy_next_state))
    return result


def NumpyDataset_state(self):
    return self._states[:len(self)]


def NumpyDataset_action(self):
    return self._actions[:len(self)]


def NumpyDataset_reward(self):
    return self._rewards[:len(self)]


def NumpyDataset_next_state(self):
    return self._next_states[:len(self)]


def NumpyDataset_absorbing(self):
    return self._absorbing[:len(self)]


def NumpyDataset_last(self):
    return self._last[:len(self)]


def NumpyDataset_policy_state(self):
    return self._policy_states[:len(self)]


def NumpyDataset_policy_next_state(self):
    return self._policy_next_states[:len(self)]


def NumpyDataset_mask(self):
    return self._mask[:len(self)]


def NumpyDataset_mask_setter(self, new_mask):
    self._mask[:len(self)] = new_mask


def NumpyDataset_is_stateful(self):
    return self._policy_states is not None


def NumpyDataset_n_episodes(self):
    n_episodes = self.last.sum()
    if not self.last[-1]:
        n_episodes += 1
    return n_episodes


def NumpyDataset__add_all_save_attr(self):
    pass
import torch
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.core._impl.torch_dataset import TorchDataset


def TorchDataset___init__(self, state_type, state_shape, action_type, action_shape, reward_shape, flag_shape, policy_state_shape, mask_shape, device=None):
    self._device = TorchUtils.get_device(device)
    self._state_type = state_type
    self._action_type = action_type
    self._states = torch.empty(*state_shape, dtype=self._state_type, device=self._device)
    self._actions = torch.empty(*action_shape, dtype=self._action_type, device=self._device)
    self._rewards = torch.empty(*reward_shape, dtype=torch.float, device=self._device)
    self._next_states = torch.empty(*state_shape, dtype=self._state_type, device=self._device)
    self._absorbing = torch.empty(flag_shape, dtype=torch.bool, device=self._device)
    self._last = torch.empty(flag_shape, dtype=torch.bool, device=self._device)
    self._len = 0
    if policy_state_shape is None:
        self._policy_states = None
        self._policy_next_states = None
    else:
        self._policy_states = torch.empty(policy_state_shape, dtype=torch.float, device=self._device)
        self._policy_next_states = torch.empty(policy_state_shape, dtype=torch.float, device=self._device)
    if mask_shape is None:
        self._mask = None
    else:
        self._mask = torch.empty(mask_shape, dtype=torch.bool, device=self._device)


def TorchDataset_create_new_instance(cls, dataset=None):
    new_dataset = cls.__new__(cls)
    if dataset is not None:
        new_dataset._device = dataset._device
        new_dataset._state_type = dataset._state_type
        new_dataset._action_type = dataset._action_type
    else:
        new_dataset._device = None
        new_dataset._state_type = None
        new_dataset._action_type = None
    new_dataset._states = None
    new_dataset._actions = None
    new_dataset._rewards = None
    new_dataset._next_states = None
    new_dataset._absorbing = None
    new_dataset._last = None
    new_dataset._len = None
    new_dataset._policy_states = None
    new_dataset._policy_next_states = None
    new_dataset._mask = None
    return new_dataset


def TorchDataset_from_array(cls, states, actions, rewards, next_states, absorbings, lasts, policy_states=None, policy_next_states=None):
    if not isinstance(states, torch.Tensor):
        states = torch.as_tensor(states)
        actions = torch.as_tensor(actions)
        rewards = torch.as_tensor(rewards)
        next_states = torch.as_tensor(next_states)
        absorbings = torch.as_tensor(absorbings)
        lasts = torch.as_tensor(lasts)
    dataset = cls.create_new_instance()
    dataset._state_type = states.dtype
    dataset._action_type = actions.dtype
    dataset._states = torch.as_tensor(states)
    dataset._actions = torch.as_tensor(actions)
    dataset._rewards = torch.as_tensor(rewards)
    dataset._next_states = torch.as_tensor(next_states)
    dataset._absorbing = torch.as_tensor(absorbings, dtype=torch.bool)
    dataset._last = torch.as_tensor(lasts, dtype=torch.bool)
    dataset._len = len(lasts)
    if policy_states is not None and policy_next_states is not None:
        if not isinstance(policy_states, torch.Tensor):
            policy_states = torch.as_tensor(policy_states)
            policy_next_states = torch.as_tensor(policy_next_states)
        dataset._policy_states = policy_states
        dataset._policy_next_states = policy_next_states
    else:
        dataset._policy_states = None
        dataset._policy_next_states = None
    return dataset


def TorchDataset___len__(self):
    return self._len


def TorchDataset_append(self, state, action, reward, next_state, absorbing, last, policy_state=None, policy_next_state=None, mask=None):
    i = self._len
    self._states[i] = state
    self._actions[i] = action
    self._rewards[i] = reward
    self._next_states[i] = next_state
    self._absorbing[i] = absorbing
    self._last[i] = last
    if self.is_stateful:
        self._policy_states[i] = policy_state
        self._policy_next_states[i] = policy_next_state
    if mask is not None:
        self._mask[i] = mask
    self._len += 1


def TorchDataset_clear(self):
    self._states = torch.empty_like(self._states)
    self._actions = torch.empty_like(self._actions)
    self._rewards = torch.empty_like(self._rewards)
    self._next_states = torch.empty_like(self._next_states)
    self._absorbing = torch.empty_like(self._absorbing)
    self._last = torch.empty_like(self._last)
    if self.is_stateful:
        self._policy_states = torch.empty_like(self._policy_states)
        self._policy_next_states = torch.empty_like(self._policy_next_states)
    self._len = 0


def TorchDataset_get_view(self, index, copy=False):
    view = self.create_new_instance(self)
    if copy:
        view._states = torch.empty_like(self._states)
        view._actions = torch.empty_like(self._actions)
        view._rewards = torch.empty_like(self._rewards)
        view._next_states = torch.empty_like(self._next_states)
        view._absorbing = torch.empty_like(self._absorbing)
        view._last = torch.empty_like(self._last)
        new_states = self.state[index, ...]
        new_len = new_states.shape[0]
        view._states[:new_len] = new_states
        view._actions[:new_len] = self.action[index, ...]
        view._rewards[:new_len] = self.reward[index, ...]
        view._next_states[:new_len] = self.next_state[index, ...]
        view._absorbing[:new_len] = self.absorbing[index, ...]
        view._last[:new_len] = self.last[index, ...]
        view._len = new_len
        if self.is_stateful:
            view._policy_states = torch.empty_like(self._policy_states)
            view._policy_next_states = torch.empty_like(self._policy_next_states)
            view._policy_states[:new_len] = self.policy_state[index, ...]
            view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
        if self._mask is not None:
            view._mask = torch.empty_like(self._mask)
            view._mask[:new_len] = self.mask[index, ...]
    else:
        view._states = self.state[index, ...]
        view._actions = self.action[index, ...]
        view._rewards = self.reward[index, ...]
        view._next_states = self.next_state[index, ...]
        view._absorbing = self.absorbing[index, ...]
        view._last = self.last[index, ...]
        view._len = view._states.shape[0]
        if self.is_stateful:
            view._policy_states = self.policy_state[index, ...]
            view._policy_next_states = self.policy_next_state[index, ...]
        if self._mask is not None:
            view._mask = self.mask[index, ...]
    return view


def TorchDataset___getitem__(self, index):
    return (self.state[index], self.action[index], self.reward[index], self.next_state[index], self.absorbing[index], self.last[index])


def TorchDataset___add__(self, other):
    result = self.create_new_instance(self)
    result._states = torch.concatenate((self.state, other.state))
    result._actions = torch.concatenate((self.action, other.action))
    result._rewards = torch.concatenate((self.reward, other.reward))
    result._next_states = torch.concatenate((self.next_state, other.next_state))
    result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
    result._last = torch.concatenate((self.last, other.last))
    result._last[len(self) - 1] = True
    result._len = len(self) + len(other)
    if self.is_stateful:
        result._policy_states = torch.concatenate((self.policy_state, other.policy_state))
        result._policy_next_states = torch.concatenate((self.policy_next_state, other.policy_next_state))
    return result


def TorchDataset_state(self):
    return self._states[:len(self)]


def TorchDataset_action(self):
    return self._actions[:len(self)]


def TorchDataset_reward(self):
    return self._rewards[:len(self)]


def TorchDataset_next_state(self):
    return self._next_states[:len(self)]


def TorchDataset_absorbing(self):
    return self._absorbing[:len(self)]


def TorchDataset_last(self):
    return self._last[:len(self)]


def TorchDataset_policy_state(self):
    return self._policy_states[:len(self)]


def TorchDataset_policy_next_state(self):
    return self._policy_next_states[:len(self)]


def TorchDataset_is_stateful(self):
    return self._policy_states is not None


def TorchDataset_mask(self):
    return self._mask[:len(self)]


def TorchDataset_mask_setter(self, new_mask):
    self._mask[:len(self)] = new_mask


def TorchDataset_n_episodes(self):
    n_episodes = self.last.sum()
    if not self.last[-1]:
        n_episodes += 1
    return n_episodes


def TorchDataset__add_all_save_attr(self):
    pass
from copy import deepcopy
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.core._impl.list_dataset import ListDataset


def ListDataset___init__(self, is_stateful, is_vectorized):
    self._dataset = list()
    self._policy_dataset = list()
    self._is_stateful = is_stateful
    if is_vectorized:
        self._mask = list()
    else:
        self._mask = None


def ListDataset_create_new_instance(cls, dataset):
    new_dataset = cls.__new__(cls)
    new_dataset._dataset = None
    new_dataset._policy_dataset = None
    new_dataset._is_stateful = dataset._is_stateful
    new_dataset._mask = None
    return new_dataset


def ListDataset_from_array(cls, states, actions, rewards, next_states, absorbings, lasts, policy_states=None, policy_next_states=None):
    is_stateful = policy_states is not None and policy_next_states is not None
    dataset = cls(is_stateful, False)
    if dataset._is_stateful:
        for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states, absorbings.astype(bool), lasts.astype(bool), policy_states, policy_next_states):
            dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
    else:
        for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states, absorbings.astype(bool), lasts.astype(bool)):
            dataset.append(s, a, r.item(), ss, ab.item(), last.item())
    return dataset


def ListDataset___len__(self):
    return len(self._dataset)


def ListDataset_append(self, *step, mask=None):
    step_copy = deepcopy(step)
    self._dataset.append(step_copy[:6])
    if self._is_stateful:
        self._policy_dataset.append(step_copy[6:])
    if mask is not None:
        self._mask.append(mask)


def ListDataset_clear(self):
    self._dataset = list()
    self._policy_dataset = list()
    if self._mask is not None:
        self._mask = list()


def ListDataset_get_view(self, index, copy=False):
    view = self.create_new_instance(self)
    if isinstance(index, (int, slice)):
        view._dataset = self._dataset[index]
        view._policy_dataset = self._policy_dataset[index]
    else:
        view._dataset = [self._dataset[i] for i in index]
        view._policy_dataset = [self._policy_dataset[i] for i in index] if self._is_stateful else list()
    if self._mask is not None:
        if isinstance(index, (int, slice)):
            view._mask = self._mask[index]
        else:
            view._mask = [self._mask[i] for i in index]
    if copy:
        return deepcopy(view)
    else:
        return view


def ListDataset___getitem__(self, index):
    return self._dataset[index]


def ListDataset___add__(self, other):
    result = self.create_new_instance(self)
    last_step = self._dataset[-1]
    modified_last_step = last_step[:-1] + (True,)
    result._dataset = self._dataset[:-1] + [modified_last_step] + other._dataset
    result._policy_dataset = self._policy_dataset + other._policy_dataset
    return result


def ListDataset_state(self):
    return [step[0] for step in self._dataset]


def ListDataset_action(self):
    return [step[1] for step in self._dataset]


def ListDataset_reward(self):
    return [step[2] for step in self._dataset]


def ListDataset_next_state(self):
    return [step[3] for step in self._dataset]


def ListDataset_absorbing(self):
    return [step[4] for step in self._dataset]


def ListDataset_last(self):
    return [step[5] for step in self._dataset]


def ListDataset_policy_state(self):
    return [step[0] for step in self._policy_dataset]


def ListDataset_policy_next_state(self):
    return [step[1] for step in self._policy_dataset]


def ListDataset_is_stateful(self):
    return self._is_stateful


def ListDataset_mask(self):
    return self._mask


def ListDataset_mask_setter(self, new_mask):
    self._mask = new_mask


def ListDataset_n_episodes(self):
    n_episodes = 0
    for sample in self._dataset:
        if sample[5]:
            n_episodes += 1
    if not self._dataset[-1][5]:
        n_episodes += 1
    return n_episodes


def ListDataset__add_all_save_attr(self):
    pass
from collections import UserDict
import numbers
from mushroom_rl.core.array_backend import ArrayBackend
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.core.extra_info import ExtraInfo


def ExtraInfo___init__(self, n_envs, backend, device=None):
    self._n_envs = n_envs
    self._array_backend = ArrayBackend.get_array_backend(backend)
    self._device = device
    self._storage = []
    self._key_mapping = {}
    self._shape_mapping = {}
    self._structured_storage = {}
    super().__init__()


def ExtraInfo_append(self, info):
    if self._n_envs > 1:
        assert isinstance(info, (dict, list))
    else:
        assert isinstance(info, dict)
    self._storage.append(info)


def ExtraInfo_parse(self, to=None):
    if to is None:
        to = self._array_backend.get_backend_name()
    for step_data in self._storage:
        if isinstance(step_data, dict):
            self._update_key_mapping(step_data, self._n_envs == 1)
        elif isinstance(step_data, list):
            for env_data in step_data:
                assert isinstance(env_data, dict)
                self._update_key_mapping(env_data, True)
    if self._structured_storage:
        length_structured_storage = self._structured_storage[next(iter(self._structured_storage.keys()))].shape[0]
    else:
        length_structured_storage = 0
    size = (len(self._storage) + length_structured_storage, self._n_envs) if self._n_envs > 1 else (len(self._storage) + length_structured_storage,)
    output = {key: ArrayBackend.get_array_backend(to).empty(size + self._shape_mapping[key], self._device) for key in self._key_mapping}
    if self._structured_storage:
        for key in output:
            index = length_structured_storage
            value = self._convert(self._structured_storage.get(key), to)
            output[key][:index] = value
    for index, step_data in enumerate(self._storage):
        index = index + length_structured_storage
        if isinstance(step_data, dict):
            self._append_dict_to_output(output, step_data, index, to)
        elif isinstance(step_data, list):
            self._append_list_to_output(output, step_data, index, to)
    self._structured_storage = {key: value for key, value in output.items()}
    self._storage = []
    self._array_backend = ArrayBackend.get_array_backend(to)
    self.data = output


def ExtraInfo_flatten(self, mask=None):
    self.parse()
    info = ExtraInfo(1, self._array_backend.get_backend_name(), self._device)
    info._shape_mapping = self._shape_mapping
    info._key_mapping = self._key_mapping
    info._structured_storage = {}
    for key in self.data:
        if mask is None:
            info.data[key] = info._array_backend.flatten(self.data[key])
        else:
            info.data[key] = info._array_backend.pack_padded_sequence(self.data[key], mask)
    for key in self._structured_storage:
        if mask is None:
            info._structured_storage[key] = info._array_backend.flatten(self._structured_storage[key])
        else:
            info._structured_storage[key] = info._array_backend.pack_padded_sequence(self._structured_storage[key], mask)
    return info


def ExtraInfo___add__(self, other):
    assert self._n_envs == other.n_envs
    if self._storage and other._structured_storage:
        self.parse()
    info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
    info._storage = self._storage + other._storage
    info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend)
    info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend)
    info._key_mapping = self._key_mapping.copy()
    info._key_mapping.update(other._key_mapping)
    info._shape_mapping = self._shape_mapping.copy()
    info._shape_mapping.update(other._shape_mapping)
    return info


def ExtraInfo__concatenate_array(self, array1, array2, intended_length_array1, intended_length_array2, array1_backend, array2_backend):
    if array1 is None:
        shape = (intended_length_array1,) + array2_backend.shape(array2)[1:]
        array1 = array1_backend.full(shape, array1_backend.none())
    if array2 is None:
        shape = (intended_length_array2,) + array1_backend.shape(array1)[1:]
        array2 = array2_backend.full(shape, array2_backend.none())
    array2 = array1_backend.convert(array2, backend=array2_backend)
    return array1_backend.concatenate((array1, array2))


def ExtraInfo__concatenate_dictionary(self, dict1, dict2, backend1, backend2):
    if not dict1:
        return dict2
    if not dict2:
        return dict1
    array_length_dict1 = backend1.shape(dict1[next(iter(dict1.keys()))])[0]
    array_length_dict2 = backend2.shape(dict2[next(iter(dict2.keys()))])[0]
    r = {}
    for key in dict1.keys() | dict2.keys():
        array1 = dict1[key] if key in dict1 else None
        array2 = dict2[key] if key in dict2 else None
        r[key] = self._concatenate_array(array1, array2, array_length_dict1, array_length_dict2, backend1, backend2)
    return r


def ExtraInfo_copy(self):
    info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
    info._storage = self._storage.copy()
    info._key_mapping = self._key_mapping.copy()
    info._shape_mapping = self._shape_mapping.copy()
    info._structured_storage = self._structured_storage.copy()
    info.data = self.data.copy()
    return info


def ExtraInfo_get_view(self, index, copy=False):
    self.parse()
    info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
    info._key_mapping = self._key_mapping
    info._shape_mapping = self._shape_mapping
    if not copy:
        info._structured_storage = {key: value[index, ...] for key, value in self._structured_storage.items()}
        info.data = {key: value[index, ...] for key, value in self.data.items()}
    else:
        for key, value in self._structured_storage.items():
            value = value[index, ...]
            info._structured_storage[key] = self._array_backend.empty(value.shape, self._device)
            info._structured_storage[key][:] = value
        for key, value in self.data.items():
            value = value[index, ...]
            info.data[key] = self._array_backend.empty(value.shape, self._device)
            info.data[key][:] = value
    return info


def ExtraInfo_clear(self):
    self._storage = []
    self._key_mapping = {}
    self._shape_mapping = {}
    self._structured_storage = {}
    self.data = {}


def ExtraInfo__add_all_save_attr(self):
    pass


def ExtraInfo__update_key_mapping(self, template, single_env):
    assert isinstance(template, dict)
    stack = [(template, [])]
    while stack:
        structure_element, parent_keys = stack.pop()
        assert isinstance(structure_element, dict)
        for key, value in structure_element.items():
            key_path = parent_keys + [key]
            if key_path in self._key_mapping.values():
                continue
            if isinstance(value, dict):
                stack.append((value, key_path))
            else:
                new_key = self._create_key(key_path)
                self._store_array_shape(new_key, value, single_env)


def ExtraInfo__append_dict_to_output(self, output, step_data, index, to):
    for key, key_path in self._key_mapping.items():
        value = self._find_element_by_key_path(step_data, key_path)
        value = self._convert(value, to)
        output[key][index] = value


def ExtraInfo__append_list_to_output(self, output, step_data, index, to):
    assert self._n_envs > 1
    for key, key_path in self._key_mapping.items():
        for i, env_data in enumerate(step_data):
            value = self._find_element_by_key_path(env_data, key_path)
            value = self._convert(value, to)
            output[key][index][i] = value


def ExtraInfo__find_element_by_key_path(self, source, key_path):
    current = source
    for key in key_path:
        if key in current:
            current = current[key]
        else:
            return None
    return current


def ExtraInfo__convert(self, value, to):
    if isinstance(value, numbers.Number):
        return value
    if value is None:
        return ArrayBackend.get_array_backend(to).none()
    return ArrayBackend.convert(value, to=to, backend=self._array_backend)


def ExtraInfo__create_key(self, key_path):
    key = '_'.join((str(key) for key in key_path))
    self._key_mapping[key] = key_path
    return key


def ExtraInfo__store_array_shape(self, key, value, single_env):
    if isinstance(value, numbers.Number):
        self._shape_mapping[key] = ()
    else:
        shape = self._array_backend.shape(value)
        self._shape_mapping[key] = shape[1:] if not single_env else shape


def ExtraInfo_n_envs(self):
    return self._n_envs


def ExtraInfo___setitem__(self, key, value):
    raise TypeError('This dictionary is read-only.')


def ExtraInfo___delitem__(self, key):
    raise TypeError('This dictionary is read-only.')


def ExtraInfo_pop(self, key, default=None):
    raise TypeError('This dictionary is read-only.')


def ExtraInfo_popitem(self):
    raise TypeError('This dictionary is read-only.')


def ExtraInfo_setdefault(self, key, default=None):
    raise TypeError('This dictionary is read-only.')


def ExtraInfo_update(self, *args, **kwargs):
    raise TypeError('This dictionary is read-only.')
