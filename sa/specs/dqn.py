"""Deep and batch value-based methods: what one fit call must do."""
import numpy as np
from copy import deepcopy


def _sync(self):
    self.target_approximator.set_weights(self.approximator.get_weights())


def _max_target(self, next_state, absorbing):
    q = self.target_approximator.predict(next_state, **self._predict_params)
    return np.max(q, axis=1) * (1 - absorbing)


def _double_target(self, next_state, absorbing):
    q = self.approximator.predict(next_state, **self._predict_params)
    best = np.argmax(q, axis=1)
    return self.target_approximator.predict(next_state, best, **self._predict_params) * (1 - absorbing)


def _avg_target(self, next_state, absorbing):
    qs = []
    for i in range(self._n_fitted_target_models):
        qs.append(self.target_approximator.predict(next_state, idx=i, **self._predict_params))
    return np.max(np.mean(qs, axis=0), axis=1) * (1 - absorbing)


def _standard(self, dataset, target):
    self._replay_memory.add(dataset)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
        if self._clip_reward:
            reward = np.clip(reward, -1, 1)
        q = reward + self.mdp_info.gamma * target(self, next_state, absorbing)
        self.approximator.fit(state, action, q, **self._fit_params)


def _prioritized(self, dataset, target):
    self._replay_memory.add(dataset, np.ones(len(dataset)) * self._replay_memory.max_priority)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _, idxs, is_weight = self._replay_memory.get(self._batch_size())
        if self._clip_reward:
            reward = np.clip(reward, -1, 1)
        q = reward + self.mdp_info.gamma * target(self, next_state, absorbing)
        error = q - self.approximator.predict(state, action, **self._predict_params)
        self._replay_memory.update(error, idxs)
        self.approximator.fit(state, action, q, weights=is_weight, **self._fit_params)


def _tail(self, sync):
    self._n_updates = self._n_updates + 1
    if self._n_updates % self._target_update_frequency == 0:
        sync(self)


def DQN(self, dataset):
    _standard(self, dataset, _max_target)
    _tail(self, _sync)


def DQN_prioritized(self, dataset):
    _prioritized(self, dataset, _max_target)
    _tail(self, _sync)


def DoubleDQN(self, dataset):
    _standard(self, dataset, _double_target)
    _tail(self, _sync)


def DoubleDQN_prioritized(self, dataset):
    _prioritized(self, dataset, _double_target)
    _tail(self, _sync)


def _avg_sync(self):
    i = self._n_updates // self._target_update_frequency % self._n_approximators
    self.target_approximator[i].set_weights(self.approximator.get_weights())
    if self._n_fitted_target_models < self._n_approximators:
        self._n_fitted_target_models = self._n_fitted_target_models + 1


def AveragedDQN(self, dataset):
    _standard(self, dataset, _avg_target)
    _tail(self, _avg_sync)


def AveragedDQN_prioritized(self, dataset):
    _prioritized(self, dataset, _avg_target)
    _tail(self, _avg_sync)


def _all_sync(self):
    for i in range(len(self.target_approximator)):
        self.target_approximator[i].set_weights(self.approximator[i].get_weights())


def MaxminDQN(self, dataset):
    self._fit_params['idx'] = np.random.randint(self._n_approximators)
    _standard(self, dataset, _max_target)
    _tail(self, _all_sync)


def MaxminDQN_prioritized(self, dataset):
    self._fit_params['idx'] = np.random.randint(self._n_approximators)
    _prioritized(self, dataset, _max_target)
    _tail(self, _all_sync)


def _project(self, reward, gamma, p_next):
    gamma_z = gamma.reshape(-1, 1) * np.expand_dims(self._a_values, 0).repeat(len(gamma), 0)
    bell = (reward.reshape(-1, 1) + gamma_z).clip(self._v_min, self._v_max)
    b = (bell - self._v_min) / self._delta
    l = np.floor(b).astype(int)
    u = np.ceil(b).astype(int)
    m = np.zeros((self._batch_size.get_value(), self._n_atoms))
    for i in range(self._n_atoms):
        l[:, i][(u[:, i] > 0) * (l[:, i] == u[:, i])] -= 1
        u[:, i][(l[:, i] < self._n_atoms - 1) * (l[:, i] == u[:, i])] += 1
        m[np.arange(len(m)), l[:, i]] += p_next[:, i] * (u[:, i] - b[:, i])
        m[np.arange(len(m)), u[:, i]] += p_next[:, i] * (b[:, i] - l[:, i])
    return m


def CategoricalDQN(self, dataset):
    self._replay_memory.add(dataset)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
        if self._clip_reward:
            reward = np.clip(reward, -1, 1)
        best = np.argmax(self.target_approximator.predict(next_state, **self._predict_params), 1)
        p_next = self.target_approximator.predict(next_state, best, get_distribution=True, **self._predict_params)
        m = _project(self, reward, self.mdp_info.gamma * (1 - absorbing), p_next)
        self.approximator.fit(state, action, m, get_distribution=True, **self._fit_params)
        _tail(self, _sync)


def QuantileDQN(self, dataset):
    self._replay_memory.add(dataset)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
        if self._clip_reward:
            reward = np.clip(reward, -1, 1)
        best = np.argmax(self.target_approximator.predict(next_state, **self._predict_params), 1)
        nxt = self.target_approximator.predict(next_state, best, get_quantiles=True, **self._predict_params)
        target = reward.reshape(-1, 1) + self.mdp_info.gamma * (1 - absorbing).reshape(-1, 1) * nxt
        self.approximator.fit(state, action, target, get_quantiles=True, **self._fit_params)
        _tail(self, _sync)


def Rainbow(self, dataset):
    self._replay_memory.add(dataset, np.ones(len(dataset)) * self._replay_memory.max_priority, n_steps_return=self._n_steps_return, gamma=self.mdp_info.gamma)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _, idxs, is_weight = self._replay_memory.get(self._batch_size())
        if self._clip_reward:
            reward = np.clip(reward, -1, 1)
        best = np.argmax(self.approximator.predict(next_state, **self._predict_params), axis=1)
        p_next = self.target_approximator.predict(next_state, best, get_distribution=True, **self._predict_params)
        m = _project(self, reward, self.mdp_info.gamma ** self._n_steps_return * (1 - absorbing), p_next)
        p = self.approximator.predict(state, action, get_distribution=True, **self._predict_params)
        kl = -np.sum(m * np.log(p.clip(1e-5)), 1)
        self._replay_memory.update(kl, idxs)
        self.approximator.fit(state, action, m, weights=is_weight, get_distribution=True, **self._fit_params)
        _tail(self, _sync)


def FQI(self, dataset):
    state, action, reward, next_state, absorbing, _ = dataset.parse(to='numpy')
    for _ in range(self._n_iterations()):
        if self._target is None:
            self._target = reward
        else:
            q = self.approximator.predict(next_state)
            self._target = reward + self.mdp_info.gamma * (1 - absorbing) * np.max(q, axis=1)
        self.approximator.fit(state, action, self._target, **self._fit_params)


def DoubleFQI(self, dataset):
    half = len(dataset) // 2
    for _ in range(self._n_iterations()):
        first = dataset[0:half].parse(to='numpy')
        second = dataset[half:2 * half].parse(to='numpy')
        if self._target is None:
            self._target = [first[2], second[2]]
        else:
            a0 = np.argmax(self.approximator.predict(first[3], idx=0), axis=1)
            v0 = self.approximator.predict(first[3], np.expand_dims(a0, axis=1), idx=1)
            self._target[0] = first[2] + self.mdp_info.gamma * (1 - first[4]) * v0
            a1 = np.argmax(self.approximator.predict(second[3], idx=1), axis=1)
            v1 = self.approximator.predict(second[3], np.expand_dims(a1, axis=1), idx=0)
            self._target[1] = second[2] + self.mdp_info.gamma * (1 - second[4]) * v1
        self.approximator.fit(first[0], first[1], self._target[0], idx=0, **self._fit_params)
        self.approximator.fit(second[0], second[1], self._target[1], idx=1, **self._fit_params)


def BoostedFQI(self, dataset):
    state, action, reward, next_state, absorbing, _ = dataset.parse(to='numpy')
    for _ in range(self._n_iterations()):
        if self._target is None:
            target = reward
        else:
            self._next_q = (self._next_q + self.approximator.predict(next_state, idx=self._idx - 1)) * (1 - absorbing)
            target = reward + self.mdp_info.gamma * np.max(self._next_q, axis=1)
        self._target = target - self._prediction
        self._prediction = self._prediction + self._target
        self.approximator.fit(state, action, self._target, idx=self._idx, **self._fit_params)
        self._idx = self._idx + 1


def LSPI(self, dataset):
    state, action, reward, next_state, absorbing, _ = dataset.parse(to='numpy')
    phi = self.approximator.model.phi(state)
    phi_next = self.approximator.model.phi(next_state)
    f = get_action_features(phi, action, self.mdp_info.action_space.n)
    norm = np.inf
    while norm > self._epsilon():
        q = self.approximator.predict(next_state) * (1 - absorbing)
        best = np.argmax(q, axis=1).reshape(-1, 1)
        f_next = get_action_features(phi_next, best, self.mdp_info.action_space.n)
        A = f.T.dot(f - self.mdp_info.gamma * f_next)
        b = f.T.dot(reward).reshape(-1, 1)
        old_w = self.approximator.get_weights()
        if np.linalg.matrix_rank(A) == A.shape[1]:
            w = np.linalg.solve(A, b).ravel()
        else:
            w = np.linalg.pinv(A).dot(b).ravel()
        self.approximator.set_weights(w)
        norm = np.linalg.norm(w - old_w)


from mushroom_rl.features import get_action_features
