"""Experience replay: ring buffer, n-step returns, proportional prioritisation."""
import numpy as np


def _insert(self, store, state, action, reward, next_state, absorbing, last, policy_state, policy_next_state, i, j):
    if self._full:
        store.state[self._idx] = state[i]
        store.action[self._idx] = action[i]
        store.reward[self._idx] = reward[i]
        store.next_state[self._idx] = next_state[i + j]
        store.absorbing[self._idx] = absorbing[i + j]
        store.last[self._idx] = last[i + j]
        if store.is_stateful:
            store.policy_state[self._idx] = policy_state[i]
            store.policy_next_state[self._idx] = policy_next_state[i + j]
    else:
        sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
        if store.is_stateful:
            sample += [policy_state[i], policy_next_state[i + j]]
        store.append(sample, {})


def ReplayMemory_add(self, dataset, n_steps_return=1, gamma=1.):
    state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
    reward = self._dataset.array_backend.copy(reward)
    if self._dataset.is_stateful:
        policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
    else:
        policy_state, policy_next_state = None, None
    i = 0
    while i < len(dataset) - n_steps_return + 1:
        j = 0
        while j < n_steps_return - 1:
            if last[i + j]:
                i = i + j + 1
                break
            j = j + 1
            reward[i] = reward[i] + gamma ** j * reward[i + j]
        else:
            _insert(self, self._dataset, state, action, reward, next_state, absorbing, last, policy_state, policy_next_state, i, j)
            if self._idx + 1 == self._max_size:
                self._idx = 0
                self._full = True
            else:
                self._idx = self._idx + 1
            i = i + 1


def SumTree_add(self, dataset, priority, n_steps_return, gamma):
    state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
    reward = self.dataset.array_backend.copy(reward)
    if self.dataset.is_stateful:
        policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
    else:
        policy_state, policy_next_state = None, None
    i = 0
    while i < len(dataset) - n_steps_return + 1:
        j = 0
        while j < n_steps_return - 1:
            if last[i + j]:
                i = i + j + 1
                break
            j = j + 1
            reward[i] = reward[i] + gamma ** j * reward[i + j]
        else:
            _insert(self, self.dataset, state, action, reward, next_state, absorbing, last, policy_state, policy_next_state, i, j)
            self.update([self._idx + self._max_size - 1], [priority[i]])
            if self._idx + 1 == self._max_size:
                self._idx = 0
                self._full = True
            else:
                self._idx = self._idx + 1
            i = i + 1


def ReplayMemory_get(self, n_samples):
    idxs = self._dataset.array_backend.randint(0, len(self._dataset), (n_samples,))
    batch = self._dataset[idxs]
    if self._dataset.is_stateful:
        return (*batch.parse(), *batch.parse_policy_state())
    return batch.parse()


def ReplayMemory_reset(self):
    self._idx = 0
    self._full = False


def ReplayMemory_size(self):
    return self._max_size if self._full else self._idx


def ReplayMemory_initialized(self):
    return (self._max_size if self._full else self._idx) > self._initial_size


def SumTree_update(self, idx, priorities):
    for i, p in zip(idx, priorities):
        delta = p - self._tree[i]
        self._tree[i] = p
        self._propagate(delta, i)


def SumTree_propagate(self, delta, idx):
    parent = (idx - 1) // 2
    self._tree[parent] = self._tree[parent] + delta
    if parent != 0:
        self._propagate(delta, parent)


def SumTree_retrieve(self, s, idx):
    left = 2 * idx + 1
    if left >= len(self._tree):
        return idx
    if s <= self._tree[left]:
        return self._retrieve(s, left)
    return self._retrieve(s - self._tree[left], left + 1)


def SumTree_get(self, s):
    idx = self._retrieve(s, 0)
    return idx, self._tree[idx], self.dataset[idx - self._max_size + 1]


def SumTree_get_ind(self, s):
    idx = self._retrieve(s, 0)
    return idx, self._tree[idx], idx - self._max_size + 1


def SumTree_max_p(self):
    return self._tree[-self._max_size:].max()


def SumTree_total_p(self):
    return self._tree[0]


def PER_add(self, dataset, p, n_steps_return=1, gamma=1.):
    self._tree.add(dataset, p, n_steps_return, gamma)


def PER_get(self, n_samples):
    idxs = self._tree.dataset.array_backend.zeros(n_samples, dtype=int)
    priorities = self._tree.dataset.array_backend.zeros(n_samples, dtype=float)
    data_idxs = self._tree.dataset.array_backend.zeros(n_samples, dtype=int)
    segment = self._tree.total_p / n_samples
    a = self._tree.dataset.array_backend.arange(0, n_samples) * segment
    b = self._tree.dataset.array_backend.arange(1, n_samples + 1) * segment
    samples = np.random.uniform(a, b)
    for i, s in enumerate(samples):
        idxs[i], priorities[i], data_idxs[i] = self._tree.get_ind(s)
    prob = priorities / self._tree.total_p
    w = (self._tree.size * prob) ** (-self._beta())
    w = w / w.max()
    if self._tree.dataset.is_stateful:
        return (*self._tree.dataset[data_idxs].parse(), *self._tree.dataset[data_idxs].parse_policy_state(), idxs, w)
    return (*self._tree.dataset[data_idxs].parse(), idxs, w)


def PER_update(self, error, idx):
    self._tree.update(idx, (np.abs(error) + self._epsilon) ** self._alpha)


def PER_initialized(self):
    return self._tree.size > self._initial_size


def PER_max_priority(self):
    return self._tree.max_p if self._tree.size > self._initial_size else 1.
