"""Sequences for recurrent policies: a window ending at sample i never reaches back before the start of i's episode, nor before the oldest
sample of a full ring buffer."""
import numpy as np
import torch


def memory_get(self, n_samples):
    L = self._truncation_length
    obs, act, pst = self._mdp_info.observation_space, self._mdp_info.action_space, self._agent_info.policy_state_shape
    s = self._backend.zeros(n_samples, L, *obs.shape, dtype=obs.data_type)
    a = self._backend.zeros(n_samples, L, *act.shape, dtype=act.data_type)
    r = self._backend.zeros(n_samples, 1)
    ss = self._backend.zeros(n_samples, L, *obs.shape, dtype=obs.data_type)
    ab = self._backend.zeros(n_samples, 1, dtype=int)
    last = self._backend.zeros(n_samples, dtype=int)
    ps = self._backend.zeros(n_samples, L, *pst)
    nps = self._backend.zeros(n_samples, L, *pst)
    pa = self._backend.zeros(n_samples, L, *act.shape, dtype=act.data_type)
    lengths = list()
    for num, i in enumerate(np.random.randint(self.size, size=n_samples)):
        begin = np.maximum(i - L + 1, 0)
        end = i + 1
        oldest = self._full and begin <= self._idx <= i
        if oldest:
            begin = self._idx
        ends = self._backend.where(self._dataset.last[begin:i] > 0)
        cut = len(*ends) > 0
        if cut:
            begin = begin + ends[0][-1] + 1
        if cut or begin == 0 or oldest or self._dataset.last[begin - 1]:
            prev = self._dataset.action[begin:end - 1]
            first = self._backend.zeros(1, *self._action_space_shape)
            if len(prev) == 0:
                prev = first
            else:
                prev = self._backend.concatenate([first, prev])
        else:
            prev = self._dataset.action[begin - 1:end - 1]
        s[num, :end - begin] = self._dataset.state[begin:end]
        ss[num, :end - begin] = self._dataset.next_state[begin:end]
        a[num, :end - begin] = self._dataset.action[begin:end]
        ps[num, :end - begin] = self._dataset.policy_state[begin:end]
        nps[num, :end - begin] = self._dataset.policy_next_state[begin:end]
        pa[num, :end - begin] = prev
        r[num] = self._dataset.reward[i]
        ab[num] = self._dataset.absorbing[i]
        last[num] = self._dataset.last[i]
        lengths.append(end - begin)
    if self._dataset.is_stateful:
        return s, a, r, ss, ab, last, ps, nps, pa, lengths
    return s, a, r, ss, ab, last, pa, lengths


def _pad(self, x):
    return torch.concatenate([x, torch.zeros((self._truncation_length - x.shape[0], x.shape[1]))])


def ppo_sequences(self, states_old, states, policy_states, actions, next_states, policy_next_states, last, absorbing):
    s_old = torch.empty(len(states), self._truncation_length, states.shape[-1])
    s = torch.empty(len(states), self._truncation_length, states.shape[-1])
    ps = torch.empty(len(states), policy_states.shape[-1])
    a = torch.empty(len(actions), self._truncation_length, actions.shape[-1])
    ss = torch.empty(len(states), self._truncation_length, states.shape[-1])
    pss = torch.empty(len(states), policy_states.shape[-1])
    lengths = torch.empty(len(states), dtype=torch.long)
    for i in range(len(states)):
        begin = max(i - self._truncation_length + 1, 0)
        end = i + 1
        over = torch.where(last[begin:i].int() + absorbing[begin:i].int() > 0)
        if len(*over) > 0:
            begin = begin + over[0][-1] + 1
        s_old[i] = _pad(self, states_old[begin:end])
        s[i] = _pad(self, states[begin:end])
        ps[i] = policy_states[begin]
        a[i] = _pad(self, actions[begin:end])
        ss[i] = _pad(self, next_states[begin:end])
        pss[i] = policy_next_states[begin]
        lengths[i] = len(states[begin:end])
    return s_old, s, ps, a, ss, pss, lengths
