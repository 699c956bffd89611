from copy import deepcopy
from mushroom_rl.algorithms.value.dqn import AbstractDQN
from mushroom_rl.algorithms.value.dqn import DQN
from mushroom_rl.algorithms.value.dqn.categorical_dqn import CategoricalNetwork, CategoricalDQN
from mushroom_rl.algorithms.value.dqn.categorical_dqn import categorical_loss
from mushroom_rl.algorithms.value.dqn.dueling_dqn import DuelingNetwork, DuelingDQN
from mushroom_rl.algorithms.value.dqn.noisy_dqn import NoisyNetwork
from mushroom_rl.algorithms.value.dqn.noisy_dqn import NoisyNetwork, NoisyDQN
from mushroom_rl.algorithms.value.dqn.quantile_dqn import QuantileNetwork, QuantileDQN
from mushroom_rl.algorithms.value.dqn.rainbow import RainbowNetwork, Rainbow
from mushroom_rl.approximators.parametric import NumpyTorchApproximator
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory
from mushroom_rl.utils.torch import TorchUtils
from torch.nn.parameter import Parameter
import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
eps = torch.finfo(torch.float32).eps


def categorical_loss(input, target, reduction='sum'):
    input = input.clamp(1e-05)
    loss = -torch.sum(target * torch.log(input), 1)
    if reduction == 'sum':
        return loss.mean()
    elif reduction == 'none':
        return loss
    else:
        raise ValueError


def CategoricalNetwork___init__(self, input_shape, output_shape, features_network, n_atoms, v_min, v_max, n_features, **kwargs):
    super().__init__()
    self._n_output = output_shape[0]
    self._phi = features_network(input_shape, (n_features,), n_features=n_features, **kwargs)
    self._n_atoms = n_atoms
    self._v_min = v_min
    self._v_max = v_max
    delta = (self._v_max - self._v_min) / (self._n_atoms - 1)
    self._a_values = torch.arange(self._v_min, self._v_max + eps, delta, device=TorchUtils.get_device())
    self._p = nn.ModuleList([nn.Linear(n_features, n_atoms) for _ in range(self._n_output)])
    for i in range(self._n_output):
        nn.init.xavier_uniform_(self._p[i].weight, gain=nn.init.calculate_gain('linear'))


def CategoricalNetwork_forward(self, state, action=None, get_distribution=False):
    features = self._phi(state)
    a_p = [F.softmax(self._p[i](features), -1) for i in range(self._n_output)]
    a_p = torch.stack(a_p, dim=1)
    if not get_distribution:
        q = torch.empty(a_p.shape[:-1])
        for i in range(a_p.shape[0]):
            q[i] = a_p[i] @ self._a_values
        if action is not None:
            return torch.squeeze(q.gather(1, action))
        else:
            return q
    elif action is not None:
        action = torch.unsqueeze(action.long(), 2).repeat(1, 1, self._n_atoms)
        return torch.squeeze(a_p.gather(1, action))
    else:
        return a_p


def DuelingNetwork_forward(self, state, action=None):
    features = self._phi(state)
    advantage = self._A(features)
    value = self._V(features)
    q = value + advantage
    if self._avg_advantage:
        q -= advantage.mean(1).reshape(-1, 1)
    else:
        q -= advantage.max(1)[0].reshape(-1, 1)
    if action is None:
        return q
    else:
        q_acted = torch.squeeze(q.gather(1, action.long()))
        return q_acted


def NoisyNetwork_forward(self, state, action=None):
    features = self._phi(state)
    q = self._Q(features)
    if action is None:
        return q
    else:
        q_acted = torch.squeeze(q.gather(1, action.long()))
        return q_acted


def quantile_huber_loss(input, target):
    n_quantiles = input.shape[-1]
    tau_edges = torch.arange(n_quantiles + 1) / n_quantiles
    tau = torch.Tensor([(tau_edges[i - 1] + tau_edges[i]) / 2 for i in range(1, len(tau_edges))])
    tau = tau.to(input.device).repeat(input.shape[0], 1)
    target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
    input = input.repeat(tau.shape[-1], 1, 1)
    indicator = (target - input < 0.0).type(torch.float)
    huber_loss = F.smooth_l1_loss(input, target, reduction='none')
    loss = torch.abs(tau - indicator) * huber_loss
    return loss.mean()


def QuantileNetwork_forward(self, state, action=None, get_quantiles=False):
    features = self._phi(state)
    a_quant = [self._quant[i](features) for i in range(self._n_output)]
    a_quant = torch.stack(a_quant, dim=1)
    if not get_quantiles:
        quant = a_quant.mean(-1)
        if action is not None:
            return torch.squeeze(quant.gather(1, action))
        else:
            return quant
    elif action is not None:
        action = torch.unsqueeze(action.long(), 2).repeat(1, 1, self._n_quantiles)
        return torch.squeeze(a_quant.gather(1, action))
    else:
        return a_quant


def RainbowNetwork___init__(self, input_shape, output_shape, features_network, n_atoms, v_min, v_max, n_features, sigma_coeff, **kwargs):
    super().__init__()
    self._n_output = output_shape[0]
    self._phi = features_network(input_shape, (n_features,), n_features=n_features, **kwargs)
    self._n_atoms = n_atoms
    self._v_min = v_min
    self._v_max = v_max
    delta = (self._v_max - self._v_min) / (self._n_atoms - 1)
    self._a_values = torch.arange(self._v_min, self._v_max + eps, delta, device=TorchUtils.get_device())
    self._pv = NoisyNetwork.NoisyLinear(n_features, n_atoms, sigma_coeff)
    self._pa = nn.ModuleList([NoisyNetwork.NoisyLinear(n_features, n_atoms, sigma_coeff) for _ in range(self._n_output)])


def RainbowNetwork_forward(self, state, action=None, get_distribution=False):
    features = self._phi(state)
    a_pv = self._pv(features)
    a_pa = [self._pa[i](features) for i in range(self._n_output)]
    a_pa = torch.stack(a_pa, dim=1)
    a_pv = a_pv.unsqueeze(1).repeat(1, self._n_output, 1)
    mean_a_pa = a_pa.mean(1, keepdim=True).repeat(1, self._n_output, 1)
    softmax = F.softmax(a_pv + a_pa - mean_a_pa, dim=-1)
    if not get_distribution:
        q = torch.empty(softmax.shape[:-1])
        for i in range(softmax.shape[0]):
            q[i] = softmax[i] @ self._a_values
        if action is not None:
            return torch.squeeze(q.gather(1, action))
        else:
            return q
    elif action is not None:
        action = torch.unsqueeze(action.long(), 2).repeat(1, 1, self._n_atoms)
        return torch.squeeze(softmax.gather(1, action))
    else:
        return softmax
