import numpy as np
import torch
import torch.optim as optim
from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DeepAC
from mushroom_rl.policy import Policy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator
from mushroom_rl.rl_utils.replay_memory import ReplayMemory
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.rl_utils.parameters import to_parameter
from copy import deepcopy
from itertools import chain
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy, SAC


def SACPolicy___init__(self, mu_approximator, sigma_approximator, min_a, max_a, log_std_min, log_std_max, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._mu_approximator = mu_approximator
    self._sigma_approximator = sigma_approximator
    self._delta_a = TorchUtils.to_float_tensor(0.5 * (max_a - min_a))
    self._central_a = TorchUtils.to_float_tensor(0.5 * (max_a + min_a))
    self._log_std_min = to_parameter(log_std_min)
    self._log_std_max = to_parameter(log_std_max)
    self._eps_log_prob = 1e-06


def SACPolicy___call__(self, state, action, internal_state=None):
    raise NotImplementedError


def SACPolicy_draw_action(self, state, internal_state=None):
    return (self.compute_action_and_log_prob_t(state, compute_log_prob=False).detach(), None)


def SACPolicy_compute_action_and_log_prob(self, state):
    a, log_prob = self.compute_action_and_log_prob_t(state)
    return (a.detach(), log_prob.detach())


def SACPolicy_compute_action_and_log_prob_t(self, state, compute_log_prob=True):
    dist = self.distribution(state)
    a_raw = dist.rsample()
    a = torch.tanh(a_raw)
    a_true = a * self._delta_a + self._central_a
    if compute_log_prob:
        log_prob = dist.log_prob(a_raw).sum(dim=1)
        log_prob -= torch.log(1.0 - a.pow(2) + self._eps_log_prob).sum(dim=1)
        return (a_true, log_prob)
    else:
        return a_true


def SACPolicy_distribution(self, state):
    mu = self._mu_approximator.predict(state)
    log_sigma = self._sigma_approximator.predict(state)
    log_sigma = torch.clamp(log_sigma, self._log_std_min(), self._log_std_max())
    return torch.distributions.Normal(mu, log_sigma.exp())


def SACPolicy_entropy(self, state=None):
    _, log_pi = self.compute_action_and_log_prob(state)
    return -log_pi.mean()


def SACPolicy_set_weights(self, weights):
    mu_weights = weights[:self._mu_approximator.weights_size]
    sigma_weights = weights[self._mu_approximator.weights_size:]
    self._mu_approximator.set_weights(mu_weights)
    self._sigma_approximator.set_weights(sigma_weights)


def SACPolicy_get_weights(self):
    mu_weights = self._mu_approximator.get_weights()
    sigma_weights = self._sigma_approximator.get_weights()
    return np.concatenate([mu_weights, sigma_weights])


def SACPolicy_parameters(self):
    return chain(self._mu_approximator.model.network.parameters(), self._sigma_approximator.model.network.parameters())
