from mushroom_rl.core import Serializable


def Policy___init__(self, policy_state_shape=None):
    super().__init__()
    self.policy_state_shape = policy_state_shape


def Policy___call__(self, state, action, policy_state):
    raise NotImplementedError


def Policy_draw_action(self, state, policy_state):
    raise NotImplementedError


def Policy_reset(self):
    return None


def Policy_is_stateful(self):
    return self.policy_state_shape is not None


def ParametricPolicy___init__(self, policy_state_shape=None):
    super().__init__(policy_state_shape)


def ParametricPolicy_diff_log(self, state, action, policy_state):
    raise RuntimeError('The policy is not differentiable')


def ParametricPolicy_diff(self, state, action, policy_state=None):
    return self(state, action, policy_state) * self.diff_log(state, action, policy_state)


def ParametricPolicy_set_weights(self, weights):
    raise NotImplementedError


def ParametricPolicy_get_weights(self):
    raise NotImplementedError


def ParametricPolicy_weights_size(self):
    raise NotImplementedError
import numpy as np
from mushroom_rl.policy.policy import ParametricPolicy
from scipy.stats import multivariate_normal


def AbstractGaussianPolicy___init__(self, policy_state_shape=None):
    super().__init__(policy_state_shape)


def AbstractGaussianPolicy___call__(self, state, action, policy_state=None):
    mu, sigma = self._compute_multivariate_gaussian(state)[:2]
    return multivariate_normal.pdf(action, mu, sigma)


def AbstractGaussianPolicy_draw_action(self, state, policy_state=None):
    mu, sigma = self._compute_multivariate_gaussian(state)[:2]
    return (np.random.multivariate_normal(mu, sigma), None)


def GaussianPolicy___init__(self, mu, sigma, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._approximator = mu
    self._predict_params = dict()
    self._inv_sigma = np.linalg.inv(sigma)
    self._sigma = sigma


def GaussianPolicy_set_sigma(self, sigma):
    self._sigma = sigma
    self._inv_sigma = np.linalg.inv(sigma)


def GaussianPolicy_diff_log(self, state, action, policy_state=None):
    mu, _, inv_sigma = self._compute_multivariate_gaussian(state)
    delta = action - mu
    j_mu = self._approximator.diff(state)
    if len(j_mu.shape) == 1:
        j_mu = np.expand_dims(j_mu, axis=1)
    g = 0.5 * j_mu.dot(inv_sigma + inv_sigma.T).dot(delta.T)
    return g


def GaussianPolicy_set_weights(self, weights):
    self._approximator.set_weights(weights)


def GaussianPolicy_get_weights(self):
    return self._approximator.get_weights()


def GaussianPolicy_weights_size(self):
    return self._approximator.weights_size


def GaussianPolicy__compute_multivariate_gaussian(self, state):
    mu = np.reshape(self._approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
    return (mu, self._sigma, self._inv_sigma)


def DiagonalGaussianPolicy___init__(self, mu, std, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._approximator = mu
    self._predict_params = dict()
    self._std = std


def DiagonalGaussianPolicy_set_std(self, std):
    self._std = std


def DiagonalGaussianPolicy_diff_log(self, state, action, policy_state=None):
    mu, _, inv_sigma = self._compute_multivariate_gaussian(state)
    delta = action - mu
    j_mu = self._approximator.diff(state)
    if len(j_mu.shape) == 1:
        j_mu = np.expand_dims(j_mu, axis=1)
    g_mu = 0.5 * j_mu.dot(inv_sigma + inv_sigma.T).dot(delta.T)
    g_sigma = -1.0 / self._std + delta ** 2 / self._std ** 3
    return np.concatenate((g_mu, g_sigma), axis=0)


def DiagonalGaussianPolicy_set_weights(self, weights):
    self._approximator.set_weights(weights[0:self._approximator.weights_size])
    self._std = weights[self._approximator.weights_size:]


def DiagonalGaussianPolicy_get_weights(self):
    return np.concatenate((self._approximator.get_weights(), self._std), axis=0)


def DiagonalGaussianPolicy_weights_size(self):
    return self._approximator.weights_size + self._std.size


def DiagonalGaussianPolicy__compute_multivariate_gaussian(self, state):
    mu = np.reshape(self._approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
    sigma = self._std ** 2
    return (mu, np.diag(sigma), np.diag(1.0 / sigma))


def StateStdGaussianPolicy___init__(self, mu, std, eps=1e-06, policy_state_shape=None):
    assert eps > 0
    super().__init__(policy_state_shape)
    self._mu_approximator = mu
    self._std_approximator = std
    self._predict_params = dict()
    self._eps = eps


def StateStdGaussianPolicy_diff_log(self, state, action, policy_state=None):
    mu, sigma, std = self._compute_multivariate_gaussian(state)
    diag_sigma = np.diag(sigma)
    delta = action - mu
    j_mu = self._mu_approximator.diff(state)
    if len(j_mu.shape) == 1:
        j_mu = np.expand_dims(j_mu, axis=1)
    sigma_inv = np.diag(1 / diag_sigma)
    g_mu = j_mu.dot(sigma_inv).dot(delta.T)
    w = (delta ** 2 - diag_sigma) * std / diag_sigma ** 2
    j_sigma = np.atleast_2d(self._std_approximator.diff(state).T)
    g_sigma = np.atleast_1d(w.dot(j_sigma))
    return np.concatenate((g_mu, g_sigma), axis=0)


def StateStdGaussianPolicy_set_weights(self, weights):
    mu_weights = weights[0:self._mu_approximator.weights_size]
    std_weights = weights[self._mu_approximator.weights_size:]
    self._mu_approximator.set_weights(mu_weights)
    self._std_approximator.set_weights(std_weights)


def StateStdGaussianPolicy_get_weights(self):
    mu_weights = self._mu_approximator.get_weights()
    std_weights = self._std_approximator.get_weights()
    return np.concatenate((mu_weights, std_weights), axis=0)


def StateStdGaussianPolicy_weights_size(self):
    return self._mu_approximator.weights_size + self._std_approximator.weights_size


def StateStdGaussianPolicy__compute_multivariate_gaussian(self, state):
    mu = np.reshape(self._mu_approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
    std = np.reshape(self._std_approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
    sigma = std ** 2 + self._eps
    return (mu, np.diag(sigma), std)


def StateLogStdGaussianPolicy___init__(self, mu, log_std, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._mu_approximator = mu
    self._log_std_approximator = log_std
    self._predict_params = dict()


def StateLogStdGaussianPolicy_diff_log(self, state, action, policy_state=None):
    mu, sigma = self._compute_multivariate_gaussian(state)
    diag_sigma = np.diag(sigma)
    delta = action - mu
    j_mu = self._mu_approximator.diff(state)
    if len(j_mu.shape) == 1:
        j_mu = np.expand_dims(j_mu, axis=1)
    sigma_inv = np.diag(1 / diag_sigma)
    g_mu = j_mu.dot(sigma_inv).dot(delta.T)
    w = delta ** 2 / diag_sigma
    j_sigma = np.atleast_2d(self._log_std_approximator.diff(state).T)
    g_sigma = np.atleast_1d(w.dot(j_sigma)) - np.sum(j_sigma, axis=0)
    return np.concatenate((g_mu, g_sigma), axis=0)


def StateLogStdGaussianPolicy_set_weights(self, weights):
    mu_weights = weights[0:self._mu_approximator.weights_size]
    log_std_weights = weights[self._mu_approximator.weights_size:]
    self._mu_approximator.set_weights(mu_weights)
    self._log_std_approximator.set_weights(log_std_weights)


def StateLogStdGaussianPolicy_get_weights(self):
    mu_weights = self._mu_approximator.get_weights()
    log_std_weights = self._log_std_approximator.get_weights()
    return np.concatenate((mu_weights, log_std_weights), axis=0)


def StateLogStdGaussianPolicy_weights_size(self):
    return self._mu_approximator.weights_size + self._log_std_approximator.weights_size


def StateLogStdGaussianPolicy__compute_multivariate_gaussian(self, state):
    mu = np.reshape(self._mu_approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
    log_std = np.reshape(self._log_std_approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
    sigma = np.exp(log_std) ** 2
    return (mu, np.diag(sigma))
import numpy as np
import torch
import torch.nn as nn
from mushroom_rl.policy import Policy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator
from mushroom_rl.utils.torch import TorchUtils, CategoricalWrapper
from mushroom_rl.rl_utils.parameters import to_parameter
from itertools import chain


def TorchPolicy___init__(self, policy_state_shape=None):
    super().__init__(policy_state_shape)


def TorchPolicy___call__(self, state, action, policy_state=None):
    s = TorchUtils.to_float_tensor(torch.atleast_2d(state))
    a = TorchUtils.to_float_tensor(torch.atleast_2d(action))
    return torch.exp(self.log_prob_t(s, a))


def TorchPolicy_draw_action(self, state, policy_state=None):
    with torch.no_grad():
        s = TorchUtils.to_float_tensor(torch.atleast_2d(state))
        a = self.draw_action_t(s)
    return (torch.squeeze(a, dim=0).detach(), None)


def TorchPolicy_distribution(self, state):
    s = TorchUtils.to_float_tensor(state)
    return self.distribution_t(s)


def TorchPolicy_entropy(self, state=None):
    s = TorchUtils.to_float_tensor(state) if state is not None else None
    return self.entropy_t(s).detach()


def TorchPolicy_draw_action_t(self, state):
    raise NotImplementedError


def TorchPolicy_log_prob_t(self, state, action):
    raise NotImplementedError


def TorchPolicy_entropy_t(self, state):
    raise NotImplementedError


def TorchPolicy_distribution_t(self, state):
    raise NotImplementedError


def TorchPolicy_set_weights(self, weights):
    raise NotImplementedError


def TorchPolicy_get_weights(self):
    raise NotImplementedError


def TorchPolicy_parameters(self):
    raise NotImplementedError


def GaussianTorchPolicy___init__(self, network, input_shape, output_shape, std_0=1.0, policy_state_shape=None, **params):
    super().__init__(policy_state_shape)
    self._action_dim = output_shape[0]
    self._mu = Regressor(TorchApproximator, input_shape, output_shape, network=network, **params)
    self._predict_params = dict()
    log_sigma_init = torch.ones(self._action_dim, device=TorchUtils.get_device()) * torch.log(TorchUtils.to_float_tensor(std_0))
    self._log_sigma = nn.Parameter(log_sigma_init)


def GaussianTorchPolicy_draw_action_t(self, state):
    return self.distribution_t(state).sample().detach()


def GaussianTorchPolicy_log_prob_t(self, state, action):
    return self.distribution_t(state).log_prob(action)[:, None]


def GaussianTorchPolicy_entropy_t(self, state=None):
    return self._action_dim / 2 * torch.log(TorchUtils.to_float_tensor(2 * np.pi * np.e)) + torch.sum(self._log_sigma)


def GaussianTorchPolicy_distribution_t(self, state):
    mu, chol_sigma = self.get_mean_and_chol(state)
    return torch.distributions.MultivariateNormal(loc=mu, scale_tril=chol_sigma, validate_args=False)


def GaussianTorchPolicy_get_mean_and_chol(self, state):
    assert torch.all(torch.exp(self._log_sigma) > 0)
    return (self._mu(state, **self._predict_params), torch.diag(torch.exp(self._log_sigma)))


def GaussianTorchPolicy_set_weights(self, weights):
    log_sigma_data = TorchUtils.to_float_tensor(weights[-self._action_dim:])
    self._log_sigma.data = log_sigma_data
    self._mu.set_weights(weights[:-self._action_dim])


def GaussianTorchPolicy_get_weights(self):
    mu_weights = self._mu.get_weights()
    sigma_weights = self._log_sigma.data.detach()
    return torch.concatenate([mu_weights, sigma_weights])


def GaussianTorchPolicy_parameters(self):
    return chain(self._mu.model.network.parameters(), [self._log_sigma])


def BoltzmannTorchPolicy___init__(self, network, input_shape, output_shape, beta, policy_state_shape=None, **params):
    super().__init__(policy_state_shape)
    self._action_dim = output_shape[0]
    self._predict_params = dict()
    self._logits = Regressor(TorchApproximator, input_shape, output_shape, network=network, **params)
    self._beta = to_parameter(beta)


def BoltzmannTorchPolicy_draw_action_t(self, state):
    action = self.distribution_t(state).sample().detach()
    if len(action.shape) > 1:
        return action
    else:
        return action.unsqueeze(0)


def BoltzmannTorchPolicy_log_prob_t(self, state, action):
    return self.distribution_t(state).log_prob(action)[:, None]


def BoltzmannTorchPolicy_entropy_t(self, state):
    return torch.mean(self.distribution_t(state).entropy())


def BoltzmannTorchPolicy_distribution_t(self, state):
    logits = self._logits(state, **self._predict_params) * self._beta(state.numpy())
    return CategoricalWrapper(logits)


def BoltzmannTorchPolicy_set_weights(self, weights):
    self._logits.set_weights(weights)


def BoltzmannTorchPolicy_get_weights(self):
    return self._logits.get_weights()


def BoltzmannTorchPolicy_parameters(self):
    return self._logits.model.network.parameters()


def BoltzmannTorchPolicy_set_beta(self, beta):
    self._beta = to_parameter(beta)
import torch
import numpy as np
from mushroom_rl.policy import GaussianTorchPolicy
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.rl_utils.parameters import to_parameter


def RecurrentGaussianTorchPolicy___init__(self, policy_state_shape, log_std_min=-20, log_std_max=2, **kwargs):
    super().__init__(policy_state_shape=policy_state_shape, **kwargs)
    self._log_std_min = to_parameter(log_std_min)
    self._log_std_max = to_parameter(log_std_max)


def RecurrentGaussianTorchPolicy_reset(self):
    return torch.zeros(self.policy_state_shape)


def RecurrentGaussianTorchPolicy_draw_action(self, state, policy_state):
    with torch.no_grad():
        state = TorchUtils.to_float_tensor(state)
        policy_state = torch.as_tensor(policy_state)
        a, policy_state = self.draw_action_t(state, policy_state)
    return (torch.squeeze(a, dim=0), policy_state)


def RecurrentGaussianTorchPolicy_draw_action_t(self, state, policy_state):
    lengths = torch.tensor([1])
    state = torch.atleast_2d(state).view(1, 1, -1)
    policy_state = torch.atleast_2d(policy_state)
    dist, policy_state = self.distribution_and_policy_state_t(state, policy_state, lengths)
    action = dist.sample().detach()
    return (action, policy_state)


def RecurrentGaussianTorchPolicy_log_prob_t(self, state, action, policy_state, lengths):
    return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]


def RecurrentGaussianTorchPolicy_entropy_t(self, state=None):
    return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)


def RecurrentGaussianTorchPolicy_distribution(self, state, policy_state, lengths):
    s = TorchUtils.to_float_tensor(state)
    return self.distribution_t(s, policy_state, lengths)


def RecurrentGaussianTorchPolicy_distribution_t(self, state, policy_state, lengths):
    mu, sigma, _ = self.get_mean_and_covariance_and_policy_state(state, policy_state, lengths)
    return torch.distributions.MultivariateNormal(loc=mu, covariance_matrix=sigma)


def RecurrentGaussianTorchPolicy_distribution_and_policy_state_t(self, state, policy_state, lengths):
    mu, sigma, policy_state = self.get_mean_and_covariance_and_policy_state(state, policy_state, lengths)
    return (torch.distributions.MultivariateNormal(loc=mu, covariance_matrix=sigma), policy_state)


def RecurrentGaussianTorchPolicy_get_mean_and_covariance_and_policy_state(self, state, policy_state, lengths):
    mu, next_hidden_state = self._mu(state, policy_state, lengths, **self._predict_params)
    log_sigma = torch.clamp(self._log_sigma, self._log_std_min(), self._log_std_max())
    covariance = torch.diag(torch.exp(2 * log_sigma))
    return (mu, covariance, next_hidden_state)
import torch
import numpy as np
from mushroom_rl.policy.policy import ParametricPolicy


def OrnsteinUhlenbeckPolicy___init__(self, mu, sigma, theta, dt, x0=None):
    self._approximator = mu
    self._predict_params = dict()
    self._sigma = sigma
    self._theta = theta
    self._dt = dt
    self._x0 = x0
    self._x_prev = None
    self.reset()
    super().__init__(self._approximator.output_shape)


def OrnsteinUhlenbeckPolicy___call__(self, state, action=None, policy_state=None):
    raise NotImplementedError


def OrnsteinUhlenbeckPolicy_draw_action(self, state, policy_state):
    with torch.no_grad():
        mu = self._approximator.predict(state, **self._predict_params)
        sqrt_dt = np.sqrt(self._dt)
        x = policy_state - self._theta * policy_state * self._dt + self._sigma * sqrt_dt * torch.randn(size=self._approximator.output_shape)
        return (mu + x, x)


def OrnsteinUhlenbeckPolicy_set_weights(self, weights):
    self._approximator.set_weights(weights)


def OrnsteinUhlenbeckPolicy_get_weights(self):
    return self._approximator.get_weights()


def OrnsteinUhlenbeckPolicy_weights_size(self):
    return self._approximator.weights_size


def OrnsteinUhlenbeckPolicy_reset(self):
    return self._x0 if self._x0 is not None else torch.zeros(self._approximator.output_shape)


def ClippedGaussianPolicy___init__(self, mu, sigma, low, high, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._approximator = mu
    self._predict_params = dict()
    self._chol_sigma = torch.linalg.cholesky(sigma)
    self._low = torch.as_tensor(low)
    self._high = torch.as_tensor(high)


def ClippedGaussianPolicy___call__(self, state, action=None, policy_state=None):
    raise NotImplementedError


def ClippedGaussianPolicy_draw_action(self, state, policy_state=None):
    with torch.no_grad():
        mu = np.reshape(self._approximator.predict(np.expand_dims(state, axis=0), **self._predict_params), -1)
        distribution = torch.distributions.MultivariateNormal(loc=mu, scale_tril=self._chol_sigma, validate_args=False)
        action_raw = distribution.sample()
        return (torch.clip(action_raw, self._low, self._high), None)


def ClippedGaussianPolicy_set_weights(self, weights):
    self._approximator.set_weights(weights)


def ClippedGaussianPolicy_get_weights(self):
    return self._approximator.get_weights()


def ClippedGaussianPolicy_weights_size(self):
    return self._approximator.weights_size
import numpy as np
from mushroom_rl.policy.policy import ParametricPolicy


def DeterministicPolicy___init__(self, mu, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._approximator = mu
    self._predict_params = dict()


def DeterministicPolicy_get_regressor(self):
    return self._approximator


def DeterministicPolicy___call__(self, state, action, policy_state=None):
    policy_action = self._approximator.predict(state, **self._predict_params)
    return 1.0 if np.array_equal(action, policy_action) else 0.0


def DeterministicPolicy_draw_action(self, state, policy_state=None):
    return (self._approximator.predict(state, **self._predict_params), None)


def DeterministicPolicy_set_weights(self, weights):
    self._approximator.set_weights(weights)


def DeterministicPolicy_get_weights(self):
    return self._approximator.get_weights()


def DeterministicPolicy_weights_size(self):
    return self._approximator.weights_size
import numpy as np
from copy import deepcopy
from mushroom_rl.policy.policy import ParametricPolicy


def VectorPolicy___init__(self, policy, n_envs):
    super().__init__(policy_state_shape=policy.policy_state_shape)
    self._policy_vector = [deepcopy(policy) for _ in range(n_envs)]


def VectorPolicy_draw_action(self, state, policy_state):
    actions = list()
    policy_next_states = list()
    for i, policy in enumerate(self._policy_vector):
        s = state[i]
        ps = policy_state[i] if policy_state is not None else None
        action, policy_next_state = policy.draw_action(s, policy_state=ps)
        actions.append(action)
        if policy_next_state is not None:
            policy_next_states.append(policy_next_state)
    return (np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states))


def VectorPolicy_set_n(self, n_envs):
    if len(self) > n_envs:
        self._policy_vector = self._policy_vector[:n_envs]
    if len(self) < n_envs:
        n_missing = n_envs - len(self)
        self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]


def VectorPolicy_get_flat_policy(self):
    return self._policy_vector[0]


def VectorPolicy_set_weights(self, weights):
    for i, policy in enumerate(self._policy_vector):
        policy.set_weights(weights[i])


def VectorPolicy_get_weights(self):
    weight_list = list()
    for i, policy in enumerate(self._policy_vector):
        weights_i = policy.get_weights()
        weight_list.append(weights_i)
    return np.array(weight_list)


def VectorPolicy_weights_size(self):
    return (len(self), self._policy_vector[0].weights_size)


def VectorPolicy_reset(self, mask=None):
    policy_states = None
    if self.policy_state_shape is None:
        if mask is None:
            for policy in self._policy_vector:
                policy.reset()
        else:
            for masked, policy in zip(mask, self._policy_vector):
                if masked:
                    policy.reset()
    else:
        policy_states = np.empty((len(self._policy_vector),) + self.policy_state_shape)
        if mask is None:
            for i, policy in enumerate(self._policy_vector):
                policy_states[i] = policy.reset()
        else:
            for i, (masked, policy) in enumerate(zip(mask, self._policy_vector)):
                if masked:
                    policy_states[i] = policy.reset()
    return policy_states


def VectorPolicy___len__(self):
    return len(self._policy_vector)
