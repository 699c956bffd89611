"""Black-box optimisation: one parameter vector per episode, update rules."""
from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
from mushroom_rl.algorithms.policy_search.black_box_optimization.black_box_optimization import BlackBoxOptimization
from mushroom_rl.algorithms.policy_search.black_box_optimization.constrained_reps import ConstrainedREPS
from mushroom_rl.algorithms.policy_search.black_box_optimization.context_builder import ContextBuilder
from mushroom_rl.algorithms.policy_search.black_box_optimization.eppo import ePPO
from mushroom_rl.algorithms.policy_search.black_box_optimization.more import MORE
from mushroom_rl.algorithms.policy_search.black_box_optimization.pgpe import PGPE
from mushroom_rl.algorithms.policy_search.black_box_optimization.reps import REPS
from mushroom_rl.algorithms.policy_search.black_box_optimization.rwr import RWR
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Agent
from mushroom_rl.core import Serializable
from mushroom_rl.distributions import GaussianCholeskyDistribution
from mushroom_rl.features import Features
from mushroom_rl.features.basis.polynomial import PolynomialBasis
from mushroom_rl.policy import VectorPolicy
from mushroom_rl.rl_utils.parameters import to_parameter
from mushroom_rl.utils.minibatches import minibatch_generator
from mushroom_rl.utils.torch import TorchUtils
from scipy.optimize import minimize
import numpy as np
import torch



def BlackBoxOptimization___init__(self, mdp_info, distribution, policy, context_builder=None, backend='numpy'):
    assert not distribution.is_contextual and context_builder is None or (distribution.is_contextual and context_builder is not None)
    self.distribution = distribution
    self._context_builder = ContextBuilder() if context_builder is None else context_builder
    self._deterministic = False
    super().__init__(mdp_info, policy, is_episodic=True, backend=backend)


def BlackBoxOptimization_episode_start(self, initial_state, episode_info):
    if isinstance(self.policy, VectorPolicy):
        self.policy = self.policy.get_flat_policy()
    context = self._context_builder(initial_state, **episode_info)
    if self._deterministic:
        theta = self.distribution.mean(context)
    else:
        theta = self.distribution.sample(context)
    self.policy.set_weights(theta)
    policy_state, _ = super().episode_start(initial_state, episode_info)
    return (policy_state, theta)


def BlackBoxOptimization_episode_start_vectorized(self, initial_states, episode_info, start_mask):
    n_envs = len(start_mask)
    if not isinstance(self.policy, VectorPolicy):
        self.policy = VectorPolicy(self.policy, n_envs)
    elif len(self.policy) != n_envs:
        self.policy.set_n(n_envs)
    theta = self.policy.get_weights()
    if start_mask.any():
        context = self._context_builder(initial_states, **episode_info)
        if context is not None:
            context = context[start_mask]
        if self._deterministic:
            if context is not None:
                theta[start_mask] = self.distribution.mean(context)
            else:
                theta[start_mask] = self._agent_backend.from_list([self.distribution.mean() for _ in range(start_mask.sum())])
        elif context is not None:
            theta[start_mask] = self._agent_backend.from_list([self.distribution.sample(context[i]) for i in range(start_mask.sum())])
        else:
            theta[start_mask] = self._agent_backend.from_list([self.distribution.sample() for _ in range(start_mask.sum())])
        self.policy.set_weights(theta)
    policy_states = self.policy.reset()
    return (policy_states, theta)


def BlackBoxOptimization_fit(self, dataset):
    Jep = dataset.discounted_return
    theta = self._agent_backend.from_list(dataset.theta_list)
    if self.distribution.is_contextual:
        initial_states = dataset.get_init_states()
        episode_info = dataset.episode_info
        context = self._context_builder(initial_states, **episode_info)
    else:
        context = None
    self._update(Jep, theta, context)


def BlackBoxOptimization_set_deterministic(self, deterministic=True):
    self._deterministic = deterministic



def RWR___init__(self, mdp_info, distribution, policy, beta):
    assert not distribution.is_contextual
    self._beta = to_parameter(beta)
    super().__init__(mdp_info, distribution, policy)


def RWR__update(self, Jep, theta, context):
    Jep -= np.max(Jep)
    d = np.exp(self._beta() * Jep)
    self.distribution.mle(theta, d)



def REPS___init__(self, mdp_info, distribution, policy, eps):
    assert not distribution.is_contextual
    self._eps = to_parameter(eps)
    super().__init__(mdp_info, distribution, policy)


def REPS__update(self, Jep, theta, context):
    eta_start = np.ones(1)
    res = minimize(REPS._dual_function, eta_start, jac=REPS._dual_function_diff, bounds=((np.finfo(np.float32).eps, np.inf),), args=(self._eps(), Jep, theta))
    eta_opt = res.x.item()
    Jep -= np.max(Jep)
    d = np.exp(Jep / eta_opt)
    self.distribution.mle(theta, d)


def REPS__dual_function(eta_array, *args):
    eta = eta_array.item()
    eps, Jep, theta = args
    max_J = np.max(Jep)
    r = Jep - max_J
    sum1 = np.mean(np.exp(r / eta))
    return eta * eps + eta * np.log(sum1) + max_J


def REPS__dual_function_diff(eta_array, *args):
    eta = eta_array.item()
    eps, Jep, theta = args
    max_J = np.max(Jep)
    r = Jep - max_J
    sum1 = np.mean(np.exp(r / eta))
    sum2 = np.mean(np.exp(r / eta) * r)
    gradient = eps + np.log(sum1) - sum2 / (eta * sum1)
    return np.array([gradient])



def ConstrainedREPS___init__(self, mdp_info, distribution, policy, eps, kappa):
    assert not distribution.is_contextual
    self._eps = to_parameter(eps)
    self._kappa = to_parameter(kappa)
    super().__init__(mdp_info, distribution, policy)


def ConstrainedREPS__update(self, Jep, theta, context):
    eta_start = np.ones(1)
    res = minimize(ConstrainedREPS._dual_function, eta_start, jac=ConstrainedREPS._dual_function_diff, bounds=((np.finfo(np.float32).eps, np.inf),), args=(self._eps(), Jep, theta))
    eta_opt = res.x.item()
    Jep -= np.max(Jep)
    d = np.exp(Jep / eta_opt)
    self.distribution.con_wmle(theta, d, self._eps(), self._kappa())


def ConstrainedREPS__dual_function(eta_array, *args):
    eta = eta_array.item()
    eps, Jep, theta = args
    max_J = np.max(Jep)
    r = Jep - max_J
    sum1 = np.mean(np.exp(r / eta))
    return eta * eps + eta * np.log(sum1) + max_J


def ConstrainedREPS__dual_function_diff(eta_array, *args):
    eta = eta_array.item()
    eps, Jep, theta = args
    max_J = np.max(Jep)
    r = Jep - max_J
    sum1 = np.mean(np.exp(r / eta))
    sum2 = np.mean(np.exp(r / eta) * r)
    gradient = eps + np.log(sum1) - sum2 / (eta * sum1)
    return np.array([gradient])



def PGPE___init__(self, mdp_info, distribution, policy, optimizer, context_builder=None):
    self.optimizer = optimizer
    super().__init__(mdp_info, distribution, policy, context_builder=context_builder)


def PGPE__update(self, Jep, theta, context):
    baseline_num_list = list()
    baseline_den_list = list()
    diff_log_dist_list = list()
    for i in range(len(Jep)):
        J_i = Jep[i]
        theta_i = theta[i]
        context_i = context[i] if context is not None else None
        diff_log_dist = self.distribution.diff_log(theta_i, context_i)
        diff_log_dist2 = diff_log_dist ** 2
        diff_log_dist_list.append(diff_log_dist)
        baseline_num_list.append(J_i * diff_log_dist2)
        baseline_den_list.append(diff_log_dist2)
    baseline = np.mean(baseline_num_list, axis=0) / np.mean(baseline_den_list, axis=0)
    baseline[np.logical_not(np.isfinite(baseline))] = 0.0
    grad_J_list = list()
    for i in range(len(Jep)):
        diff_log_dist = diff_log_dist_list[i]
        J_i = Jep[i]
        grad_J_list.append(diff_log_dist * (J_i - baseline))
    grad_J = np.mean(grad_J_list, axis=0)
    omega_old = self.distribution.get_parameters()
    omega_new = self.optimizer(omega_old, grad_J)
    self.distribution.set_parameters(omega_new)



def MORE___init__(self, mdp_info, distribution, policy, eps, h0=-75, kappa=0.99):
    self.eps = to_parameter(eps)
    self.h0 = to_parameter(h0)
    self.kappa = to_parameter(kappa)
    assert isinstance(distribution, GaussianCholeskyDistribution)
    poly_basis_quadratic = PolynomialBasis().generate(2, policy.weights_size)
    self.phi_quadratic_ = Features(basis_list=poly_basis_quadratic)
    self.regressor_quadratic = Regressor(LinearApproximator, input_shape=(len(poly_basis_quadratic),), output_shape=(1,))
    poly_basis_linear = PolynomialBasis().generate(1, policy.weights_size)
    self.phi_linear_ = Features(basis_list=poly_basis_linear)
    self.regressor_linear = Regressor(LinearApproximator, input_shape=(len(poly_basis_linear),), output_shape=(1,))
    super().__init__(mdp_info, distribution, policy)


def MORE__update(self, Jep, theta, context):
    beta = self.kappa() * (self.distribution.entropy() - self.h0()) + self.h0()
    n = len(self.distribution._mu)
    dist_params = self.distribution.get_parameters()
    mu_t = dist_params[:n][:, np.newaxis]
    chol_sig_empty = np.zeros((n, n))
    chol_sig_empty[np.tril_indices(n)] = dist_params[n:]
    sig_t = chol_sig_empty.dot(chol_sig_empty.T)
    R, r, r_0 = self._fit_quadratic_surrogate(theta, Jep, n)
    eta_omg_start = np.ones(2)
    res = minimize(MORE._dual_function, eta_omg_start, bounds=((np.finfo(np.float32).eps, np.inf), (np.finfo(np.float32).eps, np.inf)), args=(sig_t, mu_t, R, r, r_0, self.eps(), beta, n), method=None)
    eta_opt, omg_opt = (res.x[0], res.x[1])
    mu_t1, sig_t1 = MORE._closed_form_mu_t1_sig_t1(sig_t, mu_t, R, r, eta_opt, omg_opt)
    dist_params = np.concatenate((mu_t1.flatten(), np.linalg.cholesky(sig_t1)[np.tril_indices(n)].flatten()))
    self.distribution.set_parameters(dist_params)


def MORE__fit_quadratic_surrogate(self, theta, Jep, n):
    Jep = (Jep - np.mean(Jep, keepdims=True, axis=0)) / np.std(Jep, keepdims=True, axis=0)
    features_quadratic = self.phi_quadratic_(theta)
    self.regressor_quadratic.fit(features_quadratic, Jep)
    beta = self.regressor_quadratic.get_weights()
    R = np.zeros((n, n))
    uid = np.triu_indices(n)
    R[uid] = beta[1 + n:]
    R.T[uid] = R[uid]
    w, v = np.linalg.eig(R)
    w[w >= 0.0] = -1e-12
    R = v @ np.diag(w) @ v.T
    R = 0.5 * (R + R.T)
    features_linear = self.phi_linear_(theta)
    aux = Jep - np.einsum('nk,kh,nh->n', theta, R, theta)
    self.regressor_linear.fit(features_linear, aux)
    beta = self.regressor_linear.get_weights()
    r_0 = beta[0]
    r = beta[1:][:, np.newaxis]
    return (R, r, r_0)


def MORE__dual_function(lag_array, Q, b, R, r, r_0, eps, kappa, n):
    eta, omg = (lag_array[0], lag_array[1])
    F, f = MORE._get_F_f(Q, b, R, r, eta)
    slogdet_0 = np.linalg.slogdet(2 * np.pi * Q)
    slogdet_1 = np.linalg.slogdet(2 * np.pi * (eta + omg) * F)
    term1 = f.T @ F @ f - eta * (b.T @ np.linalg.inv(Q) @ b) - eta * slogdet_0[1] + (eta + omg) * slogdet_1[1] + r_0
    return eta * eps - omg * kappa + 0.5 * term1[0]


def MORE__closed_form_mu_t1_sig_t1(Q, b, R, r, eta, omg):
    F, f = MORE._get_F_f(Q, b, R, r, eta)
    mu_t1 = F @ f
    sig_t1 = F * (eta + omg)
    return (mu_t1, sig_t1)


def MORE__get_F_f(Q, b, R, r, eta):
    Q_inv = np.linalg.inv(Q)
    F = np.linalg.inv(eta * Q_inv - 2.0 * R)
    f = eta * Q_inv @ b + r
    return (F, f)



def ePPO___init__(self, mdp_info, distribution, policy, optimizer, n_epochs_policy, batch_size, eps_ppo, ent_coeff=0.0, context_builder=None):
    assert hasattr(distribution, 'parameters')
    self._optimizer = optimizer['class'](distribution.parameters(), **optimizer['params'])
    self._n_epochs_policy = to_parameter(n_epochs_policy)
    self._batch_size = to_parameter(batch_size)
    self._eps_ppo = to_parameter(eps_ppo)
    self._ent_coeff = to_parameter(ent_coeff)
    super().__init__(mdp_info, distribution, policy, context_builder=context_builder, backend='torch')


def ePPO__update(self, Jep, theta, context):
    Jep = torch.tensor(Jep)
    J_mean = torch.mean(Jep)
    J_std = torch.std(Jep)
    Jep = (Jep - J_mean) / (J_std + 1e-08)
    old_dist = self.distribution.log_pdf(theta, context).detach()
    if self.distribution.is_contextual:
        full_batch = (theta, Jep, old_dist, context)
    else:
        full_batch = (theta, Jep, old_dist)
    for epoch in range(self._n_epochs_policy()):
        for minibatch in minibatch_generator(self._batch_size(), *full_batch):
            theta_i, context_i, Jep_i, old_dist_i = self._unpack(minibatch)
            self._optimizer.zero_grad()
            prob_ratio = torch.exp(self.distribution.log_pdf(theta_i, context_i) - old_dist_i)
            clipped_ratio = torch.clamp(prob_ratio, 1 - self._eps_ppo(), 1 + self._eps_ppo.get_value())
            loss = -torch.mean(torch.min(prob_ratio * Jep_i, clipped_ratio * Jep_i))
            loss -= self._ent_coeff() * self.distribution.entropy(context_i)
            loss.backward()
            self._optimizer.step()


def ePPO__unpack(self, minibatch):
    if self.distribution.is_contextual:
        theta_i, Jep_i, old_dist_i, context_i = minibatch
    else:
        theta_i, Jep_i, old_dist_i = minibatch
        context_i = None
    return (theta_i, context_i, Jep_i, old_dist_i)


def ePPO__post_load(self):
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))



def ContextBuilder___init__(self, context_shape=None):
    self._context_shape = context_shape
    super().__init__()


def ContextBuilder___call__(self, initial_state, **episode_info):
    return None


def ContextBuilder_context_shape(self):
    return self._context_shape
