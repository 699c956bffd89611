"""Policy gradients and numpy optimisers."""
from mushroom_rl.algorithms.policy_search.policy_gradient import PolicyGradient
from mushroom_rl.algorithms.policy_search.policy_gradient.enac import eNAC
from mushroom_rl.algorithms.policy_search.policy_gradient.gpomdp import GPOMDP
from mushroom_rl.algorithms.policy_search.policy_gradient.policy_gradient import PolicyGradient
from mushroom_rl.algorithms.policy_search.policy_gradient.reinforce import REINFORCE
from mushroom_rl.core import Agent
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.rl_utils.optimizers import Optimizer, AdaptiveOptimizer, SGDOptimizer, AdamOptimizer
from mushroom_rl.rl_utils.parameters import Parameter
import numpy as np



def PolicyGradient___init__(self, mdp_info, policy, optimizer):
    self.optimizer = optimizer
    self.df = 1
    self.J_episode = 0
    super().__init__(mdp_info, policy)


def PolicyGradient_fit(self, dataset):
    J = list()
    self.df = 1.0
    self.J_episode = 0.0
    self._init_update()
    for sample in dataset:
        x, u, r, xn, _, last = self._parse(sample)
        self._step_update(x, u, r)
        self.J_episode += self.df * r
        self.df *= self.mdp_info.gamma
        if last:
            self._episode_end_update()
            J.append(self.J_episode)
            self.J_episode = 0.0
            self.df = 1.0
            self._init_update()
    assert len(J) > 1, 'More than one episode is needed to compute the gradient'
    self._update_parameters(J)


def PolicyGradient__update_parameters(self, J):
    grad = self._compute_gradient(J)
    theta_old = self.policy.get_weights()
    theta_new = self.optimizer(theta_old, grad)
    self.policy.set_weights(theta_new)


def PolicyGradient__parse(self, sample):
    state = sample[0]
    action = sample[1]
    reward = sample[2]
    next_state = sample[3]
    absorbing = sample[4]
    last = sample[5]
    return (state, action, reward, next_state, absorbing, last)



def REINFORCE___init__(self, mdp_info, policy, optimizer):
    super().__init__(mdp_info, policy, optimizer)
    self.sum_d_log_pi = None
    self.list_sum_d_log_pi = list()
    self.baseline_num = list()
    self.baseline_den = list()
    np.seterr(divide='ignore', invalid='ignore')


def REINFORCE__compute_gradient(self, J):
    baseline = np.mean(self.baseline_num, axis=0) / np.mean(self.baseline_den, axis=0)
    baseline[np.logical_not(np.isfinite(baseline))] = 0.0
    grad_J_episode = list()
    for i, J_episode in enumerate(J):
        sum_d_log_pi = self.list_sum_d_log_pi[i]
        grad_J_episode.append(sum_d_log_pi * (J_episode - baseline))
    grad_J = np.mean(grad_J_episode, axis=0)
    self.list_sum_d_log_pi = list()
    self.baseline_den = list()
    self.baseline_num = list()
    return grad_J


def REINFORCE__step_update(self, x, u, r):
    d_log_pi = self.policy.diff_log(x, u)
    self.sum_d_log_pi += d_log_pi


def REINFORCE__episode_end_update(self):
    self.list_sum_d_log_pi.append(self.sum_d_log_pi)
    squared_sum_d_log_pi = np.square(self.sum_d_log_pi)
    self.baseline_num.append(squared_sum_d_log_pi * self.J_episode)
    self.baseline_den.append(squared_sum_d_log_pi)


def REINFORCE__init_update(self):
    self.sum_d_log_pi = np.zeros(self.policy.weights_size)



def GPOMDP___init__(self, mdp_info, policy, optimizer):
    super().__init__(mdp_info, policy, optimizer)
    self.sum_d_log_pi = None
    self.list_sum_d_log_pi = list()
    self.list_sum_d_log_pi_ep = list()
    self.list_reward = list()
    self.list_reward_ep = list()
    self.baseline_num = list()
    self.baseline_den = list()
    self.step_count = 0
    np.seterr(divide='ignore', invalid='ignore')


def GPOMDP__compute_gradient(self, J):
    n_episodes = len(self.list_sum_d_log_pi_ep)
    grad_J_episode = list()
    for i in range(n_episodes):
        list_sum_d_log_pi = self.list_sum_d_log_pi_ep[i]
        list_reward = self.list_reward_ep[i]
        n_steps = len(list_sum_d_log_pi)
        gradient = np.zeros(self.policy.weights_size)
        for t in range(n_steps):
            step_grad = list_sum_d_log_pi[t]
            step_reward = list_reward[t]
            baseline = np.mean(self.baseline_num[t], axis=0) / np.mean(self.baseline_den[t], axis=0)
            baseline[np.logical_not(np.isfinite(baseline))] = 0.0
            gradient += step_grad * (step_reward - baseline)
        grad_J_episode.append(gradient)
    gradJ = np.mean(grad_J_episode, axis=0)
    self.list_reward_ep = list()
    self.list_sum_d_log_pi_ep = list()
    self.baseline_num = list()
    self.baseline_den = list()
    return gradJ


def GPOMDP__step_update(self, x, u, r):
    discounted_reward = self.df * r
    self.list_reward.append(discounted_reward)
    d_log_pi = self.policy.diff_log(x, u)
    self.sum_d_log_pi += d_log_pi
    self.list_sum_d_log_pi.append(self.sum_d_log_pi.copy())
    squared_sum_d_log_pi = np.square(self.sum_d_log_pi)
    if self.step_count >= len(self.baseline_num):
        self.baseline_num.append(list())
        self.baseline_den.append(list())
    self.baseline_num[self.step_count].append(discounted_reward * squared_sum_d_log_pi)
    self.baseline_den[self.step_count].append(squared_sum_d_log_pi)
    self.step_count += 1


def GPOMDP__episode_end_update(self):
    self.list_reward_ep.append(self.list_reward)
    self.list_reward = list()
    self.list_sum_d_log_pi_ep.append(self.list_sum_d_log_pi)
    self.list_sum_d_log_pi = list()


def GPOMDP__init_update(self):
    self.sum_d_log_pi = np.zeros(self.policy.weights_size)
    self.list_sum_d_log_pi = list()
    self.list_reward = list()
    self.step_count = 0



def eNAC___init__(self, mdp_info, policy, optimizer, critic_features=None):
    super().__init__(mdp_info, policy, optimizer)
    self.phi_c = critic_features
    self.sum_grad_log = None
    self.psi_ext = None
    self.sum_grad_log_list = list()


def eNAC__compute_gradient(self, J):
    R = np.array(J)
    PSI = np.array(self.sum_grad_log_list)
    w_and_v = np.linalg.pinv(PSI).dot(R)
    nat_grad = w_and_v[:self.policy.weights_size]
    self.sum_grad_log_list = list()
    return nat_grad


def eNAC__step_update(self, x, u, r):
    self.sum_grad_log += self.df * self.policy.diff_log(x, u)
    if self.psi_ext is None:
        if self.phi_c is None:
            self.psi_ext = np.ones(1)
        else:
            self.psi_ext = self.phi_c(x)


def eNAC__episode_end_update(self):
    psi = np.concatenate((self.sum_grad_log, self.psi_ext))
    self.sum_grad_log_list.append(psi)


def eNAC__init_update(self):
    self.psi_ext = None
    self.sum_grad_log = np.zeros(self.policy.weights_size)



def Optimizer___init__(self, lr=0.001, maximize=True, *params):
    if isinstance(lr, float):
        self._lr = Parameter(lr)
    else:
        self._lr = lr
    self._maximize = maximize


def AdaptiveOptimizer___init__(self, eps, maximize=True):
    super().__init__(maximize=maximize)
    self._eps = eps


def AdaptiveOptimizer___call__(self, params, *args, **kwargs):
    grads = args[0]
    if len(args) == 2:
        grads = args[1]
    lr = self.get_value(*args, **kwargs)
    if not self._maximize:
        grads = -grads
    return params + lr * grads


def AdaptiveOptimizer_get_value(self, *args, **kwargs):
    if len(args) == 2:
        gradient = args[0]
        nat_gradient = args[1]
        tmp = gradient.dot(nat_gradient).item()
        lambda_v = np.sqrt(tmp / (4.0 * self._eps))
        lambda_v = max(lambda_v, 1e-08)
        step_length = 1.0 / (2.0 * lambda_v)
        return step_length
    elif len(args) == 1:
        return self.get_value(args[0], args[0], **kwargs)
    else:
        raise ValueError('Adaptive parameters needs gradient or gradientand natural gradient')


def SGDOptimizer___init__(self, lr=0.001, maximize=True):
    super().__init__(lr, maximize)


def SGDOptimizer___call__(self, params, grads):
    if not self._maximize:
        grads = -grads
    return params + self._lr() * grads


def AdamOptimizer___init__(self, lr=0.001, beta1=0.9, beta2=0.999, eps=1e-07, maximize=True):
    super().__init__(lr, maximize)
    self._m = None
    self._v = None
    self._beta1 = beta1
    self._beta2 = beta2
    self._eps = eps
    self._t = 0


def AdamOptimizer___call__(self, params, grads):
    if not self._maximize:
        grads = -grads
    if self._m is None:
        self._t = 0
        self._m = np.zeros_like(params)
        self._v = np.zeros_like(params)
    self._t += 1
    self._m = self._beta1 * self._m + (1 - self._beta1) * grads
    self._v = self._beta2 * self._v + (1 - self._beta2) * grads ** 2
    m_hat = self._m / (1 - self._beta1 ** self._t)
    v_hat = self._v / (1 - self._beta2 ** self._t)
    update = self._lr() * m_hat / (np.sqrt(v_hat) + self._eps)
    return params + update
