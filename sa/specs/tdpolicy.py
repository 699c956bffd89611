import numpy as np
from scipy.optimize import brentq
from scipy.special import logsumexp
from mushroom_rl.policy.policy import Policy
from mushroom_rl.rl_utils.parameters import Parameter, to_parameter


def TDPolicy___init__(self, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._approximator = None
    self._predict_params = dict()


def TDPolicy_set_q(self, approximator):
    self._approximator = approximator


def TDPolicy_get_q(self):
    return self._approximator


def EpsGreedy___init__(self, epsilon, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._epsilon = to_parameter(epsilon)


def EpsGreedy___call__(self, *args):
    state = args[0]
    q = self._approximator.predict(np.expand_dims(state, axis=0), **self._predict_params).ravel()
    max_a = np.argwhere(q == np.max(q)).ravel()
    p = self._epsilon.get_value(state) / self._approximator.n_actions
    if len(args) == 2:
        action = args[1]
        if action in max_a:
            return p + (1.0 - self._epsilon.get_value(state)) / len(max_a)
        else:
            return p
    else:
        probs = np.ones(self._approximator.n_actions) * p
        probs[max_a] += (1.0 - self._epsilon.get_value(state)) / len(max_a)
        return probs


def EpsGreedy_draw_action(self, state, policy_state=None):
    if not np.random.uniform() < self._epsilon(state):
        q = self._approximator.predict(state, **self._predict_params)
        max_a = np.argwhere(q == np.max(q)).ravel()
        if len(max_a) > 1:
            max_a = np.array([np.random.choice(max_a)])
        return (max_a, None)
    return (np.array([np.random.choice(self._approximator.n_actions)]), None)


def EpsGreedy_set_epsilon(self, epsilon):
    self._epsilon = to_parameter(epsilon)


def EpsGreedy_update(self, *idx):
    self._epsilon.update(*idx)


def Boltzmann___init__(self, beta, policy_state_shape=None):
    super().__init__(policy_state_shape)
    self._beta = to_parameter(beta)


def Boltzmann___call__(self, *args):
    state = args[0]
    q_beta = self._approximator.predict(state, **self._predict_params) * self._beta(state)
    q_beta -= q_beta.max()
    qs = np.exp(q_beta)
    if len(args) == 2:
        action = args[1]
        return qs[action] / np.sum(qs)
    else:
        return qs / np.sum(qs)


def Boltzmann_draw_action(self, state, policy_state=None):
    return (np.array([np.random.choice(self._approximator.n_actions, p=self(state))]), None)


def Boltzmann_set_beta(self, beta):
    self._beta = to_parameter(beta)


def Boltzmann_update(self, *idx):
    self._beta.update(*idx)


def Mellowmax___init__(self, omega, beta_min=-10.0, beta_max=10.0, policy_state_shape=None):
    beta_mellow = self.MellowmaxParameter(self, omega, beta_min, beta_max)
    super().__init__(beta_mellow, policy_state_shape)


def Mellowmax_set_beta(self, beta):
    raise RuntimeError('Cannot change the beta parameter of Mellowmax policy')


def Mellowmax_update(self, *idx):
    raise RuntimeError('Cannot update the beta parameter of Mellowmax policy')


def MellowmaxParameter___call__(self, state):
    q = self._outer._approximator.predict(state, **self._outer._predict_params)
    omega = self._omega(state)
    mm = (logsumexp(q * omega) - np.log(q.size)) / omega

    def f(beta):
        v = q - mm
        beta_v = beta * v
        beta_v -= beta_v.max()
        return np.sum(np.exp(beta_v) * v)

    try:
        beta = brentq(f, a=self._beta_min, b=self._beta_max)
        assert not (np.isnan(beta) or np.isinf(beta))
        return beta
    except ValueError:
        return 0.
