import numpy as np
from mushroom_rl.policy.policy import ParametricPolicy
from mushroom_rl.policy.dmp import DMP


def DMP___init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
    super().__init__()
    self._approximator = mu
    self._phi = phi
    self._g = goal
    self._dt = dt
    self._tau = tau
    self._alpha_v = alpha_v
    self._beta_v = beta_v
    self._alpha_z = alpha_z
    self._beta_z = beta_z
    action_size = self._approximator.output_shape
    self._v = np.zeros(action_size)
    self._x = np.zeros(action_size)
    self._z = np.zeros(action_size)
    self._y = np.zeros(action_size)


def DMP___call__(self, state, action, policy_state=None):
    return 1.0 if np.allclose(self._y, action) else 0.0


def DMP_draw_action(self, state, policy_state=None):
    self.update_system(state)
    return (self._y.copy(), None)


def DMP_set_goal(self, goal):
    self._g = goal


def DMP_get_goal(self, state):
    return self._g


def DMP_update_system(self, state):
    g = self.get_goal(state)
    f = self._approximator(self._phi(self._x / g)) * self._v
    v_dot, x_dot = self._canonical_system(g)
    y_dot, z_dot = self._transformation_system(f, g)
    self._v += v_dot * self._dt
    self._x += x_dot * self._dt
    self._z += z_dot * self._dt
    self._y += y_dot * self._dt


def DMP__transformation_system(self, f, g):
    z_dot = self._alpha_z * (self._beta_z * (g - self._y) - self._z) / self._tau
    y_dot = (self._z + f) / self._tau
    return (y_dot, z_dot)


def DMP__canonical_system(self, g):
    v_dot = self._alpha_v * (self._beta_v * (g - self._y) - self._v) / self._tau
    x_dot = self._v / self._tau
    return (v_dot, x_dot)


def DMP_set_weights(self, weights):
    self._approximator.set_weights(weights)


def DMP_get_weights(self):
    return self._approximator.get_weights()


def DMP_weights_size(self):
    return self._approximator.weights_size


def DMP_reset(self):
    action_size = self._approximator.output_shape
    self._v = np.zeros(action_size)
    self._x = np.zeros(action_size)
    self._z = np.zeros(action_size)
    self._y = np.zeros(action_size)
import numpy as np
from scipy.stats import multivariate_normal
from mushroom_rl.policy.policy import ParametricPolicy
from mushroom_rl.policy.promps import ProMP


def ProMP___init__(self, mu, phi, duration, sigma=None, periodic=False):
    assert sigma is None or (len(sigma.shape) == 2 and sigma.shape[0] == sigma.shape[1])
    super().__init__(policy_state_shape=(1,))
    self._approximator = mu
    self._phi = phi
    self._duration = duration
    self._sigma = sigma
    self._periodic = periodic


def ProMP___call__(self, state, action, policy_state):
    z = self._compute_phase(state, policy_state)
    mu = self._approximator(self._phi(z))
    if self._sigma is None:
        return 1.0 if np.all(mu == action) else 0.0
    else:
        return multivariate_normal.pdf(action, mu, self._sigma)


def ProMP_draw_action(self, state, policy_state):
    z = self._compute_phase(state, policy_state)
    mu = self._approximator(self._phi(z))
    next_policy_state = self.update_time(state, policy_state)
    if self._sigma is None:
        return (mu, next_policy_state)
    else:
        return (np.random.multivariate_normal(mu, self._sigma), next_policy_state)


def ProMP_update_time(self, state, policy_state):
    policy_state = policy_state + 1
    if not self._periodic and policy_state >= self._duration:
        policy_state = self._duration
    return policy_state


def ProMP__compute_phase(self, state, policy_state):
    return policy_state / self._duration


def ProMP_set_weights(self, weights):
    self._approximator.set_weights(weights)


def ProMP_get_weights(self):
    return self._approximator.get_weights()


def ProMP_weights_size(self):
    return self._approximator.weights_size


def ProMP_set_duration(self, duration):
    assert duration >= 2
    self._duration = duration - 1


def ProMP_reset(self):
    return 0
