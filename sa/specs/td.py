"""Published update rules of the tabular and linear temporal-difference algorithms."""
import numpy as np
from copy import deepcopy


def QLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    q = self.Q[s, a]
    target = r + self.mdp_info.gamma * (1 - absorbing) * np.max(self.Q[ss, :])
    self.Q[s, a] = q + self._alpha(s, a) * (target - q)


def SARSA(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    q = self.Q[s, a]
    self.next_action, _ = self.draw_action(ss)
    target = r + self.mdp_info.gamma * (1 - absorbing) * self.Q[ss, self.next_action]
    self.Q[s, a] = q + self._alpha(s, a) * (target - q)


def ExpectedSARSA(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    q = self.Q[s, a]
    target = r + self.mdp_info.gamma * (1 - absorbing) * self.Q[ss, :].dot(self.policy(ss))
    self.Q[s, a] = q + self._alpha(s, a) * (target - q)


def DoubleQLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    i = 0 if np.random.uniform() < 0.5 else 1
    q = self.Q[i][s, a]
    qi = self.Q[i][ss, :]
    best = np.array([np.random.choice(np.argwhere(qi == np.max(qi)).ravel())])
    target = r + self.mdp_info.gamma * (1 - absorbing) * self.Q[1 - i][ss, best]
    self.Q[i][s, a] = q + self._alpha_double[i](s, a) * (target - q)


def MaxminQLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    i = np.random.choice(self._n_tables)
    q = self.Q[i][s, a]
    target = r + self.mdp_info.gamma * (1 - absorbing) * np.max(self.Q.predict(ss))
    self.Q[i][s, a] = q + self._alpha_mm[i](s, a) * (target - q)


def SpeedyQLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    before = deepcopy(self.Q)
    cur = r + self.mdp_info.gamma * (1 - absorbing) * np.max(self.Q[ss, :])
    old = r + self.mdp_info.gamma * (1 - absorbing) * np.max(self.old_q[ss, :])
    alpha = self._alpha(s, a)
    q = self.Q[s, a]
    self.Q[s, a] = q + alpha * (old - q) + (1 - alpha) * (cur - old)
    self.old_q = before


def RLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    q = self.Q[s, a]
    q_next = (1 - absorbing) * np.max(self.Q[ss, :])
    new = q + self._alpha(s, a) * (r - self._rho + q_next - q)
    self.Q[s, a] = new
    q_max = np.max(self.Q[s, :])
    if new == q_max:
        self._rho = self._rho + self._beta(s, a) * (r + q_next - q_max - self._rho)


def RQLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    alpha = self._alpha(s, a, target=r)
    self.R_tilde[s, a] = self.R_tilde[s, a] + alpha * (r - self.R_tilde[s, a])
    if not absorbing:
        if self.off_policy:
            q_next = np.max(self.Q[ss, :])
        else:
            self.next_action, _ = self.draw_action(ss)
            q_next = self.Q[ss, self.next_action]
        if self.delta is not None:
            beta = alpha * self.delta(s, a, target=q_next, factor=alpha)
        else:
            beta = self.beta(s, a, target=q_next)
        self.Q_tilde[s, a] = self.Q_tilde[s, a] + beta * (q_next - self.Q_tilde[s, a])
    self.Q[s, a] = self.R_tilde[s, a] + self.mdp_info.gamma * self.Q_tilde[s, a]


def WeightedQLearning(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    q = self.Q[s, a]
    q2 = self._Q2[s, a]
    target = r + self.mdp_info.gamma * (self._next_q(ss) if not absorbing else 0)
    alpha = self._alpha(s, a)
    self.Q[s, a] = q + alpha * (target - q)
    self._Q2[s, a] = q2 + alpha * (target * target - q2)
    self._n_updates[s, a] = self._n_updates[s, a] + 1
    self._w2[s, a] = (1 - alpha) ** 2 * self._w2[s, a] + alpha ** 2
    self._w1[s, a] = (1 - alpha) * self._w1[s, a] + alpha
    if self._n_updates[s, a] > 1:
        var = self._Q2[s, a] - self.Q[s, a] ** 2
        w = self._w2[s, a] / (self._w1[s, a] * 2 + 1e-10)
        self._sigma[s, a] = np.sqrt(np.maximum(var * w, 1e-10))


def QLambda(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    delta = r + self.mdp_info.gamma * (1 - absorbing) * np.max(self.Q[ss, :]) - self.Q[s, a]
    self.e.update(s, a)
    self.Q.table += self._alpha(s, a) * delta * self.e.table
    self.e.table *= self.mdp_info.gamma * self._lambda()


def SARSALambda(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    self.next_action, _ = self.draw_action(ss)
    delta = r + self.mdp_info.gamma * (1 - absorbing) * self.Q[ss, self.next_action] - self.Q[s, a]
    self.e.update(s, a)
    self.Q.table += self._alpha(s, a) * delta * self.e.table
    self.e.table *= self.mdp_info.gamma * self._lambda()


def SARSALambdaContinuous(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    q = self.Q.predict(s, a)
    alpha = self._alpha(s, a)
    self.e = self.mdp_info.gamma * self._lambda() * self.e + self.Q.diff(s, a)
    self.next_action, _ = self.draw_action(ss)
    delta = r + self.mdp_info.gamma * (1 - absorbing) * self.Q.predict(ss, self.next_action) - q
    self.Q.set_weights(self.Q.get_weights() + alpha * delta * self.e)


def TrueOnlineSARSALambda(self, dataset):
    s, a, r, ss, absorbing, _ = dataset.item()
    phi = get_action_features(self.Q.model.phi(s), a, self.mdp_info.action_space.n)
    q = self.Q.predict(s, a)
    q_old = q if self._q_old is None else self._q_old
    alpha = self._alpha(s, a)
    gl = self.mdp_info.gamma * self._lambda()
    self.e = gl * self.e + alpha * (1 - self.mdp_info.gamma * self._lambda.get_value() * self.e.dot(phi)) * phi
    self.next_action, _ = self.draw_action(ss)
    q_next = self.Q.predict(ss, self.next_action) if not absorbing else 0
    delta = r + self.mdp_info.gamma * q_next - q_old
    self.Q.set_weights(self.Q.get_weights() + delta * self.e + alpha * (q_old - q) * phi)
    self._q_old = q_next


from mushroom_rl.features import get_action_features


def WeightedQLearning_next_q(self, next_state):
    means = self.Q[next_state, :]
    sigmas = np.zeros(self.Q.shape[-1])
    for a in range(sigmas.size):
        sigmas[a] = self._sigma[next_state, np.array([a])]
    if self._sampling:
        samples = np.random.normal(np.repeat([means], self._precision, 0), np.repeat([sigmas], self._precision, 0))
        max_idx = np.argmax(samples, axis=1)
        max_idx, max_count = np.unique(max_idx, return_counts=True)
        count = np.zeros(means.size)
        count[max_idx] = max_count
        self._w = count / self._precision
    else:
        raise NotImplementedError
    return np.dot(self._w, means)


def QLambda_episode_start(self, initial_state, episode_info):
    self.e.reset()
    return super().episode_start(initial_state, episode_info)


def SARSALambda_episode_start(self, initial_state, episode_info):
    self.e.reset()
    return super().episode_start(initial_state, episode_info)


def SARSALambdaContinuous_episode_start(self, initial_state, episode_info):
    self.e = np.zeros(self.Q.weights_size)
    return super().episode_start(initial_state, episode_info)


def TrueOnlineSARSALambda_episode_start(self, initial_state, episode_info):
    self._q_old = None
    self.e = np.zeros(self.Q.weights_size)
    return super().episode_start(initial_state, episode_info)
