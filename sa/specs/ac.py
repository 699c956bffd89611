"""Actor-critic methods: what one fit call must do."""
import numpy as np
import torch
from copy import deepcopy
from mushroom_rl.rl_utils.value_functions import compute_gae, compute_advantage_montecarlo
from mushroom_rl.utils.minibatches import minibatch_generator
from mushroom_rl.utils.torch import TorchUtils


def _step_actor(self, loss):
    self._optimizer.zero_grad()
    loss.backward()
    if self._clipping:
        self._clipping(self._parameters, **self._clipping_params)
    self._optimizer.step()


def _soft(self, online, target):
    for i in range(len(target)):
        target[i].set_weights(self._tau() * online[i].get_weights() + (1 - self._tau.get_value()) * target[i].get_weights())


def DDPG(self, dataset):
    self._replay_memory.add(dataset)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
        a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
        q_next = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params) * (1 - absorbing)
        self._critic_approximator.fit(state, action, reward + self.mdp_info.gamma * q_next, **self._critic_fit_params)
        if self._fit_count % self._policy_delay() == 0:
            a = self._actor_approximator(state, **self._actor_predict_params)
            q = self._critic_approximator(state, a, **self._critic_predict_params)
            _step_actor(self, -q.mean())
        _soft(self, self._critic_approximator, self._target_critic_approximator)
        _soft(self, self._actor_approximator, self._target_actor_approximator)
        self._fit_count = self._fit_count + 1


def TD3(self, dataset):
    self._replay_memory.add(dataset)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
        a = self._target_actor_approximator(next_state, **self._actor_predict_params)
        noise = np.random.normal(scale=self._noise_std(), size=a.shape)
        noise = np.clip(noise, -self._noise_clip(), self._noise_clip.get_value())
        a = np.clip(a + noise, self.mdp_info.action_space.low, self.mdp_info.action_space.high)
        q_next = self._target_critic_approximator.predict(next_state, a, prediction='min', **self._critic_predict_params) * (1 - absorbing)
        self._critic_approximator.fit(state, action, reward + self.mdp_info.gamma * q_next, **self._critic_fit_params)
        if self._fit_count % self._policy_delay() == 0:
            a = self._actor_approximator(state, **self._actor_predict_params)
            q = self._critic_approximator(state, a, idx=0, **self._critic_predict_params)
            _step_actor(self, -q.mean())
        _soft(self, self._critic_approximator, self._target_critic_approximator)
        _soft(self, self._actor_approximator, self._target_actor_approximator)
        self._fit_count = self._fit_count + 1


def SAC(self, dataset):
    self._replay_memory.add(dataset)
    if self._replay_memory.initialized:
        state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
        if self._replay_memory.size > self._warmup_transitions():
            a, log_prob = self.policy.compute_action_and_log_prob_t(state)
            q = torch.min(self._critic_approximator(state, a, idx=0), self._critic_approximator(state, a, idx=1))
            _step_actor(self, (self._log_alpha.exp() * log_prob - q).mean())
            if self._use_log_alpha_loss:
                alpha_loss = -(self._log_alpha * (log_prob + self._target_entropy)).mean()
            else:
                alpha_loss = -(self._log_alpha.exp() * (log_prob + self._target_entropy)).mean()
            self._alpha_optim.zero_grad()
            alpha_loss.backward()
            self._alpha_optim.step()
        a, log_prob = self.policy.compute_action_and_log_prob(next_state)
        q_next = self._target_critic_approximator.predict(next_state, a, prediction='min') - self._log_alpha.exp() * log_prob
        self._critic_approximator.fit(state, action, reward + self.mdp_info.gamma * (1 - absorbing) * q_next, **self._critic_fit_params)
        _soft(self, self._critic_approximator, self._target_critic_approximator)


def A2C(self, dataset):
    state, action, reward, next_state, absorbing, _ = dataset.parse(to='torch')
    v, adv = compute_advantage_montecarlo(self._V, state, next_state, reward, absorbing, self.mdp_info.gamma)
    self._V.fit(state, v, **self._critic_fit_params)
    loss = -torch.mean(self.policy.log_prob_t(state, action) * adv) - self._entropy_coeff() * self.policy.entropy_t(state)
    _step_actor(self, loss)


def PPO(self, dataset):
    state, action, reward, next_state, absorbing, last = dataset.parse(to='torch')
    state_old = self._agent_preprocess(state)
    self._update_agent_preprocessor(state)
    state = self._agent_preprocess(state)
    next_state = self._agent_preprocess(next_state)
    v_target, adv = compute_gae(self._V, state, next_state, reward, absorbing, last, self.mdp_info.gamma, self._lambda())
    adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
    old_dist = self.policy.distribution_t(state_old)
    old_log_p = old_dist.log_prob(action)[:, None].detach()
    self._V.fit(state, v_target, **self._critic_fit_params)
    for epoch in range(self._n_epochs_policy()):
        for s, a, d, p in minibatch_generator(self._batch_size(), state, action, adv, old_log_p):
            self._optimizer.zero_grad()
            ratio = torch.exp(self.policy.log_prob_t(s, a) - p)
            clipped = torch.clamp(ratio, 1 - self._eps_ppo(), 1 + self._eps_ppo.get_value())
            loss = -torch.mean(torch.min(ratio * d, clipped * d)) - self._ent_coeff() * self.policy.entropy_t(s)
            loss.backward()
            self._optimizer.step()
    self._log_info(dataset, state, v_target, old_dist)
    self._iter = self._iter + 1


def PPO_BPTT(self, dataset):
    state, action, reward, next_state, absorbing, last = dataset.parse(to='torch')
    state_old = self._agent_preprocess(state)
    self._update_agent_preprocessor(state)
    state = self._agent_preprocess(state)
    next_state = self._agent_preprocess(next_state)
    h, h_next = dataset.parse_policy_state(to='torch')
    seq = self._transform_to_sequences(state_old, state, h, action, next_state, h_next, last, absorbing)
    s_old, s, ps, act, ss, pss, lengths = seq
    v_target, adv = self.compute_gae(self._V, s, ps, ss, pss, lengths, reward, absorbing, last, self.mdp_info.gamma, self._lambda())
    adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
    old_dist = self.policy.distribution_t(s_old, ps, lengths)
    old_log_p = old_dist.log_prob(action)[:, None].detach()
    self._V.fit(s, ps, lengths, v_target, **self._critic_fit_params)
    for epoch in range(self._n_epochs_policy()):
        for o, p, a, l, d, lp in minibatch_generator(self._batch_size(), s, ps, action, lengths, adv, old_log_p):
            self._optimizer.zero_grad()
            ratio = torch.exp(self.policy.log_prob_t(o, a, p, l) - lp)
            clipped = torch.clamp(ratio, 1 - self._eps_ppo(), 1 + self._eps_ppo.get_value())
            loss = -torch.mean(torch.min(ratio * d, clipped * d)) - self._ent_coeff() * self.policy.entropy_t(o)
            loss.backward()
            self._optimizer.step()
    self._log_info(dataset, s, ps, lengths, v_target, old_dist)
    self._iter = self._iter + 1


def _kl(self, obs, old_dist):
    return torch.mean(torch.distributions.kl.kl_divergence(old_dist, self.policy.distribution_t(obs)))


def _surrogate(self, obs, act, adv, old_log_prob):
    ratio = torch.exp(self.policy.log_prob_t(obs, act) - old_log_prob)
    return torch.mean(ratio * adv) + self._ent_coeff() * self.policy.entropy_t(obs)


def _fvp(self, p, obs, old_dist):
    grads = torch.autograd.grad(_kl(self, obs, old_dist), self.policy.parameters(), create_graph=True)
    flat = torch.cat([g.view(-1) for g in grads])
    grads_v = torch.autograd.grad(torch.sum(flat * p), self.policy.parameters(), create_graph=False)
    return torch.cat([g.view(-1) for g in grads_v]) + p * self._cg_damping()


def TRPO(self, dataset):
    state, action, reward, next_state, absorbing, last = dataset.parse(to='torch')
    state_old = self._agent_preprocess(state)
    self._update_agent_preprocessor(state)
    state = self._agent_preprocess(state)
    next_state = self._agent_preprocess(next_state)
    v_target, adv = compute_gae(self._V, state, next_state, reward, absorbing, last, self.mdp_info.gamma, self._lambda())
    adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
    self._old_policy = deepcopy(self.policy)
    old_dist = self._old_policy.distribution_t(state_old)
    old_log_prob = self._old_policy.log_prob_t(state_old, action).detach()
    TorchUtils.zero_grad(self.policy.parameters())
    loss = _surrogate(self, state, action, adv, old_log_prob)
    prev_loss = loss.item()
    loss.backward()
    g = TorchUtils.get_gradient(self.policy.parameters())
    stepdir = self._conjugate_gradient(g, state, old_dist)
    # line search
    direction = _fvp(self, stepdir, state, old_dist)
    full_step = stepdir / torch.sqrt(0.5 * stepdir.dot(direction) / self._max_kl())
    stepsize = 1.
    theta_old = self.policy.get_weights()
    violation = True
    for _ in range(self._n_epochs_line_search()):
        self.policy.set_weights(theta_old + full_step * stepsize)
        new_loss = _surrogate(self, state, action, adv, old_log_prob)
        kl = _kl(self, state, old_dist)
        if kl <= self._max_kl.get_value() * 1.5 and new_loss - prev_loss >= 0:
            violation = False
            break
        stepsize *= .5
    if violation:
        self.policy.set_weights(theta_old)
    self._V.fit(state, v_target, **self._critic_fit_params)
    self._log_info(dataset, state, v_target, old_dist)
    self._iter = self._iter + 1


def TRPO_cg(self, b, obs, old_dist):
    p = b.detach()
    r = b.detach()
    x = torch.zeros_like(p)
    r2 = r.dot(r)
    for i in range(self._n_epochs_cg()):
        z = _fvp(self, p, obs, old_dist)
        v = r2 / p.dot(z)
        x = x + v * p
        r = r - v * z
        r2_new = r.dot(r)
        p = r + r2_new / r2 * p
        r2 = r2_new
        if r2 < self._cg_residual_tol():
            break
    return x


def COPDAC_Q(self, dataset):
    for step in dataset:
        s, a, r, ss, absorbing, _ = step
        psi = self._psi(s) if self._psi is not None else s
        psi_next = self._psi(ss) if self._psi is not None else ss
        v_next = self._V(psi_next).item() if not absorbing else 0
        grad = np.atleast_2d(self._mu.diff(s))
        nu = (a - self._mu(s)).dot(np.atleast_2d(self._mu.diff(s)))
        omega = self._A.get_weights()
        delta = r + self.mdp_info.gamma * v_next - (self._V(psi).item() + self._A(nu).item())
        d_theta = self._alpha_theta(s, a) * omega.dot(grad.T).dot(grad)
        d_omega = self._alpha_omega(s, a) * delta * nu
        d_v = self._alpha_v(s, a) * delta * psi
        self._mu.set_weights(self._mu.get_weights() + d_theta)
        self._A.set_weights(omega + d_omega)
        self._V.set_weights(self._V.get_weights() + d_v)


def StochasticAC(self, dataset):
    for step in dataset:
        s, a, r, ss, absorbing, _ = step
        psi = self._psi(s) if self._psi is not None else s
        psi_next = self._psi(ss) if self._psi is not None else ss
        v_next = self._V(psi_next) if not absorbing else 0
        delta = r + self.mdp_info.gamma * v_next - self._V(psi)
        self._e_v = self.mdp_info.gamma * self._lambda() * self._e_v + psi
        self._e_theta = self.mdp_info.gamma * self._lambda() * self._e_theta + self.policy.diff_log(s, a)
        d_v = self._alpha_v(s, a) * delta * self._e_v
        self._V.set_weights(self._V.get_weights() + d_v)
        d_theta = self._alpha_theta(s, a) * delta * self._e_theta
        self.policy.set_weights(self.policy.get_weights() + d_theta)


def StochasticAC_AVG(self, dataset):
    for step in dataset:
        s, a, r, ss, absorbing, _ = step
        psi = self._psi(s) if self._psi is not None else s
        psi_next = self._psi(ss) if self._psi is not None else ss
        v_next = self._V(psi_next) if not absorbing else 0
        delta = r - self._r_bar + v_next - self._V(psi)
        self._r_bar = self._r_bar + self._alpha_r() * delta
        self._e_v = self._lambda() * self._e_v + psi
        self._e_theta = self._lambda() * self._e_theta + self.policy.diff_log(s, a)
        d_v = self._alpha_v(s, a) * delta * self._e_v
        self._V.set_weights(self._V.get_weights() + d_v)
        d_theta = self._alpha_theta(s, a) * delta * self._e_theta
        self.policy.set_weights(self.policy.get_weights() + d_theta)
