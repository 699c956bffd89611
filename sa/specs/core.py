"""Experiment loop pieces."""


def _pre(self, state):
    for p in self.agent.core_preprocessors:
        p.update(state)
        state = p(state)
    return state


def Core_step(self, render, record):
    action, policy_next_state = self.agent.draw_action(self._state, self._policy_state)
    next_state, reward, absorbing, info = self.env.step(action)
    if render:
        frame = self.env.render(record)
        if record:
            self._record(frame)
    self._episode_steps = self._episode_steps + 1
    last = self._episode_steps >= self.env.info.horizon or absorbing
    state, policy_state = self._state, self._policy_state
    next_state = _pre(self, next_state)
    self._state = next_state
    self._policy_state = policy_next_state
    return (state, action, reward, next_state, absorbing, last, policy_state, policy_next_state), info


def Core_reset(self, initial_states):
    state, episode_info = self.env.reset(self._core_logic.get_initial_state(initial_states))
    self._policy_state, self._current_theta = self.agent.episode_start(state, episode_info)
    self._state = _pre(self, state)
    self.agent.next_action = None
    self._episode_steps = 0


def Core_end(self, record):
    self._state = None
    self._policy_state = None
    self._current_theta = None
    self._episode_steps = None
    if record:
        self._record.stop()
    self._core_logic.terminate_run()


def Core_run(self, dataset, n_steps, n_episodes, render, quiet, record, initial_states=None):
    self._core_logic.initialize_run(n_steps, n_episodes, initial_states, quiet)
    last = True
    while self._core_logic.move_required():
        if last:
            self._reset(initial_states)
            if self.agent.info.is_episodic:
                dataset.append_theta(self._current_theta)
        sample, step_info = self._step(render, record)
        self.callback_step(sample)
        self._core_logic.after_step(sample[5])
        dataset.append(sample, step_info)
        if self._core_logic.fit_required():
            self.agent.fit(dataset)
            self._core_logic.after_fit()
            for c in self.callbacks_fit:
                c(dataset)
            dataset.clear()
        last = sample[5]
    self.agent.stop()
    self.env.stop()
    self._end(record)
    dataset.info.parse()
    dataset.episode_info.parse()
    return dataset


def VectorCore_run(self, dataset, n_steps, n_episodes, render, quiet, record, initial_states=None):
    self._core_logic.initialize_run(n_steps, n_episodes, initial_states, quiet)
    last = self._core_logic.converter.ones(self.env.number, dtype=bool)
    mask = None
    while self._core_logic.move_required():
        if last.any():
            mask = self._core_logic.get_mask(last)
            theta, reset_mask = self._reset(initial_states, last, mask)
            if self.agent.info.is_episodic and reset_mask.any():
                dataset.append_theta_vectorized(theta, reset_mask)
        samples, step_infos = self._step(render, record, mask)
        self.callback_step(samples)
        self._core_logic.after_step(samples[5] & mask)
        dataset.append_vectorized(samples, step_infos, mask)
        last = samples[5]
        if self._core_logic.fit_required():
            self.agent.fit(dataset.flatten(self._core_logic.n_steps_per_fit))
            last = self._core_logic.after_fit_vectorized(last)
            for c in self.callbacks_fit:
                c(dataset)
            dataset.clear(self._core_logic.n_steps_per_fit)
    self.agent.stop()
    self.env.stop()
    self._end(record)
    return dataset.flatten()


def VectorCore_step(self, render, record, mask):
    action, policy_next_state = self.agent.draw_action(self._state, self._policy_state)
    next_state, reward, absorbing, info = self.env.step_all(mask, action)
    self._episode_steps[mask] = self._episode_steps[mask] + 1
    if render:
        frames = self.env.render_all(mask, record=record)
        if record:
            frames = iter(frames)
            for i in range(self.env.number):
                if mask[i]:
                    self._record[i](next(frames))
    last = absorbing | (self._episode_steps >= self.env.info.horizon)
    state, policy_state = self._state, self._policy_state
    next_state = _pre(self, next_state)
    self._state = next_state
    self._policy_state = policy_next_state
    return (state, action, reward, next_state, absorbing, last, policy_state, policy_next_state), info


def VectorCore_reset(self, initial_states, last, mask):
    reset_mask = last & mask
    state, episode_info = self.env.reset_all(reset_mask, self._core_logic.get_initial_state(initial_states, reset_mask))
    policy_state, theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
    if self._policy_state is None or policy_state is None:
        self._policy_state = policy_state
    elif reset_mask.any():
        self._policy_state[reset_mask] = policy_state[reset_mask]
    state = _pre(self, state)
    if self._state is not None:
        state[~reset_mask] = self._state[~reset_mask]
    self._state = state
    self.agent.next_action = None
    if self._episode_steps is None:
        self._episode_steps = self._core_logic.converter.zeros(self.env.number, dtype=int)
    else:
        self._episode_steps[last] = 0
    return theta, reset_mask


def VectorCore_end(self, record):
    self._state = None
    self._policy_state = None
    self._episode_steps = None
    if record:
        for record in self._record:
            record.stop()
    self._core_logic.terminate_run()


def Agent_draw_action(self, state, policy_state=None):
    if self.next_action is None:
        state = self._agent_backend.convert_to_backend(self._env_backend, state)
        for p in self._agent_preprocessors:
            state = p(state)
        action, nps = self.policy.draw_action(state, self._agent_backend.convert_to_backend(self._env_backend, policy_state))
    else:
        action = self.next_action
        nps = None
        self.next_action = None
    return self._env_backend.convert_to_backend(self._agent_backend, action), self._env_backend.convert_to_backend(self._agent_backend, nps)


def Agent_episode_start(self, initial_state, episode_info):
    return self._env_backend.convert_to_backend(self._agent_backend, self.policy.reset()), None


def Agent_preprocess(self, state):
    for p in self._agent_preprocessors:
        state = p(state)
    return state


def Agent_update_preprocessor(self, state):
    for i, p in enumerate(self._agent_preprocessors, 1):
        p.update(state)
        if i < len(self._agent_preprocessors):
            state = p(state)


def Logic_initialize_learn(self, n_steps_per_fit, n_episodes_per_fit):
    self._n_steps_per_fit = n_steps_per_fit
    self._n_episodes_per_fit = n_episodes_per_fit


def Logic_initialize_evaluate(self):
    self._n_steps_per_fit = None
    self._n_episodes_per_fit = None


def Logic_initialize_run(self, n_steps, n_episodes, initial_states, quiet):
    self._n_steps = n_steps
    self._n_episodes = len(initial_states) if initial_states is not None else n_episodes
    self._total_episodes_counter = 0
    self._total_steps_counter = 0
    self._current_episodes_counter = 0
    self._current_steps_counter = 0


def VectorLogic_initialize_run(self, n_steps, n_episodes, initial_states, quiet):
    self._n_steps = n_steps
    self._n_episodes = len(initial_states) if initial_states is not None else n_episodes
    self._total_episodes_counter = 0
    self._total_steps_counter = 0
    self._current_episodes_counter = 0
    self._current_steps_counter = 0
    self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)


def Logic_get_initial_state(self, initial_states):
    if initial_states is None or self._total_episodes_counter == self._n_episodes:
        return None
    return initial_states[self._total_episodes_counter]


def VectorLogic_get_initial_state(self, initial_states, reset_mask):
    if initial_states is None:
        return None
    start = self._total_episodes_counter + (self._running_envs & ~reset_mask).sum().item()
    states = self._array_backend.zeros(self._n_envs, *initial_states.shape[1:], dtype=initial_states.dtype)
    states[reset_mask] = initial_states[start:start + reset_mask.sum().item()]
    return states


def Logic_after_step(self, last):
    self._total_steps_counter = self._total_steps_counter + 1
    self._current_steps_counter = self._current_steps_counter + 1
    if last:
        self._total_episodes_counter = self._total_episodes_counter + 1
        self._current_episodes_counter = self._current_episodes_counter + 1


def Logic_after_fit(self):
    self._current_episodes_counter = 0
    self._current_steps_counter = 0


def Logic_move_steps(self):
    return self._total_steps_counter < self._n_steps


def Logic_fit_steps(self):
    return self._current_steps_counter >= self._n_steps_per_fit


def Logic_move_episodes(self):
    return self._total_episodes_counter < self._n_episodes


def Logic_fit_episodes(self):
    return self._current_episodes_counter >= self._n_episodes_per_fit


def VectorLogic_after_step(self, last):
    n = self._running_envs.sum().item()
    self._total_steps_counter = self._total_steps_counter + n
    self._current_steps_counter = self._current_steps_counter + n
    done = last.sum().item()
    self._total_episodes_counter = self._total_episodes_counter + done
    self._current_episodes_counter = self._current_episodes_counter + done


def VectorLogic_after_fit_vectorized(self, last):
    self._current_episodes_counter = 0
    self._current_steps_counter = 0
    if self._n_episodes_per_fit is not None:
        self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)
        return self._array_backend.ones(self._n_envs, dtype=bool)
    return last


def VectorLogic_get_mask(self, last):
    ended = (last & self._running_envs).sum().item()
    running = (~last & self._running_envs).sum().item()
    first = running == 0 and ended == 0
    if first:
        mask = self._array_backend.ones(self._n_envs, dtype=bool)
        ended = self._n_envs
    else:
        mask = self._running_envs
    runs = ended
    if self._n_episodes is not None:
        runs = min(max(self._n_episodes - self._total_episodes_counter - running, 0), runs)
    if self._n_episodes_per_fit is not None:
        runs = min(max(self._n_episodes_per_fit - self._current_episodes_counter - running, 0), runs)
    new = self._array_backend.ones(ended, dtype=bool)
    new[runs:] = False
    if first:
        mask = new
    else:
        mask[last] = new
    self._running_envs = self._array_backend.copy(mask)
    return mask
