"""Vectorized environments."""
from multiprocessing import Pipe, Process, cpu_count
from mushroom_rl.core.environment import Environment
from mushroom_rl.core.multiprocess_environment import MultiprocessEnvironment, _env_worker
from mushroom_rl.core.vectorized_env import VectorizedEnvironment
import numpy as np



def VectorizedEnvironment___init__(self, mdp_info, n_envs):
    self._n_envs = n_envs
    self._default_env = 0
    super().__init__(mdp_info)


def VectorizedEnvironment_reset(self, state=None):
    env_mask = np.zeros(self._n_envs, dtype=bool)
    env_mask[self._default_env] = True
    return self.reset_all(env_mask, state)


def VectorizedEnvironment_step(self, action):
    env_mask = np.zeros(self._n_envs, dtype=bool)
    env_mask[self._default_env] = True
    return self.step_all(env_mask, action)


def VectorizedEnvironment_render(self, record=False):
    env_mask = np.zeros(self._n_envs, dtype=bool)
    env_mask[self._default_env] = True
    return self.render_all(env_mask, record=record)


def VectorizedEnvironment_set_default_env(self, id):
    assert id < self._n_envs, 'The selected ID is higher than the available ones'
    self._default_env = id


def VectorizedEnvironment_number(self):
    return self._n_envs



def MultiprocessEnvironment___init__(self, env_class, *args, n_envs=-1, use_generator=False, **kwargs):
    assert env_class is not None, 'Environment class requires not installed module.'
    assert n_envs > 1 or n_envs == -1
    if n_envs == -1:
        n_envs = cpu_count()
    self._remotes, self._work_remotes = zip(*[Pipe() for _ in range(n_envs)])
    self._processes = list()
    for work_remote in self._work_remotes:
        worker_process = Process(target=_env_worker, args=(work_remote, env_class, use_generator, args, kwargs))
        self._processes.append(worker_process)
    for p in self._processes:
        p.start()
    self._remotes[0].send(('info', None))
    mdp_info = self._remotes[0].recv()
    super().__init__(mdp_info, n_envs)
    self._state_shape = (n_envs,) + self.info.observation_space.shape
    self._reward_shape = (n_envs,)
    self._absorbing_shape = (n_envs,)
    self._states = np.empty(self._state_shape)


def MultiprocessEnvironment_reset_all(self, env_mask, state=None):
    for i, remote in enumerate(self._remotes):
        if env_mask[i]:
            state_i = state[i, :] if state is not None else None
            remote.send(('reset', state_i))
    episode_infos = list()
    for i, remote in enumerate(self._remotes):
        if env_mask[i]:
            state, episode_info = remote.recv()
            self._states[i] = state
            episode_infos.append(episode_info)
        else:
            episode_infos.append({})
    return (self._states.copy(), episode_infos.copy())


def MultiprocessEnvironment_step_all(self, env_mask, action):
    for i, remote in enumerate(self._remotes):
        if env_mask[i]:
            remote.send(('step', action[i, :]))
    rewards = np.empty(self._reward_shape)
    absorbings = np.zeros(self._absorbing_shape, dtype=bool)
    step_infos = list()
    for i, remote in enumerate(self._remotes):
        if env_mask[i]:
            state, reward, absorbing, step_info = remote.recv()
            self._states[i] = state
            rewards[i] = reward
            absorbings[i] = absorbing
            step_infos.append(step_info)
        else:
            step_infos.append({})
    return (self._states.copy(), rewards.copy(), absorbings.copy(), step_infos.copy())


def MultiprocessEnvironment_render_all(self, env_mask, record=False):
    for i, remote in enumerate(self._remotes):
        if env_mask[i]:
            remote.send(('render', record))
    frames = list()
    for i, remote in enumerate(self._remotes):
        if env_mask[i]:
            frame = remote.recv()
            frames.append(frame)
    return np.array(frames)


def MultiprocessEnvironment_seed(self, seed):
    for remote in self._remotes:
        remote.send(('seed', seed))
    for remote in self._remotes:
        remote.recv()


def MultiprocessEnvironment_stop(self):
    for remote in self._remotes:
        remote.send(('stop', None))
        remote.recv()


def MultiprocessEnvironment___del__(self):
    if hasattr(self, '_remotes'):
        for remote in self._remotes:
            remote.send(('close', None))
    if hasattr(self, '_processes'):
        for p in self._processes:
            p.join()


def MultiprocessEnvironment_generate(env, *args, n_envs=-1, **kwargs):
    use_generator = hasattr(env, 'generate')
    return MultiprocessEnvironment(env, *args, n_envs=n_envs, use_generator=use_generator, **kwargs)
