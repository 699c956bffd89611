import torch
from gym import spaces as gym_spaces
from omni.isaac.kit import SimulationApp
from omniisaacgymenvs.utils.task_util import initialize_task
from mushroom_rl.core import VectorizedEnvironment, MDPInfo
from mushroom_rl.utils.viewer import ImageViewer
from mushroom_rl.utils.isaac_utils import convert_task_observation
from mushroom_rl.rl_utils.spaces import *
from mushroom_rl.environments.isaac_env import IsaacEnv


def IsaacEnv_reset_all(self, env_mask, state=None):
    idxs = torch.argwhere(env_mask).squeeze(1)
    if idxs.shape[0] > 0:
        self._task.reset_idx(idxs)
    task_obs = self._task.get_observations()
    task_extras = self._task.get_extras()
    observation = convert_task_observation(task_obs)
    return (observation.clone(), [task_extras] * self._n_envs)


def IsaacEnv_step_all(self, env_mask, action):
    self._task.pre_physics_step(action)
    for _ in range(self._task.control_frequency_inv):
        self._world.step(render=self._render)
    observation, reward, done, info = self._task.post_physics_step()
    observation = convert_task_observation(observation)
    env_mask_cuda = torch.as_tensor(env_mask).cuda()
    return (observation.clone(), reward, torch.logical_and(done, env_mask_cuda), [info] * self._n_envs)


def IsaacEnv_render_all(self, env_mask, record=False):
    self._world.render()
    task_render = self._task.get_render()
    self._viewer.display(task_render)
    if record:
        return task_render


def IsaacEnv_stop(self):
    self._world.reset()


def IsaacEnv__convert_gym_space(space):
    if isinstance(space, gym_spaces.Discrete):
        return Discrete(space.n)
    elif isinstance(space, gym_spaces.Box):
        return Box(low=space.low, high=space.high, shape=space.shape)
    else:
        raise ValueError
import warnings
import gym
from gym_minigrid.wrappers import RGBImgPartialObsWrapper, ImgObsWrapper
from copy import deepcopy
from collections import deque
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments import Gym
from mushroom_rl.rl_utils.spaces import Discrete, Box
from mushroom_rl.utils.frames import LazyFrames, preprocess_frame
from mushroom_rl.environments.minigrid_env import MiniGrid


def MiniGrid___init__(self, name, horizon=None, gamma=0.99, history_length=4, fixed_seed=None, use_pixels=False):
    self._not_pybullet = True
    self._first = True
    env = gym.make(name)
    obs_high = 10.0
    if use_pixels:
        env = RGBImgPartialObsWrapper(env)
        obs_high = 255.0
    env = ImgObsWrapper(env)
    self.env = env
    self._fixed_seed = fixed_seed
    self._img_size = env.observation_space.shape[0:2]
    self._history_length = history_length
    if horizon is None:
        horizon = self.env.max_steps
    action_space = Discrete(self.env.action_space.n)
    observation_space = Box(low=0.0, high=obs_high, shape=(history_length, self._img_size[1], self._img_size[0]))
    self.env.max_steps = horizon + 1
    dt = 1 / self.env.unwrapped.metadata['render_fps']
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    Environment.__init__(self, mdp_info)
    self._state = None


def MiniGrid_reset(self, state=None):
    self._state = preprocess_frame(self.env.reset(), self._img_size)
    self._state = deque([deepcopy(self._state) for _ in range(self._history_length)], maxlen=self._history_length)
    return (LazyFrames(list(self._state), self._history_length), {})


def MiniGrid_step(self, action):
    obs, reward, absorbing, info = self.env.step(action)
    reward = float(reward)
    if reward > 0:
        reward = 1.0
    self._state.append(preprocess_frame(obs, self._img_size))
    return (LazyFrames(list(self._state), self._history_length), reward, absorbing, info)
import warnings
import gym
from gym_minigrid.wrappers import RGBImgPartialObsWrapper, ImgObsWrapper
import numpy as np
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments import Gym
from mushroom_rl.rl_utils.spaces import Discrete, Box
from mushroom_rl.utils.viewer import ImageViewer
from mushroom_rl.environments.igibson_env import iGibsonWrapper, iGibson


def iGibsonWrapper___init__(self, env):
    gym.ObservationWrapper.__init__(self, env)
    self.observation_space = env.observation_space.spaces['rgb']


def iGibsonWrapper_observation(self, observation):
    return observation['rgb'] * 255.0


def iGibson_reset(self, state=None):
    assert state is None, 'Cannot set iGibson state'
    return (self._convert_observation(np.atleast_1d(self.env.reset())), {})


def iGibson_step(self, action):
    action = self._convert_action(action)
    obs, reward, absorbing, info = self.env.step(action)
    self._image = obs.copy()
    return (self._convert_observation(np.atleast_1d(obs)), reward, absorbing, info)


def iGibson_render(self, record=False):
    self._viewer.display(self._image)
    if record:
        return self._image
    else:
        return None


def iGibson__convert_observation(observation):
    return observation.transpose((2, 0, 1))
import warnings
import os
import gym
from gym_minigrid.wrappers import RGBImgPartialObsWrapper, ImgObsWrapper
import numpy as np
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments import Gym
from mushroom_rl.rl_utils.spaces import Discrete, Box
from mushroom_rl.utils.viewer import ImageViewer
from mushroom_rl.environments.habitat_env import HabitatNavigationWrapper, HabitatRearrangeWrapper, Habitat


def HabitatNavigationWrapper___init__(self, env):
    gym.Wrapper.__init__(self, env)
    self.action_space = self.env.action_space
    self.observation_space = self.env.observation_space['rgb']
    self._last_full_obs = None


def HabitatNavigationWrapper_reset(self):
    return np.asarray(self.env.reset()['rgb'])


def HabitatNavigationWrapper_step(self, action):
    obs, rwd, done, info = self.env.step(**{'action': action[0]})
    info.update({'position': self.get_position()})
    obs = np.asarray(obs['rgb'])
    self._last_full_obs = obs
    return (obs, rwd, done, info)


def HabitatRearrangeWrapper___init__(self, env):
    gym.Wrapper.__init__(self, env)
    self.arm_ac_size = env.action_space['ARM_ACTION']['arm_action'].shape[0]
    self.grip_ac_size = env.action_space['ARM_ACTION']['grip_action'].shape[0]
    self.n_actions = self.arm_ac_size + self.grip_ac_size
    low = np.array([0.0] * self.arm_ac_size + [-1.0] * self.grip_ac_size)
    high = np.ones(self.arm_ac_size + self.grip_ac_size)
    self.action_space = Box(low=low, high=high, shape=(self.n_actions,))
    self.observation_space = self.env.observation_space['robot_head_rgb']
    self._last_full_obs = None


def HabitatRearrangeWrapper_reset(self):
    return np.asarray(self.env.reset()['robot_head_rgb'])


def HabitatRearrangeWrapper_get_ee_position(self):
    return self.env._env._sim.robot.ee_transform.translation


def HabitatRearrangeWrapper_step(self, action):
    action = {'action': 'ARM_ACTION', 'action_args': {'arm_action': action[:-self.grip_ac_size], 'grip_action': action[-self.grip_ac_size:]}}
    obs, rwd, done, info = self.env.step(**{'action': action})
    info.update({'ee_position': np.asarray(obs['ee_pos'])})
    obs = np.asarray(obs['robot_head_rgb'])
    self._last_full_obs = obs
    return (obs, rwd, done, info)


def Habitat_reset(self, state=None):
    assert state is None, 'Cannot set Habitat state'
    obs = self._convert_observation(np.atleast_1d(self.env.reset()))
    return (obs, {})


def Habitat_step(self, action):
    action = self._convert_action(action)
    obs, reward, absorbing, info = self.env.step(action)
    return (self._convert_observation(np.atleast_1d(obs)), reward, absorbing, info)


def Habitat__convert_observation(observation):
    return observation.transpose((2, 0, 1))
