"""DeepMind control and MiniGrid wrappers."""
from collections import deque
from copy import deepcopy
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments import Gym
from mushroom_rl.environments.dm_control_env import DMControl
from mushroom_rl.environments.minigrid_env import MiniGrid
from mushroom_rl.rl_utils.spaces import *
from mushroom_rl.rl_utils.spaces import Discrete, Box
from mushroom_rl.utils.frames import LazyFrames, preprocess_frame
from mushroom_rl.utils.viewer import CV2Viewer
import gym
import warnings

from dm_control import suite
from dm_control.suite.wrappers import pixels


def DMControl___init__(self, domain_name, task_name, horizon=None, gamma=0.99, task_kwargs=None, dt=0.01, width_screen=480, height_screen=480, camera_id=0, use_pixels=False, pixels_width=64, pixels_height=64):
    self.env = suite.load(domain_name, task_name, task_kwargs=task_kwargs)
    if use_pixels:
        self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
    if horizon is None:
        horizon = self.env._step_limit
    self.env._step_limit = np.inf
    if use_pixels:
        self._convert_observation_space = self._convert_observation_space_pixels
        self._convert_observation = self._convert_observation_pixels
    else:
        self._convert_observation_space = self._convert_observation_space_vector
        self._convert_observation = self._convert_observation_vector
    action_space = self._convert_action_space(self.env.action_spec())
    observation_space = self._convert_observation_space(self.env.observation_spec())
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._height_screen = height_screen
    self._width_screen = width_screen
    self._viewer = CV2Viewer('dm_control', dt, self._width_screen, self._height_screen)
    self._camera_id = camera_id
    super().__init__(mdp_info)
    self._state = None


def DMControl_reset(self, state=None):
    if state is None:
        self._state = self._convert_observation(self.env.reset().observation)
    else:
        raise NotImplementedError
    return (self._state.copy(), {})


def DMControl_step(self, action):
    step = self.env.step(action)
    reward = step.reward
    self._state = self._convert_observation(step.observation)
    absorbing = step.last()
    return (self._state.copy(), reward, absorbing, {})


def DMControl__convert_observation_space_vector(observation_space):
    observation_shape = 0
    for i in observation_space:
        shape = observation_space[i].shape
        observation_var = 1
        for dim in shape:
            observation_var *= dim
        observation_shape += observation_var
    return Box(low=-np.inf, high=np.inf, shape=(observation_shape,))


def DMControl__convert_observation_space_pixels(observation_space):
    img_size = observation_space['pixels'].shape
    return Box(low=0.0, high=255.0, shape=(3, img_size[0], img_size[1]))


def DMControl__convert_action_space(action_space):
    low = action_space.minimum
    high = action_space.maximum
    return Box(low=np.array(low), high=np.array(high))


def DMControl__convert_observation_vector(observation):
    obs = list()
    for i in observation:
        obs.append(np.atleast_1d(observation[i]).flatten())
    return np.concatenate(obs)


def DMControl__convert_observation_pixels(observation):
    return observation['pixels'].transpose((2, 0, 1))



def MiniGrid_reset(self, state=None):
    self._state = preprocess_frame(self.env.reset(), self._img_size)
    self._state = deque([deepcopy(self._state) for _ in range(self._history_length)], maxlen=self._history_length)
    return (LazyFrames(list(self._state), self._history_length), {})


def MiniGrid_step(self, action):
    obs, reward, absorbing, info = self.env.step(action)
    reward = float(reward)
    if reward > 0:
        reward = 1.0
    self._state.append(preprocess_frame(obs, self._img_size))
    return (LazyFrames(list(self._state), self._history_length), reward, absorbing, info)
