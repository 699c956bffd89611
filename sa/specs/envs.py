"""Environments: reset and step."""
from math import fmod
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.core.environment import MDPInfo, Environment
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.environments.car_on_hill import CarOnHill
from mushroom_rl.environments.cart_pole import CartPole
from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.environments.grid_world import AbstractGridWorld, GridWorld, GridWorldVanHasselt
from mushroom_rl.environments.inverted_pendulum import InvertedPendulum
from mushroom_rl.environments.lqr import LQR
from mushroom_rl.environments.puddle_world import PuddleWorld
from mushroom_rl.environments.segway import Segway
from mushroom_rl.environments.ship_steering import ShipSteering
from mushroom_rl.rl_utils import spaces
from mushroom_rl.rl_utils.spaces import *
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.angles import normalize_angle
from mushroom_rl.utils.viewer import Viewer
from scipy.integrate import odeint
from scipy.spatial.transform import Rotation as R
from scipy.stats import norm
import numpy as np
import warnings



def FiniteMDP___init__(self, p, rew, mu=None, gamma=0.9, horizon=np.inf, dt=0.1):
    assert p.shape == rew.shape
    assert mu is None or p.shape[0] == mu.size
    self.p = p
    self.r = rew
    self.mu = mu
    observation_space = spaces.Discrete(p.shape[0])
    action_space = spaces.Discrete(p.shape[1])
    horizon = horizon
    gamma = gamma
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    super().__init__(mdp_info)


def FiniteMDP_reset(self, state=None):
    if state is None:
        if self.mu is not None:
            self._state = np.array([np.random.choice(self.mu.size, p=self.mu)])
        else:
            self._state = np.array([np.random.choice(self.p.shape[0])])
    else:
        self._state = state
    return (self._state, {})


def FiniteMDP_step(self, action):
    p = self.p[self._state[0], action[0], :]
    next_state = np.array([np.random.choice(p.size, p=p)])
    absorbing = not np.any(self.p[next_state[0]])
    reward = self.r[self._state[0], action[0], next_state[0]]
    self._state = next_state
    return (self._state, reward, absorbing, {})



def InvertedPendulum___init__(self, random_start=False, m=1.0, l=1.0, g=9.8, mu=0.01, max_u=5.0, horizon=5000, gamma=0.99):
    self._m = m
    self._l = l
    self._g = g
    self._mu = mu
    self._random = random_start
    self._max_u = max_u
    self._max_omega = 5 / 2 * np.pi
    high = np.array([np.pi, self._max_omega])
    dt = 0.01
    observation_space = spaces.Box(low=-high, high=high)
    action_space = spaces.Box(low=np.array([-max_u]), high=np.array([max_u]))
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._viewer = Viewer(2.5 * l, 2.5 * l)
    self._last_u = None
    super().__init__(mdp_info)


def InvertedPendulum_reset(self, state=None):
    if state is None:
        if self._random:
            angle = np.random.uniform(-np.pi, np.pi)
        else:
            angle = np.pi / 2
        self._state = np.array([angle, 0.0])
    else:
        self._state = np.array(state)
        self._state[0] = normalize_angle(self._state[0])
        self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
    self._last_u = 0.0
    return (self._state, {})


def InvertedPendulum_step(self, action):
    u = self._bound(action[0], -self._max_u, self._max_u)
    new_state = odeint(self._dynamics, self._state, [0, self.info.dt], args=(u.item(),))
    self._state = np.array(new_state[-1])
    self._state[0] = normalize_angle(self._state[0])
    self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
    reward = np.cos(self._state[0])
    self._last_u = u.item()
    return (self._state, reward, False, {})


def InvertedPendulum__dynamics(self, state, t, u):
    theta = state[0]
    omega = self._bound(state[1], -self._max_omega, self._max_omega)
    d_theta = omega
    d_omega = (-self._mu * omega + self._m * self._g * self._l * np.sin(theta) + u) / (self._m * self._l ** 2)
    ds = [d_theta, d_omega]
    return ds



def CartPole___init__(self, m=2.0, M=8.0, l=0.5, g=9.8, mu=0.01, max_u=50.0, noise_u=10.0, horizon=3000, gamma=0.95):
    self._m = m
    self._M = M
    self._l = l
    self._g = g
    self._alpha = 1 / (self._m + self._M)
    self._mu = mu
    self._max_u = max_u
    self._noise_u = noise_u
    high = np.array([np.inf, np.inf])
    dt = 0.1
    observation_space = spaces.Box(low=-high, high=high)
    action_space = spaces.Discrete(3)
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._viewer = Viewer(2.5 * l, 2.5 * l)
    self._last_u = None
    self._state = None
    super().__init__(mdp_info)


def CartPole_reset(self, state=None):
    if state is None:
        angle = np.random.uniform(-np.pi / 8.0, np.pi / 8.0)
        self._state = np.array([angle, 0.0])
    else:
        self._state = np.array(state)
        self._state[0] = normalize_angle(self._state[0])
    self._last_u = 0
    return (self._state, {})


def CartPole_step(self, action):
    if action == 0:
        u = -self._max_u
    elif action == 1:
        u = 0.0
    else:
        u = self._max_u
    self._last_u = u
    u += np.random.uniform(-self._noise_u, self._noise_u)
    new_state = odeint(self._dynamics, self._state, [0, self.info.dt], (u,))
    self._state = np.array(new_state[-1])
    self._state[0] = normalize_angle(self._state[0])
    if np.abs(self._state[0]) > np.pi * 0.5:
        reward = -1.0
        absorbing = True
    else:
        reward = 0.0
        absorbing = False
    return (self._state, reward, absorbing, {})


def CartPole__dynamics(self, state, t, u):
    theta = state[0]
    omega = state[1]
    d_theta = omega
    d_omega = (self._g * np.sin(theta) - self._alpha * self._m * self._l * 0.5 * d_theta ** 2 * np.sin(2 * theta) * 0.5 - self._alpha * np.cos(theta) * u) / (2 / 3 * self._l - self._alpha * self._m * self._l * 0.5 * np.cos(theta) ** 2)
    return (d_theta, d_omega)



def Segway___init__(self, random_start=False):
    gamma = 0.97
    self._Mr = 0.3 * 2
    self._Mp = 2.55
    self._Ip = 0.026
    self._Ir = 0.000454 * 2
    self._l = 0.138
    self._r = 0.055
    self._g = 9.81
    self._max_u = 5
    self._random = random_start
    high = np.array([np.pi / 2, 15, 75])
    dt = 0.01
    observation_space = spaces.Box(low=-high, high=high)
    action_space = spaces.Box(low=np.array([-self._max_u]), high=np.array([self._max_u]))
    horizon = 300
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._viewer = Viewer(5 * self._l, 5 * self._l)
    self._last_x = 0
    super().__init__(mdp_info)


def Segway_reset(self, state=None):
    if state is None:
        if self._random:
            angle = np.random.uniform(-np.pi / 2, np.pi / 2)
        else:
            angle = -np.pi / 8
        self._state = np.array([angle, 0.0, 0.0])
    else:
        self._state = np.array(state)
        self._state[0] = normalize_angle(self._state[0])
    self._last_x = 0
    return (self._state, {})


def Segway_step(self, action):
    u = self._bound(action[0], -self._max_u, self._max_u)
    new_state = odeint(self._dynamics, self._state, [0, self.info.dt], (u,))
    self._state = np.array(new_state[-1])
    self._state[0] = normalize_angle(self._state[0])
    if abs(self._state[0]) > np.pi / 2:
        absorbing = True
        reward = -10000
    else:
        absorbing = False
        Q = np.diag([3.0, 0.1, 0.1])
        x = self._state
        J = x.dot(Q).dot(x)
        reward = -J
    return (self._state, reward, absorbing, {})


def Segway__dynamics(self, state, t, u):
    alpha = state[0]
    d_alpha = state[1]
    h1 = (self._Mr + self._Mp) * self._r ** 2 + self._Ir
    h2 = self._Mp * self._r * self._l * np.cos(alpha)
    h3 = self._l ** 2 * self._Mp + self._Ip
    omegaP = d_alpha
    dOmegaP = -(h2 * self._l * self._Mp * self._r * np.sin(alpha) * omegaP ** 2 - self._g * h1 * self._l * self._Mp * np.sin(alpha) + (h2 + h1) * u) / (h1 * h3 - h2 ** 2)
    dOmegaR = (h3 * self._l * self._Mp * self._r * np.sin(alpha) * omegaP ** 2 - self._g * h2 * self._l * self._Mp * np.sin(alpha) + (h3 + h2) * u) / (h1 * h3 - h2 ** 2)
    dx = list()
    dx.append(omegaP)
    dx.append(dOmegaP)
    dx.append(dOmegaR)
    return dx



def CarOnHill___init__(self, horizon=100, gamma=0.95):
    self.max_pos = 1.0
    self.max_velocity = 3.0
    high = np.array([self.max_pos, self.max_velocity])
    self._g = 9.81
    self._m = 1.0
    self._discrete_actions = [-4.0, 4.0]
    dt = 0.1
    observation_space = spaces.Box(low=-high, high=high)
    action_space = spaces.Discrete(2)
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._viewer = Viewer(1, 1)
    super().__init__(mdp_info)


def CarOnHill_reset(self, state=None):
    if state is None:
        self._state = np.array([-0.5, 0])
    else:
        self._state = state
    return (self._state, {})


def CarOnHill_step(self, action):
    action = self._discrete_actions[action[0]]
    sa = np.append(self._state, action)
    new_state = odeint(self._dpds, sa, [0, self.info.dt])
    self._state = new_state[-1, :-1]
    if self._state[0] < -self.max_pos or np.abs(self._state[1]) > self.max_velocity:
        reward = -1.0
        absorbing = True
    elif self._state[0] > self.max_pos and np.abs(self._state[1]) <= self.max_velocity:
        reward = 1.0
        absorbing = True
    else:
        reward = 0.0
        absorbing = False
    return (self._state, reward, absorbing, {})


def CarOnHill__dpds(self, state_action, t):
    position = state_action[0]
    velocity = state_action[1]
    u = state_action[-1]
    if position < 0.0:
        diff_hill = 2 * position + 1
        diff_2_hill = 2
    else:
        diff_hill = 1 / (1 + 5 * position ** 2) ** 1.5
        diff_2_hill = -15 * position / (1 + 5 * position ** 2) ** 2.5
    dp = velocity
    ds = (u - self._g * self._m * diff_hill - velocity ** 2 * self._m * diff_hill * diff_2_hill) / (self._m * (1 + diff_hill ** 2))
    return (dp, ds, 0.0)



def PuddleWorld___init__(self, start=None, goal=None, goal_threshold=0.1, noise_step=0.025, noise_reward=0, reward_goal=0.0, thrust=0.05, puddle_center=None, puddle_width=None, gamma=0.99, horizon=5000):
    self._start = np.array([0.2, 0.4]) if start is None else start
    self._goal = np.array([1.0, 1.0]) if goal is None else goal
    self._goal_threshold = goal_threshold
    self._noise_step = noise_step
    self._noise_reward = noise_reward
    self._reward_goal = reward_goal
    self._thrust = thrust
    puddle_center = [[0.3, 0.6], [0.4, 0.5], [0.8, 0.9]] if puddle_center is None else puddle_center
    self._puddle_center = [np.array(center) for center in puddle_center]
    puddle_width = [[0.1, 0.03], [0.03, 0.1], [0.03, 0.1]] if puddle_width is None else puddle_width
    self._puddle_width = [np.array(width) for width in puddle_width]
    self._actions = [np.zeros(2) for _ in range(5)]
    for i in range(4):
        self._actions[i][i // 2] = thrust * (i % 2 * 2 - 1)
    dt = 0.1
    action_space = Discrete(5)
    observation_space = Box(0.0, 1.0, shape=(2,))
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._pixels = None
    self._viewer = Viewer(1.0, 1.0)
    super().__init__(mdp_info)


def PuddleWorld_reset(self, state=None):
    if state is None:
        self._state = self._start.copy()
    else:
        self._state = state
    return (self._state, {})


def PuddleWorld_step(self, action):
    idx = action[0]
    noise = np.random.uniform(low=-self._noise_step, high=self._noise_step, size=(2,))
    next_state = self._state + self._actions[idx] + noise
    next_state = np.clip(next_state, 0.0, 1.0)
    absorbing = np.linalg.norm(next_state - self._goal, ord=1) < self._goal_threshold
    if not absorbing:
        reward = np.random.randn() * self._noise_reward + self._get_reward(next_state)
    else:
        reward = self._reward_goal
    self._state = next_state
    return (next_state, reward, absorbing, {})


def PuddleWorld__get_reward(self, state):
    reward = -1.0
    for cen, wid in zip(self._puddle_center, self._puddle_width):
        reward -= 2.0 * norm.pdf(state[0], cen[0], wid[0]) * norm.pdf(state[1], cen[1], wid[1])
    return reward



def ShipSteering___init__(self, small=True, n_steps_action=3):
    self.field_size = 150 if small else 1000
    low = np.array([0, 0, -np.pi, -np.pi / 12.0])
    high = np.array([self.field_size, self.field_size, np.pi, np.pi / 12.0])
    self.omega_max = np.array([np.pi / 12.0])
    self._v = 3.0
    self._T = 5.0
    self._gate_s = np.empty(2)
    self._gate_e = np.empty(2)
    self._gate_s[0] = 100 if small else 350
    self._gate_s[1] = 120 if small else 400
    self._gate_e[0] = 120 if small else 450
    self._gate_e[1] = 100 if small else 400
    self._out_reward = -100
    self._success_reward = 0
    self._small = small
    self._state = None
    self.n_steps_action = n_steps_action
    dt = 0.2
    observation_space = spaces.Box(low=low, high=high)
    action_space = spaces.Box(low=-self.omega_max, high=self.omega_max)
    horizon = 5000
    gamma = 0.99
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._viewer = Viewer(self.field_size, self.field_size, background=(66, 131, 237))
    super().__init__(mdp_info)


def ShipSteering_reset(self, state=None):
    if state is None:
        if self._small:
            self._state = np.zeros(4)
            self._state[2] = np.pi / 2
        else:
            low = self.info.observation_space.low
            high = self.info.observation_space.high
            self._state = (high - low) * np.random.rand(4) + low
    else:
        self._state = state
    return (self._state, {})


def ShipSteering_step(self, action):
    r = self._bound(action[0], -self.omega_max, self.omega_max)
    new_state = self._state
    for _ in range(self.n_steps_action):
        state = new_state
        new_state = np.empty(4)
        new_state[0] = state[0] + self._v * np.cos(state[2]) * self.info.dt
        new_state[1] = state[1] + self._v * np.sin(state[2]) * self.info.dt
        new_state[2] = normalize_angle(state[2] + state[3] * self.info.dt)
        new_state[3] = state[3] + (r - state[3]) * self.info.dt / self._T
        if new_state[0] > self.field_size or new_state[1] > self.field_size or new_state[0] < 0 or (new_state[1] < 0):
            new_state[0] = self._bound(new_state[0], 0, self.field_size)
            new_state[1] = self._bound(new_state[1], 0, self.field_size)
            reward = self._out_reward
            absorbing = True
            break
        elif self._through_gate(state[:2], new_state[:2]):
            reward = self._success_reward
            absorbing = True
            break
        else:
            reward = -1
            absorbing = False
    self._state = new_state
    return (self._state, reward, absorbing, {})


def ShipSteering__through_gate(self, start, end):
    r = self._gate_e - self._gate_s
    s = end - start
    den = self._cross_2d(vecr=r, vecs=s)
    if den == 0:
        return False
    t = self._cross_2d(start - self._gate_s, s) / den
    u = self._cross_2d(start - self._gate_s, r) / den
    return 1 >= u >= 0 and 1 >= t >= 0


def ShipSteering__cross_2d(vecr, vecs):
    return vecr[0] * vecs[1] - vecr[1] * vecs[0]



def LQR___init__(self, A, B, Q, R, max_pos=np.inf, max_action=np.inf, random_init=False, episodic=False, gamma=0.9, horizon=50, initial_state=None, dt=0.1):
    self.A = A
    self.B = B
    self.Q = Q
    self.R = R
    self._max_pos = max_pos
    self._max_action = max_action
    self._episodic = episodic
    self.random_init = random_init
    self._initial_state = initial_state
    high_x = self._max_pos * np.ones(A.shape[0])
    low_x = -high_x
    high_u = self._max_action * np.ones(B.shape[1])
    low_u = -high_u
    observation_space = spaces.Box(low=low_x, high=high_x)
    action_space = spaces.Box(low=low_u, high=high_u)
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    self._state = None
    super().__init__(mdp_info)


def LQR_generate(dimensions=None, s_dim=None, a_dim=None, max_pos=np.inf, max_action=np.inf, eps=0.1, index=0, scale=1.0, random_init=False, episodic=False, gamma=0.9, horizon=50, initial_state=None):
    assert dimensions != None or (s_dim != None and a_dim != None)
    if s_dim == None or a_dim == None:
        s_dim = dimensions
        a_dim = dimensions
    A = np.eye(s_dim)
    B = np.eye(s_dim, a_dim)
    Q = eps * np.eye(s_dim) * scale
    R = (1.0 - eps) * np.eye(a_dim) * scale
    Q[index, index] = (1.0 - eps) * scale
    R[index, index] = eps * scale
    return LQR(A, B, Q, R, max_pos, max_action, random_init, episodic, gamma, horizon, initial_state)


def LQR_reset(self, state=None):
    if state is None:
        if self.random_init:
            rand_state = np.random.uniform(-3, 3, size=self.A.shape[0])
            self._state = self._bound(rand_state, self.info.observation_space.low, self.info.observation_space.high)
        elif self._initial_state is not None:
            self._state = self._initial_state
        else:
            init_value = 0.9 * self._max_pos if np.isfinite(self._max_pos) else 10
            self._state = init_value * np.ones(self.A.shape[0])
    else:
        self._state = state
    return (self._state, {})


def LQR_step(self, action):
    x = self._state
    u = self._bound(action, self.info.action_space.low, self.info.action_space.high)
    reward = -(x.dot(self.Q).dot(x) + u.dot(self.R).dot(u))
    self._state = self.A.dot(x) + self.B.dot(u)
    absorbing = False
    if np.any(np.abs(self._state) > self._max_pos):
        if self._episodic:
            reward = -self._max_pos ** 2 * 10
            absorbing = True
        else:
            self._state = self._bound(self._state, self.info.observation_space.low, self.info.observation_space.high)
    return (self._state, reward, absorbing, {})



def AbstractGridWorld___init__(self, mdp_info, height, width, start, goal):
    assert not np.array_equal(start, goal)
    assert goal[0] < height and goal[1] < width, 'Goal position not suitable for the grid world dimension.'
    self._state = None
    self._height = height
    self._width = width
    self._start = start
    self._goal = goal
    self._viewer = Viewer(self._width, self._height, 500, self._height * 500 // self._width)
    super().__init__(mdp_info)


def AbstractGridWorld_reset(self, state=None):
    if state is None:
        state = self.convert_to_int(self._start, self._width)
    self._state = state
    return (self._state, {})


def AbstractGridWorld_step(self, action):
    state = self.convert_to_grid(self._state, self._width)
    new_state, reward, absorbing, info = self._step(state, action)
    self._state = self.convert_to_int(new_state, self._width)
    return (self._state, reward, absorbing, info)


def AbstractGridWorld__grid_step(self, state, action):
    action = action[0]
    if action == 0:
        if state[0] > 0:
            state[0] -= 1
    elif action == 1:
        if state[0] + 1 < self._height:
            state[0] += 1
    elif action == 2:
        if state[1] > 0:
            state[1] -= 1
    elif action == 3:
        if state[1] + 1 < self._width:
            state[1] += 1


def AbstractGridWorld_convert_to_grid(state, width):
    return np.array([state[0] // width, state[0] % width])


def AbstractGridWorld_convert_to_int(state, width):
    return np.array([state[0] * width + state[1]])


def GridWorld___init__(self, height, width, goal, start=(0, 0), dt=0.1):
    observation_space = spaces.Discrete(height * width)
    action_space = spaces.Discrete(4)
    horizon = 100
    gamma = 0.9
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    super().__init__(mdp_info, height, width, start, goal)


def GridWorld__step(self, state, action):
    self._grid_step(state, action)
    if np.array_equal(state, self._goal):
        reward = 10
        absorbing = True
    else:
        reward = 0
        absorbing = False
    return (state, reward, absorbing, {})


def GridWorldVanHasselt___init__(self, height=3, width=3, goal=(0, 2), start=(2, 0), dt=0.1):
    observation_space = spaces.Discrete(height * width)
    action_space = spaces.Discrete(4)
    horizon = np.inf
    gamma = 0.95
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
    super().__init__(mdp_info, height, width, start, goal)


def GridWorldVanHasselt__step(self, state, action):
    if np.array_equal(state, self._goal):
        reward = 5
        absorbing = True
    else:
        self._grid_step(state, action)
        reward = np.random.choice([-12, 10])
        absorbing = False
    return (state, reward, absorbing, {})



def Box___init__(self, low, high, shape=None, data_type=float):
    if shape is None:
        self._low = low
        self._high = high
        self._shape = low.shape
    else:
        self._low = low
        self._high = high
        self._shape = shape
        if np.isscalar(low) and np.isscalar(high):
            self._low += np.zeros(shape)
            self._high += np.zeros(shape)
    assert self._low.shape == self._high.shape
    self._data_type = data_type


def Box_low(self):
    return self._low


def Box_high(self):
    return self._high


def Box_shape(self):
    return self._shape


def Box_data_type(self):
    return self._data_type


def Box__post_load(self):
    self._shape = self._low.shape


def Discrete___init__(self, n):
    self.values = np.arange(n)
    self.n = n


def Discrete_size(self):
    return (self.n,)


def Discrete_shape(self):
    return (1,)


def Discrete_data_type(self):
    return int



def MDPInfo___init__(self, observation_space, action_space, gamma, horizon, dt=0.1, backend='numpy'):
    self.observation_space = observation_space
    self.action_space = action_space
    self.gamma = gamma
    self.horizon = horizon
    self.dt = dt
    self.backend = backend


def MDPInfo_size(self):
    return self.observation_space.size + self.action_space.size


def MDPInfo_shape(self):
    return self.observation_space.shape + self.action_space.shape


def Environment_register(cls):
    env_name = cls.__name__
    if env_name not in Environment._registered_envs:
        Environment._registered_envs[env_name] = cls


def Environment_list_registered():
    return list(Environment._registered_envs.keys())


def Environment_make(env_name, *args, **kwargs):
    if '.' in env_name:
        env_data = env_name.split('.')
        env_name = env_data[0]
        args = env_data[1:] + list(args)
    env = Environment._registered_envs[env_name]
    if hasattr(env, 'generate'):
        return env.generate(*args, **kwargs)
    else:
        return env(*args, **kwargs)


def Environment___init__(self, mdp_info):
    self._mdp_info = mdp_info


def Environment_seed(self, seed):
    if hasattr(self, 'env') and hasattr(self.env, 'seed'):
        self.env.seed(seed)
    else:
        warnings.warn('This environment has no custom seed. The call will have no effect. You can set the seed manually by setting numpy/torch seed')


def Environment_info(self):
    return self._mdp_info


def Environment__bound(x, min_value, max_value):
    return np.maximum(min_value, np.minimum(x, max_value))
