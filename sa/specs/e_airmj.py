import os
import numpy as np
import mujoco
from mushroom_rl.environments.mujoco import MuJoCo
from mushroom_rl.environments.mujoco import ObservationType
from mushroom_rl.environments.mujoco_envs import __file__ as path_robots
from mushroom_rl.environments.mujoco_envs.air_hockey.base import AirHockeyBase


def AirHockeyBase___init__(self, n_agents=1, env_noise=False, obs_noise=False, gamma=0.99, horizon=500, timestep=1 / 240.0, n_substeps=1, n_intermediate_steps=1, default_camera_mode='top_static', **viewer_params):
    self.n_agents = n_agents
    self.env_noise = env_noise
    self.obs_noise = obs_noise
    self.agents = []
    action_spec = []
    observation_spec = [('puck_pos', 'puck', ObservationType.JOINT_POS), ('puck_vel', 'puck', ObservationType.JOINT_VEL)]
    additional_data = [('puck_pos', 'puck', ObservationType.JOINT_POS), ('puck_vel', 'puck', ObservationType.JOINT_VEL)]
    collision_spec = [('puck', ['puck']), ('rim', ['rim_home_l', 'rim_home_r', 'rim_away_l', 'rim_away_r', 'rim_left', 'rim_right']), ('rim_short_sides', ['rim_home_l', 'rim_home_r', 'rim_away_l', 'rim_away_r'])]
    if 1 <= self.n_agents <= 2:
        scene = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'single.xml')
        action_spec += ['planar_robot_1/joint_1', 'planar_robot_1/joint_2', 'planar_robot_1/joint_3']
        observation_spec += [('robot_1/joint_1_pos', 'planar_robot_1/joint_1', ObservationType.JOINT_POS), ('robot_1/joint_2_pos', 'planar_robot_1/joint_2', ObservationType.JOINT_POS), ('robot_1/joint_3_pos', 'planar_robot_1/joint_3', ObservationType.JOINT_POS), ('robot_1/joint_1_vel', 'planar_robot_1/joint_1', ObservationType.JOINT_VEL), ('robot_1/joint_2_vel', 'planar_robot_1/joint_2', ObservationType.JOINT_VEL), ('robot_1/joint_3_vel', 'planar_robot_1/joint_3', ObservationType.JOINT_VEL)]
        additional_data += [('robot_1/ee_pos', 'planar_robot_1/body_ee', ObservationType.BODY_POS), ('robot_1/ee_vel', 'planar_robot_1/body_ee', ObservationType.BODY_VEL_WORLD)]
        collision_spec += [('robot_1/ee', ['planar_robot_1/ee'])]
        if self.n_agents == 2:
            scene = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'double.xml')
            action_spec += ['planar_robot_2/joint_1', 'planar_robot_2/joint_2', 'planar_robot_2/joint_3']
            observation_spec += [('robot_2/puck_pos', 'puck', ObservationType.JOINT_POS), ('robot_2/puck_vel', 'puck', ObservationType.JOINT_VEL), ('robot_2/joint_1_pos', 'planar_robot_2/joint_1', ObservationType.JOINT_POS), ('robot_2/joint_2_pos', 'planar_robot_2/joint_2', ObservationType.JOINT_POS), ('robot_2/joint_3_pos', 'planar_robot_2/joint_3', ObservationType.JOINT_POS), ('robot_2/joint_1_vel', 'planar_robot_2/joint_1', ObservationType.JOINT_VEL), ('robot_2/joint_2_vel', 'planar_robot_2/joint_2', ObservationType.JOINT_VEL), ('robot_2/joint_3_vel', 'planar_robot_2/joint_3', ObservationType.JOINT_VEL)]
            additional_data += [('robot_2/ee_pos', 'planar_robot_2/body_ee', ObservationType.BODY_POS), ('robot_2/ee_vel', 'planar_robot_2/body_ee', ObservationType.BODY_VEL_WORLD)]
            collision_spec += [('robot_2/ee', ['planar_robot_2/ee'])]
    else:
        raise ValueError('n_agents should be 1 or 2')
    self.env_spec = dict()
    self.env_spec['table'] = {'length': 1.96, 'width': 1.02, 'height': -0.189, 'goal': 0.25}
    self.env_spec['puck'] = {'radius': 0.03165}
    self.env_spec['mallet'] = {'radius': 0.05}
    robot_path = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'planar_robot_1.xml')
    self.robot_model = mujoco.MjModel.from_xml_path(robot_path)
    self.robot_model.body('planar_robot_1/base').pos = np.zeros(3)
    self.robot_data = mujoco.MjData(self.robot_model)
    agent_spec = dict()
    agent_spec['name'] = 'planar_robot_1'
    agent_spec.update({'link_length': [0.5, 0.4, 0.4], 'max_joint_vel': np.array([np.pi / 2, np.pi / 2, np.pi * 2 / 3])})
    self.agents.append(agent_spec)
    if self.n_agents == 2:
        agent_spec = dict()
        agent_spec['name'] = 'planar_robot_2'
        agent_spec.update({'link_length': [0.5, 0.4, 0.4], 'max_joint_vel': np.array([np.pi / 2, np.pi / 2, np.pi * 2 / 3])})
        self.agents.append(agent_spec)
    max_joint_vel = np.concatenate([spec['max_joint_vel'] for spec in self.agents])
    super().__init__(scene, action_spec, observation_spec, gamma, horizon, timestep, n_substeps, n_intermediate_steps, additional_data, collision_spec, max_joint_vel, default_camera_mode=default_camera_mode, **viewer_params)
    for i, agent_spec in enumerate(self.agents):
        agent_spec['frame'] = np.eye(4)
        temp = np.zeros((9, 1))
        mujoco.mju_quat2Mat(temp, self._model.body('planar_robot_' + str(i + 1) + '/base').quat)
        agent_spec['frame'][:3, :3] = temp.reshape(3, 3)
        agent_spec['frame'][:3, 3] = self._model.body('planar_robot_' + str(i + 1) + '/base').pos


def AirHockeyBase__simulation_pre_step(self):
    if self.env_noise:
        force = np.random.randn(2) * 0.0005
        self._data.body('puck').xfrc_applied[:2] = force


def AirHockeyBase_is_absorbing(self, obs):
    boundary = np.array([self.env_spec['table']['length'], self.env_spec['table']['width']]) / 2
    puck_pos = self.obs_helper.get_from_obs(obs, 'puck_pos')
    puck_vel = self.obs_helper.get_from_obs(obs, 'puck_vel')
    if np.any(np.abs(puck_pos[:2]) > boundary) or np.linalg.norm(puck_vel) > 100:
        return True
    return False


def AirHockeyBase__puck_2d_in_robot_frame(puck_in, robot_frame, type='pose'):
    if type == 'pose':
        puck_frame = np.eye(4)
        puck_frame[:2, 3] = puck_in
        frame_target = np.linalg.inv(robot_frame) @ puck_frame
        puck_in[:] = frame_target[:2, 3]
    if type == 'vel':
        rot_mat = robot_frame[:3, :3]
        vel_lin = np.zeros(3)
        vel_lin[:2] = puck_in[:2]
        vel_target = rot_mat.T @ vel_lin
        puck_in[:2] = vel_target[:2]
import numpy as np
import mujoco
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.environments.mujoco_envs.air_hockey.base import AirHockeyBase
from mushroom_rl.utils.mujoco import forward_kinematics
from mushroom_rl.environments.mujoco_envs.air_hockey.single import AirHockeySingle


def AirHockeySingle___init__(self, gamma=0.99, horizon=120, env_noise=False, obs_noise=False, timestep=1 / 240.0, n_intermediate_steps=1, **viewer_params):
    self.init_state = np.array([-0.9273, 0.9273, np.pi / 2])
    super().__init__(gamma=gamma, horizon=horizon, env_noise=env_noise, n_agents=1, obs_noise=obs_noise, timestep=timestep, n_intermediate_steps=n_intermediate_steps, **viewer_params)
    self.obs_helper.remove_obs('puck_pos', 2)
    self.obs_helper.remove_obs('puck_pos', 3)
    self.obs_helper.remove_obs('puck_pos', 4)
    self.obs_helper.remove_obs('puck_pos', 5)
    self.obs_helper.remove_obs('puck_pos', 6)
    self.obs_helper.remove_obs('puck_vel', 2)
    self.obs_helper.remove_obs('puck_vel', 3)
    self.obs_helper.remove_obs('puck_vel', 4)
    self.obs_helper.add_obs('collision_robot_1_puck', 1, 0, 1)
    self.obs_helper.add_obs('collision_short_sides_rim_puck', 1, 0, 1)
    self._mdp_info.observation_space = Box(*self.obs_helper.get_obs_limits())
    self.has_hit = False
    self.has_bounce = False


def AirHockeySingle_get_puck(self, obs):
    puck_pos = self.obs_helper.get_from_obs(obs, 'puck_pos')
    puck_lin_vel = self.obs_helper.get_from_obs(obs, 'puck_vel')[:2]
    puck_ang_vel = self.obs_helper.get_from_obs(obs, 'puck_vel')[2]
    return (puck_pos, puck_lin_vel, puck_ang_vel)


def AirHockeySingle_get_ee(self):
    ee_pos = self._read_data('robot_1/ee_pos')
    ee_vel = self._read_data('robot_1/ee_vel')
    return (ee_pos, ee_vel)


def AirHockeySingle__modify_observation(self, obs):
    new_obs = obs.copy()
    self._puck_2d_in_robot_frame(self.obs_helper.get_from_obs(new_obs, 'puck_pos'), self.agents[0]['frame'])
    self._puck_2d_in_robot_frame(self.obs_helper.get_from_obs(new_obs, 'puck_vel'), self.agents[0]['frame'], type='vel')
    if self.obs_noise:
        self.obs_helper.get_from_obs(new_obs, 'puck_pos')[:] += np.random.randn(2) * 0.001
    return new_obs


def AirHockeySingle_setup(self, obs):
    self.has_hit = False
    self.has_bounce = False
    for i in range(3):
        self._data.joint('planar_robot_1/joint_' + str(i + 1)).qpos = self.init_state[i]
    super().setup(obs)
    mujoco.mj_fwdPosition(self._model, self._data)


def AirHockeySingle__simulation_post_step(self):
    if not self.has_hit:
        self.has_hit = self._check_collision('puck', 'robot_1/ee')
    if not self.has_bounce:
        self.has_bounce = self._check_collision('puck', 'rim_short_sides')


def AirHockeySingle__create_observation(self, state):
    obs = super(AirHockeySingle, self)._create_observation(state)
    return np.append(obs, [self.has_hit, self.has_bounce])


def AirHockeySingle__create_info_dictionary(self, obs):
    constraints = {}
    q_pos = self.obs_helper.get_joint_pos_from_obs(obs)
    q_vel = self.obs_helper.get_joint_vel_from_obs(obs)
    x_pos, _ = forward_kinematics(self.robot_model, self.robot_data, q_pos, 'planar_robot_1/body_ee')
    ee_pos = x_pos + self.agents[0]['frame'][:3, 3]
    x_lb = -(self.env_spec['table']['length'] / 2 + self.env_spec['mallet']['radius'])
    y_lb = -(self.env_spec['table']['width'] / 2 - self.env_spec['mallet']['radius'])
    y_ub = self.env_spec['table']['width'] / 2 - self.env_spec['mallet']['radius']
    constraints['ee_constraints'] = np.array([-ee_pos[0] + x_lb, -ee_pos[1] + y_lb, ee_pos[1] - y_ub])
    constraints['joint_pos_constraints'] = np.zeros(6)
    constraints['joint_pos_constraints'][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1]
    constraints['joint_pos_constraints'][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_pos
    constraints['joint_vel_constraints'] = np.zeros(6)
    constraints['joint_vel_constraints'][:3] = q_vel - self.obs_helper.get_joint_vel_limits()[1]
    constraints['joint_vel_constraints'][3:] = self.obs_helper.get_joint_vel_limits()[0] - q_vel
    return constraints
import numpy as np
import mujoco
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.environments.mujoco_envs.air_hockey.base import AirHockeyBase
from mushroom_rl.utils.mujoco import forward_kinematics
from mushroom_rl.environments.mujoco_envs.air_hockey.double import AirHockeyDouble


def AirHockeyDouble___init__(self, gamma=0.99, horizon=120, env_noise=False, obs_noise=False, timestep=1 / 240.0, n_intermediate_steps=1, **viewer_params):
    self.init_state = np.array([-0.9273, 0.9273, np.pi / 2])
    super().__init__(gamma=gamma, horizon=horizon, env_noise=env_noise, n_agents=2, obs_noise=obs_noise, timestep=timestep, n_intermediate_steps=n_intermediate_steps, **viewer_params)
    self.obs_helper.remove_obs('puck_pos', 2)
    self.obs_helper.remove_obs('puck_pos', 3)
    self.obs_helper.remove_obs('puck_pos', 4)
    self.obs_helper.remove_obs('puck_pos', 5)
    self.obs_helper.remove_obs('puck_pos', 6)
    self.obs_helper.remove_obs('robot_2/puck_pos', 2)
    self.obs_helper.remove_obs('robot_2/puck_pos', 3)
    self.obs_helper.remove_obs('robot_2/puck_pos', 4)
    self.obs_helper.remove_obs('robot_2/puck_pos', 5)
    self.obs_helper.remove_obs('robot_2/puck_pos', 6)
    self.obs_helper.remove_obs('puck_vel', 2)
    self.obs_helper.remove_obs('puck_vel', 3)
    self.obs_helper.remove_obs('puck_vel', 4)
    self.obs_helper.remove_obs('robot_2/puck_vel', 2)
    self.obs_helper.remove_obs('robot_2/puck_vel', 3)
    self.obs_helper.remove_obs('robot_2/puck_vel', 4)
    self.obs_helper.add_obs('collision_robot_1_puck', 1, 0, 1)
    self.obs_helper.add_obs('collision_robot_2_puck', 1, 0, 1)
    self.obs_helper.add_obs('collision_short_sides_rim_puck', 1, 0, 1)
    self._mdp_info.observation_space = Box(*self.obs_helper.get_obs_limits())
    self.robot_1_hit = False
    self.robot_2_hit = False
    self.has_bounce = False


def AirHockeyDouble_get_puck(self, obs):
    puck_pos = self.obs_helper.get_from_obs(obs, 'puck_pos')
    puck_lin_vel = self.obs_helper.get_from_obs(obs, 'puck_vel')[:2]
    puck_ang_vel = self.obs_helper.get_from_obs(obs, 'puck_vel')[2]
    return (puck_pos, puck_lin_vel, puck_ang_vel)


def AirHockeyDouble_get_ee(self, robot=1):
    ee_pos = self._read_data('robot_' + str(robot) + '/ee_pos')
    ee_vel = self._read_data('robot_' + str(robot) + '/ee_vel')
    return (ee_pos, ee_vel)


def AirHockeyDouble__modify_observation(self, obs):
    new_obs = obs.copy()
    self._puck_2d_in_robot_frame(self.obs_helper.get_from_obs(new_obs, 'puck_pos'), self.agents[0]['frame'])
    self._puck_2d_in_robot_frame(self.obs_helper.get_from_obs(new_obs, 'puck_vel'), self.agents[0]['frame'], type='vel')
    self._puck_2d_in_robot_frame(self.obs_helper.get_from_obs(new_obs, 'robot_2/puck_pos'), self.agents[1]['frame'])
    self._puck_2d_in_robot_frame(self.obs_helper.get_from_obs(new_obs, 'robot_2/puck_vel'), self.agents[1]['frame'], type='vel')
    if self.obs_noise:
        noise = np.random.randn(2) * 0.001
        self.obs_helper.get_from_obs(new_obs, 'puck_pos')[:] += noise
        self.obs_helper.get_from_obs(new_obs, 'robot_2/puck_pos')[:] += noise
    return new_obs


def AirHockeyDouble_reward(self, state, action, next_state, absorbing):
    return 0


def AirHockeyDouble_setup(self, obs):
    self.robot_1_hit = False
    self.robot_2_hit = False
    self.has_bounce = False
    for i in range(3):
        self._data.joint('planar_robot_1/joint_' + str(i + 1)).qpos = self.init_state[i]
    for i in range(3):
        self._data.joint('planar_robot_2/joint_' + str(i + 1)).qpos = self.init_state[i]
    super().setup(obs)
    mujoco.mj_fwdPosition(self._model, self._data)


def AirHockeyDouble__simulation_post_step(self):
    if not self.robot_1_hit:
        self.robot_1_hit = self._check_collision('puck', 'robot_1/ee')
    if not self.robot_2_hit:
        self.robot_2_hit = self._check_collision('puck', 'robot_2/ee')
    if not self.has_bounce:
        self.has_bounce = self._check_collision('puck', 'rim_short_sides')


def AirHockeyDouble__create_observation(self, state):
    obs = super(AirHockeyDouble, self)._create_observation(state)
    return np.append(obs, [self.robot_1_hit, self.robot_2_hit, self.has_bounce])


def AirHockeyDouble__create_info_dictionary(self, obs):
    constraints = {'agent-1': {}, 'agent-2': {}}
    for i, key in enumerate(constraints.keys()):
        q_pos = self.obs_helper.get_joint_pos_from_obs(obs)[i * 3:(i + 1) * 3]
        q_vel = self.obs_helper.get_joint_vel_from_obs(obs)[i * 3:(i + 1) * 3]
        x_pos, _ = forward_kinematics(self.robot_model, self.robot_data, q_pos, 'planar_robot_1/body_ee')
        ee_pos = x_pos + self.agents[0]['frame'][:3, 3]
        x_lb = -(self.env_spec['table']['length'] / 2 + self.env_spec['mallet']['radius'])
        y_lb = -(self.env_spec['table']['width'] / 2 - self.env_spec['mallet']['radius'])
        y_ub = self.env_spec['table']['width'] / 2 - self.env_spec['mallet']['radius']
        constraints[key]['ee_constraints'] = np.array([-ee_pos[0] + x_lb, -ee_pos[1] + y_lb, ee_pos[1] - y_ub])
        constraints[key]['joint_pos_constraints'] = np.zeros(6)
        constraints[key]['joint_pos_constraints'][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1][i * 3:(i + 1) * 3]
        constraints[key]['joint_pos_constraints'][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3:(i + 1) * 3] - q_pos
        constraints[key]['joint_vel_constraints'] = np.zeros(6)
        constraints[key]['joint_vel_constraints'][:3] = q_vel - self.obs_helper.get_joint_vel_limits()[1][i * 3:(i + 1) * 3]
        constraints[key]['joint_vel_constraints'][3:] = self.obs_helper.get_joint_vel_limits()[0][i * 3:(i + 1) * 3] - q_vel
    return constraints
import numpy as np
from mushroom_rl.environments.mujoco_envs.air_hockey.single import AirHockeySingle
from mushroom_rl.environments.mujoco_envs.air_hockey.hit import AirHockeyHit


def AirHockeyHit___init__(self, random_init=False, action_penalty=0.001, init_robot_state='right', gamma=0.99, horizon=120, env_noise=False, obs_noise=False, timestep=1 / 240.0, n_intermediate_steps=1, **viewer_params):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.init_robot_state = init_robot_state
    self.hit_range = np.array([[-0.65, -0.25], [-0.4, 0.4]])
    self.goal = np.array([0.98, 0])
    self.vec_puck_goal = None
    self.vec_puck_side = None
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, env_noise=env_noise, obs_noise=obs_noise, **viewer_params)


def AirHockeyHit_setup(self, obs):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.hit_range[:, 1] - self.hit_range[:, 0]) + self.hit_range[:, 0]
    else:
        puck_pos = np.mean(self.hit_range, axis=1)
    if self.init_robot_state == 'right':
        self.init_state = np.array([-0.9273, 0.9273, np.pi / 2])
    elif self.init_robot_state == 'left':
        self.init_state = -1 * np.array([-0.9273, 0.9273, np.pi / 2])
    self._write_data('puck_pos', np.concatenate([puck_pos, [0, 0, 0, 0, 1]]))
    self.vec_puck_goal = (self.goal - puck_pos) / np.linalg.norm(self.goal - puck_pos)
    effective_width = 0.51 - 0.03165
    w = (abs(puck_pos[1]) * self.goal[0] + self.goal[1] * puck_pos[0] - effective_width * puck_pos[0] - effective_width * self.goal[0]) / (abs(puck_pos[1]) + self.goal[1] - 2 * effective_width)
    side_point = np.array([w, np.copysign(effective_width, puck_pos[1])])
    self.vec_puck_side = (side_point - puck_pos) / np.linalg.norm(side_point - puck_pos)
    super(AirHockeyHit, self).setup(obs)


def AirHockeyHit_reward(self, state, action, next_state, absorbing):
    r = 0
    puck_pos, puck_vel, _ = self.get_puck(next_state)
    if absorbing:
        if puck_pos[0] - self.env_spec['table']['length'] / 2 > 0 and np.abs(puck_pos[1]) - self.env_spec['table']['goal'] < 0:
            r = 200
    elif not self.has_hit:
        ee_pos = self.get_ee()[0][:2]
        dist_ee_puck = np.linalg.norm(puck_pos[:2] - ee_pos)
        vec_ee_puck = (puck_pos[:2] - ee_pos) / dist_ee_puck
        cos_ang_side = np.clip(self.vec_puck_side @ vec_ee_puck, 0, 1)
        cos_ang_goal = np.clip(self.vec_puck_goal @ vec_ee_puck, 0, 1)
        cos_ang = np.max([cos_ang_goal, cos_ang_side])
        r = np.exp(-8 * (dist_ee_puck - 0.08)) * cos_ang ** 2
    else:
        r_hit = 0.25 + min([1, 0.25 * puck_vel[0] ** 4])
        r_goal = 0
        if puck_pos[0] > 0.7:
            sig = 0.1
            r_goal = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((puck_pos[1] - 0) / sig, 2.0) / 2)
        r = 2 * r_hit + 10 * r_goal
    r -= self.action_penalty * np.linalg.norm(action)
    return r
import numpy as np
from mushroom_rl.environments.mujoco_envs.air_hockey.single import AirHockeySingle
from mushroom_rl.environments.mujoco_envs.air_hockey.defend import AirHockeyDefend


def AirHockeyDefend___init__(self, random_init=False, action_penalty=0.001, init_velocity_range=(1, 2.2), gamma=0.99, horizon=500, env_noise=False, obs_noise=False, timestep=1 / 240.0, n_intermediate_steps=1, **viewer_params):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.init_velocity_range = init_velocity_range
    self.start_range = np.array([[0.25, 0.65], [-0.4, 0.4]])
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, env_noise=env_noise, obs_noise=obs_noise, **viewer_params)


def AirHockeyDefend_setup(self, obs):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.start_range[:, 1] - self.start_range[:, 0]) + self.start_range[:, 0]
        lin_vel = np.random.uniform(self.init_velocity_range[0], self.init_velocity_range[1])
        angle = np.random.uniform(-0.5, 0.5)
        puck_lin_vel = np.zeros(3)
        puck_lin_vel[0] = -np.cos(angle) * lin_vel
        puck_lin_vel[1] = np.sin(angle) * lin_vel
        puck_ang_vel = np.random.uniform(-1, 1, 3)
        puck_ang_vel[:2] = 0.0
    else:
        puck_pos = np.array([self.start_range[0].mean(), 0])
        puck_lin_vel = np.array([-1.0, 0.0, 0.0])
        puck_ang_vel = np.zeros(3)
    self._write_data('puck_pos', np.concatenate([puck_pos, [0, 0, 0, 0, 1]]))
    self._write_data('puck_vel', np.concatenate([puck_lin_vel, puck_ang_vel]))
    super(AirHockeyDefend, self).setup(obs)


def AirHockeyDefend_reward(self, state, action, next_state, absorbing):
    r = 0
    puck_pos, puck_vel, _ = self.get_puck(next_state)
    if absorbing:
        if puck_pos[0] + self.env_spec['table']['length'] / 2 < 0 and np.abs(puck_pos[1]) - self.env_spec['table']['goal'] < 0:
            r = -50
    elif self.has_bounce:
        r = -1
    elif self.has_hit:
        if -0.8 < puck_pos[0] < -0.4:
            r_y = 3 * np.exp(-3 * np.abs(puck_pos[1]))
            r_x = np.exp(-5 * np.abs(puck_pos[0] + 0.6))
            r_vel = 5 * np.exp(-(5 * np.linalg.norm(puck_vel)) ** 2)
            r = r_x + r_y + r_vel + 1
    else:
        ee_pos = self.get_ee()[0][:2]
        ee_des = np.array([-0.6, puck_pos[1]])
        dist_ee_puck = np.abs(ee_des - ee_pos)
        r_x = np.exp(-3 * dist_ee_puck[0])
        sig = 0.2
        r_y = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((dist_ee_puck[1] - 0.08) / sig, 2.0) / 2)
        r = 0.3 * r_x + 0.7 * (r_y / 2)
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyDefend_is_absorbing(self, state):
    puck_pos_x = self.get_puck(state)[0][0]
    if (self.has_hit or self.has_bounce) and puck_pos_x > 0:
        return True
    return super().is_absorbing(state)
import numpy as np
from mushroom_rl.environments.mujoco_envs.air_hockey.single import AirHockeySingle
from mushroom_rl.environments.mujoco_envs.air_hockey.prepare import AirHockeyPrepare


def AirHockeyPrepare___init__(self, random_init=False, action_penalty=0.001, sub_problem='side', gamma=0.99, horizon=500, env_noise=False, obs_noise=False, timestep=1 / 240.0, n_intermediate_steps=1, **viewer_params):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.sub_problem = sub_problem
    self.start_range = None
    if sub_problem == 'side':
        self.start_range = np.array([[-0.8, -0.4], [0.25, 0.46]])
    elif sub_problem == 'bottom':
        self.start_range = np.array([[-0.9, -0.8], [0.125, 0.46]])
    self.desired_point = np.array([-0.6, 0])
    self.ee_end_pos = [-0.810001913, -1.43459494e-06]
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, env_noise=env_noise, obs_noise=obs_noise, **viewer_params)


def AirHockeyPrepare_setup(self, obs):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.start_range[:, 1] - self.start_range[:, 0]) + self.start_range[:, 0]
        puck_pos *= [1, [1, -1][np.random.randint(2)]]
    else:
        puck_pos = np.mean(self.start_range, axis=1)
    self.desired_point = [puck_pos[0], 0]
    self._write_data('puck_pos', np.concatenate([puck_pos, [0, 0, 0, 0, 1]]))
    super(AirHockeyPrepare, self).setup(obs)


def AirHockeyPrepare_reward(self, state, action, next_state, absorbing):
    puck_pos, puck_vel, _ = self.get_puck(next_state)
    puck_pos = puck_pos[:2]
    puck_vel = puck_vel[:2]
    ee_pos = self.get_ee()[0][:2]
    if self.sub_problem == 'side':
        if absorbing and abs(puck_pos[1]) < 0.47:
            r = 100 * np.exp(-2 * np.linalg.norm(puck_vel))
            return r
        if self.has_hit:
            if puck_pos[0] < -0.35 and abs(puck_pos[1]) < 0.47:
                r_vel_x = max([0, 1 - 10 * (np.exp(abs(puck_vel[0])) - 1)])
                dist_ee_des = np.linalg.norm(ee_pos - self.ee_end_pos)
                r_ee = 0.5 - dist_ee_des
                r = r_vel_x + r_ee + 1
            else:
                r = 0
        else:
            dist_ee_puck = np.linalg.norm(puck_pos - ee_pos)
            vec_ee_puck = (puck_pos - ee_pos) / dist_ee_puck
            cos_ang = np.clip(vec_ee_puck @ np.array([0, np.copysign(1, puck_pos[1])]), 0, 1)
            r = np.exp(-8 * (dist_ee_puck - 0.08)) * cos_ang ** 2
    else:
        if absorbing and puck_pos[0] >= -0.6:
            r = 100 * np.exp(-2 * np.linalg.norm(puck_vel))
            return r
        if self.has_hit:
            if -0.6 > puck_pos[0] > -0.9 and abs(puck_pos[1]) < 0.47:
                sig = 0.1
                r_x = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((puck_pos[0] + 0.75) / sig, 2.0) / 2)
                r_y = 2 - abs(puck_vel[1])
                dist_ee_des = np.linalg.norm(ee_pos - self.ee_end_pos)
                r_ee = 0.5 * np.exp(-3 * dist_ee_des)
                r = r_x + r_y + r_ee + 1
            else:
                r = 0
        else:
            dist_ee_puck = np.linalg.norm(puck_pos - ee_pos)
            vec_ee_puck = (puck_pos - ee_pos) / dist_ee_puck
            cos_ang_side = np.clip(vec_ee_puck @ np.array([0.2, np.copysign(0.8, puck_pos[1])]), 0, 1)
            cos_ang_bottom = np.clip(vec_ee_puck @ np.array([-1, 0]), 0, 1)
            cos_ang = max([cos_ang_side, cos_ang_bottom])
            r = np.exp(-8 * (dist_ee_puck - 0.08)) * cos_ang ** 2
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyPrepare_is_absorbing(self, state):
    if super().is_absorbing(state):
        return True
    if self.sub_problem == 'side':
        if self.has_hit:
            puck_pos = self.get_puck(state)[0]
            if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                return True
        return self.has_bounce
    else:
        if self.has_hit:
            puck_pos = self.get_puck(state)[0]
            if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                return True
        return False
import numpy as np
from mushroom_rl.environments.mujoco_envs.air_hockey.single import AirHockeySingle
from mushroom_rl.environments.mujoco_envs.air_hockey.repel import AirHockeyRepel


def AirHockeyRepel___init__(self, random_init=False, action_penalty=0.001, init_velocity_range=(1, 2.2), gamma=0.99, horizon=500, env_noise=False, obs_noise=False, timestep=1 / 240.0, n_intermediate_steps=1, **viewer_params):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.init_velocity_range = init_velocity_range
    self.start_range = np.array([[0.25, 0.65], [-0.4, 0.4]])
    self.goal = np.array([0.98, 0])
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, env_noise=env_noise, obs_noise=obs_noise, **viewer_params)


def AirHockeyRepel_setup(self, obs):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.start_range[:, 1] - self.start_range[:, 0]) + self.start_range[:, 0]
        lin_vel = np.random.uniform(self.init_velocity_range[0], self.init_velocity_range[1])
        angle = np.random.uniform(-0.5, 0.5)
        puck_lin_vel = np.zeros(3)
        puck_lin_vel[0] = -np.cos(angle) * lin_vel
        puck_lin_vel[1] = np.sin(angle) * lin_vel
        puck_ang_vel = np.random.uniform(-1, 1, 3)
        puck_ang_vel[:2] = 0.0
    else:
        puck_pos = np.array([self.start_range[0].mean(), 0])
        puck_lin_vel = np.array([-1.0, 0.0, 0.0])
        puck_ang_vel = np.zeros(3)
    self._write_data('puck_pos', np.concatenate([puck_pos, [0, 0, 0, 0, 1]]))
    self._write_data('puck_vel', np.concatenate([puck_lin_vel, puck_ang_vel]))
    super(AirHockeyRepel, self).setup(obs)


def AirHockeyRepel_reward(self, state, action, next_state, absorbing):
    r = 0
    puck_pos, puck_vel, _ = self.get_puck(next_state)
    if absorbing:
        if puck_pos[0] + self.env_spec['table']['length'] / 2 < 0 and np.abs(puck_pos[1]) - self.env_spec['table']['goal'] < 0:
            r = -50
    elif self.has_hit:
        r_x = puck_pos[0] + 0.98
        r_vel = min([puck_vel[0] ** 3, 5])
        r = r_x + r_vel + 1
        if puck_pos[0] > 0.9:
            r += 100 * np.exp(-3 * abs(puck_pos[1]))
    else:
        ee_pos = self.get_ee()[0][:2]
        ee_des = np.array([-0.6, puck_pos[1]])
        dist_ee_puck = np.abs(ee_des - ee_pos)
        r_x = np.exp(-3 * dist_ee_puck[0])
        sig = 0.2
        r_y = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((dist_ee_puck[1] - 0.08) / sig, 2.0) / 2)
        r = 0.3 * r_x + 0.7 * (r_y / 2)
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyRepel_is_absorbing(self, state):
    if super().is_absorbing(state):
        return True
    return self.has_bounce
from mushroom_rl.environments.mujoco import MuJoCo, ObservationType
import numpy as np
from pathlib import Path
from copy import deepcopy
import mujoco
from mushroom_rl.environments.mujoco_envs.ball_in_a_cup import BallInACup


def BallInACup___init__(self):
    xml_path = (Path(__file__).resolve().parent / 'data' / 'ball_in_a_cup' / 'model.xml').as_posix()
    action_spec = ['act/wam/base_yaw_joint', 'act/wam/shoulder_pitch_joint', 'act/wam/shoulder_yaw_joint', 'act/wam/elbow_pitch_joint', 'act/wam/wrist_yaw_joint', 'act/wam/wrist_pitch_joint', 'act/wam/palm_yaw_joint']
    observation_spec = [('base_yaw_pos', 'wam/base_yaw_joint', ObservationType.JOINT_POS), ('base_yaw_vel', 'wam/base_yaw_joint', ObservationType.JOINT_VEL), ('shoulder_pitch_pos', 'wam/shoulder_pitch_joint', ObservationType.JOINT_POS), ('shoulder_pitch_vel', 'wam/shoulder_pitch_joint', ObservationType.JOINT_VEL), ('shoulder_yaw_pos', 'wam/shoulder_yaw_joint', ObservationType.JOINT_POS), ('shoulder_yaw_vel', 'wam/shoulder_yaw_joint', ObservationType.JOINT_VEL), ('elbow_pitch_pos', 'wam/elbow_pitch_joint', ObservationType.JOINT_POS), ('elbow_pitch_vel', 'wam/elbow_pitch_joint', ObservationType.JOINT_VEL), ('wrist_yaw_pos', 'wam/wrist_yaw_joint', ObservationType.JOINT_POS), ('wrist_yaw_vel', 'wam/wrist_yaw_joint', ObservationType.JOINT_VEL), ('wrist_pitch_pos', 'wam/wrist_pitch_joint', ObservationType.JOINT_POS), ('wrist_pitch_vel', 'wam/wrist_pitch_joint', ObservationType.JOINT_VEL), ('palm_yaw_pos', 'wam/palm_yaw_joint', ObservationType.JOINT_POS), ('palm_yaw_vel', 'wam/palm_yaw_joint', ObservationType.JOINT_VEL), ('ball_pos', 'ball', ObservationType.BODY_POS), ('ball_vel', 'ball', ObservationType.BODY_VEL_WORLD)]
    additional_data_spec = [('ball_pos', 'ball', ObservationType.BODY_POS), ('goal_pos', 'cup_goal_final', ObservationType.SITE_POS)]
    collision_groups = [('ball', ['ball_geom']), ('robot', ['cup_geom1', 'cup_geom2', 'wrist_palm_link_convex_geom', 'wrist_pitch_link_convex_decomposition_p1_geom', 'wrist_pitch_link_convex_decomposition_p2_geom', 'wrist_pitch_link_convex_decomposition_p3_geom', 'wrist_yaw_link_convex_decomposition_p1_geom', 'wrist_yaw_link_convex_decomposition_p2_geom', 'forearm_link_convex_decomposition_p1_geom', 'forearm_link_convex_decomposition_p2_geom'])]
    super().__init__(xml_path, action_spec, observation_spec, 0.9999, 2000, n_intermediate_steps=4, additional_data_spec=additional_data_spec, collision_groups=collision_groups)
    self.init_robot_pos = np.array([0.0, 0.58760536, 0.0, 1.36004913, 0.0, -0.32072943, -1.57])
    self.p_gains = np.array([200, 400, 100, 100, 10, 10, 5])
    self.d_gains = np.array([7, 15, 5, 2.5, 0.3, 0.3, 0.05])
    self._reset_state = None


def BallInACup_reward(self, cur_obs, action, obs, absorbing):
    dist = self._read_data('goal_pos') - self._read_data('ball_pos')
    return 1.0 if np.linalg.norm(dist) < 0.05 else 0.0


def BallInACup_is_absorbing(self, state):
    dist = self._read_data('goal_pos') - self._read_data('ball_pos')
    return np.linalg.norm(dist) < 0.05 or self._check_collision('ball', 'robot')


def BallInACup_setup(self, obs):
    if self._reset_state is None:
        init_pos = self._data.qpos[0:7].copy()
        for i in range(0, 5000):
            cur_pos = self._data.qpos[0:7].copy()
            cur_vel = self._data.qvel[0:7].copy()
            target = self.linear_movement(init_pos, self.init_robot_pos, 250, i)
            trq = self.p_gains * (target - cur_pos) + self.d_gains * (np.zeros_like(self.init_robot_pos) - cur_vel)
            self._data.ctrl[self._action_indices] = self._data.qfrc_bias[:7] + trq
            mujoco.mj_step(self._model, self._data)
        self._reset_state = deepcopy(self._data)
    else:
        self._data = deepcopy(self._reset_state)


def BallInACup_linear_movement(start, end, n_steps, i):
    t = np.minimum(1.0, float(i) / float(n_steps))
    return start + (end - start) * t
import mujoco


def forward_kinematics(mj_model, mj_data, q, body_name):
    mj_data.qpos[:len(q)] = q
    mujoco.mj_fwdPosition(mj_model, mj_data)
    return (mj_data.body(body_name).xpos.copy(), mj_data.body(body_name).xmat.reshape(3, 3).copy())
