import os
import time
import numpy as np
import pybullet
import pybullet_utils.transformations as transformations
from mushroom_rl.environments.pybullet import PyBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs import __file__ as path_robots
from mushroom_rl.environments.pybullet_envs.air_hockey.base import AirHockeyBaseBullet


def AirHockeyBaseBullet___init__(self, gamma=0.99, horizon=500, n_agents=1, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, table_boundary_terminate=False):
    self.n_agents = n_agents
    self.env_noise = env_noise
    self.obs_noise = obs_noise
    self.obs_delay = obs_delay
    self.step_action_function = step_action_function
    self.table_boundary_terminate = table_boundary_terminate
    puck_file = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'puck.urdf')
    table_file = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'air_hockey_table.urdf')
    robot_file_1 = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'planar', 'planar_robot_1.urdf')
    robot_file_2 = os.path.join(os.path.dirname(os.path.abspath(path_robots)), 'data', 'air_hockey', 'planar', 'planar_robot_2.urdf')
    model_files = dict()
    model_files[puck_file] = dict(flags=pybullet.URDF_USE_IMPLICIT_CYLINDER, basePosition=[0.0, 0, -0.189], baseOrientation=[0, 0, 0.0, 1.0])
    model_files[table_file] = dict(useFixedBase=True, basePosition=[0.0, 0, -0.189], baseOrientation=[0, 0, 0.0, 1.0])
    actuation_spec = list()
    observation_spec = [('puck', PyBulletObservationType.BODY_POS), ('puck', PyBulletObservationType.BODY_LIN_VEL), ('puck', PyBulletObservationType.BODY_ANG_VEL)]
    self.agents = []
    if torque_control:
        control = pybullet.TORQUE_CONTROL
    else:
        control = pybullet.POSITION_CONTROL
    if 1 <= self.n_agents <= 2:
        agent_spec = dict()
        agent_spec['name'] = 'planar_robot_1'
        agent_spec.update({'link_length': [0.5, 0.4, 0.4], 'urdf': robot_file_1})
        translate = [-1.51, 0, 0.0]
        quaternion = [0.0, 0.0, 0.0, 1.0]
        agent_spec['frame'] = transformations.translation_matrix(translate)
        agent_spec['frame'] = agent_spec['frame'] @ transformations.quaternion_matrix(quaternion)
        model_files[robot_file_1] = dict(flags=pybullet.URDF_USE_IMPLICIT_CYLINDER | pybullet.URDF_USE_INERTIA_FROM_FILE, basePosition=translate, baseOrientation=quaternion)
        self.agents.append(agent_spec)
        actuation_spec += [('planar_robot_1/joint_1', control), ('planar_robot_1/joint_2', control), ('planar_robot_1/joint_3', control)]
        observation_spec += [('planar_robot_1/joint_1', PyBulletObservationType.JOINT_POS), ('planar_robot_1/joint_2', PyBulletObservationType.JOINT_POS), ('planar_robot_1/joint_3', PyBulletObservationType.JOINT_POS), ('planar_robot_1/joint_1', PyBulletObservationType.JOINT_VEL), ('planar_robot_1/joint_2', PyBulletObservationType.JOINT_VEL), ('planar_robot_1/joint_3', PyBulletObservationType.JOINT_VEL), ('planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS), ('planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_LIN_VEL)]
        if self.n_agents == 2:
            agent_spec = dict()
            agent_spec['name'] = 'planar_robot_2'
            agent_spec.update({'link_length': [0.5, 0.4, 0.4], 'urdf': robot_file_1})
            translate = [1.51, 0, 0.0]
            quaternion = [0.0, 0.0, 1.0, 0.0]
            agent_spec['frame'] = transformations.translation_matrix(translate)
            agent_spec['frame'] = agent_spec['frame'] @ transformations.quaternion_matrix(quaternion)
            model_files[robot_file_2] = dict(flags=pybullet.URDF_USE_IMPLICIT_CYLINDER | pybullet.URDF_USE_INERTIA_FROM_FILE, basePosition=translate, baseOrientation=quaternion)
            self.agents.append(agent_spec)
            actuation_spec += [('planar_robot_2/joint_1', control), ('planar_robot_2/joint_2', control), ('planar_robot_2/joint_3', control)]
            observation_spec += [('planar_robot_2/joint_1', PyBulletObservationType.JOINT_POS), ('planar_robot_2/joint_2', PyBulletObservationType.JOINT_POS), ('planar_robot_2/joint_3', PyBulletObservationType.JOINT_POS), ('planar_robot_2/joint_1', PyBulletObservationType.JOINT_VEL), ('planar_robot_2/joint_2', PyBulletObservationType.JOINT_VEL), ('planar_robot_2/joint_3', PyBulletObservationType.JOINT_VEL), ('planar_robot_2/link_striker_ee', PyBulletObservationType.LINK_POS), ('planar_robot_2/link_striker_ee', PyBulletObservationType.LINK_LIN_VEL)]
    else:
        raise ValueError('n_agents should be 1 or 2')
    super().__init__(model_files, actuation_spec, observation_spec, gamma, horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, size=(500, 500), distance=1.8)
    self._client.resetDebugVisualizerCamera(cameraDistance=2, cameraYaw=0.0, cameraPitch=-89.9, cameraTargetPosition=[0.0, 0.0, 0.0])
    self.env_spec = dict()
    self.env_spec['table'] = {'length': 1.96, 'width': 1.02, 'height': -0.189, 'goal': 0.25, 'urdf': table_file}
    self.env_spec['puck'] = {'radius': 0.03165, 'urdf': puck_file}
    self.env_spec['mallet'] = {'radius': 0.05}
    self.env_spec['joint_vel_threshold'] = 0.1


def AirHockeyBaseBullet__compute_action(self, state, action):
    if self.step_action_function is None:
        return action
    else:
        return self.step_action_function(state, action)


def AirHockeyBaseBullet__simulation_pre_step(self):
    if self.env_noise:
        force = np.concatenate([np.random.randn(2), [0]]) * 0.0005
        self._client.applyExternalForce(self._model_map['puck'], -1, force, [0.0, 0.0, 0.0], self._client.WORLD_FRAME)


def AirHockeyBaseBullet_is_absorbing(self, state):
    boundary = np.array([self.env_spec['table']['length'], self.env_spec['table']['width']]) / 2
    puck_pos = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_POS)[:3]
    if np.any(np.abs(puck_pos[:2]) > boundary) or abs(puck_pos[2] - self.env_spec['table']['height']) > 0.05:
        return True
    if self.table_boundary_terminate:
        if self.n_agents >= 1:
            ee_pos = self.get_sim_state(state, 'planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS)[:3]
            if abs(ee_pos[0]) > self.env_spec['table']['length'] / 2 or abs(ee_pos[1]) > self.env_spec['table']['width'] / 2:
                return True
        if self.n_agents == 2:
            ee_pos = self.get_sim_state(state, 'planar_robot_2/link_striker_ee', PyBulletObservationType.LINK_POS)[:3]
            if abs(ee_pos[0]) > self.env_spec['table']['length'] / 2 or abs(ee_pos[1]) > self.env_spec['table']['width'] / 2:
                return True
    return False


def AirHockeyBaseBullet_forward_kinematics(self, joint_state):
    x = np.cos(joint_state[0]) * self.agents[0]['link_length'][0] + np.cos(joint_state[0] + joint_state[1]) * self.agents[0]['link_length'][1] + np.cos(joint_state[0] + joint_state[1] + joint_state[2]) * self.agents[0]['link_length'][2]
    y = np.sin(joint_state[0]) * self.agents[0]['link_length'][0] + np.sin(joint_state[0] + joint_state[1]) * self.agents[0]['link_length'][1] + np.sin(joint_state[0] + joint_state[1] + joint_state[2]) * self.agents[0]['link_length'][2]
    yaw = joint_state[0] + joint_state[1] + joint_state[2]
    return np.array([x, y, yaw])
import numpy as np
import pybullet_utils.transformations as transformations
from mushroom_rl.core import MDPInfo
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.environments.pybullet_envs.air_hockey.base import AirHockeyBaseBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs.air_hockey.single import AirHockeySingleBullet


def AirHockeySingleBullet___init__(self, gamma=0.99, horizon=120, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, table_boundary_terminate=False, number_flags=0):
    self.init_state = np.array([-0.9273, 0.9273, np.pi / 2])
    self.number_flags = number_flags
    self.obs_prev = None
    super().__init__(gamma=gamma, horizon=horizon, env_noise=env_noise, n_agents=1, obs_noise=obs_noise, obs_delay=obs_delay, torque_control=torque_control, step_action_function=step_action_function, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, table_boundary_terminate=table_boundary_terminate)
    self._client.resetDebugVisualizerCamera(cameraDistance=1.5, cameraYaw=-90.0, cameraPitch=-45.0, cameraTargetPosition=[-0.5, 0.0, 0.0])
    self._change_dynamics()
    self._disable_collision()


def AirHockeySingleBullet__modify_mdp_info(self, mdp_info):
    obs_idx = [0, 1, 7, 8, 9, 13, 14, 15, 16, 17, 18]
    obs_low = np.append(mdp_info.observation_space.low[obs_idx], [0] * self.number_flags)
    obs_high = np.append(mdp_info.observation_space.high[obs_idx], [1] * self.number_flags)
    obs_low[0:2] = [-1, -0.5]
    obs_high[0:2] = [1, 0.5]
    observation_space = Box(low=obs_low, high=obs_high)
    return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)


def AirHockeySingleBullet__create_observation(self, state):
    puck_pose = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_POS)
    puck_pose_2d = self._puck_2d_in_robot_frame(puck_pose, self.agents[0]['frame'], type='pose')
    robot_pos = np.zeros(3)
    robot_pos[0] = self.get_sim_state(state, self.agents[0]['name'] + '/joint_1', PyBulletObservationType.JOINT_POS)
    robot_pos[1] = self.get_sim_state(state, self.agents[0]['name'] + '/joint_2', PyBulletObservationType.JOINT_POS)
    robot_pos[2] = self.get_sim_state(state, self.agents[0]['name'] + '/joint_3', PyBulletObservationType.JOINT_POS)
    if self.obs_noise:
        puck_pose_2d[:2] += np.random.randn(2) * 0.001
    puck_lin_vel = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_LIN_VEL)
    puck_ang_vel = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_ANG_VEL)
    puck_vel_2d = self._puck_2d_in_robot_frame(np.concatenate([puck_lin_vel, puck_ang_vel]), self.agents[0]['frame'], type='vel')
    robot_vel = np.zeros(3)
    robot_vel[0] = self.get_sim_state(state, self.agents[0]['name'] + '/joint_1', PyBulletObservationType.JOINT_VEL)
    robot_vel[1] = self.get_sim_state(state, self.agents[0]['name'] + '/joint_2', PyBulletObservationType.JOINT_VEL)
    robot_vel[2] = self.get_sim_state(state, self.agents[0]['name'] + '/joint_3', PyBulletObservationType.JOINT_VEL)
    if self.obs_delay and self.obs_prev is not None:
        alpha = 0.5
        puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:5]
        robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[8:11]
    self.obs_prev = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
    return self.obs_prev


def AirHockeySingleBullet__puck_2d_in_robot_frame(self, puck_in, robot_frame, type='pose'):
    if type == 'pose':
        puck_frame = transformations.translation_matrix(puck_in[:3])
        puck_frame = puck_frame @ transformations.quaternion_matrix(puck_in[3:])
        frame_target = transformations.inverse_matrix(robot_frame) @ puck_frame
        puck_translate = transformations.translation_from_matrix(frame_target)
        return puck_translate[:2]
    if type == 'vel':
        rot_mat = robot_frame[:3, :3]
        vec_lin = rot_mat.T @ puck_in[:3]
        return np.concatenate([vec_lin[:2], puck_in[5:6]])


def AirHockeySingleBullet__change_dynamics(self):
    for i in range(5):
        self.client.changeDynamics(self._model_map['planar_robot_1'], i, linearDamping=0.0, angularDamping=0.0)


def AirHockeySingleBullet__disable_collision(self):
    iiwa_links = ['planar_robot_1/link_1', 'planar_robot_1/link_2', 'planar_robot_1/link_3', 'planar_robot_1/link_striker_hand', 'planar_robot_1/link_striker_ee']
    table_rims = ['t_down_rim_l', 't_down_rim_r', 't_up_rim_r', 't_up_rim_l', 't_left_rim', 't_right_rim', 't_base', 't_up_rim_top', 't_down_rim_top', 't_base']
    for iiwa_l in iiwa_links:
        for table_r in table_rims:
            self.client.setCollisionFilterPair(self._indexer.link_map[iiwa_l][0], self._indexer.link_map[table_r][0], self._indexer.link_map[iiwa_l][1], self._indexer.link_map[table_r][1], 0)
    self.client.setCollisionFilterPair(self._model_map['puck'], self._indexer.link_map['t_down_rim_top'][0], -1, self._indexer.link_map['t_down_rim_top'][1], 0)
    self.client.setCollisionFilterPair(self._model_map['puck'], self._indexer.link_map['t_up_rim_top'][0], -1, self._indexer.link_map['t_up_rim_top'][1], 0)
import numpy as np
import pybullet_utils.transformations as transformations
from mushroom_rl.core import MDPInfo
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.environments.pybullet_envs.air_hockey.base import AirHockeyBaseBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs.air_hockey.double import AirHockeyDoubleBullet


def AirHockeyDoubleBullet___init__(self, gamma=0.99, horizon=120, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, table_boundary_terminate=False):
    self.init_state = np.array([-0.9273, 0.9273, np.pi / 2, -0.9273, 0.9273, np.pi / 2])
    self.obs_prev = None
    super().__init__(gamma=gamma, horizon=horizon, env_noise=env_noise, n_agents=2, obs_noise=obs_noise, obs_delay=obs_delay, torque_control=torque_control, step_action_function=step_action_function, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, table_boundary_terminate=table_boundary_terminate)
    self._client.resetDebugVisualizerCamera(cameraDistance=1.5, cameraYaw=-90.0, cameraPitch=-45.0, cameraTargetPosition=[-0.5, 0.0, 0.0])
    self._change_dynamics()
    self._disable_collision()


def AirHockeyDoubleBullet__modify_mdp_info(self, mdp_info):
    obs_idx = [0, 1, 7, 8, 9, 13, 14, 15, 16, 17, 18, 0, 1, 7, 8, 9, 29, 30, 31, 32, 33, 34]
    obs_low = mdp_info.observation_space.low[obs_idx]
    obs_high = mdp_info.observation_space.high[obs_idx]
    obs_low[0:2] = [-1, -0.5]
    obs_high[0:2] = [1, 0.5]
    obs_low[11:13] = [-1, -0.5]
    obs_high[11:13] = [1, 0.5]
    observation_space = Box(low=obs_low, high=obs_high)
    return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)


def AirHockeyDoubleBullet__create_observation(self, state):
    puck_pose = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_POS)
    obs = np.zeros(22)
    for i in range(2):
        puck_pose_2d = self._puck_2d_in_robot_frame(puck_pose, self.agents[i]['frame'], type='pose')
        robot_pos = np.zeros(3)
        robot_pos[0] = self.get_sim_state(state, self.agents[i]['name'] + '/joint_1', PyBulletObservationType.JOINT_POS)
        robot_pos[1] = self.get_sim_state(state, self.agents[i]['name'] + '/joint_2', PyBulletObservationType.JOINT_POS)
        robot_pos[2] = self.get_sim_state(state, self.agents[i]['name'] + '/joint_3', PyBulletObservationType.JOINT_POS)
        if self.obs_noise:
            puck_pose_2d[:2] += np.random.randn(2) * 0.001
        puck_lin_vel = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_LIN_VEL)
        puck_ang_vel = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_ANG_VEL)
        puck_vel_2d = self._puck_2d_in_robot_frame(np.concatenate([puck_lin_vel, puck_ang_vel]), self.agents[i]['frame'], type='vel')
        robot_vel = np.zeros(3)
        robot_vel[0] = self.get_sim_state(state, self.agents[i]['name'] + '/joint_1', PyBulletObservationType.JOINT_VEL)
        robot_vel[1] = self.get_sim_state(state, self.agents[i]['name'] + '/joint_2', PyBulletObservationType.JOINT_VEL)
        robot_vel[2] = self.get_sim_state(state, self.agents[i]['name'] + '/joint_3', PyBulletObservationType.JOINT_VEL)
        if self.obs_delay and self.obs_prev is not None:
            alpha = 0.5
            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[i * 11 + 2:i * 11 + 5]
            robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[i * 11 + 8:i * 11 + 11]
        obs[i * 11:(i + 1) * 11] = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
    self.obs_prev = obs
    return self.obs_prev


def AirHockeyDoubleBullet__puck_2d_in_robot_frame(self, puck_in, robot_frame, type='pose'):
    if type == 'pose':
        puck_frame = transformations.translation_matrix(puck_in[:3])
        puck_frame = puck_frame @ transformations.quaternion_matrix(puck_in[3:])
        frame_target = transformations.inverse_matrix(robot_frame) @ puck_frame
        puck_translate = transformations.translation_from_matrix(frame_target)
        _, _, puck_euler_yaw = transformations.euler_from_matrix(frame_target)
        return puck_translate[:2]
    if type == 'vel':
        rot_mat = robot_frame[:3, :3]
        vec_lin = rot_mat.T @ puck_in[:3]
        return np.concatenate([vec_lin[:2], puck_in[5:6]])


def AirHockeyDoubleBullet__change_dynamics(self):
    for i in range(5):
        self.client.changeDynamics(self._model_map['planar_robot_1'], i, linearDamping=0.0, angularDamping=0.0)
        self.client.changeDynamics(self._model_map['planar_robot_2'], i, linearDamping=0.0, angularDamping=0.0)


def AirHockeyDoubleBullet__disable_collision(self):
    iiwa_links = ['planar_robot_1/link_1', 'planar_robot_1/link_2', 'planar_robot_1/link_3', 'planar_robot_1/link_striker_hand', 'planar_robot_1/link_striker_ee', 'planar_robot_2/link_1', 'planar_robot_2/link_2', 'planar_robot_2/link_3', 'planar_robot_2/link_striker_hand', 'planar_robot_2/link_striker_ee']
    table_rims = ['t_down_rim_l', 't_down_rim_r', 't_up_rim_r', 't_up_rim_l', 't_left_rim', 't_right_rim', 't_base', 't_up_rim_top', 't_down_rim_top', 't_base']
    for iiwa_l in iiwa_links:
        for table_r in table_rims:
            self.client.setCollisionFilterPair(self._indexer.link_map[iiwa_l][0], self._indexer.link_map[table_r][0], self._indexer.link_map[iiwa_l][1], self._indexer.link_map[table_r][1], 0)
    self.client.setCollisionFilterPair(self._model_map['puck'], self._indexer.link_map['t_down_rim_top'][0], -1, self._indexer.link_map['t_down_rim_top'][1], 0)
    self.client.setCollisionFilterPair(self._model_map['puck'], self._indexer.link_map['t_up_rim_top'][0], -1, self._indexer.link_map['t_up_rim_top'][1], 0)
import numpy as np
from mushroom_rl.environments.pybullet_envs.air_hockey.single import AirHockeySingleBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs.air_hockey.hit import AirHockeyHitBullet


def AirHockeyHitBullet___init__(self, gamma=0.99, horizon=120, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, random_init=False, action_penalty=0.001, table_boundary_terminate=False, init_robot_state='right'):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.init_robot_state = init_robot_state
    self.hit_range = np.array([[-0.65, -0.25], [-0.4, 0.4]])
    self.goal = np.array([0.98, 0])
    self.has_hit = False
    self.has_bounce = False
    self.vec_puck_goal = None
    self.vec_puck_side = None
    self.puck_pos = None
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, env_noise=env_noise, obs_noise=obs_noise, obs_delay=obs_delay, torque_control=torque_control, step_action_function=step_action_function, table_boundary_terminate=table_boundary_terminate, number_flags=1)


def AirHockeyHitBullet_setup(self, state):
    if self.random_init:
        self.puck_pos = np.random.rand(2) * (self.hit_range[:, 1] - self.hit_range[:, 0]) + self.hit_range[:, 0]
    else:
        self.puck_pos = np.mean(self.hit_range, axis=1)
    if self.init_robot_state == 'right':
        self.init_state = np.array([-0.9273, 0.9273, np.pi / 2])
    elif self.init_robot_state == 'left':
        self.init_state = -1 * np.array([-0.9273, 0.9273, np.pi / 2])
    elif self.init_robot_state == 'random':
        robot_id, joint_id = self._indexer.link_map['planar_robot_1/link_striker_ee']
        striker_pos_y = np.random.rand() * 0.8 - 0.4
        self.init_state = self.client.calculateInverseKinematics(robot_id, joint_id, [-0.81, striker_pos_y, -0.179])
    puck_pos = np.concatenate([self.puck_pos, [-0.189]])
    self.client.resetBasePositionAndOrientation(self._model_map['puck'], puck_pos, [0, 0, 0, 1.0])
    self.vec_puck_goal = (self.goal - self.puck_pos) / np.linalg.norm(self.goal - self.puck_pos)
    effective_width = 0.51 - 0.03165
    w = (abs(puck_pos[1]) * self.goal[0] + self.goal[1] * puck_pos[0] - effective_width * puck_pos[0] - effective_width * self.goal[0]) / (abs(puck_pos[1]) + self.goal[1] - 2 * effective_width)
    side_point = np.array([w, np.copysign(effective_width, puck_pos[1])])
    self.vec_puck_side = (side_point - self.puck_pos) / np.linalg.norm(side_point - self.puck_pos)
    for i, (model_id, joint_id, _) in enumerate(self._indexer.action_data):
        self.client.resetJointState(model_id, joint_id, self.init_state[i])
    self.has_hit = False
    self.has_bounce = False


def AirHockeyHitBullet_reward(self, state, action, next_state, absorbing):
    r = 0
    puck_pos = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_POS)[:2]
    puck_vel = self.get_sim_state(self._state, 'puck', PyBulletObservationType.BODY_LIN_VEL)[:2]
    if absorbing:
        if puck_pos[0] - self.env_spec['table']['length'] / 2 > 0 and np.abs(puck_pos[1]) - self.env_spec['table']['goal'] < 0:
            r = 200
        if self.table_boundary_terminate:
            ee_pos = self.get_sim_state(next_state, 'planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS)[:3]
            if abs(ee_pos[0]) > self.env_spec['table']['length'] / 2 or abs(ee_pos[1]) > self.env_spec['table']['width'] / 2:
                r = -10
    elif not self.has_hit:
        ee_pos = self.get_sim_state(next_state, 'planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS)[:2]
        dist_ee_puck = np.linalg.norm(puck_pos - ee_pos)
        vec_ee_puck = (puck_pos - ee_pos) / dist_ee_puck
        cos_ang_side = np.clip(self.vec_puck_side @ vec_ee_puck, 0, 1)
        cos_ang_goal = np.clip(self.vec_puck_goal @ vec_ee_puck, 0, 1)
        cos_ang = np.max([cos_ang_goal, cos_ang_side])
        r = np.exp(-8 * (dist_ee_puck - 0.08)) * cos_ang ** 2
    else:
        r_hit = 0.25 + min([1, 0.25 * puck_vel[0] ** 4])
        r_goal = 0
        if puck_pos[0] > 0.7:
            sig = 0.1
            r_goal = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((puck_pos[1] - 0) / sig, 2.0) / 2)
        r = 2 * r_hit + 10 * r_goal
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyHitBullet_is_absorbing(self, state):
    if super().is_absorbing(state):
        return True
    if self.has_hit:
        puck_vel = self.get_sim_state(self._state, 'puck', PyBulletObservationType.BODY_LIN_VEL)[:2]
        if np.linalg.norm(puck_vel) < 0.01:
            return True
    return self.has_bounce


def AirHockeyHitBullet__simulation_post_step(self):
    if not self.has_hit:
        puck_vel = self.get_sim_state(self._state, 'puck', PyBulletObservationType.BODY_LIN_VEL)[:2]
        if np.linalg.norm(puck_vel) > 0.1:
            self.has_hit = True
    if not self.has_bounce:
        collision_count = 0
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_l'][0], -1, self._indexer.link_map['t_down_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_r'][0], -1, self._indexer.link_map['t_down_rim_r'][1]))
        if collision_count > 0:
            self.has_bounce = True


def AirHockeyHitBullet__create_observation(self, state):
    obs = super(AirHockeyHitBullet, self)._create_observation(state)
    return np.append(obs, [self.has_hit])
import numpy as np
from mushroom_rl.environments.pybullet_envs.air_hockey.single import AirHockeySingleBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs.air_hockey.defend import AirHockeyDefendBullet


def AirHockeyDefendBullet___init__(self, gamma=0.99, horizon=500, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, random_init=False, action_penalty=0.001, table_boundary_terminate=False, init_velocity_range=(1, 2.2)):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.init_velocity_range = init_velocity_range
    self.start_range = np.array([[0.25, 0.65], [-0.4, 0.4]])
    self.has_hit = False
    self.has_bounce = False
    self.puck_pos = None
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, env_noise=env_noise, obs_noise=obs_noise, obs_delay=obs_delay, torque_control=torque_control, step_action_function=step_action_function, table_boundary_terminate=table_boundary_terminate, number_flags=2)


def AirHockeyDefendBullet_setup(self, state=None):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.start_range[:, 1] - self.start_range[:, 0]) + self.start_range[:, 0]
        puck_pos = np.concatenate([puck_pos, [-0.189]])
        lin_vel = np.random.uniform(self.init_velocity_range[0], self.init_velocity_range[1])
        angle = np.random.uniform(-0.5, 0.5)
        puck_lin_vel = np.zeros(3)
        puck_lin_vel[0] = -np.cos(angle) * lin_vel
        puck_lin_vel[1] = np.sin(angle) * lin_vel
        puck_lin_vel[2] = 0.0
        puck_ang_vel = np.random.uniform(-1, 1, 3)
        puck_ang_vel[:2] = 0.0
        self.puck_pos = [puck_pos, puck_lin_vel, puck_ang_vel]
    else:
        puck_pos = np.array([self.start_range[0].mean(), 0])
        puck_pos = np.concatenate([puck_pos, [-0.189]])
        puck_lin_vel = np.array([-1.0, 0.0, 0.0])
        puck_ang_vel = np.zeros(3)
    self.client.resetBasePositionAndOrientation(self._model_map['puck'], puck_pos, [0, 0, 0, 1.0])
    self.client.resetBaseVelocity(self._model_map['puck'], puck_lin_vel, puck_ang_vel)
    for i, (model_id, joint_id, _) in enumerate(self._indexer.action_data):
        self._client.resetJointState(model_id, joint_id, self.init_state[i])
    self.has_hit = False
    self.has_bounce = False


def AirHockeyDefendBullet_reward(self, state, action, next_state, absorbing):
    r = 0
    puck_pos = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_POS)[:3]
    puck_vel = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_LIN_VEL)[:3]
    if absorbing:
        if puck_pos[0] + self.env_spec['table']['length'] / 2 < 0 and np.abs(puck_pos[1]) - self.env_spec['table']['goal'] < 0:
            r = -50
    elif self.has_bounce:
        r = -1
    elif self.has_hit:
        if -0.8 < puck_pos[0] < -0.4:
            r_y = 3 * np.exp(-3 * np.abs(puck_pos[1]))
            r_x = np.exp(-5 * np.abs(puck_pos[0] + 0.6))
            r_vel = 5 * np.exp(-(5 * np.linalg.norm(puck_vel)) ** 2)
            r = r_x + r_y + r_vel + 1
    else:
        ee_pos = self.get_sim_state(next_state, 'planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS)[:2]
        ee_des = np.array([-0.6, puck_pos[1]])
        dist_ee_puck = np.abs(ee_des - ee_pos[:2])
        r_x = np.exp(-3 * dist_ee_puck[0])
        sig = 0.2
        r_y = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((dist_ee_puck[1] - 0.08) / sig, 2.0) / 2)
        r = 0.3 * r_x + 0.7 * (r_y / 2)
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyDefendBullet_is_absorbing(self, state):
    puck_pos_y = self.get_sim_state(state, 'puck', PyBulletObservationType.BODY_POS)[0]
    if super().is_absorbing(state):
        return True
    if (self.has_hit or self.has_bounce) and puck_pos_y > -0.3:
        return True
    return False


def AirHockeyDefendBullet__simulation_post_step(self):
    if not self.has_hit:
        collision_count = len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['planar_robot_1/link_striker_ee'][0], -1, self._indexer.link_map['planar_robot_1/link_striker_ee'][1]))
        if collision_count > 0:
            self.has_hit = True
    if not self.has_bounce:
        collision_count = 0
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_up_rim_l'][0], -1, self._indexer.link_map['t_up_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_up_rim_r'][0], -1, self._indexer.link_map['t_up_rim_r'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_l'][0], -1, self._indexer.link_map['t_down_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_r'][0], -1, self._indexer.link_map['t_down_rim_r'][1]))
        if collision_count > 0:
            self.has_bounce = True


def AirHockeyDefendBullet__create_observation(self, state):
    obs = super(AirHockeyDefendBullet, self)._create_observation(state)
    return np.append(obs, [self.has_hit, self.has_bounce])
import numpy as np
from mushroom_rl.environments.pybullet_envs.air_hockey.single import AirHockeySingleBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs.air_hockey.prepare import AirHockeyPrepareBullet


def AirHockeyPrepareBullet___init__(self, gamma=0.99, horizon=500, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, random_init=False, action_penalty=0.001, table_boundary_terminate=False, sub_problem='side'):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.sub_problem = sub_problem
    self.start_range = None
    if sub_problem == 'side':
        self.start_range = np.array([[-0.8, -0.4], [0.25, 0.46]])
    elif sub_problem == 'bottom':
        self.start_range = np.array([[-0.9, -0.8], [0.125, 0.46]])
    self.desired_point = np.array([-0.6, 0])
    self.ee_end_pos = [-0.810001913, -1.43459494e-06]
    self.has_hit = False
    self.has_bounce = False
    self.puck_pos = None
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, env_noise=env_noise, obs_noise=obs_noise, obs_delay=obs_delay, torque_control=torque_control, step_action_function=step_action_function, table_boundary_terminate=table_boundary_terminate, number_flags=1)


def AirHockeyPrepareBullet_setup(self, state):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.start_range[:, 1] - self.start_range[:, 0]) + self.start_range[:, 0]
        puck_pos *= [1, [1, -1][np.random.randint(2)]]
        self.puck_pos = puck_pos
    else:
        puck_pos = np.mean(self.start_range, axis=1)
    self.desired_point = [puck_pos[0], 0]
    puck_pos = np.concatenate([puck_pos, [-0.189]])
    self.client.resetBasePositionAndOrientation(self._model_map['puck'], puck_pos, [0, 0, 0, 1.0])
    for i, (model_id, joint_id, _) in enumerate(self._indexer.action_data):
        self.client.resetJointState(model_id, joint_id, self.init_state[i])
    self.has_hit = False
    self.has_bounce = False


def AirHockeyPrepareBullet_reward(self, state, action, next_state, absorbing):
    puck_pos = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_POS)[:2]
    puck_vel = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_LIN_VEL)[:2]
    ee_pos = self.get_sim_state(next_state, 'planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS)[:2]
    if self.sub_problem == 'side':
        if absorbing and abs(puck_pos[1]) < 0.47:
            r = 100 * np.exp(-2 * np.linalg.norm(puck_vel))
            return r
        if self.has_hit:
            if puck_pos[0] < -0.35 and abs(puck_pos[1]) < 0.47:
                r_vel_x = max([0, 1 - 10 * (np.exp(abs(puck_vel[0])) - 1)])
                dist_ee_des = np.linalg.norm(ee_pos - self.ee_end_pos)
                r_ee = 0.5 - dist_ee_des
                r = r_vel_x + r_ee + 1
            else:
                r = 0
        else:
            dist_ee_puck = np.linalg.norm(puck_pos - ee_pos)
            vec_ee_puck = (puck_pos - ee_pos) / dist_ee_puck
            cos_ang = np.clip(vec_ee_puck @ np.array([0, np.copysign(1, puck_pos[1])]), 0, 1)
            r = np.exp(-8 * (dist_ee_puck - 0.08)) * cos_ang ** 2
    else:
        if absorbing and puck_pos[0] >= -0.6:
            r = 100 * np.exp(-2 * np.linalg.norm(puck_vel))
            return r
        if self.has_hit:
            if -0.6 > puck_pos[0] > -0.9 and abs(puck_pos[1]) < 0.47:
                sig = 0.1
                r_x = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((puck_pos[0] + 0.75) / sig, 2.0) / 2)
                r_y = 2 - abs(puck_vel[1])
                dist_ee_des = np.linalg.norm(ee_pos - self.ee_end_pos)
                r_ee = 0.5 * np.exp(-3 * dist_ee_des)
                r = r_x + r_y + r_ee + 1
            else:
                r = 0
        else:
            dist_ee_puck = np.linalg.norm(puck_pos - ee_pos)
            vec_ee_puck = (puck_pos - ee_pos) / dist_ee_puck
            cos_ang_side = np.clip(vec_ee_puck @ np.array([0.2, np.copysign(0.8, puck_pos[1])]), 0, 1)
            cos_ang_bottom = np.clip(vec_ee_puck @ np.array([-1, 0]), 0, 1)
            cos_ang = max([cos_ang_side, cos_ang_bottom])
            r = np.exp(-8 * (dist_ee_puck - 0.08)) * cos_ang ** 2
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyPrepareBullet_is_absorbing(self, state):
    if super().is_absorbing(state):
        return True
    if self.sub_problem == 'side':
        if self.has_hit:
            puck_pos = self.get_sim_state(self._state, 'puck', PyBulletObservationType.BODY_POS)[:2]
            if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                return True
        return self.has_bounce
    else:
        if self.has_hit:
            puck_pos = self.get_sim_state(self._state, 'puck', PyBulletObservationType.BODY_POS)[:2]
            if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                return True
        return False


def AirHockeyPrepareBullet__simulation_post_step(self):
    if not self.has_hit:
        collision_count = len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['planar_robot_1/link_striker_ee'][0], -1, self._indexer.link_map['planar_robot_1/link_striker_ee'][1]))
        if collision_count > 0:
            self.has_hit = True
    if not self.has_bounce:
        collision_count = 0
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_up_rim_l'][0], -1, self._indexer.link_map['t_up_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_up_rim_r'][0], -1, self._indexer.link_map['t_up_rim_r'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_l'][0], -1, self._indexer.link_map['t_down_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_r'][0], -1, self._indexer.link_map['t_down_rim_r'][1]))
        if collision_count > 0:
            self.has_bounce = True


def AirHockeyPrepareBullet__create_observation(self, state):
    obs = super(AirHockeyPrepareBullet, self)._create_observation(state)
    return np.append(obs, [self.has_hit])
import numpy as np
from mushroom_rl.environments.pybullet_envs.air_hockey.single import AirHockeySingleBullet, PyBulletObservationType
from mushroom_rl.environments.pybullet_envs.air_hockey.repel import AirHockeyRepelBullet


def AirHockeyRepelBullet___init__(self, gamma=0.99, horizon=500, env_noise=False, obs_noise=False, obs_delay=False, torque_control=True, step_action_function=None, timestep=1 / 240.0, n_intermediate_steps=1, debug_gui=False, random_init=False, action_penalty=0.001, table_boundary_terminate=False, init_velocity_range=(1, 2.2)):
    self.random_init = random_init
    self.action_penalty = action_penalty
    self.init_velocity_range = init_velocity_range
    self.start_range = np.array([[0.25, 0.65], [-0.4, 0.4]])
    self.goal = np.array([0.98, 0])
    self.has_hit = False
    self.has_bounce = False
    self.puck_pos = None
    super().__init__(gamma=gamma, horizon=horizon, timestep=timestep, n_intermediate_steps=n_intermediate_steps, debug_gui=debug_gui, env_noise=env_noise, obs_noise=obs_noise, obs_delay=obs_delay, torque_control=torque_control, step_action_function=step_action_function, table_boundary_terminate=table_boundary_terminate, number_flags=1)


def AirHockeyRepelBullet_setup(self, state=None):
    if self.random_init:
        puck_pos = np.random.rand(2) * (self.start_range[:, 1] - self.start_range[:, 0]) + self.start_range[:, 0]
        puck_pos = np.concatenate([puck_pos, [-0.189]])
        lin_vel = np.random.uniform(self.init_velocity_range[0], self.init_velocity_range[1])
        angle = np.random.uniform(-0.5, 0.5)
        puck_lin_vel = np.zeros(3)
        puck_lin_vel[0] = -np.cos(angle) * lin_vel
        puck_lin_vel[1] = np.sin(angle) * lin_vel
        puck_lin_vel[2] = 0.0
        puck_ang_vel = np.random.uniform(-1, 1, 3)
        puck_ang_vel[:2] = 0.0
        self.puck_pos = [puck_pos, puck_lin_vel, puck_ang_vel]
    else:
        puck_pos = np.array([self.start_range[0].mean(), 0.0])
        puck_pos = np.concatenate([puck_pos, [-0.189]])
        puck_lin_vel = np.array([-1.0, 0.0, 0.0])
        puck_ang_vel = np.zeros(3)
    self.client.resetBasePositionAndOrientation(self._model_map['puck'], puck_pos, [0, 0, 0, 1.0])
    self.client.resetBaseVelocity(self._model_map['puck'], puck_lin_vel, puck_ang_vel)
    for i, (model_id, joint_id, _) in enumerate(self._indexer.action_data):
        self._client.resetJointState(model_id, joint_id, self.init_state[i])
    self.has_hit = False
    self.has_bounce = False


def AirHockeyRepelBullet_reward(self, state, action, next_state, absorbing):
    r = 0
    puck_pos = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_POS)[:3]
    puck_vel = self.get_sim_state(next_state, 'puck', PyBulletObservationType.BODY_LIN_VEL)[:3]
    if absorbing:
        if puck_pos[0] + self.env_spec['table']['length'] / 2 < 0 and np.abs(puck_pos[1]) - self.env_spec['table']['goal'] < 0:
            r = -50
    elif self.has_hit:
        r_x = puck_pos[0] + 0.98
        r_vel = min([puck_vel[0] ** 3, 5])
        r = r_x + r_vel + 1
        if puck_pos[0] > 0.9:
            r += 100 * np.exp(-3 * abs(puck_pos[1]))
    else:
        ee_pos = self.get_sim_state(next_state, 'planar_robot_1/link_striker_ee', PyBulletObservationType.LINK_POS)[:2]
        ee_des = np.array([-0.6, puck_pos[1]])
        dist_ee_puck = np.abs(ee_des - ee_pos[:2])
        r_x = np.exp(-3 * dist_ee_puck[0])
        sig = 0.2
        r_y = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-np.power((dist_ee_puck[1] - 0.08) / sig, 2.0) / 2)
        r = 0.3 * r_x + 0.7 * (r_y / 2)
    r -= self.action_penalty * np.linalg.norm(action)
    return r


def AirHockeyRepelBullet_is_absorbing(self, state):
    if super().is_absorbing(state):
        return True
    return self.has_bounce


def AirHockeyRepelBullet__simulation_post_step(self):
    if not self.has_hit:
        collision_count = len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['planar_robot_1/link_striker_ee'][0], -1, self._indexer.link_map['planar_robot_1/link_striker_ee'][1]))
        if collision_count > 0:
            self.has_hit = True
    if not self.has_bounce:
        collision_count = 0
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_up_rim_l'][0], -1, self._indexer.link_map['t_up_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_up_rim_r'][0], -1, self._indexer.link_map['t_up_rim_r'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_l'][0], -1, self._indexer.link_map['t_down_rim_l'][1]))
        collision_count += len(self.client.getContactPoints(self._model_map['puck'], self._indexer.link_map['t_down_rim_r'][0], -1, self._indexer.link_map['t_down_rim_r'][1]))
        if collision_count > 0:
            self.has_bounce = True


def AirHockeyRepelBullet__create_observation(self, state):
    obs = super(AirHockeyRepelBullet, self)._create_observation(state)
    return np.append(obs, [self.has_hit])
