"""MuJoCo environments."""
from dm_control import mjcf
from enum import Enum
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments.mujoco import MuJoCo, MultiMuJoCo
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.utils.mujoco import *
from mushroom_rl.utils.mujoco.observation_helper import ObservationType, ObservationHelper
import mujoco
import numpy as np



def MuJoCo___init__(self, xml_file, actuation_spec, observation_spec, gamma, horizon, timestep=None, n_substeps=1, n_intermediate_steps=1, additional_data_spec=None, collision_groups=None, max_joint_vel=None, **viewer_params):
    self._model = self.load_model(xml_file)
    if timestep is not None:
        self._model.opt.timestep = timestep
        self._timestep = timestep
    else:
        self._timestep = self._model.opt.timestep
    self._data = mujoco.MjData(self._model)
    self._n_intermediate_steps = n_intermediate_steps
    self._n_substeps = n_substeps
    self._viewer_params = viewer_params
    self._viewer = None
    self._obs = None
    self._action_indices = self.get_action_indices(self._model, self._data, actuation_spec)
    action_space = self.get_action_space(self._action_indices, self._model)
    self.obs_helper = ObservationHelper(observation_spec, self._model, self._data, max_joint_velocity=max_joint_vel)
    observation_space = Box(*self.obs_helper.get_obs_limits())
    self.additional_data = {}
    if additional_data_spec is not None:
        for key, name, ot in additional_data_spec:
            self.additional_data[key] = (name, ot)
    self.collision_groups = {}
    if collision_groups is not None:
        for name, geom_names in collision_groups:
            col_group = list()
            for geom_name in geom_names:
                mj_id = mujoco.mj_name2id(self._model, mujoco.mjtObj.mjOBJ_GEOM, geom_name)
                assert mj_id != -1, f'''geom "{geom_name}" not found! Can't be used for collision-checking.'''
                col_group.append(mj_id)
            self.collision_groups[name] = set(col_group)
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, self.dt)
    mdp_info = self._modify_mdp_info(mdp_info)
    mujoco.set_mju_user_warning(self.user_warning_raise_exception)
    if type(self)._compute_action == MuJoCo._compute_action:
        self._recompute_action_per_step = False
    else:
        self._recompute_action_per_step = True
    super().__init__(mdp_info)


def MuJoCo_seed(self, seed):
    np.random.seed(seed)


def MuJoCo_reset(self, obs=None):
    mujoco.mj_resetData(self._model, self._data)
    self.setup(obs)
    self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
    return (self._modify_observation(self._obs), {})


def MuJoCo_step(self, action):
    cur_obs = self._obs.copy()
    action = self._preprocess_action(action)
    self._step_init(cur_obs, action)
    ctrl_action = None
    for i in range(self._n_intermediate_steps):
        if self._recompute_action_per_step or ctrl_action is None:
            ctrl_action = self._compute_action(cur_obs, action)
            self._data.ctrl[self._action_indices] = ctrl_action
        self._simulation_pre_step()
        mujoco.mj_step(self._model, self._data, self._n_substeps)
        self._simulation_post_step()
        if self._recompute_action_per_step:
            cur_obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
    if not self._recompute_action_per_step:
        cur_obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
    self._step_finalize()
    absorbing = self.is_absorbing(cur_obs)
    reward = self.reward(self._obs, action, cur_obs, absorbing)
    info = self._create_info_dictionary(cur_obs)
    self._obs = cur_obs
    return (self._modify_observation(cur_obs), reward, absorbing, info)


def MuJoCo__read_data(self, name):
    data_id, otype = self.additional_data[name]
    return np.array(self.obs_helper.get_state(self._model, self._data, data_id, otype))


def MuJoCo__write_data(self, name, value):
    data_id, otype = self.additional_data[name]
    if otype == ObservationType.JOINT_POS:
        self._data.joint(data_id).qpos = value
    elif otype == ObservationType.JOINT_VEL:
        self._data.joint(data_id).qvel = value
    else:
        data_buffer = self.obs_helper.get_state(self._model, self._data, data_id, otype)
        data_buffer[:] = value


def MuJoCo__check_collision(self, group1, group2):
    ids1 = self.collision_groups[group1]
    ids2 = self.collision_groups[group2]
    for coni in range(0, self._data.ncon):
        con = self._data.contact[coni]
        collision = con.geom1 in ids1 and con.geom2 in ids2
        collision_trans = con.geom1 in ids2 and con.geom2 in ids1
        if collision or collision_trans:
            return True
    return False


def MuJoCo__get_collision_force(self, group1, group2):
    ids1 = self.collision_groups[group1]
    ids2 = self.collision_groups[group2]
    c_array = np.zeros(6, dtype=np.float64)
    for con_i in range(0, self._data.ncon):
        con = self._data.contact[con_i]
        if con.geom1 in ids1 and con.geom2 in ids2 or (con.geom1 in ids2 and con.geom2 in ids1):
            mujoco.mj_contactForce(self._model, self._data, con_i, c_array)
            return c_array
    return c_array


def MuJoCo_setup(self, obs):
    if obs is not None:
        self.obs_helper._modify_data(self._model, self._data, obs)


def MuJoCo_dt(self):
    return self._timestep * self._n_intermediate_steps * self._n_substeps


def MuJoCo_get_action_indices(model, data, actuation_spec):
    if len(actuation_spec) == 0:
        action_indices = [i for i in range(0, len(data.actuator_force))]
    else:
        action_indices = []
        for name in actuation_spec:
            action_indices.append(model.actuator(name).id)
    return action_indices


def MuJoCo_get_action_space(action_indices, model):
    low = []
    high = []
    for index in action_indices:
        if model.actuator_ctrllimited[index]:
            low.append(model.actuator_ctrlrange[index][0])
            high.append(model.actuator_ctrlrange[index][1])
        else:
            low.append(-np.inf)
            high.append(np.inf)
    action_space = Box(np.array(low), np.array(high))
    return action_space


def MuJoCo_load_model(xml_file):
    if type(xml_file) == mjcf.element.RootElement:
        model = mujoco.MjModel.from_xml_string(xml=xml_file.to_xml_string(), assets=xml_file.get_assets())
    elif type(xml_file) == str:
        model = mujoco.MjModel.from_xml_path(xml_file)
    else:
        raise ValueError(f'Unsupported type for xml_file {type(xml_file)}.')
    return model


def MultiMuJoCo___init__(self, xml_files, actuation_spec, observation_spec, gamma, horizon, timestep=None, n_substeps=1, n_intermediate_steps=1, additional_data_spec=None, collision_groups=None, max_joint_vel=None, random_env_reset=True, **viewer_params):
    self._random_env_reset = random_env_reset
    self._models = [self.load_model(f) for f in xml_files]
    self._current_model_idx = 0
    self._model = self._models[self._current_model_idx]
    if timestep is not None:
        for m in self._models:
            m.opt.timestep = timestep
        self._timestep = timestep
    else:
        self._timestep = self._model.opt.timestep
    self._datas = [mujoco.MjData(m) for m in self._models]
    self._data = self._datas[self._current_model_idx]
    self._n_intermediate_steps = n_intermediate_steps
    self._n_substeps = n_substeps
    self._viewer_params = viewer_params
    self._viewer = None
    self._obs = None
    self._action_indices = self.get_action_indices(self._model, self._data, actuation_spec)
    action_space = self.get_action_space(self._action_indices, self._model)
    for m, d in zip(self._models, self._datas):
        action_ind = self.get_action_indices(m, d, actuation_spec)
        action_sp = self.get_action_space(action_ind, m)
        if not np.array_equal(action_ind, self._action_indices) or not np.array_equal(action_space.low, action_sp.low) or (not np.array_equal(action_space.high, action_sp.high)):
            raise ValueError('The provided environments differ in the their action spaces. This is not allowed.')
    self.obs_helpers = [ObservationHelper(observation_spec, m, d, max_joint_velocity=max_joint_vel) for m, d in zip(self._models, self._datas)]
    self.obs_helper = self.obs_helpers[self._current_model_idx]
    observation_space = Box(*self.obs_helper.get_obs_limits())
    for oh in self.obs_helpers:
        low, high = oh.get_obs_limits()
        if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
            raise ValueError('The provided environments differ in the their observation limits. This is not allowed.')
    self.additional_data = {}
    if additional_data_spec is not None:
        for key, name, ot in additional_data_spec:
            self.additional_data[key] = (name, ot)
    self.collision_groups = {}
    if collision_groups is not None:
        for name, geom_names in collision_groups:
            col_group = list()
            for geom_name in geom_names:
                mj_id = mujoco.mj_name2id(self._model, mujoco.mjtObj.mjOBJ_GEOM, geom_name)
                assert mj_id != -1, f'''geom "{geom_name}" not found! Can't be used for collision-checking.'''
                col_group.append(mj_id)
            self.collision_groups[name] = set(col_group)
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, self.dt)
    mdp_info = self._modify_mdp_info(mdp_info)
    mujoco.set_mju_user_warning(self.user_warning_raise_exception)
    if type(self)._compute_action == MuJoCo._compute_action:
        self._recompute_action_per_step = False
    else:
        self._recompute_action_per_step = True
    super(MuJoCo, self).__init__(mdp_info)


def MultiMuJoCo_reset(self, obs=None):
    mujoco.mj_resetData(self._model, self._data)
    if self._random_env_reset:
        self._current_model_idx = np.random.randint(0, len(self._models))
    else:
        self._current_model_idx = self._current_model_idx + 1 if self._current_model_idx < len(self._models) - 1 else 0
    self._model = self._models[self._current_model_idx]
    self._data = self._datas[self._current_model_idx]
    self.obs_helper = self.obs_helpers[self._current_model_idx]
    self.setup(obs)
    if self._viewer is not None and self.more_than_one_env:
        self._viewer.load_new_model(self._model)
    self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
    return (self._modify_observation(self._obs), {})


def MultiMuJoCo__get_env_id_map(current_model_idx, n_models):
    n_models = np.maximum(n_models, 2)
    bits_needed = 1 + int(np.log(n_models - 1) / np.log(2))
    id_mask = np.zeros(bits_needed)
    bin_rep = np.binary_repr(current_model_idx)[::-1]
    for i, b in enumerate(bin_rep):
        idx = bits_needed - 1 - i
        if int(b):
            id_mask[idx] = 1.0
        else:
            id_mask[idx] = 0.0
    return id_mask



def ObservationHelper___init__(self, observation_spec, model, data, max_joint_velocity):
    if len(observation_spec) == 0:
        raise AttributeError('No Environment observations were specified. Add at least one observation to the observation_spec.')
    self.obs_low = []
    self.obs_high = []
    self.joint_pos_idx = []
    self.joint_vel_idx = []
    self.joint_mujoco_idx = []
    self.obs_idx_map = {}
    self.build_omit_idx = {}
    self.observation_spec = observation_spec
    if max_joint_velocity is not None:
        max_joint_velocity = iter(max_joint_velocity)
    current_idx = 0
    for key, name, ot in observation_spec:
        assert key not in self.obs_idx_map.keys(), 'Found duplicate key in observation specification: "%s"' % key
        obs_count = len(self.get_state(model, data, name, ot))
        self.obs_idx_map[key] = list(range(current_idx, current_idx + obs_count))
        self.build_omit_idx[key] = []
        if obs_count == 1 and ot == ObservationType.JOINT_POS:
            self.joint_pos_idx.append(current_idx)
            self.joint_mujoco_idx.append(model.joint(name).id)
            if model.joint(name).limited:
                self.obs_low.append(model.joint(name).range[0])
                self.obs_high.append(model.joint(name).range[1])
            else:
                self.obs_low.append(-np.inf)
                self.obs_high.append(np.inf)
        elif obs_count == 1 and ot == ObservationType.JOINT_VEL:
            self.joint_vel_idx.append(current_idx)
            if max_joint_velocity is None:
                max_vel = np.inf
            else:
                max_vel = next(max_joint_velocity)
            self.obs_low.append(-max_vel)
            self.obs_high.append(max_vel)
        else:
            self.obs_low.extend([-np.inf] * obs_count)
            self.obs_high.extend([np.inf] * obs_count)
        current_idx += obs_count
    self.obs_low = np.array(self.obs_low)
    self.obs_high = np.array(self.obs_high)


def ObservationHelper_remove_obs(self, key, index):
    indices = self.obs_idx_map[key]
    adjusted_index = index - len(self.build_omit_idx[key])
    self.obs_low = np.delete(self.obs_low, indices[adjusted_index])
    self.obs_high = np.delete(self.obs_high, indices[adjusted_index])
    cutoff = indices.pop(adjusted_index)
    for obs_list in self.obs_idx_map.values():
        for idx in range(len(obs_list)):
            if obs_list[idx] > cutoff:
                obs_list[idx] -= 1
    for i in range(len(self.joint_pos_idx)):
        if self.joint_pos_idx[i] > cutoff:
            self.joint_pos_idx[i] -= 1
    for i in range(len(self.joint_vel_idx)):
        if self.joint_vel_idx[i] > cutoff:
            self.joint_vel_idx[i] -= 1
    self.build_omit_idx[key].append(index)


def ObservationHelper_add_obs(self, key, length, min_value=-np.inf, max_value=np.inf):
    self.obs_idx_map[key] = list(range(len(self.obs_low), len(self.obs_low) + length))
    if hasattr(min_value, '__len__'):
        self.obs_low = np.append(self.obs_low, min_value)
    else:
        self.obs_low = np.append(self.obs_low, [min_value] * length)
    if hasattr(max_value, '__len__'):
        self.obs_high = np.append(self.obs_high, max_value)
    else:
        self.obs_high = np.append(self.obs_high, [max_value] * length)


def ObservationHelper_get_from_obs(self, obs, key):
    return obs[self.obs_idx_map[key][0]:self.obs_idx_map[key][-1] + 1]


def ObservationHelper_get_joint_pos_from_obs(self, obs):
    return obs[self.joint_pos_idx]


def ObservationHelper_get_joint_vel_from_obs(self, obs):
    return obs[self.joint_vel_idx]


def ObservationHelper_get_obs_limits(self):
    return (self.obs_low, self.obs_high)


def ObservationHelper_get_joint_pos_limits(self):
    return (self.obs_low[self.joint_pos_idx], self.obs_high[self.joint_pos_idx])


def ObservationHelper_get_joint_vel_limits(self):
    return (self.obs_low[self.joint_vel_idx], self.obs_high[self.joint_vel_idx])


def ObservationHelper__build_obs(self, model, data):
    observations = []
    for key, name, o_type in self.observation_spec:
        omit = np.array(self.build_omit_idx[key])
        obs = self.get_state(model, data, name, o_type)
        if len(omit) != 0:
            obs = np.delete(obs, omit)
        observations.append(obs)
    return np.concatenate(observations)


def ObservationHelper__modify_data(self, model, data, obs):
    current_idx = 0
    for key, name, o_type in self.observation_spec:
        omit = np.array(self.build_omit_idx[key])
        current_obs = self.get_state(model, data, name, o_type)
        for i in range(len(current_obs)):
            if i not in omit:
                current_obs[i] = obs[current_idx]
                current_idx += 1


def ObservationHelper_get_state(self, model, data, name, o_type):
    if o_type == ObservationType.BODY_POS:
        obs = data.body(name).xpos
    elif o_type == ObservationType.BODY_ROT:
        obs = data.body(name).xquat
    elif o_type == ObservationType.BODY_VEL or o_type == ObservationType.BODY_VEL_WORLD:
        local = o_type == ObservationType.BODY_VEL
        obs = np.empty(6)
        mujoco.mj_objectVelocity(model, data, mujoco.mjtObj.mjOBJ_XBODY, data.body(name).id, obs, local)
    elif o_type == ObservationType.JOINT_POS:
        obs = data.joint(name).qpos
    elif o_type == ObservationType.JOINT_VEL:
        obs = data.joint(name).qvel
    elif o_type == ObservationType.SITE_POS:
        obs = data.site(name).xpos
    elif o_type == ObservationType.SITE_ROT:
        obs = data.site(name).xmat
    else:
        raise ValueError('Invalid observation type')
    return np.atleast_1d(obs)


def ObservationHelper_get_all_observation_keys(self):
    return list(self.obs_idx_map.keys())
