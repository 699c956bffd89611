"""PyBullet environments."""
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments.pybullet import PyBullet
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.utils.pybullet import *
from mushroom_rl.utils.pybullet.contacts import ContactHelper
from mushroom_rl.utils.pybullet.index_map import IndexMap
from mushroom_rl.utils.pybullet.joints_helper import JointsHelper
from mushroom_rl.utils.pybullet.observation import PyBulletObservationType
from pybullet_utils.bullet_client import BulletClient
import numpy as np
import pybullet
import pybullet_data



def PyBullet___init__(self, files, actuation_spec, observation_spec, gamma, horizon, timestep=1 / 240, n_intermediate_steps=1, enforce_joint_velocity_limits=False, debug_gui=False, **viewer_params):
    assert len(observation_spec) > 0
    assert len(actuation_spec) > 0
    self._timestep = timestep
    self._n_intermediate_steps = n_intermediate_steps
    if debug_gui:
        self._client = BulletClient(connection_mode=pybullet.GUI)
        self._client.configureDebugVisualizer(pybullet.COV_ENABLE_GUI, 0)
    else:
        self._client = BulletClient(connection_mode=pybullet.DIRECT)
    self._client.setTimeStep(self._timestep)
    self._client.setGravity(0, 0, -9.81)
    self._client.setAdditionalSearchPath(pybullet_data.getDataPath())
    self._viewer = PyBulletViewer(self._client, self.dt, **viewer_params)
    self._state = None
    self._model_map = dict()
    self._load_all_models(files, enforce_joint_velocity_limits)
    self._indexer = IndexMap(self._client, self._model_map, actuation_spec, observation_spec)
    self.joints = JointsHelper(self._client, self._indexer, observation_spec)
    action_space = Box(*self._indexer.action_limits)
    observation_space = Box(*self._indexer.observation_limits)
    mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, self.dt)
    mdp_info = self._modify_mdp_info(mdp_info)
    super().__init__(mdp_info)
    self._initial_state = self._client.saveState()


def PyBullet_reset(self, state=None):
    self._client.restoreState(self._initial_state)
    self.setup(state)
    self._state = self._indexer.create_sim_state()
    observation = self._create_observation(self._state)
    return (observation, {})


def PyBullet_step(self, action):
    curr_state = self._state.copy()
    action = self._preprocess_action(action)
    self._step_init(curr_state, action)
    for i in range(self._n_intermediate_steps):
        ctrl_action = self._compute_action(curr_state, action)
        self._indexer.apply_control(ctrl_action)
        self._simulation_pre_step()
        self._client.stepSimulation()
        self._simulation_post_step()
        curr_state = self._indexer.create_sim_state()
    self._step_finalize()
    absorbing = self.is_absorbing(curr_state)
    reward = self.reward(self._state, action, curr_state, absorbing)
    observation = self._create_observation(curr_state)
    self._state = curr_state
    return (observation, reward, absorbing, {})


def PyBullet_get_sim_state_index(self, name, obs_type):
    return self._indexer.get_index(name, obs_type)


def PyBullet_get_sim_state(self, obs, name, obs_type):
    indices = self.get_sim_state_index(name, obs_type)
    return obs[indices]


def PyBullet__load_model(self, file_name, kwargs):
    if file_name.endswith('.urdf'):
        model_id = self._client.loadURDF(file_name, **kwargs)
    elif file_name.endswith('.sdf'):
        model_id = self._client.loadSDF(file_name, **kwargs)[0]
    else:
        model_id = self._client.loadMJCF(file_name, **kwargs)[0]
    for j in range(self._client.getNumJoints(model_id)):
        self._client.setJointMotorControl2(model_id, j, pybullet.POSITION_CONTROL, force=0)
    return model_id


def PyBullet__load_all_models(self, files, enforce_joint_velocity_limits):
    for file_name, kwargs in files.items():
        model_id = self._load_model(file_name, kwargs)
        model_name = self._client.getBodyInfo(model_id)[1].decode('UTF-8')
        self._model_map[model_name] = model_id
    self._model_map.update(self._custom_load_models())
    if enforce_joint_velocity_limits:
        for model_id in self._model_map.values():
            for joint_id in range(self._client.getNumJoints(model_id)):
                joint_data = self._client.getJointInfo(model_id, joint_id)
                self._client.changeDynamics(model_id, joint_id, maxJointVelocity=joint_data[11])


def PyBullet_dt(self):
    return self._timestep * self._n_intermediate_steps



def IndexMap___init__(self, client, model_map, actuation_spec, observation_spec):
    self._client = client
    self.model_map = model_map
    self.joint_map = dict()
    self.link_map = dict()
    self._build_joint_and_link_maps()
    contact_types = [PyBulletObservationType.CONTACT_FLAG]
    contacts = [obs[0] for obs in observation_spec if obs[1] in contact_types]
    self._contacts = ContactHelper(client, contacts, self.model_map, self.link_map)
    self.action_data = list()
    self._action_low, self._action_high = self._process_actuation_spec(actuation_spec)
    self.observation_map = observation_spec
    self.observation_indices_map = dict()
    self._observation_low, self._observation_high = self._process_observations()


def IndexMap_create_sim_state(self):
    data_obs = list()
    self._contacts.compute_contacts()
    for name, obs_type in self.observation_map:
        if obs_type is PyBulletObservationType.BODY_POS or obs_type is PyBulletObservationType.BODY_LIN_VEL or obs_type is PyBulletObservationType.BODY_ANG_VEL:
            model_id = self.model_map[name]
            if obs_type is PyBulletObservationType.BODY_POS:
                t, q = self._client.getBasePositionAndOrientation(model_id)
                data_obs += t + q
            else:
                v, w = self._client.getBaseVelocity(model_id)
                if obs_type is PyBulletObservationType.BODY_LIN_VEL:
                    data_obs += v
                else:
                    data_obs += w
        elif obs_type is PyBulletObservationType.LINK_POS or obs_type is PyBulletObservationType.LINK_LIN_VEL or obs_type is PyBulletObservationType.LINK_ANG_VEL:
            model_id, link_id = self.link_map[name]
            if obs_type is PyBulletObservationType.LINK_POS:
                link_data = self._client.getLinkState(model_id, link_id)
                t = link_data[0]
                q = link_data[1]
                data_obs += t + q
            elif obs_type is PyBulletObservationType.LINK_LIN_VEL:
                data_obs += self._client.getLinkState(model_id, link_id, computeLinkVelocity=True)[-2]
            elif obs_type is PyBulletObservationType.LINK_ANG_VEL:
                data_obs += self._client.getLinkState(model_id, link_id, computeLinkVelocity=True)[-1]
        elif obs_type is PyBulletObservationType.JOINT_POS or obs_type is PyBulletObservationType.JOINT_VEL:
            model_id, joint_id = self.joint_map[name]
            pos, vel, _, _ = self._client.getJointState(model_id, joint_id)
            if obs_type is PyBulletObservationType.JOINT_POS:
                data_obs.append(pos)
            elif obs_type is PyBulletObservationType.JOINT_VEL:
                data_obs.append(vel)
        elif obs_type is PyBulletObservationType.CONTACT_FLAG:
            contact = self._contacts.get_contact(name)
            contact_flag = 0 if contact is None else 1
            data_obs.append(contact_flag)
    return np.array(data_obs)


def IndexMap_apply_control(self, action):
    i = 0
    for model_id, joint_id, mode in self.action_data:
        u = action[i]
        if mode is pybullet.POSITION_CONTROL:
            kwargs = dict(targetPosition=u, maxVelocity=self._client.getJointInfo(model_id, joint_id)[11], force=self._client.getJointInfo(model_id, joint_id)[10])
        elif mode is pybullet.VELOCITY_CONTROL:
            kwargs = dict(targetVelocity=u, maxVelocity=self._client.getJointInfo(model_id, joint_id)[11], force=self._client.getJointInfo(model_id, joint_id)[10])
        elif mode is pybullet.TORQUE_CONTROL:
            kwargs = dict(force=u)
        else:
            raise NotImplementedError
        self._client.setJointMotorControl2(model_id, joint_id, mode, **kwargs)
        i += 1


def IndexMap_get_index(self, name, obs_type):
    return self.observation_indices_map[name][obs_type]


def IndexMap__build_joint_and_link_maps(self):
    for model_id in self.model_map.values():
        for joint_id in range(self._client.getNumJoints(model_id)):
            joint_data = self._client.getJointInfo(model_id, joint_id)
            if joint_data[2] != pybullet.JOINT_FIXED:
                joint_name = joint_data[1].decode('UTF-8')
                self.joint_map[joint_name] = (model_id, joint_id)
            link_name = joint_data[12].decode('UTF-8')
            self.link_map[link_name] = (model_id, joint_id)


def IndexMap__process_actuation_spec(self, actuation_spec):
    for name, mode in actuation_spec:
        if name in self.joint_map:
            data = self.joint_map[name] + (mode,)
            self.action_data.append(data)
    low = list()
    high = list()
    for model_id, joint_id, mode in self.action_data:
        joint_info = self._client.getJointInfo(model_id, joint_id)
        if mode is pybullet.POSITION_CONTROL:
            low.append(joint_info[8])
            high.append(joint_info[9])
        elif mode is pybullet.VELOCITY_CONTROL:
            low.append(-joint_info[11])
            high.append(joint_info[11])
        elif mode is pybullet.TORQUE_CONTROL:
            low.append(-joint_info[10])
            high.append(joint_info[10])
        else:
            raise NotImplementedError
    return (np.array(low), np.array(high))


def IndexMap__process_observations(self):
    low = list()
    high = list()
    for name, obs_type in self.observation_map:
        index_count = len(low)
        if obs_type is PyBulletObservationType.BODY_POS or obs_type is PyBulletObservationType.BODY_LIN_VEL or obs_type is PyBulletObservationType.BODY_ANG_VEL:
            n_dim = 7 if obs_type is PyBulletObservationType.BODY_POS else 3
            low += [-np.inf] * n_dim
            high += [np.inf] * n_dim
        elif obs_type is PyBulletObservationType.LINK_POS or obs_type is PyBulletObservationType.LINK_LIN_VEL or obs_type is PyBulletObservationType.LINK_ANG_VEL:
            n_dim = 7 if obs_type is PyBulletObservationType.LINK_POS else 3
            low += [-np.inf] * n_dim
            high += [np.inf] * n_dim
        elif obs_type is PyBulletObservationType.JOINT_POS or obs_type is PyBulletObservationType.JOINT_VEL:
            model_id, joint_id = self.joint_map[name]
            joint_info = self._client.getJointInfo(model_id, joint_id)
            if obs_type is PyBulletObservationType.JOINT_POS:
                low.append(joint_info[8])
                high.append(joint_info[9])
            else:
                max_joint_vel = joint_info[11]
                low.append(-max_joint_vel)
                high.append(max_joint_vel)
        elif obs_type is PyBulletObservationType.CONTACT_FLAG:
            low.append(0.0)
            high.append(1.0)
        else:
            raise RuntimeError('Unsupported observation type')
        self._add_observation_index(name, obs_type, index_count, len(low))
    return (np.array(low), np.array(high))


def IndexMap__add_observation_index(self, name, obs_type, start, end):
    if name not in self.observation_indices_map:
        self.observation_indices_map[name] = dict()
    self.observation_indices_map[name][obs_type] = list(range(start, end))


def IndexMap_observation_limits(self):
    return (self._observation_low, self._observation_high)


def IndexMap_action_limits(self):
    return (self._action_low, self._action_high)



def JointsHelper___init__(self, client, indexer, observation_spec):
    self._joint_pos_indexes = list()
    self._joint_velocity_indexes = list()
    joint_limits_low = list()
    joint_limits_high = list()
    joint_velocity_limits = list()
    for joint_name, obs_type in observation_spec:
        joint_idx = indexer.get_index(joint_name, obs_type)
        if obs_type == PyBulletObservationType.JOINT_VEL:
            self._joint_velocity_indexes.append(joint_idx[0])
            model_id, joint_id = indexer.joint_map[joint_name]
            joint_info = client.getJointInfo(model_id, joint_id)
            joint_velocity_limits.append(joint_info[11])
        elif obs_type == PyBulletObservationType.JOINT_POS:
            self._joint_pos_indexes.append(joint_idx[0])
            model_id, joint_id = indexer.joint_map[joint_name]
            joint_info = client.getJointInfo(model_id, joint_id)
            joint_limits_low.append(joint_info[8])
            joint_limits_high.append(joint_info[9])
    self._joint_limits_low = np.array(joint_limits_low)
    self._joint_limits_high = np.array(joint_limits_high)
    self._joint_velocity_limits = np.array(joint_velocity_limits)


def JointsHelper_positions(self, state):
    return state[self._joint_pos_indexes]


def JointsHelper_velocities(self, state):
    return state[self._joint_velocity_indexes]


def JointsHelper_limits(self):
    return (self._joint_limits_low, self._joint_limits_high)


def JointsHelper_velocity_limits(self):
    return self._joint_velocity_limits



def ContactHelper___init__(self, client, contacts, model_map, link_map):
    self._client = client
    self._contact_list = list()
    self._contact_name_map = dict()
    self._computed_contacts = dict()
    for contact in contacts:
        name_1, name_2 = contact.split('<->')
        model_1, link_1 = self._get_link_ids(name_1, link_map, model_map)
        model_2, link_2 = self._get_link_ids(name_2, link_map, model_map)
        self._contact_name_map[contact] = (model_1, model_2, link_1, link_2)
        self._add_contact(model_1, model_2, link_1, link_2)


def ContactHelper_compute_contacts(self):
    if len(self._contact_list) == 0:
        return
    self._reset_computed_contacts()
    for contact in self._contact_list:
        model_a, model_b = contact[0]
        contacts_points = self._client.getContactPoints(model_a, model_b)
        for contact_p in contacts_points:
            involved_links = contact_p[3:5]
            if involved_links in contact[1]:
                self._computed_contacts[model_a][model_b][contact_p[3]][contact_p[4]] = contact_p


def ContactHelper_get_contact(self, contact_name):
    model_1, model_2, link_1, link_2 = self._order_contact(*self._contact_name_map[contact_name])
    return self._computed_contacts[model_1][model_2][link_1][link_2]


def ContactHelper__add_contact(self, model_1, model_2, link_1, link_2):
    model_a, model_b, link_a, link_b = self._order_contact(model_1, model_2, link_1, link_2)
    done = False
    for contact in self._contact_list:
        models = contact[0]
        links_list = contact[1]
        if models == (model_a, model_b):
            exists = False
            for links in links_list:
                if (link_a, link_b) == links:
                    exists = True
                    break
            if not exists:
                links_list.append((link_a, link_b))
                done = True
                break
    if not done:
        contact = ((model_a, model_b), [(link_a, link_b)])
        self._contact_list.append(contact)


def ContactHelper__reset_computed_contacts(self):
    for contact in self._contact_name_map.values():
        model_a, model_b, link_a, link_b = self._order_contact(*contact)
        if model_a not in self._computed_contacts:
            self._computed_contacts[model_a] = dict()
        if model_b not in self._computed_contacts[model_a]:
            self._computed_contacts[model_a][model_b] = dict()
        if link_a not in self._computed_contacts[model_a][model_b]:
            self._computed_contacts[model_a][model_b][link_a] = dict()
        self._computed_contacts[model_a][model_b][link_a][link_b] = None


def ContactHelper__get_link_ids(name, link_map, model_map):
    if name in link_map:
        return link_map[name]
    else:
        return (model_map[name], -1)


def ContactHelper__order_contact(model_1, model_2, link_1, link_2):
    if model_1 < model_2:
        model_a = model_1
        link_a = link_1
        model_b = model_2
        link_b = link_2
    else:
        model_a = model_2
        link_a = link_2
        model_b = model_1
        link_b = link_1
    return (model_a, model_b, link_a, link_b)
