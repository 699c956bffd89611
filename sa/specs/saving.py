"""Save archives and what is re-established after loading."""
from copy import deepcopy
from itertools import chain
from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DeepAC
from mushroom_rl.algorithms.actor_critic.deep_actor_critic import OnPolicyDeepAC
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.a2c import A2C
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.ddpg import DDPG
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.deep_actor_critic import OnPolicyDeepAC, DeepAC
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.ppo import PPO
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.ppo_bptt import PPO_BPTT
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy, SAC
from mushroom_rl.algorithms.value.batch_td.batch_td import BatchTD
from mushroom_rl.algorithms.value.dqn.abstract_dqn import AbstractDQN
from mushroom_rl.algorithms.value.td.td import TD
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator
from mushroom_rl.approximators.parametric.torch_approximator import *
from mushroom_rl.approximators.parametric.torch_approximator import TorchApproximator, NumpyTorchApproximator
from mushroom_rl.approximators.regressor import Regressor
from mushroom_rl.core import Agent
from mushroom_rl.core import DatasetInfo, Dataset, Serializable
from mushroom_rl.core import Serializable
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.parameters import Parameter, to_parameter
from mushroom_rl.rl_utils.parameters import to_parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory
from mushroom_rl.rl_utils.replay_memory import ReplayMemory
from mushroom_rl.rl_utils.replay_memory import ReplayMemory, SequenceReplayMemory, SumTree, PrioritizedReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.rl_utils.value_functions import compute_advantage_montecarlo
from mushroom_rl.rl_utils.value_functions import compute_gae
from mushroom_rl.utils.minibatches import minibatch_generator
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.utils.torch import TorchUtils, CategoricalWrapper
from pathlib import Path
from tqdm import trange, tqdm
from zipfile import ZipFile
import json
import numpy as np
import pickle
import torch
import torch.nn.functional as F
import torch.optim as optim



def Serializable_save(self, path, full_save=False):
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with ZipFile(path, 'w') as zip_file:
        self.save_zip(zip_file, full_save)


def Serializable_save_zip(self, zip_file, full_save, folder=''):
    primitive_dictionary = dict()
    for att, method in self._save_attributes.items():
        if not method.endswith('!') or full_save:
            method = method[:-1] if method.endswith('!') else method
            attribute = getattr(self, att) if hasattr(self, att) else None
            if attribute is not None:
                if method == 'primitive':
                    primitive_dictionary[att] = attribute
                elif method == 'none':
                    pass
                elif hasattr(self, '_save_{}'.format(method)):
                    save_method = getattr(self, '_save_{}'.format(method))
                    file_name = '{}.{}'.format(att, method)
                    save_method(zip_file, file_name, attribute, full_save=full_save, folder=folder)
                else:
                    raise NotImplementedError("Method _save_{} is not implemented for class '{}'".format(method, self.__class__.__name__))
    config_data = dict(type=type(self), save_attributes=self._save_attributes, primitive_dictionary=primitive_dictionary)
    self._save_pickle(zip_file, 'config', config_data, folder=folder)


def Serializable_load(cls, path):
    path = Path(path)
    if not path.exists():
        raise ValueError('Path to load agent is not valid')
    with ZipFile(path, 'r') as zip_file:
        loaded_object = cls.load_zip(zip_file)
    return loaded_object


def Serializable_load_zip(cls, zip_file, folder=''):
    config_path = Serializable._append_folder(folder, 'config')
    try:
        object_type, save_attributes, primitive_dictionary = cls._load_pickle(zip_file, config_path).values()
    except KeyError:
        return None
    if object_type is list:
        return cls._load_list(zip_file, folder, primitive_dictionary['len'])
    else:
        loaded_object = object_type.__new__(object_type)
        setattr(loaded_object, '_save_attributes', save_attributes)
        for att, method in save_attributes.items():
            mandatory = not method.endswith('!')
            method = method[:-1] if not mandatory else method
            file_name = Serializable._append_folder(folder, '{}.{}'.format(att, method))
            if method == 'primitive' and att in primitive_dictionary:
                setattr(loaded_object, att, primitive_dictionary[att])
            elif file_name in zip_file.namelist() or (method == 'mushroom' and mandatory):
                load_method = getattr(cls, '_load_{}'.format(method))
                if load_method is None:
                    raise NotImplementedError('Method _load_{} is notimplemented'.format(method))
                att_val = load_method(zip_file, file_name)
                setattr(loaded_object, att, att_val)
            else:
                setattr(loaded_object, att, None)
        loaded_object._post_load()
        return loaded_object


def Serializable__load_list(self, zip_file, folder, length):
    loaded_list = list()
    for i in range(length):
        element_folder = Serializable._append_folder(folder, str(i))
        loaded_element = Serializable.load_zip(zip_file, element_folder)
        loaded_list.append(loaded_element)
    return loaded_list


def Serializable_copy(self):
    return deepcopy(self)


def Serializable__add_save_attr(self, **attr_dict):
    if not hasattr(self, '_save_attributes'):
        self._save_attributes = dict()
    self._save_attributes.update(attr_dict)


def Serializable__post_load(self):
    pass


def Serializable__append_folder(folder, name):
    if folder:
        return folder + '/' + name
    else:
        return name


def Serializable__load_pickle(zip_file, name):
    with zip_file.open(name, 'r') as f:
        return pickle.load(f)


def Serializable__load_numpy(zip_file, name):
    with zip_file.open(name, 'r') as f:
        return np.load(f)


def Serializable__load_torch(zip_file, name):
    with zip_file.open(name, 'r') as f:
        return torch.load(f, map_location=TorchUtils.get_device())


def Serializable__load_json(zip_file, name):
    with zip_file.open(name, 'r') as f:
        return json.load(f)


def Serializable__load_mushroom(zip_file, name):
    return Serializable.load_zip(zip_file, name)


def Serializable__save_pickle(zip_file, name, obj, folder, **_):
    path = Serializable._append_folder(folder, name)
    with zip_file.open(path, 'w') as f:
        pickle.dump(obj, f, protocol=pickle.DEFAULT_PROTOCOL)


def Serializable__save_numpy(zip_file, name, obj, folder, **_):
    path = Serializable._append_folder(folder, name)
    with zip_file.open(path, 'w') as f:
        np.save(f, obj)


def Serializable__save_torch(zip_file, name, obj, folder, **_):
    path = Serializable._append_folder(folder, name)
    with zip_file.open(path, 'w') as f:
        torch.save(obj, f)


def Serializable__save_json(zip_file, name, obj, folder, **_):
    path = Serializable._append_folder(folder, name)
    with zip_file.open(path, 'w') as f:
        string = json.dumps(obj)
        f.write(string.encode('utf8'))


def Serializable__save_mushroom(zip_file, name, obj, folder, full_save):
    new_folder = Serializable._append_folder(folder, name)
    if isinstance(obj, list):
        config_data = dict(type=list, save_attributes=dict(), primitive_dictionary=dict(len=len(obj)))
        Serializable._save_pickle(zip_file, 'config', config_data, folder=new_folder)
        for i, element in enumerate(obj):
            element_folder = Serializable._append_folder(new_folder, str(i))
            element.save_zip(zip_file, full_save=full_save, folder=element_folder)
    else:
        obj.save_zip(zip_file, full_save=full_save, folder=new_folder)


def Serializable__get_serialization_method(class_name):
    if issubclass(class_name, Serializable):
        return 'mushroom'
    else:
        return 'pickle'



def Box__post_load(self):
    self._shape = self._low.shape



def ReplayMemory__post_load(self):
    if self._full is None:
        self.reset()


def SumTree__post_load(self):
    if self.dataset is None:
        dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
        self.dataset = Dataset(dataset_info, n_steps=self._max_size)



def TorchApproximator__post_load(self):
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.network.parameters()))



def AbstractDQN__post_load(self):
    if isinstance(self._replay_memory, PrioritizedReplayMemory):
        self._fit = self._fit_prioritized
    else:
        self._fit = self._fit_standard
    self.policy.set_q(self.approximator)



def BatchTD__post_load(self):
    self.policy.set_q(self.approximator)



def TD__post_load(self):
    self.policy.set_q(self.Q)



def PPO_BPTT__post_load(self):
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.policy.parameters()))



def SAC__post_load(self):
    self._update_optimizer_parameters(self.policy.parameters())
    self._update_alpha_optimizer_parameters()


def SAC__update_alpha_optimizer_parameters(self):
    if self._alpha_optim is not None:
        TorchUtils.update_optimizer_parameters(self._alpha_optim, [self._log_alpha])



def A2C__post_load(self):
    self._update_optimizer_parameters(self.policy.parameters())



def PPO__post_load(self):
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.policy.parameters()))



def DDPG__post_load(self):
    self._actor_approximator = self.policy._approximator
    self._update_optimizer_parameters(self._actor_approximator.model.network.parameters())



def DeepAC__update_optimizer_parameters(self, parameters):
    self._parameters = list(parameters)
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, self._parameters)



def TorchUtils_update_optimizer_parameters(optimizer, new_parameters):
    if len(optimizer.state) > 0:
        for p_old, p_new in zip(optimizer.param_groups[0]['params'], new_parameters):
            data = optimizer.state[p_old]
            del optimizer.state[p_old]
            optimizer.state[p_new] = data
    optimizer.param_groups[0]['params'] = new_parameters



def ePPO__post_load(self):
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))



def COPDAC_Q__post_load(self):
    if self._is_policy_mean:
        self._mu = self.policy._approximator
