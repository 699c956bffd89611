import pickle
import numpy as np
from mushroom_rl.utils.callbacks.callback import Callback
from mushroom_rl.utils.plots import DataBuffer, Window, Actions, LenOfEpisodeTraining, Observations, RewardPerEpisode, RewardPerStep
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.utils.callbacks.plot_dataset import PlotDataset


def PlotDataset___call__(self, sample):
    obs = sample[0]
    action = sample[1]
    reward = sample[2]
    last = sample[5]
    for i in range(len(action)):
        self.action_buffers_list[i].update([action[i]])
    for i in range(obs.size):
        self.observation_buffers_list[i].update([obs[i]])
    self.instant_reward_buffer.update([reward])
    self._episode_reward += reward
    self._episode_lenght += 1
    if last:
        self.training_reward_buffer.update([self._episode_reward])
        self.episodic_len_buffer_training.update([self._episode_lenght])
        self._episode_reward = 0.0
        self._episode_lenght = 0
    self.plot_window.refresh()
import logging
from mushroom_rl.core.logger.console_logger import TqdmHandler, ConsoleLogger


def ConsoleLogger___init__(self, log_name, log_dir=None, suffix='', log_file_name=None, console_log_level=logging.DEBUG, file_log_level=logging.DEBUG):
    self._log_id = log_name + suffix
    formatter = logging.Formatter(fmt='%(asctime)s [%(levelname)s] %(message)s', datefmt='%d/%m/%Y %H:%M:%S')
    self._logger = logging.getLogger(self._log_id)
    self._logger.setLevel(min(console_log_level, file_log_level))
    self._logger.propagate = False
    ch = TqdmHandler()
    ch.setLevel(console_log_level)
    ch.setFormatter(formatter)
    self._logger.addHandler(ch)
    if log_dir is not None:
        log_file_name = self._log_id if log_file_name is None else log_file_name
        log_file_name += '.log'
        log_file_path = log_dir / log_file_name
        fh = logging.FileHandler(log_file_path)
        fh.setLevel(file_log_level)
        fh.setFormatter(formatter)
        self._logger.addHandler(fh)

