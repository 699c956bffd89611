import numpy as np
from sklearn.utils.extmath import cartesian
from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.environments.generators.taxi import parse_grid, compute_probabilities, compute_reward, compute_mu


def generate_taxi(grid, prob=0.9, rew=(0, 1, 3, 15), gamma=0.99, horizon=np.inf):
    grid_map, cell_list, passenger_list = parse_grid(grid)
    assert len(rew) == len(np.argwhere(np.array(grid_map) == 'F')) + 1
    p = compute_probabilities(grid_map, cell_list, passenger_list, prob)
    r = compute_reward(grid_map, cell_list, passenger_list, rew)
    mu = compute_mu(grid_map, cell_list, passenger_list)
    return FiniteMDP(p, r, mu, gamma, horizon)
