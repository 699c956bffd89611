import numpy as np
from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.environments.generators.grid_world import parse_grid, compute_probabilities, compute_reward, compute_mu


def generate_grid_world(grid, prob, pos_rew, neg_rew, gamma=0.9, horizon=100):
    grid_map, cell_list = parse_grid(grid)
    p = compute_probabilities(grid_map, cell_list, prob)
    r = compute_reward(grid_map, cell_list, pos_rew, neg_rew)
    mu = compute_mu(grid_map, cell_list)
    return FiniteMDP(p, r, mu, gamma, horizon)
