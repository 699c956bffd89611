import numpy as np
from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.environments.generators.simple_chain import compute_probabilities, compute_reward


def generate_simple_chain(state_n, goal_states, prob, rew, mu=None, gamma=0.9, horizon=100):
    p = compute_probabilities(state_n, prob)
    r = compute_reward(state_n, goal_states, rew)
    assert mu is None or len(mu) == state_n
    return FiniteMDP(p, r, mu, gamma, horizon)
