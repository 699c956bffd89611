"""Refinement of the exact solvers (value and policy iteration, LQR, car on hill) and of the MDP generators (grid world, chain, taxi) against
sa/specs/s_*.py and sa/specs/g_*.py: Bellman backups, stopping rules, Riccati recursions, value functions and their gradients, transition
probabilities, rewards and start distributions."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 40
R = 'solver'


def check(ctx):
    for m in ('dynamic_programming', 'lqr', 'car_on_hill'):
        auto(ctx, R, 's_' + m, module='mushroom_rl.solvers.' + m)
    auto(ctx, R, 's_car_on_hill2', {'solve_car_on_hill': dict(policy=Policy(opaque=['bfs']))}, module='mushroom_rl.solvers.car_on_hill')
    P = dict(policy=Policy(opaque=['parse_grid', 'compute_probabilities', 'compute_reward', 'compute_mu']))
    for m in ('grid_world', 'simple_chain', 'taxi'):
        auto(ctx, R, 'g_' + m, module='mushroom_rl.environments.generators.' + m)
        auto(ctx, R, 'g_%s2' % m, {'generate_' + m: P}, module='mushroom_rl.environments.generators.' + m)
