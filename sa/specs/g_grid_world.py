import numpy as np
from mushroom_rl.environments.finite_mdp import FiniteMDP


def parse_grid(grid):
    grid_map = list()
    cell_list = list()
    with open(grid, 'r') as f:
        m = f.read()
        assert 'S' in m and 'G' in m
        row = list()
        row_idx = 0
        col_idx = 0
        for c in m:
            if c in ['#', '.', 'S', 'G', '*']:
                row.append(c)
                if c in ['.', 'S', 'G', '*']:
                    cell_list.append([row_idx, col_idx])
                col_idx += 1
            elif c == '\n':
                grid_map.append(row)
                row = list()
                row_idx += 1
                col_idx = 0
            else:
                raise ValueError('Unknown marker.')
        if row:
            grid_map.append(row)
    return (grid_map, cell_list)


def compute_probabilities(grid_map, cell_list, prob):
    g = np.array(grid_map)
    c = np.array(cell_list)
    n_states = len(cell_list)
    p = np.zeros((n_states, 4, n_states))
    directions = [[-1, 0], [1, 0], [0, -1], [0, 1]]
    for i in range(len(c)):
        state = c[i]
        if g[tuple(state)] in ['.', 'S']:
            for a in range(len(directions)):
                new_state = state + directions[a]
                j = np.where((c == new_state).all(axis=1))[0]
                if j.size > 0:
                    assert j.size == 1
                    p[i, a, i] = 1.0 - prob
                    p[i, a, j] = prob
                else:
                    p[i, a, i] = 1.0
    return p


def compute_reward(grid_map, cell_list, pos_rew, neg_rew):
    g = np.array(grid_map)
    c = np.array(cell_list)
    n_states = len(c)
    r = np.zeros((n_states, 4, n_states))
    directions = [[-1, 0], [1, 0], [0, -1], [0, 1]]

    def give_reward(t, rew):
        for x in np.argwhere(g == t):
            j = np.where((c == x).all(axis=1))[0]
            for a in range(len(directions)):
                prev_state = x - directions[a]
                if prev_state.tolist() in c.tolist():
                    i = np.where((c == prev_state).all(axis=1))[0]
                    r[i, a, j] = rew
    give_reward('G', pos_rew)
    give_reward('*', neg_rew)
    return r


def compute_mu(grid_map, cell_list):
    g = np.array(grid_map)
    c = np.array(cell_list)
    n_states = len(c)
    mu = np.zeros(n_states)
    starts = np.argwhere(g == 'S')
    for s in starts:
        i = np.where((c == s).all(axis=1))[0]
        mu[i] = 1.0 / len(starts)
    return mu
