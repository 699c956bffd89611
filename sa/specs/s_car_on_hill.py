from mushroom_rl.solvers.car_on_hill import step as h_step, bfs as h_bfs


def step(mdp, state, action):
    mdp.reset(state)
    return mdp.step(action)


def bfs(mdp, frontier, k, max_k):
    if len(frontier) == 0 or k == max_k:
        return (False, k)
    new_frontier = list()
    for f in frontier:
        s, r, _, _ = h_step(mdp, f, [0])
        if r == 1:
            return (True, k)
        elif r == 0:
            new_frontier.append(s)
        s, r, _, _ = h_step(mdp, f, [1])
        if r == 1:
            return (True, k)
        elif r == 0:
            new_frontier.append(s)
    return h_bfs(mdp, new_frontier, k + 1, max_k)


