from mushroom_rl.solvers.car_on_hill import step, bfs


def solve_car_on_hill(mdp, states, actions, gamma, max_k=50):
    q = list()
    for s, a in zip(states, actions):
        mdp.reset(s)
        state, reward, _, _ = mdp.step(a)
        if reward == 1:
            k = 1
            success = True
        elif reward == -1:
            k = 1
            success = False
        else:
            success, k = bfs(mdp, [state], 2, max_k)
        if success:
            q.append(gamma ** (k - 1))
        else:
            q.append(-gamma ** (k - 1))
    return q
