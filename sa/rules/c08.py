"""Target networks: in one fit of every deep value-based and deterministic/soft actor-critic agent, the weights assigned to each target model,
the condition and the update counter are compared in normal form with the specification (hard copy of the online weights every
target_update_frequency fits, round-robin / per-member for ensembles, convex combination with tau for soft updates, delayed for TD3);
the constructor must assign the online weights to every target model, and the behaviour policy must be bound to the online approximator."""
from ..rl import *
from ..spec import *
from .c06 import bind_fit, DEEP

MIN_OBLIGATIONS = 10
R = 'target-sync'
PAIRS = (('approximator', 'target_approximator'), ('_critic_approximator', '_target_critic_approximator'), ('_actor_approximator', '_target_actor_approximator'))
OPAQUE = ['compute_gae', 'minibatch_generator', '_log_info', '_agent_preprocess', '_update_agent_preprocessor', 'zero_grad']


def check(ctx):
    for n in DEEP + ['DuelingDQN', 'NoisyDQN']:
        c = ctx.prog.need_cls(n)
        base = n if n in DEEP else 'DQN'
        for m, suffix in (('_fit_standard', ''), ('_fit_prioritized', '_prioritized')):
            if ctx.prog.find(c, m) is None:
                ctx.unk(R, n, '%s not identified' % m)
                continue
            ctx.part(n + m, lambda ctx: refine(ctx, c, 'fit', 'dqn', base + suffix, R, calls=('set_weights',), over=False, extra=bind_fit(c, m), tag=n + suffix,
                                               only=('_n_updates', '_n_fitted_target_models')))
    for n in ['CategoricalDQN', 'QuantileDQN', 'Rainbow']:
        ctx.part(n, lambda ctx: refine(ctx, n, 'fit', 'dqn', n, R, calls=('set_weights',), over=False, only=('_n_updates',), tag=n))
    for n in ('DDPG', 'TD3', 'SAC'):
        ctx.part(n, lambda ctx: refine(ctx, n, 'fit', 'ac', n, R, calls=('set_weights',), over=False, only=('_fit_count',), policy=Policy(opaque=OPAQUE)))
    for n in DEEP + ['DuelingDQN', 'NoisyDQN', 'CategoricalDQN', 'QuantileDQN', 'Rainbow', 'DDPG', 'TD3', 'SAC']:
        ctx.part('init ' + n, init, n)


def member(x):
    """(model, index) of a weights owner: the regressor itself or one of its members."""
    x = T.strip(x)
    if x.op == 'call':
        k, nm, a, kw = T.call_parts(x)
        if k == 'meth' and nm == '__getitem__':
            return x.args[0].args[0], a[0]
    if x.op in ('index', 'elem'):
        return x.args[0], x.args[1]
    return x, None


def init(ctx, n):
    r = run(ctx, n, '__init__', Policy(opaque=['set_weights', 'get_weights', '_add_save_attr', 'set_q']))
    s = mk('self', r.cls.qual)
    heap = {k: v for (o, k), v in r.state.heap.items() if o is s}
    evs = [e for e in flat(r.events) if e.kind == 'call' and e.name == 'set_weights']
    w = r.func.loc
    for on, tg in PAIRS:
        if tg not in heap or on not in heap:
            continue
        A, B = heap[on], heap[tg]
        tag = '%s initial %s' % (n, tg)
        if A.op != 'new' or B.op != 'new':
            ctx.unk(R, tag, 'construction not resolved')
            continue
        if A is B:
            ctx.bad(R, tag, w, 'the target model is the online model')
            continue
        mine = [e for e in evs if e.recv is not None and T.contains(e.recv, lambda x: x is B)]
        if not mine:
            v = None if T.contains(mk('tuple', *[e.recv for e in evs if e.recv is not None]), lambda x: x.op in ('opaque', 'undef')) else False
            ctx.verdict(v, R, tag, w, 'the target model never receives the weights of the online model at construction')
            continue
        e = mine[-1]
        m, i = member(e.recv)
        g = T.strip(e.args[0]) if e.args else None
        v = None
        if g is not None and g.op == 'call' and T.call_parts(g)[:2] == ('meth', 'get_weights'):
            src, j = member(g.args[0].args[0])
            if m is B and src is A and e.guard is TRUE:
                E = Eraser(r.interp.LV)
                v = True if j is None or (i is not None and E(j) is E(i)) else (False if i is None or eq3(E(i), E(j)) is False else None)
            elif m is B and src.op == 'new' and src is not A:
                v = False
        ctx.verdict(v, R, tag, '%s:%s' % (e.file, e.line), 'the target model is initialised with %s' % (T.show(g) if g is not None else '?'), 'initial weights')
    if 'approximator' in heap:
        qs = [e for e in flat(r.events) if e.kind == 'call' and e.name == 'set_q']
        if not qs:
            ctx.unk(R, n + ' policy', 'set_q not called')
        else:
            v = True if qs[-1].args[0] is heap['approximator'] else (False if qs[-1].args[0] is heap.get('target_approximator') else None)
            ctx.verdict(v, R, n + ' behaviour policy', '%s:%s' % (qs[-1].file, qs[-1].line), 'the policy acts on %s' % T.show(qs[-1].args[0]), 'policy uses the online model')
