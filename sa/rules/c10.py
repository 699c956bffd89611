"""Refinement of the sum tree and of prioritized sampling (leaf update and propagation of the difference to every ancestor, proportional
descent, leaf/data index correspondence, stratified sampling, importance weights, priority transform) against sa/specs/replay.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 5
R = 'priority'


def retrieve(ctx, P):
    """The descent, and separately the case of two sibling subtrees of equal priority."""
    code, spec = run_both(ctx, 'SumTree', '_retrieve', 'replay', 'SumTree_retrieve', policy=P)
    if code is None:
        ctx.unk(R, 'SumTree._retrieve', 'not found')
        return
    tie = [x for x in atoms(code.ret, spec.ret) if x.op == 'eq' and all('_tree[' in T.show(y) for y in x.args)]
    w = code.r.func.loc
    for value, name in ((FALSE, 'SumTree._retrieve returned value'), (TRUE, 'SumTree._retrieve equal siblings')):
        facts = {x: value for x in tie}
        if value is TRUE and T.contains(T.assume(code.ret, facts), lambda x: x.op == 'call' and T.show(x).startswith('numpy.random.choice')):
            name += ' random child'
        cmp_values(ctx, R, name, w, T.assume(code.ret, facts), T.assume(spec.ret, facts), 'the returned value')


def check(ctx):
    P = Policy(opaque=['_retrieve', '_propagate'])
    ctx.part('update', lambda ctx: refine(ctx, 'SumTree', 'update', 'replay', 'SumTree_update', R, calls=('_propagate',), tag='SumTree.update', policy=P))
    ctx.part('propagate', lambda ctx: refine(ctx, 'SumTree', '_propagate', 'replay', 'SumTree_propagate', R, calls=('_propagate',), tag='SumTree._propagate', policy=P))
    ctx.part('retrieve', retrieve, P)
    for p in ('get', 'get_ind', 'max_p', 'total_p'):
        ctx.part(p, lambda ctx: refine(ctx, 'SumTree', p, 'replay', 'SumTree_' + p, R, ret=True, tag='SumTree.' + p, policy=P))
    for p in ('add', 'get', 'update', 'initialized', 'max_priority'):
        ctx.part(p, lambda ctx: refine(ctx, 'PrioritizedReplayMemory', p, 'replay', 'PER_' + p, R, calls={'add': ('add',), 'get': ('uniform',), 'update': ('update',)}.get(p, ()),
                                       ret=p not in ('add', 'update'), tag='PrioritizedReplayMemory.' + p))
