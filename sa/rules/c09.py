"""Refinement of the experience replay ring buffer (insertion of all parallel fields at the same slot, n-step accumulation that stops at
episode ends, wrap-around, size, readiness, uniform sampling over the valid region) against sa/specs/replay.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 5
R = 'replay'


def check(ctx):
    ctx.part('add', lambda ctx: refine(ctx, 'ReplayMemory', 'add', 'replay', 'ReplayMemory_add', R, calls=('append',), tag='ReplayMemory.add', closed=True))
    ctx.part('get', lambda ctx: refine(ctx, 'ReplayMemory', 'get', 'replay', 'ReplayMemory_get', R, calls=('randint',), ret=True, tag='ReplayMemory.get'))
    ctx.part('reset', lambda ctx: refine(ctx, 'ReplayMemory', 'reset', 'replay', 'ReplayMemory_reset', R, tag='ReplayMemory.reset'))
    for p in ('size', 'initialized'):
        ctx.part(p, lambda ctx: refine(ctx, 'ReplayMemory', p, 'replay', 'ReplayMemory_' + p, R, ret=True, tag='ReplayMemory.' + p))
    ctx.part('tree-add', lambda ctx: refine(ctx, 'SumTree', 'add', 'replay', 'SumTree_add', R, calls=('append', 'update'), tag='SumTree.add', closed=True, policy=Policy(opaque=['update'])))
    ctx.part('tree-size', lambda ctx: refine(ctx, 'SumTree', 'size', 'replay', 'ReplayMemory_size', R, ret=True, tag='SumTree.size'))
