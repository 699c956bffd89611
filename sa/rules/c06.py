"""Refinement: for every deep and batch value-based algorithm the calls one fit makes on its replay memory and approximators (inserted data,
initial priorities, minibatch gate, regression target, importance weights, new priorities) are compared in normal form, under every
condition, with the published algorithm (sa/specs/dqn.py), for the standard and the prioritized memory."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 10
CALLS = ('add', 'get', 'fit', 'update')
DEEP = ['DQN', 'DoubleDQN', 'AveragedDQN', 'MaxminDQN']


def bind_fit(c, m):
    s = mk('self', c.qual)
    return {(s, '_fit'): mk('bound', s, m)}


def variants(ctx):
    """(class, specification, extra heap, tag)"""
    out = []
    for n in DEEP + ['DuelingDQN', 'NoisyDQN']:
        c = ctx.prog.need_cls(n)
        base = n if n in DEEP else 'DQN'
        if ctx.prog.find(c, '_fit_standard') is not None and ctx.prog.find(c, '_fit_prioritized') is not None:
            out.append((c, base, bind_fit(c, '_fit_standard'), n + '/standard'))
            out.append((c, base + '_prioritized', bind_fit(c, '_fit_prioritized'), n + '/prioritized'))
        else:
            ctx.unk('value-target', n, 'standard/prioritized variants not identified')
    for n in ['CategoricalDQN', 'QuantileDQN', 'Rainbow']:
        out.append((ctx.prog.need_cls(n), n, None, n))
    return out


def check(ctx):
    for c, sp, extra, tag in variants(ctx):
        ctx.part(tag, lambda ctx: refine(ctx, c, 'fit', 'dqn', sp, 'value-target', calls=CALLS, attrs=False, over=False, extra=extra, tag=tag, raw=()))
    for n in ['FQI', 'DoubleFQI', 'BoostedFQI']:
        ctx.part(n, lambda ctx: refine(ctx, n, 'fit', 'dqn', n, 'batch-target', calls=('fit',), raw=()))
    ctx.part('LSPI', lambda ctx: refine(ctx, 'LSPI', 'fit', 'dqn', 'LSPI', 'batch-target', calls=('set_weights',), policy=Policy(opaque=['get_action_features'])))
    auto(ctx, 'network', 'networks')
