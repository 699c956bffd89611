"""Refinement: every loss that is back-propagated, every critic regression, weight assignment, trust-region line-search step and optimiser
step one fit of an actor-critic method performs is compared in normal form, under every condition, with the published method (sa/specs/ac.py)."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 10
DEEP = {'DDPG': ('add', 'get', 'fit', 'zero_grad', 'step', '_clipping'),
        'TD3': ('add', 'get', 'fit', 'zero_grad', 'step', '_clipping'),
        'SAC': ('add', 'get', 'fit', 'zero_grad', 'step', '_clipping'),
        'A2C': ('fit', 'zero_grad', 'step', '_clipping'),
        'PPO': ('fit', 'zero_grad', 'step', 'minibatch_generator'),
        'PPO_BPTT': ('fit', 'zero_grad', 'step', 'minibatch_generator'),
        'TRPO': ('fit', 'set_weights', 'get_gradient', '_conjugate_gradient')}
OPAQUE = ['compute_gae', 'compute_advantage_montecarlo', 'minibatch_generator', '_log_info', '_transform_to_sequences', '_agent_preprocess',
          '_update_agent_preprocessor', '_conjugate_gradient', 'get_gradient', 'zero_grad']


def check(ctx):
    for n, calls in DEEP.items():
        ctx.part(n, deep, n, calls)
    for n in ('COPDAC_Q', 'StochasticAC', 'StochasticAC_AVG'):
        ctx.part(n, lambda ctx: refine(ctx, n, 'fit', 'ac', n, 'ac-update', calls=('set_weights',)))
    ctx.part('cg', lambda ctx: refine(ctx, 'TRPO', '_conjugate_gradient', 'ac', 'TRPO_cg', 'ac-update', ret=True, tag='TRPO conjugate gradient'))


def deep(ctx, n, calls):
    code, spec = refine(ctx, n, 'fit', 'ac', n, 'ac-update', calls=calls, policy=Policy(opaque=OPAQUE)) or (None, None)
    if code is not None:
        cmp_values_of(ctx, n, code, spec)


def cmp_values_of(ctx, n, code, spec):
    """Each back-propagated loss."""
    cs, ss = code.calls('backward'), spec.calls('backward')
    if len(cs) != len(ss):
        ctx.unk('ac-loss', n, '%d losses back-propagated, specified %d' % (len(cs), len(ss)))
        return
    for i, (x, y) in enumerate(zip(cs, ss)):
        w = '%s:%s' % (x[4].file, x[4].line)
        cmp_values(ctx, 'ac-loss', '%s loss%d' % (n, i), w, x[0], y[0], 'the loss')
        cmp_values(ctx, 'ac-loss', '%s loss%d condition' % (n, i), w, x[3], y[3], 'the condition of the gradient step')
