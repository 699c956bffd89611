"""Refinement of the advantage estimators (Monte-Carlo, one-step, GAE, recurrent GAE): recurrence, direction, episode cut-off, bootstrap and
returned (target, advantage) pair are compared in normal form with sa/specs/advantage.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 3
R = 'advantage'


def check(ctx):
    for n, sp in (('compute_advantage_montecarlo', 'montecarlo'), ('compute_advantage', 'one_step'), ('compute_gae', 'gae')):
        ctx.part(n, lambda ctx: refine(ctx, None, n, 'advantage', sp, R, ret=True, over=False, attrs=False))
    ctx.part('PPO_BPTT.compute_gae', lambda ctx: refine(ctx, 'PPO_BPTT', 'compute_gae', 'advantage', 'gae_recurrent', R, ret=True, over=False, attrs=False, tag='PPO_BPTT.compute_gae'))
