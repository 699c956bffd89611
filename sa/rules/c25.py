"""Refinement of policy-gradient estimators and numpy optimisers against sa/specs/pg.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 40
R = 'gradient'
HOOKS = ('_init_update', '_step_update', '_episode_end_update', '_update_parameters')


def check(ctx):
    auto(ctx, R, 'pg', opts={'PolicyGradient.fit': dict(calls=HOOKS, policy=Policy(opaque=list(HOOKS)), order=HOOKS), 'PolicyGradient._update_parameters': dict(calls=('set_weights',), policy=Policy(opaque=['_compute_gradient']))})
