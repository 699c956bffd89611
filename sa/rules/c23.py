"""Refinement of the black-box optimisation agents (parameters drawn per episode, update rules) against sa/specs/bbo.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 60
R = 'black-box'


def check(ctx):
    auto(ctx, R, 'bbo', opts={'BlackBoxOptimization.fit': dict(calls=('_update',), policy=Policy(opaque=['_update']))})
