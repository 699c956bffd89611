"""Refinement of the distributions against sa/specs/dist.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 60
R = 'distribution'


def check(ctx):
    auto(ctx, R, 'dist')
