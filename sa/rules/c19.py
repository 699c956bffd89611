"""Refinement of the array backends (numpy, torch, list) against sa/specs/backend.py: every operation of the common interface and the conversions."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 60
R = 'backend'


def check(ctx):
    auto(ctx, R, 'backend', raw=('shape', 'copy', 'dtype', 'host', 'device', 'alloc', 'detach'))
