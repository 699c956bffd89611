"""Refinement of the feature constructions (radial, Fourier and polynomial bases, tilings, tensors, feature maps, state-action features, uniform
grids) against sa/specs/features.py: the value of every feature at every point, the tile an observation falls in, layout, order and size."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 60
R = 'feature'


def check(ctx):
    auto(ctx, R, 'features')
