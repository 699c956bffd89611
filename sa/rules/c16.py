"""Refinement of the continuous and parametric policies (numpy Gaussian family, torch Gaussian/Boltzmann, recurrent, Ornstein-Uhlenbeck, clipped Gaussian,
deterministic, vectorized wrapper) against sa/specs/policies.py: density, draw, log-likelihood gradient, entropy, weights in and out, policy state."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 60
R = 'policy'


def check(ctx):
    auto(ctx, R, 'policies')
    auto(ctx, R, 'sacpolicy')
    auto(ctx, R, 'movement')
