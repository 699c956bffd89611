"""Refinement of running statistics and preprocessors against sa/specs/prepro.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 40
R = 'preprocess'


def check(ctx):
    auto(ctx, R, 'prepro')
