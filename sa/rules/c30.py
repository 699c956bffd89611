"""Refinement of callbacks, loggers, recorders, numerical gradients and confidence intervals against sa/specs/logging_.py: which value is recorded
under which name and in which order, when files are written, and what is left unchanged."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 40
R = 'record'


def check(ctx):
    auto(ctx, R, 'logging_')
    auto(ctx, R, 'recorder')
    auto(ctx, R, 'plots')
