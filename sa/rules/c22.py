"""Refinement of the vectorized environment interface and of the multi-process environment (requests sent to and answers read from every worker, in
order and under the mask; the worker's command loop; results per environment) against sa/specs/vecenv.py, plus the request/answer pairing of the two sides."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 30
R = 'vectorized'


def check(ctx):
    auto(ctx, R, 'vecenv', opts={'MultiprocessEnvironment.%s' % m: dict(calls=('send', 'recv')) for m in ('reset_all', 'step_all', 'render_all', 'seed', 'stop', '__del__')})
    auto(ctx, R, 'envworker')
