"""Refinement of the parameter schedules (constant, linear, decay, variance based) against sa/specs/params.py: constructor, one evaluation
(update of the addressed counter followed by the value), clipping, statistics."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 20
R = 'schedule'
P = Policy(opaque=['update', 'get_value', '_compute', '_compute_parameter'])
CALL = dict(policy=P, calls=('update', 'get_value', '_compute'))


def check(ctx):
    rows = ['to_parameter', ('Parameter.__call__', dict(policy=P, calls=('update', 'get_value'))), ('Parameter.get_value', dict(policy=P)), 'Parameter._compute', 'Parameter.update',
            'Parameter.shape', 'Parameter.initial_value']
    for c in ('Parameter', 'LinearParameter', 'DecayParameter', 'VarianceParameter', 'WindowedVarianceParameter'):
        rows.append(('%s.__init__' % c, dict(heap=False, ret=False)))
    for c in ('LinearParameter', 'DecayParameter', 'VarianceParameter'):
        rows.append('%s._compute' % c)
    for c in ('VarianceParameter', 'WindowedVarianceParameter'):
        rows.append(('%s.update' % c, dict(policy=P)))
    for c in ('LinearParameter', 'DecayParameter', 'VarianceParameter', 'WindowedVarianceParameter', 'VarianceIncreasingParameter', 'VarianceDecreasingParameter', 'WindowedVarianceIncreasingParameter'):
        rows.append(('%s.__call__' % c, dict(spec='Parameter___call__', policy=P, calls=('update', 'get_value'))))
        rows.append(('%s.get_value' % c, dict(spec='Parameter_get_value', policy=P)))
        if 'Variance' in c:
            rows.append(('%s._compute' % c, dict(spec='VarianceParameter__compute')))
            rows.append(('%s.update' % c, dict(spec=('Windowed' if 'Windowed' in c else '') + 'VarianceParameter_update', policy=P)))
        else:
            rows.append(('%s.update' % c, dict(spec='Parameter_update')))
    for c, sp in (('VarianceIncreasingParameter', 'increasing'), ('VarianceDecreasingParameter', 'decreasing'), ('WindowedVarianceIncreasingParameter', 'increasing')):
        rows.append(('%s._compute_parameter' % c, dict(spec=sp)))
    table(ctx, R, 'params', rows)
