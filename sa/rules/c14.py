"""Refinement of value tables, table ensembles and eligibility traces (entry addressed by an index, values written, batch prediction, combination of
the members, reset, trace increments) against sa/specs/approx.py; the traces' use by the learning algorithms is re-checked against sa/specs/td.py."""
from ..rl import *
from ..spec import *
from . import c05

MIN_OBLIGATIONS = 20
R = 'table'


def check(ctx):
    rows = [('Table.__init__', dict(heap=False, ret=False)), 'Table.__getitem__', 'Table.__setitem__', 'Table.fit', 'Table.predict', 'Table.n_actions', 'Table.shape',
            'EligibilityTrace', 'ReplacingTrace.reset', 'ReplacingTrace.update', 'AccumulatingTrace.reset', 'AccumulatingTrace.update',
            ('Ensemble.__init__', dict(heap=False, ret=False)), ('Ensemble.fit', dict(calls=('fit',))), ('Ensemble.predict', dict(calls=('predict',))), 'Ensemble.model',
            ('Ensemble.reset', dict(calls=('reset',))), 'Ensemble.__len__', 'Ensemble.__getitem__', ('EnsembleTable.__init__', dict(heap=False, ret=False)), 'EnsembleTable.n_actions']
    for c in ('ReplacingTrace', 'AccumulatingTrace'):
        rows += [('%s.__getitem__' % c, dict(spec='Table___getitem__')), ('%s.__setitem__' % c, dict(spec='Table___setitem__'))]
    rows += [('EnsembleTable.%s' % m, dict(spec='Ensemble_%s' % m, calls=(m,))) for m in ('fit', 'predict')]
    table(ctx, R, 'approx', rows)
    for a in ('QLambda', 'SARSALambda', 'SARSALambdaContinuous', 'TrueOnlineSARSALambda'):
        ctx.part(a, c05.one, a)
        ctx.part(a + ' episode start', c05.episode_start, a, R)
