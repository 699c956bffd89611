"""Refinement of the value-based (discrete) policies - epsilon-greedy, Boltzmann, mellowmax - against sa/specs/tdpolicy.py: probabilities, draws, the
approximator and schedule they consult."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 12
R = 'discrete-policy'


def check(ctx):
    i = dict(heap=False, ret=False)
    rows = ['TDPolicy.set_q', 'TDPolicy.get_q', 'EpsGreedy.__call__', ('EpsGreedy.draw_action', dict(calls=('uniform', 'choice', 'predict'))), 'EpsGreedy.set_epsilon',
            ('EpsGreedy.update', dict(calls=('update',))), 'Boltzmann.__call__', ('Boltzmann.draw_action', dict(calls=('choice',))), 'Boltzmann.set_beta', ('Boltzmann.update', dict(calls=('update',))),
            'Mellowmax.set_beta', 'Mellowmax.update', ('Mellowmax.__call__', dict(spec='Boltzmann___call__')), ('Mellowmax.draw_action', dict(spec='Boltzmann_draw_action', calls=('choice',))),
            'MellowmaxParameter.__call__']
    rows += [('%s.__init__' % c, i) for c in ('TDPolicy', 'EpsGreedy', 'Boltzmann', 'Mellowmax')]
    table(ctx, R, 'tdpolicy', rows)
