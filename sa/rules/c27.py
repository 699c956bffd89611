"""Refinement of the regressors, of the linear, tile-coding and torch approximators (dispatch to the model of an action, batching, prediction,
one optimisation step per batch, flat weight vectors, derivatives) against sa/specs/approx.py and sa/specs/torchapprox.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 60
R = 'approximator'
CALLS = {'fit': ('fit',), 'predict': ('predict',), 'reset': ('reset',), 'set_weights': ('set_weights',), 'diff': ('diff',), 'get_weights': ('get_weights',), '_log': ('log_numpy',)}


def check(ctx):
    rows = []
    fs = spec_module('approx').functions
    for c in ('Ensemble', 'Regressor', 'ActionRegressor', 'QRegressor', 'GenericRegressor', 'LinearApproximator', 'CMAC'):
        for n in fs:
            if n.startswith(c + '_'):
                m = n[len(c) + 1:]
                opt = dict(calls=CALLS.get(m, ()) if 'Regressor' in c or c == 'Ensemble' else ())
                if m == '__init__':
                    opt = dict(heap=False, ret=False)
                rows.append(('%s.%s' % (c, m), opt))
    table(ctx, R, 'approx', rows)
    P = Policy(opaque=['_fit_epoch', '_compute_batch_loss', '_fit_batch', 'minibatch_generator'])
    rows = [('TorchApproximator.__init__', dict(heap=False, ret=False)), 'TorchApproximator.predict', ('TorchApproximator.fit', dict(policy=P, calls=('_fit_epoch', 'train', 'eval', 'weights_init', '_compute_batch_loss'))),
            ('TorchApproximator._fit_epoch', dict(policy=P, calls=('_fit_batch',))), ('TorchApproximator._fit_batch', dict(policy=P, calls=('_compute_batch_loss', 'zero_grad', 'backward', 'step'), order=('zero_grad', 'backward', 'step'))),
            'TorchApproximator._compute_batch_loss', 'TorchApproximator.set_weights', 'TorchApproximator.get_weights', 'TorchApproximator.weights_size',
            ('TorchApproximator.diff', dict(calls=('backward', 'zero_grad'), policy=Policy(opaque=['zero_grad']))), 'TorchApproximator.loss_fit', 'NumpyTorchApproximator.predict',
            ('NumpyTorchApproximator.fit', dict(policy=P, calls=('_fit_epoch',))), ('NumpyTorchApproximator.diff', dict(policy=Policy(opaque=['zero_grad']))), 'NumpyTorchApproximator.set_weights', 'NumpyTorchApproximator.get_weights']
    rows += ['TorchUtils.%s' % m for m in ('set_weights', 'get_weights', 'zero_grad', 'get_gradient', 'to_float_tensor', 'to_int_tensor', 'get_device', 'set_default_device', 'update_optimizer_parameters')]
    table(ctx, R, 'torchapprox', rows)
    table(ctx, R, 'minibatch', ['minibatch_number', ('minibatch_generator', dict(calls=('shuffle',)))])
