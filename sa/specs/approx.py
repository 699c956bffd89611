"""Value tables, eligibility traces, ensembles and regressors: which entry or model is read, written, fitted."""
from mushroom_rl.approximators._implementations.action_regressor import ActionRegressor
from mushroom_rl.approximators._implementations.generic_regressor import GenericRegressor
from mushroom_rl.approximators._implementations.q_regressor import QRegressor
from mushroom_rl.approximators.ensemble import Ensemble
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.approximators.table import Table
from mushroom_rl.core import Serializable
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.features import Features
from sklearn.exceptions import NotFittedError
from mushroom_rl.rl_utils.eligibility_trace import ReplacingTrace, AccumulatingTrace
import numpy as np
import torch

def Table___init__(self, shape, initial_value=0.0, dtype=None):
    self.table = np.ones(shape, dtype=dtype) * initial_value

def Table___getitem__(self, args):
    if self.table.size == 1:
        return self.table[0]
    else:
        idx = tuple([a[0] if isinstance(a, np.ndarray) else a for a in args])
        return self.table[idx]

def Table___setitem__(self, args, value):
    if self.table.size == 1:
        self.table[0] = value
    else:
        idx = tuple([a[0] if isinstance(a, np.ndarray) else a for a in args])
        self.table[idx] = value

def Table_fit(self, x, y):
    self[x] = y

def Table_predict(self, *z):
    if z[0].ndim == 1:
        z = [np.expand_dims(z_i, axis=0) for z_i in z]
    state = z[0]
    values = list()
    if len(z) == 2:
        action = z[1]
        for i in range(len(state)):
            val = self[state[i], action[i]]
            values.append(val)
    else:
        for i in range(len(state)):
            val = self[state[i], :]
            values.append(val)
    if len(values) == 1:
        return values[0]
    else:
        return np.array(values)

def Table_n_actions(self):
    return self.table.shape[-1]

def Table_shape(self):
    return self.table.shape

def EligibilityTrace(shape, name='replacing'):
    if name == 'replacing':
        return ReplacingTrace(shape)
    elif name == 'accumulating':
        return AccumulatingTrace(shape)
    else:
        raise ValueError('Unknown type of trace.')

def ReplacingTrace_reset(self):
    self.table[:] = 0.0

def ReplacingTrace_update(self, state, action):
    self.table[state, action] = 1.0

def AccumulatingTrace_reset(self):
    self.table[:] = 0.0

def AccumulatingTrace_update(self, state, action):
    self.table[state, action] += 1.0

def Ensemble___init__(self, model, n_models, prediction='mean', **params):
    self._model = list()
    self._prediction = prediction
    for _ in range(n_models):
        self._model.append(model(**params))

def Ensemble_fit(self, *z, idx=None, **fit_params):
    if idx is None:
        for i in range(len(self)):
            self[i].fit(*z, **fit_params)
    else:
        self[idx].fit(*z, **fit_params)

def Ensemble_predict(self, *z, idx=None, prediction=None, compute_variance=False, **predict_params):
    if idx is None:
        idx = [x for x in range(len(self))]
    torch_output = False
    if isinstance(idx, int):
        try:
            results = self[idx].predict(*z, **predict_params)
        except NotFittedError:
            raise NotFittedError
    else:
        predictions = list()
        for i in idx:
            try:
                predictions.append(self[i].predict(*z, **predict_params))
            except NotFittedError:
                raise NotFittedError
        prediction = self._prediction if prediction is None else prediction
        if isinstance(predictions[0], np.ndarray):
            predictions = np.array(predictions)
        else:
            predictions = torch.stack(predictions, axis=0)
            torch_output = True
        if prediction == 'mean':
            results = predictions.mean(0)
        elif prediction == 'sum':
            results = predictions.sum(0)
        elif prediction == 'min':
            results = predictions.min(0)
        elif prediction == 'max':
            results = predictions.max(0)
        else:
            raise ValueError
        if compute_variance:
            results = [results, predictions.var(0)]
    if torch_output and (prediction == 'min' or prediction == 'max'):
        return results.values
    else:
        return results

def Ensemble_reset(self):
    try:
        for m in self.model:
            m.reset()
    except AttributeError:
        raise NotImplementedError('Attempt to reset weights of a non-parametric regressor.')

def Ensemble_model(self):
    return self._model

def Ensemble___len__(self):
    return len(self._model)

def Ensemble___getitem__(self, idx):
    return self._model[idx]

def EnsembleTable___init__(self, n_models, shape, **params):
    params['shape'] = shape
    super().__init__(Table, n_models, **params)

def EnsembleTable_n_actions(self):
    return self._model[0].shape[-1]

def Regressor___init__(self, approximator, input_shape, output_shape=None, n_actions=None, n_models=None, **params):
    if n_actions is None:
        assert output_shape is not None
    elif output_shape is None:
        output_shape = (1,)
    if not approximator.__module__.startswith('sklearn'):
        params['input_shape'] = input_shape
        params['output_shape'] = output_shape
    self._input_shape = input_shape
    self._output_shape = output_shape
    self.n_actions = n_actions
    self._n_models = n_models
    self._logger = None
    if self._n_models is not None:
        assert self._n_models >= 1
        params['model'] = approximator
        params['n_models'] = n_models
        approximator = Ensemble
    if n_actions is not None:
        assert len(self._output_shape) == 1 and n_actions >= 2
        if n_actions == self._output_shape[0]:
            self._impl = QRegressor(approximator, **params)
        else:
            self._impl = ActionRegressor(approximator, n_actions, **params)
    else:
        self._impl = GenericRegressor(approximator, len(self.input_shape), **params)
    self._logger = None
    self._loss_filename = None

def Regressor___call__(self, *z, **predict_params):
    return self.predict(*z, **predict_params)

def Regressor__ndim(self):
    if isinstance(self._input_shape[0], tuple):
        ndim = len(self._input_shape[0])
    else:
        ndim = len(self._input_shape)
    return ndim

def Regressor_fit(self, *z, **fit_params):
    ndim = self._ndim()
    if z[0].ndim == ndim:
        z = [np.expand_dims(z_i, axis=0) for z_i in z]
    self._impl.fit(*z, **fit_params)
    self._log()

def Regressor_predict(self, *z, **predict_params):
    ndim = self._ndim()
    if z[0].ndim == ndim:
        z = [np.expand_dims(z_i, axis=0) if isinstance(z_i, np.ndarray) else z_i.unsqueeze(0) for z_i in z]
        return self._impl.predict(*z, **predict_params)[0]
    else:
        return self._impl.predict(*z, **predict_params)

def Regressor_model(self):
    return self._impl.model

def Regressor_reset(self):
    try:
        self._impl.reset()
    except AttributeError:
        raise NotImplementedError('Attempt to reset weights of anon-parametric regressor.')

def Regressor_input_shape(self):
    return self._input_shape

def Regressor_output_shape(self):
    return self._output_shape

def Regressor_weights_size(self):
    try:
        return self._impl.weights_size
    except AttributeError:
        raise NotImplementedError('Attempt to get shape of weights of a non-parametric regressor.')

def Regressor_get_weights(self):
    try:
        return self._impl.get_weights()
    except AttributeError:
        raise NotImplementedError('Attempt to get weights of a non-parametric regressor.')

def Regressor_set_weights(self, w):
    try:
        self._impl.set_weights(w)
    except AttributeError:
        raise NotImplementedError('Attempt to set weights of a non-parametric regressor.')

def Regressor_diff(self, *z):
    try:
        return self._impl.diff(*z)
    except AttributeError:
        raise NotImplementedError('Attempt to compute derivative of a non-differentiable regressor.')

def Regressor___len__(self):
    return 1 if self._n_models is None else len(self._impl)

def Regressor___getitem__(self, item):
    if self._n_models is None:
        return self.model
    else:
        return self.model[item]

def Regressor_set_logger(self, logger, loss_filename=None):
    self._logger = logger
    self._loss_filename = loss_filename

def Regressor__log(self):
    if self._logger:
        losses_fit = list()
        for i in range(len(self)):
            model_i = self[i]
            if hasattr(model_i, 'loss_fit'):
                m_loss = model_i.loss_fit
                if hasattr(m_loss, 'squeeze'):
                    m_loss = m_loss.squeeze()
                losses_fit.append(m_loss)
        losses_fit = np.array(losses_fit).squeeze()
        if self._loss_filename is None:
            save_dict = dict(loss=losses_fit)
        else:
            save_dict = {self._loss_filename: losses_fit}
        self._logger.log_numpy(**save_dict)

def ActionRegressor___init__(self, approximator, n_actions, **params):
    self.model = list()
    self._n_actions = n_actions
    for i in range(self._n_actions):
        self.model.append(approximator(**params))

def ActionRegressor_fit(self, state, action, q, **fit_params):
    for i in range(len(self.model)):
        idxs = np.argwhere((action == i)[:, 0]).ravel()
        if idxs.size:
            self.model[i].fit(state[idxs, :], q[idxs], **fit_params)

def ActionRegressor_predict(self, *z, **predict_params):
    assert len(z) == 1 or len(z) == 2
    state = z[0]
    if len(z) == 2:
        action = z[1]
        q = np.zeros(state.shape[0])
        for i in range(self._n_actions):
            idxs = np.argwhere((action == i)[:, 0]).ravel()
            if idxs.size:
                q[idxs] = self.model[i].predict(state[idxs, :], **predict_params).squeeze()
    else:
        q = np.zeros((state.shape[0], self._n_actions))
        for i in range(self._n_actions):
            q[:, i] = self.model[i].predict(state, **predict_params).squeeze()
    return q

def ActionRegressor_reset(self):
    try:
        for m in self.model:
            m.reset()
    except AttributeError:
        raise NotImplementedError('Attempt to reset weights of a non-parametric regressor.')

def ActionRegressor_weights_size(self):
    return self.model[0].weights_size * len(self.model)

def ActionRegressor_get_weights(self):
    w = list()
    for m in self.model:
        w.append(m.get_weights())
    return np.concatenate(w, axis=0)

def ActionRegressor_set_weights(self, w):
    size = self.model[0].weights_size
    for i, m in enumerate(self.model):
        start = i * size
        stop = start + size
        m.set_weights(w[start:stop])

def ActionRegressor_diff(self, state, action):
    if action is None:
        diff = list()
        for m in self.model:
            diff.append(m.diff(state))
        return diff
    else:
        a = action[0]
        s = self.model[a].weights_size
        diff = np.zeros(s * len(self.model))
        diff[s * a:s * (a + 1)] = self.model[a].diff(state)
        return diff

def ActionRegressor___len__(self):
    return len(self.model[0])

def QRegressor___init__(self, approximator, **params):
    self.model = approximator(**params)

def QRegressor_fit(self, state, action, q, **fit_params):
    self.model.fit(state, action, q, **fit_params)

def QRegressor_predict(self, *z, **predict_params):
    assert len(z) == 1 or len(z) == 2
    state = z[0]
    q = self.model.predict(state, **predict_params)
    if len(z) == 2:
        action = z[1].ravel()
        if q.ndim == 1:
            return q[action]
        else:
            return q[np.arange(q.shape[0]), action]
    else:
        return q

def QRegressor_reset(self):
    try:
        self.model.reset()
    except AttributeError:
        raise NotImplementedError('Attempt to reset weights of a non-parametric regressor.')

def QRegressor_weights_size(self):
    return self.model.weights_size

def QRegressor_get_weights(self):
    return self.model.get_weights()

def QRegressor_set_weights(self, w):
    self.model.set_weights(w)

def QRegressor_diff(self, state, action=None):
    if action is None:
        return self.model.diff(state)
    else:
        return self.model.diff(state, action).squeeze()

def QRegressor___len__(self):
    return len(self.model)

def GenericRegressor___init__(self, approximator, n_inputs, **params):
    self._n_inputs = n_inputs
    self.model = approximator(**params)

def GenericRegressor_fit(self, *z, **fit_params):
    self.model.fit(*z, **fit_params)

def GenericRegressor_predict(self, *x, **predict_params):
    return self.model.predict(*x, **predict_params)

def GenericRegressor_reset(self):
    try:
        self.model.reset()
    except AttributeError:
        raise NotImplementedError('Attempt to reset weights of a non-parametric regressor.')

def GenericRegressor_weights_size(self):
    return self.model.weights_size

def GenericRegressor_get_weights(self):
    return self.model.get_weights()

def GenericRegressor_set_weights(self, w):
    self.model.set_weights(w)

def GenericRegressor_diff(self, *x):
    return self.model.diff(*x)

def GenericRegressor___len__(self):
    return len(self.model)

def LinearApproximator___init__(self, weights=None, input_shape=None, output_shape=(1,), phi=None, **kwargs):
    assert len(input_shape) == 1 and len(output_shape) == 1
    input_dim = input_shape[0]
    output_dim = output_shape[0]
    if weights is not None:
        self._w = weights.reshape((output_dim, -1))
    elif input_dim is not None:
        self._w = np.zeros((output_dim, input_dim))
    else:
        raise ValueError('You should specify the initial parameter vector or the input dimension')
    self._phi = phi

def LinearApproximator_fit(self, x, y, **fit_params):
    phi = np.atleast_2d(self.phi(x))
    self._w = np.atleast_2d(np.linalg.pinv(phi).dot(y).T)

def LinearApproximator_predict(self, x, **predict_params):
    phi = np.atleast_2d(self.phi(x))
    prediction = np.ones((phi.shape[0], self._w.shape[0]))
    for i, phi_i in enumerate(phi):
        prediction[i] = phi_i.dot(self._w.T)
    return prediction

def LinearApproximator_weights_size(self):
    return self._w.size

def LinearApproximator_get_weights(self):
    return self._w.flatten()

def LinearApproximator_set_weights(self, w):
    self._w = w.reshape(self._w.shape)

def LinearApproximator_phi(self, x):
    if self._phi is not None:
        return self._phi(x)
    else:
        return x

def LinearApproximator_diff(self, state, action=None):
    if len(self._w.shape) == 1 or self._w.shape[0] == 1:
        return self.phi(state)
    else:
        n_phi = self._w.shape[1]
        n_outs = self._w.shape[0]
        if action is None:
            shape = (n_phi * n_outs, n_outs)
            df = np.zeros(shape)
            start = 0
            for i in range(n_outs):
                stop = start + n_phi
                df[start:stop, i] = self.phi(state)
                start = stop
        else:
            shape = n_phi * n_outs
            df = np.zeros(shape)
            start = action[0] * n_phi
            stop = start + n_phi
            df[start:stop] = self.phi(state)
        return df

def CMAC___init__(self, tilings, weights=None, output_shape=(1,), **kwargs):
    phi = Features(tilings=tilings)
    self._n = len(tilings)
    super().__init__(weights=weights, input_shape=(phi.size,), output_shape=output_shape, phi=phi)

def CMAC_fit(self, x, y, alpha=1.0, **kwargs):
    y_hat = self.predict(x)
    delta_y = np.atleast_2d(y - y_hat)
    if self._w.shape[0] > 1:
        delta_y = delta_y.T
    phi = np.atleast_2d(self._phi(x))
    sum_phi = np.sum(phi, axis=0)
    n = np.sum(phi, axis=1, keepdims=True)
    phi_n = phi / n
    sum_phi[sum_phi == 0] = 1.0
    delta_w = delta_y @ phi_n / sum_phi
    self._w += alpha * delta_w

def CMAC_predict(self, x, **predict_params):
    prediction = np.ones((x.shape[0], self._w.shape[0]))
    indexes = self._phi.compute_indexes(x)
    if x.shape[0] == 1:
        indexes = list([indexes])
    for i, idx in enumerate(indexes):
        prediction[i] = np.sum(self._w[:, idx], axis=-1)
    return prediction.squeeze()

def CMAC_diff(self, state, action=None):
    return super().diff(state, action)
