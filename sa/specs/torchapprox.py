"""Torch approximators: one fit, prediction, flat weights and gradients."""
from mushroom_rl.core import Serializable
from mushroom_rl.utils.minibatches import minibatch_generator
from mushroom_rl.utils.torch import TorchUtils
from tqdm import trange, tqdm
import numpy as np
from mushroom_rl.utils.torch import TorchUtils
import torch

def TorchApproximator___init__(self, input_shape, output_shape, network, optimizer=None, loss=None, batch_size=0, n_fit_targets=1, reinitialize=False, dropout=False, quiet=True, **params):
    self._batch_size = batch_size
    self._reinitialize = reinitialize
    self._dropout = dropout
    self._quiet = quiet
    self._n_fit_targets = n_fit_targets
    self.network = network(input_shape, output_shape, dropout=dropout, **params)
    self.network.to(TorchUtils.get_device())
    if self._dropout:
        self.network.eval()
    if optimizer is not None:
        self._optimizer = optimizer['class'](self.network.parameters(), **optimizer['params'])
    self._loss = loss
    self._last_loss = None

def TorchApproximator_predict(self, *args, **kwargs):
    torch_args = [torch.as_tensor(x, device=TorchUtils.get_device()) for x in args]
    val = self.network(*torch_args, **kwargs)
    return val

def TorchApproximator_fit(self, *args, n_epochs=None, weights=None, epsilon=None, patience=1, validation_split=1.0, **kwargs):
    if self._reinitialize:
        self.network.weights_init()
    if self._dropout:
        self.network.train()
    if epsilon is not None:
        n_epochs = np.inf if n_epochs is None else n_epochs
        check_loss = True
    else:
        n_epochs = 1 if n_epochs is None else n_epochs
        check_loss = False
    if weights is not None:
        args += (weights,)
        use_weights = True
    else:
        use_weights = False
    if 0 < validation_split <= 1:
        train_len = np.ceil(len(args[0]) * validation_split).astype(int)
        train_args = [a[:train_len] for a in args]
        val_args = [a[train_len:] for a in args]
    else:
        raise ValueError
    patience_count = 0
    best_loss = np.inf
    epochs_count = 0
    if check_loss:
        with tqdm(total=n_epochs if n_epochs < np.inf else None, dynamic_ncols=True, disable=self._quiet, leave=False) as t_epochs:
            while patience_count < patience and epochs_count < n_epochs:
                mean_loss_current = self._fit_epoch(train_args, use_weights, kwargs)
                if len(val_args[0]):
                    mean_val_loss_current = self._compute_batch_loss(val_args, use_weights, kwargs)
                    loss = mean_val_loss_current.item()
                else:
                    loss = mean_loss_current
                if not self._quiet:
                    t_epochs.set_postfix(loss=loss)
                    t_epochs.update(1)
                if best_loss - loss > epsilon:
                    patience_count = 0
                    best_loss = loss
                else:
                    patience_count += 1
                self._last_loss = mean_loss_current
                epochs_count += 1
    else:
        with trange(n_epochs, disable=self._quiet) as t_epochs:
            for _ in t_epochs:
                mean_loss_current = self._fit_epoch(train_args, use_weights, kwargs)
                if not self._quiet:
                    t_epochs.set_postfix(loss=mean_loss_current)
                self._last_loss = mean_loss_current
    if self._dropout:
        self.network.eval()

def TorchApproximator__fit_epoch(self, args, use_weights, kwargs):
    if self._batch_size > 0:
        batches = minibatch_generator(self._batch_size, *args)
    else:
        batches = [args]
    loss_current = list()
    for batch in batches:
        loss_current.append(self._fit_batch(batch, use_weights, kwargs))
    mean_loss_current = np.mean(loss_current)
    return mean_loss_current

def TorchApproximator__fit_batch(self, batch, use_weights, kwargs):
    loss = self._compute_batch_loss(batch, use_weights, kwargs)
    self._optimizer.zero_grad()
    loss.backward()
    self._optimizer.step()
    return loss.item()

def TorchApproximator__compute_batch_loss(self, batch, use_weights, kwargs):
    if use_weights:
        weights = torch.as_tensor(batch[-1], device=TorchUtils.get_device()).type(torch.float)
        batch = batch[:-1]
    torch_args = [torch.as_tensor(x, device=TorchUtils.get_device()) for x in batch]
    x = torch_args[:-self._n_fit_targets]
    y_hat = self.network(*x, **kwargs)
    if isinstance(y_hat, tuple):
        output_type = y_hat[0].dtype
    else:
        output_type = y_hat.dtype
    y = [y_i.clone().detach().type(output_type).to(TorchUtils.get_device()) for y_i in torch_args[-self._n_fit_targets:]]
    if not use_weights:
        loss = self._loss(y_hat, *y)
    else:
        loss = self._loss(y_hat, *y, reduction='none')
        loss @= weights
        loss = loss / weights.sum()
    return loss

def TorchApproximator_set_weights(self, weights):
    TorchUtils.set_weights(self.network.parameters(), weights)

def TorchApproximator_get_weights(self):
    return TorchUtils.get_weights(self.network.parameters())

def TorchApproximator_weights_size(self):
    return sum((p.numel() for p in self.network.parameters()))

def TorchApproximator_diff(self, *args, **kwargs):
    torch_args = [torch.atleast_2d(x) for x in args]
    y_hat = self.network(*torch_args, **kwargs)
    n_outs = 1 if len(y_hat.shape) == 0 else y_hat.shape[-1]
    y_hat = y_hat.view(-1, n_outs)
    gradients = list()
    for i in range(y_hat.shape[1]):
        TorchUtils.zero_grad(self.network.parameters())
        y_hat[:, i].backward(retain_graph=True)
        gradient = list()
        for p in self.network.parameters():
            g = p.grad.data.detach()
            gradient.append(g.flatten())
        g = torch.concatenate(gradient)
        gradients.append(g)
    g = torch.stack(gradients, -1)
    return g

def TorchApproximator_loss_fit(self):
    return self._last_loss

def TorchApproximator__post_load(self):
    if self._optimizer is not None:
        TorchUtils.update_optimizer_parameters(self._optimizer, list(self.network.parameters()))

def NumpyTorchApproximator_predict(self, *args, **kwargs):
    torch_args = [torch.as_tensor(x, device=TorchUtils.get_device()) for x in args]
    return super().predict(*torch_args, **kwargs).detach().cpu().numpy()

def NumpyTorchApproximator_fit(self, *args, n_epochs=None, weights=None, epsilon=None, patience=1, validation_split=1.0, **kwargs):
    torch_args = [torch.as_tensor(x, device=TorchUtils.get_device()) for x in args]
    super().fit(*torch_args, n_epochs=n_epochs, weights=weights, epsilon=epsilon, patience=patience, validation_split=validation_split, **kwargs)

def NumpyTorchApproximator_diff(self, *args, **kwargs):
    torch_args = [torch.as_tensor(np.atleast_2d(x), device=TorchUtils.get_device()) for x in args]
    gradient = super().diff(*torch_args, **kwargs)
    return gradient.detach().cpu().numpy()

def NumpyTorchApproximator_set_weights(self, weights):
    torch_weights = torch.as_tensor(weights)
    super().set_weights(torch_weights)

def NumpyTorchApproximator_get_weights(self):
    return super().get_weights().detach().cpu().numpy()

def TorchUtils_set_default_device(device):
    TorchUtils._default_device = device

def TorchUtils_get_device(device=None):
    return TorchUtils._default_device if device is None else device

def TorchUtils_set_weights(parameters, weights, device=None):
    idx = 0
    for p in parameters:
        shape = p.data.shape
        c = 1
        for s in shape:
            c *= s
        w = weights[idx:idx + c].reshape(shape)
        w_tensor = torch.as_tensor(w, device=TorchUtils.get_device(device)).type(p.data.dtype)
        p.data = w_tensor
        idx += c

def TorchUtils_get_weights(parameters):
    weights = list()
    for p in parameters:
        w = p.data.detach()
        weights.append(w.flatten())
    weights = torch.concatenate(weights)
    return weights

def TorchUtils_zero_grad(parameters):
    for p in parameters:
        if p.grad is not None:
            p.grad.detach_()
            p.grad.zero_()

def TorchUtils_get_gradient(params):
    views = []
    for p in params:
        if p.grad is None:
            view = p.new(p.numel()).zero_()
        else:
            view = p.grad.view(-1)
        views.append(view)
    return torch.cat(views, 0)

def TorchUtils_to_float_tensor(x, device=None):
    return torch.as_tensor(x, device=TorchUtils.get_device(device), dtype=torch.float)

def TorchUtils_to_int_tensor(x, device=None):
    return torch.as_tensor(x, device=TorchUtils.get_device(device), dtype=torch.int)

def TorchUtils_update_optimizer_parameters(optimizer, new_parameters):
    if len(optimizer.state) > 0:
        for p_old, p_new in zip(optimizer.param_groups[0]['params'], new_parameters):
            data = optimizer.state[p_old]
            del optimizer.state[p_old]
            optimizer.state[p_new] = data
    optimizer.param_groups[0]['params'] = new_parameters

