from collections import deque
import numpy as np
import torch
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.core.array_backend import ArrayBackend, NumpyBackend, TorchBackend, ListBackend


def ArrayBackend_get_backend_name():
    raise NotImplementedError


def ArrayBackend_get_array_backend(backend_name):
    assert type(backend_name) == str, f'Backend has to be string, not {type(backend_name).__name__}.'
    if backend_name == 'numpy':
        return NumpyBackend
    elif backend_name == 'torch':
        return TorchBackend
    elif backend_name == 'list':
        return ListBackend
    else:
        raise ValueError(f'Unknown backend {backend_name}.')


def ArrayBackend_get_array_backend_from(array):
    if isinstance(array, np.ndarray):
        return NumpyBackend
    elif isinstance(array, torch.Tensor):
        return TorchBackend
    elif isinstance(array, (list, deque)):
        return ListBackend
    else:
        raise ValueError(f'Unknown backend for type {type(array)}.')


def ArrayBackend_convert(cls, *arrays, to=None, backend=None):
    if to is None:
        to = cls.get_backend_name()
    if backend is None:
        backend = ArrayBackend.get_array_backend_from(arrays[0])
    if to == 'numpy':
        return backend.arrays_to_numpy(*arrays) if len(arrays) > 1 else backend.arrays_to_numpy(*arrays)[0]
    elif to == 'torch':
        return backend.arrays_to_torch(*arrays) if len(arrays) > 1 else backend.arrays_to_torch(*arrays)[0]
    else:
        raise NotImplementedError


def ArrayBackend_convert_to_backend(source, array):
    raise NotImplementedError


def ArrayBackend_arrays_to_numpy(cls, *arrays):
    return tuple((cls.to_numpy(array) for array in arrays))


def ArrayBackend_arrays_to_torch(cls, *arrays):
    return tuple((cls.to_torch(array) for array in arrays))


def ArrayBackend_check_device(cls, device):
    if device is not None:
        raise ValueError(f'Device can not be set for {cls.get_backend_name()} backend.')


def ArrayBackend_to_numpy(array):
    raise NotImplementedError


def ArrayBackend_to_torch(array):
    raise NotImplementedError


def ArrayBackend_zeros(cls, *dims, dtype, device=None):
    raise NotImplementedError


def ArrayBackend_ones(cls, *dims, dtype, device=None):
    raise NotImplementedError


def ArrayBackend_zeros_like(cls, array, dtype, device=None):
    raise NotImplementedError


def ArrayBackend_ones_like(cls, array, dtype, device=None):
    raise NotImplementedError


def ArrayBackend_concatenate(list_of_arrays, dim):
    raise NotImplementedError


def ArrayBackend_where(cond, x=None, y=None):
    raise NotImplementedError


def ArrayBackend_squeeze(array, dim):
    raise NotImplementedError


def ArrayBackend_expand_dims(array, dim):
    raise NotImplementedError


def ArrayBackend_size(arr):
    raise NotImplementedError


def ArrayBackend_randint(low, high, size):
    raise NotImplementedError


def ArrayBackend_arange(start, stop, step=1, dtype=None):
    raise NotImplementedError


def ArrayBackend_abs(array):
    raise NotImplementedError


def ArrayBackend_clip(array, min, max):
    raise NotImplementedError


def ArrayBackend_atleast_2d(array):
    raise NotImplementedError


def ArrayBackend_copy(array):
    raise NotImplementedError


def ArrayBackend_median(array):
    raise NotImplementedError


def ArrayBackend_sqrt(array):
    raise NotImplementedError


def ArrayBackend_from_list(array):
    raise NotImplementedError


def ArrayBackend_pack_padded_sequence(array, mask):
    raise NotImplementedError


def ArrayBackend_flatten(array):
    raise NotImplementedError


def ArrayBackend_empty(shape, device=None):
    raise NotImplementedError


def ArrayBackend_none():
    raise NotImplementedError


def ArrayBackend_shape(array):
    raise NotImplementedError


def ArrayBackend_full(shape, value):
    raise NotImplementedError


def NumpyBackend_get_backend_name():
    return 'numpy'


def NumpyBackend_to_numpy(array):
    return array


def NumpyBackend_to_torch(array):
    return None if array is None else torch.from_numpy(array).to(TorchUtils.get_device())


def NumpyBackend_convert_to_backend(source, array):
    return source.to_numpy(array)


def NumpyBackend_zeros(cls, *dims, dtype=float, device=None):
    cls.check_device(device)
    return np.zeros(dims, dtype=dtype)


def NumpyBackend_ones(cls, *dims, dtype=float, device=None):
    cls.check_device(device)
    return np.ones(dims, dtype=dtype)


def NumpyBackend_zeros_like(cls, array, dtype=float, device=None):
    cls.check_device(device)
    return np.zeros_like(array, dtype=dtype)


def NumpyBackend_ones_like(cls, array, dtype=float, device=None):
    cls.check_device(device)
    return np.ones_like(array, dtype=dtype)


def NumpyBackend_concatenate(list_of_arrays, dim=0):
    return np.concatenate(list_of_arrays, axis=dim)


def NumpyBackend_where(cond, x=None, y=None):
    assert (x is None) == (y is None), 'Either both or neither of x and y should be given.'
    if x is None:
        return np.where(cond)
    else:
        return np.where(cond, x, y)


def NumpyBackend_squeeze(array, dim=None):
    return np.squeeze(array, axis=dim)


def NumpyBackend_expand_dims(array, dim):
    return np.expand_dims(array, axis=dim)


def NumpyBackend_size(arr):
    return np.size(arr)


def NumpyBackend_randint(low, high, size):
    assert type(size) == tuple
    return np.random.randint(low, high, size)


def NumpyBackend_arange(start, stop, step=1, dtype=None):
    return np.arange(start, stop, step, dtype=dtype)


def NumpyBackend_abs(array):
    return np.abs(array)


def NumpyBackend_clip(array, min, max):
    return np.clip(array, min, max)


def NumpyBackend_atleast_2d(array):
    return np.atleast_2d(array)


def NumpyBackend_copy(array):
    return array.copy()


def NumpyBackend_median(array):
    return np.median(array)


def NumpyBackend_sqrt(array):
    return np.sqrt(array)


def NumpyBackend_from_list(array):
    return np.array(array)


def NumpyBackend_pack_padded_sequence(array, mask):
    shape = array.shape
    new_shape = (shape[0] * shape[1],) + shape[2:]
    return array.reshape(new_shape, order='F')[mask.flatten(order='F')]


def NumpyBackend_flatten(array):
    shape = array.shape
    new_shape = (shape[0] * shape[1],) + shape[2:]
    return array.reshape(new_shape, order='F')


def NumpyBackend_empty(shape, device=None):
    return np.empty(shape)


def NumpyBackend_none():
    return np.nan


def NumpyBackend_shape(array):
    return array.shape


def NumpyBackend_full(shape, value):
    return np.full(shape, value)


def TorchBackend_get_backend_name():
    return 'torch'


def TorchBackend_to_numpy(array):
    return None if array is None else array.detach().cpu().numpy()


def TorchBackend_to_torch(array):
    return array


def TorchBackend_convert_to_backend(source, array):
    return source.to_torch(array)


def TorchBackend_zeros(cls, *dims, dtype=torch.float32, device=None):
    device = TorchUtils.get_device() if device is None else device
    return torch.zeros(*dims, dtype=dtype, device=device)


def TorchBackend_ones(cls, *dims, dtype=torch.float32, device=None):
    device = TorchUtils.get_device() if device is None else device
    return torch.ones(*dims, dtype=dtype, device=device)


def TorchBackend_zeros_like(cls, array, dtype=torch.float32, device=None):
    device = array.device if device is None else device
    return torch.zeros_like(array, dtype=dtype, device=device)


def TorchBackend_ones_like(cls, array, dtype=torch.float32, device=None):
    device = array.device if device is None else device
    return torch.ones_like(array, dtype=dtype, device=device)


def TorchBackend_concatenate(list_of_arrays, dim=0):
    return torch.concat(list_of_arrays, dim=dim)


def TorchBackend_where(cond, x=None, y=None):
    assert (x is None) == (y is None), 'Either both or neither of x and y should be given.'
    if x is None:
        return torch.where(cond)
    else:
        return torch.where(cond, x, y)


def TorchBackend_squeeze(array, dim=None):
    if dim is None:
        return torch.squeeze(array)
    else:
        return torch.squeeze(array, dim=dim)


def TorchBackend_expand_dims(array, dim):
    return torch.unsqueeze(array, dim=dim)


def TorchBackend_size(arr):
    return torch.numel(arr)


def TorchBackend_randint(low, high, size):
    return torch.randint(low, high, size)


def TorchBackend_arange(start, stop, step=1, dtype=None):
    return torch.arange(start, stop, step, dtype=dtype)


def TorchBackend_abs(array):
    return torch.abs(array)


def TorchBackend_clip(array, min, max):
    return torch.clip(array, min, max)


def TorchBackend_atleast_2d(array):
    return torch.atleast_2d(array)


def TorchBackend_copy(array):
    return array.clone()


def TorchBackend_median(array):
    return array.median()


def TorchBackend_sqrt(array):
    return torch.sqrt(array)


def TorchBackend_from_list(array):
    if len(array) > 0 and isinstance(array[0], torch.Tensor):
        return torch.stack(array)
    else:
        return torch.tensor(array)


def TorchBackend_pack_padded_sequence(array, mask):
    shape = array.shape
    new_shape = (shape[0] * shape[1],) + shape[2:]
    return array.transpose(0, 1).reshape(new_shape)[mask.transpose(0, 1).flatten()]


def TorchBackend_flatten(array):
    shape = array.shape
    new_shape = (shape[0] * shape[1],) + shape[2:]
    return array.transpose(0, 1).reshape(new_shape)


def TorchBackend_empty(shape, device=None):
    device = TorchUtils.get_device() if device is None else device
    return torch.empty(shape, device=device)


def TorchBackend_none():
    return torch.nan


def TorchBackend_shape(array):
    return array.shape


def TorchBackend_full(shape, value):
    return torch.full(shape, value)


def ListBackend_get_backend_name():
    return 'list'


def ListBackend_to_numpy(array):
    return np.array(array)


def ListBackend_to_torch(array):
    return None if array is None else torch.as_tensor(array, device=TorchUtils.get_device())


def ListBackend_convert_to_backend(source, array):
    return source.to_numpy(array)


def ListBackend_zeros(cls, *dims, dtype=float, device=None):
    cls.check_device(device)
    return np.zeros(dims, dtype=dtype)


def ListBackend_ones(cls, *dims, dtype=float, device=None):
    cls.check_device(device)
    return np.ones(dims, dtype=dtype)


def ListBackend_zeros_like(cls, array, dtype=float, device=None):
    cls.check_device(device)
    return np.zeros_like(array, dtype=dtype)


def ListBackend_ones_like(cls, array, dtype=float, device=None):
    cls.check_device(device)
    return np.ones_like(array, dtype=dtype)


def ListBackend_copy(array):
    return array.copy()


def ListBackend_median(array):
    return np.median(array)


def ListBackend_from_list(array):
    return array


def ListBackend_pack_padded_sequence(array, mask):
    return NumpyBackend.pack_padded_sequence(array, np.array(mask))


def ListBackend_flatten(array):
    return NumpyBackend.flatten(array)


def ListBackend_empty(shape, device=None):
    return np.empty(shape)


def ListBackend_none():
    return None


def ListBackend_shape(array):
    return np.array(array).shape


def ListBackend_full(shape, value):
    return np.full(shape, value)
