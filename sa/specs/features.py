import numpy as np
from mushroom_rl.features.basis.fourier import FourierBasis


def FourierBasis___init__(self, low, delta, c, dimensions=None):
    self._low = low
    self._delta = delta
    self._dim = dimensions
    self._c = c


def FourierBasis___call__(self, x):
    if self._dim is not None:
        x = x[self._dim]
    s = (x - self._low) / self._delta
    return np.cos(np.pi * s.dot(self._c))


def FourierBasis___str__(self):
    return str(self._c)


def FourierBasis_generate(low, high, n, dimensions=None):
    if dimensions is not None:
        assert len(low) == len(dimensions)
    input_size = len(low)
    delta = high - low
    n_basis = (n + 1) ** input_size
    basis_list = list()
    for index in range(n_basis):
        c = np.zeros(input_size)
        value = index
        for i in range(input_size):
            c[i] = value % (n + 1)
            value = value // (n + 1)
        basis_list.append(FourierBasis(low, delta, c, dimensions))
    return basis_list
import numpy as np
from mushroom_rl.utils.features import uniform_grid
from mushroom_rl.features.basis.gaussian_rbf import GaussianRBF


def GaussianRBF___init__(self, mean, scale, dimensions=None):
    self._mean = mean
    self._scale = scale
    self._dim = dimensions


def GaussianRBF___call__(self, x):
    if self._dim is not None:
        x = x[self._dim]
    return np.exp(-np.sum((x - self._mean) ** 2 / self._scale))


def GaussianRBF___str__(self):
    name = 'GaussianRBF ' + str(self._mean) + ' ' + str(self._scale)
    if self._dim is not None:
        name += ' ' + str(self._dim)
    return name


def GaussianRBF_generate(n_centers, low, high, dimensions=None, eta=0.25):
    n_features = len(low)
    assert len(n_centers) == n_features
    assert len(low) == len(high)
    assert dimensions is None or n_features == len(dimensions)
    grid, w = uniform_grid(n_centers, low, high, eta)
    b = 2 * (w / 3) ** 2
    basis = list()
    for i in range(len(grid)):
        v = grid[i, :]
        bf = GaussianRBF(v, b, dimensions)
        basis.append(bf)
    return basis
import numpy as np
from mushroom_rl.features.basis.polynomial import PolynomialBasis


def PolynomialBasis___init__(self, dimensions=None, degrees=None, low=None, high=None):
    assert dimensions is None and degrees is None or len(dimensions) == len(degrees)
    assert low is None and high is None or (low is not None and high is not None)
    self._dim = dimensions
    self._deg = degrees
    if low is not None:
        self._mean = (low + high) / 2
        self._delta = (high - low) / 2
    else:
        self._mean = None


def PolynomialBasis___call__(self, x):
    if self._dim is None:
        return 1
    out = 1
    x_n = self._normalize(x)
    for i, d in zip(self._dim, self._deg):
        out *= x_n[i] ** d
    return out


def PolynomialBasis__normalize(self, x):
    if self._mean is not None:
        return (x - self._mean) / self._delta
    return x


def PolynomialBasis___str__(self):
    if self._deg is None:
        return '1'
    name = ''
    for i, d in zip(self._dim, self._deg):
        name += 'x[' + str(i) + ']'
        if d > 1:
            name += '^' + str(d)
    return name


def PolynomialBasis__compute_exponents(order, n_variables):
    pattern = np.zeros(n_variables, dtype=int)
    for current_sum in range(1, order + 1):
        pattern[0] = current_sum
        yield pattern
        while pattern[-1] < current_sum:
            for i in range(2, n_variables + 1):
                if 0 < pattern[n_variables - i]:
                    pattern[n_variables - i] -= 1
                    if 2 < i:
                        pattern[n_variables - i + 1] = 1 + pattern[-1]
                        pattern[-1] = 0
                    else:
                        pattern[-1] += 1
                    break
            yield pattern
        pattern[-1] = 0


def PolynomialBasis_generate(max_degree, input_size, low=None, high=None):
    assert max_degree >= 0
    assert input_size > 0
    basis_list = [PolynomialBasis()]
    for e in PolynomialBasis._compute_exponents(max_degree, input_size):
        dims = np.reshape(np.argwhere(e != 0), -1)
        degs = e[e != 0]
        basis_list.append(PolynomialBasis(dims, degs, low, high))
    return basis_list
import numpy as np
from mushroom_rl.features.tiles.tiles import Tiles


def Tiles___init__(self, x_range, n_tiles, state_components=None):
    if isinstance(x_range[0], list):
        self._range = x_range
    else:
        self._range = [x_range]
    if isinstance(n_tiles, list):
        assert len(n_tiles) == len(self._range)
        self._n_tiles = n_tiles
    else:
        self._n_tiles = [n_tiles] * len(self._range)
    self._state_components = state_components
    if self._state_components is not None:
        assert len(self._state_components) == len(self._range)
    self._size = 1
    for s in self._n_tiles:
        self._size *= s


def Tiles___call__(self, x):
    if self._state_components is not None:
        x = x[self._state_components]
    multiplier = 1
    tile_index = 0
    for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
        if r[0] <= x[i] < r[1]:
            width = r[1] - r[0]
            component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
            tile_index += component_index * multiplier
            multiplier *= N
        else:
            tile_index = None
            break
    return tile_index


def Tiles_generate(n_tilings, n_tiles, low, high, uniform=False):
    assert len(n_tiles) == len(low) == len(high)
    assert n_tilings > 0 or n_tilings == -1
    if n_tilings == -1:
        n = np.max(n_tiles)
        d = np.size(low)
        m = np.max([np.ceil(np.log(4 * d) / np.log(2)), np.ceil(np.log(n) / np.log(2))])
        n_tilings = int(m ** 2)
    low = np.array(low, dtype=float)
    high = np.array(high, dtype=float)
    L = high - low
    shift = 1 if uniform else 2 * np.arange(len(low)) + 1
    be = (n_tilings - 1) / n_tilings
    l = L / (np.array(n_tiles) - be)
    tilings = list()
    for i in range(n_tilings):
        v = i * shift % n_tilings
        x_min = low + (-n_tilings + 1 + v) / n_tilings * l
        x_max = x_min + l * n_tiles
        x_range = [[x, y] for x, y in zip(x_min, x_max)]
        tilings.append(Tiles(x_range, n_tiles))
    return tilings


def Tiles_size(self):
    return self._size
import numpy as np
from mushroom_rl.features.tiles.voronoi import VoronoiTiles


def VoronoiTiles___init__(self, prototypes):
    self._prototypes = prototypes


def VoronoiTiles___call__(self, x):
    dist = np.linalg.norm(self._prototypes - x, axis=1)
    return np.argmin(dist)


def VoronoiTiles_generate(n_tilings, n_prototypes, low=None, high=None, mu=None, sigma=None):
    assert low is not None and high is not None and (mu is None) and (sigma is None) or (mu is not None and sigma is not None and (low is None) and (high is None))
    uniform = low is not None
    if uniform:
        assert len(low) == len(high)
    else:
        assert len(mu) == len(sigma)
    assert n_tilings > 0 or n_tilings == -1
    if n_tilings == -1:
        d = np.size(low) if uniform else np.size(mu)
        m = np.max([np.ceil(np.log(4 * d) / np.log(2)), np.ceil(np.log(n_prototypes) / np.log(2))])
        n_tilings = int(m ** 2)
    if uniform:
        low = np.array(low, dtype=float)
        high = np.array(high, dtype=float)
    else:
        mu = np.array(mu, dtype=float)
        sigma = np.array(sigma, dtype=float)
    tilings = list()
    for i in range(n_tilings):
        if uniform:
            prototypes = np.random.uniform(low, high, (n_prototypes, len(low)))
        else:
            prototypes = np.random.normal(mu, sigma, (n_prototypes, len(mu)))
        tilings.append(VoronoiTiles(prototypes))
    return tilings


def VoronoiTiles_size(self):
    return len(self._prototypes)
import torch
import torch.nn as nn
import numpy as np
from mushroom_rl.utils.features import uniform_grid
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.features.tensors.basis_tensor import GenericBasisTensor, GaussianRBFTensor, VonMisesBFTensor


def GenericBasisTensor___init__(self, mu, scale, dim=None, normalized=False):
    self._mu = TorchUtils.to_float_tensor(mu)
    self._scale = TorchUtils.to_float_tensor(scale)
    if dim is not None:
        self._dim = TorchUtils.to_int_tensor(dim)
    else:
        self._dim = None
    self._normalized = normalized
    super().__init__()


def GenericBasisTensor_forward(self, x):
    if self._dim is not None:
        x = torch.index_select(x, 1, self._dim)
    x = x.unsqueeze(1).repeat(1, self._mu.shape[0], 1)
    delta = x - self._mu.repeat(x.shape[0], 1, 1)
    phi = self._basis_function(delta, self._scale)
    if self._normalized:
        return self._normalize(phi)
    else:
        return phi


def GenericBasisTensor__basis_function(self, delta, scale):
    raise NotImplementedError


def GenericBasisTensor__convert_to_scale(w):
    raise NotImplementedError


def GenericBasisTensor__normalize(raw_phi):
    if len(raw_phi.shape) == 1:
        return torch.nan_to_num(raw_phi / torch.sum(raw_phi, -1), 0.0)
    else:
        return torch.nan_to_num(raw_phi / torch.sum(raw_phi, -1).unsqueeze(1))


def GenericBasisTensor_is_cyclic(cls):
    return False


def GenericBasisTensor_generate(cls, n_centers, low, high, dimensions=None, eta=0.25, normalized=False):
    n_features = len(low)
    assert len(n_centers) == n_features
    assert len(low) == len(high)
    assert dimensions is None or n_features == len(dimensions)
    mu, w = uniform_grid(n_centers, low, high, eta, cls.is_cyclic())
    scale = cls._convert_to_scale(w)
    tensor_list = [cls(mu, scale, dimensions, normalized)]
    return tensor_list


def GenericBasisTensor_size(self):
    return self._mu.shape[0]


def GaussianRBFTensor__basis_function(self, delta, scale):
    return torch.exp(-torch.sum(delta ** 2 / scale, -1))


def GaussianRBFTensor__convert_to_scale(w):
    return 2 * (w / 3) ** 2


def VonMisesBFTensor__basis_function(self, delta, scale):
    return torch.exp(torch.sum(torch.cos(2 * np.pi * delta) / scale, -1) - torch.sum(1 / scale))


def VonMisesBFTensor_is_cyclic(cls):
    return True


def VonMisesBFTensor__convert_to_scale(w):
    return w
import torch
import torch.nn as nn
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.features.tensors.constant_tensor import ConstantTensor


def ConstantTensor_forward(self, x):
    return torch.ones(x.shape[0], 1).to(TorchUtils.get_device())


def ConstantTensor_size(self):
    return 1
import torch
import torch.nn as nn
from mushroom_rl.features.tensors import ConstantTensor
from mushroom_rl.utils.torch import TorchUtils
import numpy as np
from mushroom_rl.features.tensors.random_fourier_tensor import RandomFourierBasis


def RandomFourierBasis___init__(self, P, phi, nu):
    self._P = TorchUtils.to_float_tensor(P)
    self._phi = TorchUtils.to_float_tensor(phi)
    self._nu = nu
    super().__init__()


def RandomFourierBasis_forward(self, x):
    return torch.sin(x @ self._P / self._nu + self._phi)


def RandomFourierBasis___str__(self):
    return str(self._P) + ' ' + str(self._phi)


def RandomFourierBasis_generate(nu, n_output, input_size, use_bias=True):
    if use_bias:
        n_output -= 1
    P = np.random.randn(input_size, n_output)
    phi = np.random.uniform(-np.pi, np.pi, n_output)
    tensor_list = [RandomFourierBasis(P, phi, nu)]
    if use_bias:
        tensor_list.append(ConstantTensor())
    return tensor_list


def RandomFourierBasis_size(self):
    return self._phi.shape[0]
import numpy as np
from mushroom_rl.features._implementations.features_implementation import FeaturesImplementation
from mushroom_rl.features._implementations.basis_features import BasisFeatures


def BasisFeatures___init__(self, basis):
    self._basis = basis


def BasisFeatures___call__(self, *args):
    x = self._concatenate(args)
    y = list()
    x = np.atleast_2d(x)
    for s in x:
        out = np.empty(self.size)
        for i, bf in enumerate(self._basis):
            out[i] = bf(s)
        y.append(out)
    if len(y) == 1:
        y = y[0]
    else:
        y = np.array(y)
    return y


def BasisFeatures_size(self):
    return len(self._basis)
import numpy as np
from mushroom_rl.features._implementations.features_implementation import FeaturesImplementation
from mushroom_rl.features._implementations.tiles_features import TilesFeatures


def TilesFeatures___init__(self, tiles):
    if isinstance(tiles, list):
        self._tiles = tiles
    else:
        self._tiles = [tiles]
    self._size = 0
    for tiling in self._tiles:
        self._size += tiling.size


def TilesFeatures___call__(self, *args):
    x = self._concatenate(args)
    y = list()
    x = np.atleast_2d(x)
    for s in x:
        out = np.zeros(self._size)
        offset = 0
        for tiling in self._tiles:
            index = tiling(s)
            if index is not None:
                out[index + offset] = 1.0
            offset += tiling.size
        y.append(out)
    if len(y) == 1:
        y = y[0]
    else:
        y = np.array(y)
    return y


def TilesFeatures_compute_indexes(self, *args):
    x = self._concatenate(args)
    y = list()
    x = np.atleast_2d(x)
    for s in x:
        out = list()
        offset = 0
        for tiling in self._tiles:
            index = tiling(s)
            if index is not None:
                out.append(index + offset)
            offset += tiling.size
        y.append(out)
    if len(y) == 1:
        return y[0]
    else:
        return y


def TilesFeatures_size(self):
    return self._size
from mushroom_rl.features._implementations.features_implementation import FeaturesImplementation
from mushroom_rl.features._implementations.functional_features import FunctionalFeatures


def FunctionalFeatures___init__(self, n_outputs, function):
    self._n_outputs = n_outputs
    self._function = function if function is not None else self._identity


def FunctionalFeatures___call__(self, *args):
    x = self._concatenate(args)
    return self._function(x)


def FunctionalFeatures__identity(self, x):
    return x


def FunctionalFeatures_size(self):
    return self._n_outputs
import numpy as np
import torch
from mushroom_rl.features._implementations.features_implementation import FeaturesImplementation
from mushroom_rl.utils.torch import TorchUtils
from mushroom_rl.features._implementations.torch_features import TorchFeatures


def TorchFeatures___init__(self, tensor_list):
    self._phi = tensor_list


def TorchFeatures___call__(self, *args):
    x = self._concatenate(args)
    x = TorchUtils.to_float_tensor(np.atleast_2d(x))
    y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
    y = torch.cat(y_list, 1)
    y = y.detach().cpu().numpy()
    if y.shape[0] == 1:
        return y[0]
    else:
        return y


def TorchFeatures_size(self):
    return np.sum([phi.size for phi in self._phi])
import numpy as np
from mushroom_rl.features._implementations.features_implementation import FeaturesImplementation


def FeaturesImplementation___call__(self, *x):
    pass


def FeaturesImplementation__concatenate(args):
    if len(args) > 1:
        x = np.concatenate(args, axis=-1)
    else:
        x = args[0]
    return x


def FeaturesImplementation_size(self):
    raise NotImplementedError
import numpy as np
from mushroom_rl.features._implementations.basis_features import BasisFeatures
from mushroom_rl.features._implementations.functional_features import FunctionalFeatures
from mushroom_rl.features._implementations.tiles_features import TilesFeatures
from mushroom_rl.features._implementations.torch_features import TorchFeatures


def Features(basis_list=None, tilings=None, tensor_list=None, n_outputs=None, function=None):
    if basis_list is not None and tilings is None and (tensor_list is None) and (n_outputs is None):
        return BasisFeatures(basis_list)
    elif basis_list is None and tilings is not None and (tensor_list is None) and (n_outputs is None):
        return TilesFeatures(tilings)
    elif basis_list is None and tilings is None and (tensor_list is not None) and (n_outputs is None):
        return TorchFeatures(tensor_list)
    elif basis_list is None and tilings is None and (tensor_list is None) and (n_outputs is not None):
        return FunctionalFeatures(n_outputs, function)
    else:
        raise ValueError('You must specify either: a list of basis, a list of tilings, a list of tensors or the number of outputs (and optionally the functionional mapping to use).')


def get_action_features(phi_state, action, n_actions):
    if len(phi_state.shape) > 1:
        assert phi_state.shape[0] == action.shape[0]
        phi = np.ones((phi_state.shape[0], n_actions * phi_state[0].size))
        i = 0
        for s, a in zip(phi_state, action):
            start = s.size * int(a[0])
            stop = start + s.size
            phi_sa = np.zeros(n_actions * s.size)
            phi_sa[start:stop] = s
            phi[i] = phi_sa
            i += 1
    else:
        start = phi_state.size * action[0]
        stop = start + phi_state.size
        phi = np.zeros(n_actions * phi_state.size)
        phi[start:stop] = phi_state
    return phi
import numpy as np


def uniform_grid(n_centers, low, high, eta=0.25, cyclic=False):
    assert 0 < eta < 1.0
    n_features = len(low)
    w = np.zeros(n_features)
    c = list()
    tot_points = 1
    for i, n in enumerate(n_centers):
        start = low[i]
        end = high[i]
        if n == 1:
            w[i] = abs(end - start) / 2
            c_i = (start + end) / 2.0
            c.append(np.array([c_i]))
        else:
            if cyclic:
                end_new = end - abs(end - start) / n
            else:
                end_new = end
            w[i] = (1 + eta) * abs(end_new - start) / n
            c_i = np.linspace(start, end_new, n)
            c.append(c_i)
        tot_points *= n
    n_rows = 1
    n_cols = 0
    grid = np.zeros((tot_points, n_features))
    for discrete_values in c:
        i1 = 0
        dim = len(discrete_values)
        for i in range(dim):
            for r in range(n_rows):
                idx_r = r + i * n_rows
                for c in range(n_cols):
                    grid[idx_r, c] = grid[r, c]
                grid[idx_r, n_cols] = discrete_values[i1]
            i1 += 1
        n_cols += 1
        n_rows *= len(discrete_values)
    return (grid, w)
