"""Refinement of the sample containers - Dataset, VectorizedDataset, the numpy/torch/list storages and ExtraInfo - against sa/specs/dataset.py: which
field goes where, views, sums, flattening, returns, initial states, episode counts, parsing order."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 100
R = 'dataset'


def check(ctx):
    P = dict(policy=Policy(opaque=['parse']), calls=('parse',))
    auto(ctx, R, 'dataset', {'VectorizedDataset.flatten': dict(policy=Policy(opaque=['from_array'])), 'ExtraInfo.flatten': P, 'ExtraInfo.__add__': P, 'ExtraInfo.get_view': P}, raw=('shape', 'copy', 'dtype', 'alloc'))
