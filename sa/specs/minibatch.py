"""Minibatches: a random permutation cut into consecutive slices."""
import numpy as np
from mushroom_rl.utils.minibatches import minibatch_number


def minibatch_number(size, batch_size):
    return int(np.ceil(size / batch_size))

def minibatch_generator(batch_size, *dataset):
    size = len(dataset[0])
    num_batches = minibatch_number(size, batch_size)
    indexes = np.arange(0, size, 1)
    np.random.shuffle(indexes)
    batches = [(i * batch_size, min(size, (i + 1) * batch_size)) for i in range(0, num_batches)]
    for batch_start, batch_end in batches:
        batch = []
        for i in range(len(dataset)):
            batch.append(dataset[i][indexes[batch_start:batch_end]])
        yield batch
