from math import fmod
import numpy as np
from scipy.spatial.transform import Rotation as R


def quat_to_euler(quat):
    if len(quat.shape) < 2:
        return R.from_quat(quat[[1, 2, 3, 0]]).as_euler('xyz')
    else:
        return R.from_quat(quat[[1, 2, 3, 0], :].T).as_euler('xyz').T


def euler_to_quat(euler):
    if len(euler.shape) < 2:
        return R.from_euler('xyz', euler).as_quat()[[3, 0, 1, 2]]
    else:
        return R.from_euler('xyz', euler.T).as_quat()[:, [3, 0, 1, 2]].T


def mat_to_euler(mat):
    return R.from_matrix(mat).as_euler('xyz')


def euler_to_mat(euler):
    return R.from_euler('xyz', euler).as_matrix()
