"""Frames."""
from mushroom_rl.utils.frames import LazyFrames
import cv2
import numpy as np



def LazyFrames___init__(self, frames, history_length):
    self._frames = frames
    assert len(self._frames) == history_length


def LazyFrames___array__(self, dtype=None):
    out = np.array(self._frames)
    if dtype is not None:
        out = out.astype(dtype)
    return out


def LazyFrames_copy(self):
    return self


def LazyFrames_shape(self):
    return (len(self._frames),) + self._frames[0].shape


def preprocess_frame(obs, img_size):
    image = cv2.cvtColor(obs, cv2.COLOR_RGB2GRAY)
    image = cv2.resize(image, img_size, interpolation=cv2.INTER_LINEAR)
    return np.array(image, dtype=np.uint8)
