"""Angles."""
from math import fmod
import numpy as np


def normalize_angle_positive(angle):
    pi_2 = 2.0 * np.pi
    return fmod(fmod(angle, pi_2) + pi_2, pi_2)


def normalize_angle(angle):
    a = normalize_angle_positive(angle)
    if a > np.pi:
        a -= 2.0 * np.pi
    return a


def shortest_angular_distance(from_angle, to_angle):
    return normalize_angle(to_angle - from_angle)
