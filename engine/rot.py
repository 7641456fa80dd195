"""Rotation vectors and matrices shared by the models and the cv2 stand-in."""

import math

import numpy as np

from . import sym
from .sym import is_sym


def exp(v):
    """3x3 rotation of a rotation vector."""
    v = list(np.asarray(v, dtype=object).ravel())
    if any(is_sym(x) for x in v):
        return sym.cur().rot_exp(v)
    v = np.array([float(x) for x in v])
    th = float(np.linalg.norm(v))
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0.0]])
    if th < 1e-12:
        return np.eye(3) + K + K.dot(K) / 2
    return np.eye(3) + math.sin(th) / th * K + (1 - math.cos(th)) / (th * th) * K.dot(K)


def log(R):
    """Rotation vector of a 3x3 rotation."""
    R = np.asarray(R, dtype=object)
    if any(is_sym(x) for x in R.ravel()):
        return sym.cur().rot_log(R)
    R = np.array([[float(x) for x in r] for r in R])
    # via the quaternion of largest component (accurate near 0 and pi)
    m = R
    q = np.array([
        1 + m[0, 0] + m[1, 1] + m[2, 2], 1 + m[0, 0] - m[1, 1] - m[2, 2],
        1 - m[0, 0] + m[1, 1] - m[2, 2], 1 - m[0, 0] - m[1, 1] + m[2, 2]])
    k = int(np.argmax(q))
    if k == 0:
        w = np.array([q[0], m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]])
    elif k == 1:
        w = np.array([m[2, 1] - m[1, 2], q[1], m[0, 1] + m[1, 0], m[0, 2] + m[2, 0]])
    elif k == 2:
        w = np.array([m[0, 2] - m[2, 0], m[0, 1] + m[1, 0], q[2], m[1, 2] + m[2, 1]])
    else:
        w = np.array([m[1, 0] - m[0, 1], m[0, 2] + m[2, 0], m[1, 2] + m[2, 1], q[3]])
    w = w / np.linalg.norm(w)
    if w[0] < 0:
        w = -w
    s = float(np.linalg.norm(w[1:]))
    if s < 1e-15:
        return np.zeros(3)
    return w[1:] * (2 * math.atan2(s, w[0]) / s)


def quat_matrix(w, x, y, z):
    return [
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
