"""Arrays of a returned mesh."""
import numpy as np


def tri(m):
    return np.array(m._vert_x)[np.array(m.topology._cells)][:, :, :2]


def area(m):
    p = tri(m)
    d = p[:, 1:] - p[:, :1]
    return np.abs(np.linalg.det(d)) / 2
