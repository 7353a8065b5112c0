"""Vectors."""
import numpy as np


class Vector:
    """Serial stand-in for dolfinx.la.Vector."""

    def __init__(self, array):
        self._array = array

    @property
    def array(self):
        return self._array

    def scatter_forward(self):
        pass

    def scatter_reverse(self, mode=None):
        pass

    def set(self, value):
        self._array[:] = value

    def norm(self, type=None):
        return float(np.linalg.norm(self._array))
