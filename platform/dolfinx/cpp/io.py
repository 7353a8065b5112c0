"""gmsh node permutations (as in DOLFINx's perm_gmsh)."""
import numpy as np

from ..errors import MiniUnsupported, make_getattr
from ..mesh import CellType


def perm_gmsh(cell_type, num_nodes):
    if cell_type == CellType.interval and num_nodes in (2, 3):
        return np.arange(num_nodes)
    if cell_type == CellType.triangle and num_nodes == 3:
        return np.arange(3)
    if cell_type == CellType.triangle and num_nodes == 6:
        return np.array([0, 1, 2, 4, 5, 3])
    if cell_type == CellType.triangle and num_nodes == 10:
        return np.array([0, 1, 2, 5, 6, 8, 7, 3, 4, 9])
    if cell_type == CellType.tetrahedron and num_nodes == 4:
        return np.arange(4)
    if cell_type == CellType.quadrilateral and num_nodes == 4:
        return np.array([0, 1, 3, 2])
    if cell_type == CellType.hexahedron and num_nodes == 8:
        return np.array([0, 1, 3, 2, 4, 5, 7, 6])
    raise MiniUnsupported(f"perm_gmsh({cell_type}, {num_nodes})")


__getattr__ = make_getattr(__name__)
