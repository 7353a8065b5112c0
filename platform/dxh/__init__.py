"""Stand-in for the one function of UCL/dxh which dxss uses."""
import numpy as np


def evaluate_function_at_points(function, points):
    """Values of a scalar function at points of shape (num_points, 3) or (3, num_points)?

    As in dxh: `points` has shape (num_points, 3); points outside the mesh are an error.
    """
    from dolfinx.fem._space import eval_points

    points = np.asarray(points, float)
    if points.ndim != 2 or points.shape[1] != 3:
        raise ValueError("points must have shape (num_points, 3)")
    vals, found = eval_points(function, points)
    if not found.all():
        raise ValueError("points outside of the mesh")
    return vals[:, 0] if vals.shape[1] == 1 else vals
