"""A small, pure numpy/petsc4py stand-in for the DOLFINx 0.6/0.7 Python API.

DOLFINx cannot be installed in this sandbox.  This package implements, on top of the *real* UFL,
PETSc, gmsh, h5py and mpi4py, the part of DOLFINx which UCL/dxss uses, so that dxss itself runs
unmodified.  It is deliberately hostile where DOLFINx leaves freedom: global degree-of-freedom
numberings, cell order and the '+'/'-' side of interior facets are pseudo-random (seeded by
MINIDOLFINX_SEED), so code that relies on one particular numbering breaks.

Serial only.  Anything that is not implemented raises MiniUnsupported, which harnesses report as
"no answer" rather than as a violation.
"""
import os

from .errors import MiniUnsupported

__version__ = os.environ.get("MINIDOLFINX_VERSION", "0.6.0")

from . import _fastufl, cpp, fem, geometry, io, la, log, mesh, plot  # noqa: E402,F401

_ = _fastufl
__all__ = ["MiniUnsupported", "cpp", "fem", "geometry", "io", "la", "log", "mesh", "plot"]
