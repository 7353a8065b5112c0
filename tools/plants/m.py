from pathlib import Path
from lib import plant
MT=Path('/tmp/plants/mt.py').read_text()
F='src/dxss/meshes.py'
def M(pid,prop,edits,demo,needs,breaks,cmd=None):
    kw={} if cmd is None else {'cmd':cmd}
    plant(pid,prop,F,edits,'import numpy as np\n\nimport dxss.meshes as dm\nfrom mt import area, tri\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'mt.py':MT},**kw)
M('m01-strip-left-out','M01',[('''            mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 2.75)
''','''            mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 2.5)
''')],'''
m = dm.get_mesh_inclusion_square(h_init=3.0, y_r=1.0, eta=1.5)
assert abs(area(m).sum() - 9.0) < 1e-9, area(m).sum()
''','eta = 1.5 (no interface inside the domain)','a strip of the domain at the top is not meshed: the mesh has a hole')
M('m02-interface-constant','M02',[('(0.95 - y_eta), tag=5)','0.6, tag=5)')],'''
for eta in (0.6, 0.8):
    m = dm.get_mesh_hierarchy_fitted_disc(0, eta, h_init=3.0)[0]
    p = tri(m)
    lo, hi = p.min(axis=1), p.max(axis=1)
    inside = (lo[:, 0] > 0.1 - 1e-9) & (hi[:, 0] < 0.9 + 1e-9)
    assert not (inside & (lo[:, 1] < 0.95 - 1e-9) & (hi[:, 1] > 0.95 + 1e-9)).any(), eta
''','an interface position other than 0.6','the upper border of the target region is only resolved for the interface position 0.6')
M('m03-linear-halving','M03',[('        h_scale_j = init_h_scale / (2**j)','        h_scale_j = init_h_scale / max(1, 2 * j)')],'''
n = [len(tri(m)) for m in dm.get_mesh_convex(4, init_h_scale=6.0)]
one = len(tri(dm.create_initial_mesh_convex(init_h_scale=6.0 / 8)))
assert n[3] == one, (n, one)
''','four or more meshes','the fourth mesh has a sixth instead of an eighth of the mesh size (1, 2, 4, 6 instead of 1, 2, 4, 8)')
M('m03-left-border','M03',[('''    def refine_all(x):
        return x[0] >= 0
''','''    def refine_all(x):
        return x[0] > 0
''',2)],'''
a, b = dm.get_mesh_hierarchy_nonconvex(1, init_h_scale=3.0)
assert len(tri(b)) == 4 * len(tri(a)), (len(tri(a)), len(tri(b)))
''','the nonconvex hierarchy with at least one refinement','cells at the left border are not refined')
M('m04-list-default','M04',[('def get_mesh_convex(n_ref, init_h_scale=1.0):\n    meshes = []\n','def get_mesh_convex(n_ref, init_h_scale=1.0, meshes=[]):  # noqa: B006\n')],'''
a = dm.get_mesh_convex(1, init_h_scale=6.0)
b = dm.get_mesh_convex(2, init_h_scale=5.0)
assert len(b) == 2, len(b)
''','a second call in the same process','the list of meshes keeps the meshes of earlier calls')
M('m05-first-of-series','M05',[('        if Version(version("fenics-dolfinx")) < Version("0.7"):','        if Version(version("fenics-dolfinx")) <= Version("0.7"):')],'''
a, b = dm.get_mesh_data_all_around(1, init_h_scale=5.0)
assert len(tri(b)) == 4 * len(tri(a))
''','DOLFINx 0.7.0','the interface of 0.6 is used with DOLFINx 0.7.0',
 cmd='mkdir -p r/fenics_dolfinx-0.7.0.dist-info\nprintf "Metadata-Version: 2.1\\nName: fenics-dolfinx\\nVersion: 0.7.0\\n" > r/fenics_dolfinx-0.7.0.dist-info/METADATA\nexport PYTHONPATH=$DXSS_SRC:$here:$here/platform:$work/r MINIDOLFINX_VERSION=0.7.0\nexec /opt/venv/bin/python -P "$here/demo.py"')
# ---- drivers
plant('d01-border-point','D01','src/dxss/solve_1d.py',[('    omega_coords = np.logical_or((x[0] <= 0.2), (x[0] >= 0.8))','    omega_coords = np.abs(x[0] - 0.5) > 0.3')],'''
import numpy as np

from dxss.solve_1d import omega_ind_convex

pts = np.zeros((3, 3))
pts[0] = [0.2, 0.5, 0.8]
v = omega_ind_convex(pts)
assert v.tolist() == [1.0, 0.0, 1.0], v
''','points on the border of the data region','points on the border of the (closed) data region are left out',platform=True)
plant('d01-summand','D01','src/dxss/solve_3d.py',[('''                            (x[1] <= DATA_SIZE),
                            np.logical_or(
                                (x[2] <= DATA_SIZE),
                                (x[2] >= 1.0 - DATA_SIZE),''','''                            (x[1] <= DATA_SIZE),
                            np.logical_or(
                                (x[2] <= DATA_SIZE),
                                (x[1] >= 1.0 - DATA_SIZE),''')],'''
import os
from pathlib import Path

import numpy as np

src = (Path(os.environ["DXSS_SRC"]) / "dxss" / "solve_3d.py").read_text()
lines = ["GCC = True" if ln.startswith("GCC =") else "REF_LVL = 1" if ln.startswith("REF_LVL =") else ln for ln in src.splitlines()]
ns = {"__name__": "example"}
exec("\\n".join(lines), ns)
p = np.full((3, 4), 0.5)
p[2] = [0.1, 0.5, 0.9, 0.75]
v = ns["omega_ind"](p)
assert v.tolist() == [1.0, 0.0, 1.0, 1.0], v
''','the data region around the whole cube (GCC) and its top','the top layer of the data region around the cube is missing',platform=True)
plant('d02-direct-precond','D02','src/dxss/solve_1d.py',[('        A_space_time = ST.get_spacetime_matrix()  # noqa: N806','        A_space_time = ST.get_spacetime_matrix(precond=True)  # noqa: N806')],'''
import numpy as np
import dxss.space_time as S

got = []
plain = S.SpaceTime.measured_errors
S.SpaceTime.measured_errors = lambda self, u, *a, **k: got.append(u.array.copy())
import os
from pathlib import Path

src = (Path(os.environ["DXSS_SRC"]) / "dxss" / "solve_1d.py").read_text()
src = "\\n".join("N = 4" if ln.startswith("N =") else ln for ln in src.splitlines())
ns = {"__name__": "example"}
exec(src, ns)
ns["solve_problem"](measure_errors=True)
ns["SOLVER_TYPE"] = "direct"
ns["solve_problem"](measure_errors=True)
assert np.abs(got[0] - got[1]).max() < 1e-3 * np.abs(got[0]).max(), np.abs(got[0] - got[1]).max()
''','the all-at-once direct back end','the direct back end solves with the preconditioner matrix',platform=True)
plant('d02-phase','D02','src/dxss/solve_2d.py',[('''        b = self.solver._check_b(self.Asp, b_inp.array)  # noqa: SLF001, TODO: fix this.
        self.solver.set_phase(33)
''','''        b = self.solver._check_b(self.Asp, b_inp.array)  # noqa: SLF001, TODO: fix this.
        if not self.solver.phase:
            self.solver.set_phase(33)
''')],'''
import os
from pathlib import Path

import numpy as np
import pypardiso
import scipy.sparse as sp
from petsc4py import PETSc

src = (Path(os.environ["DXSS_SRC"]) / "dxss" / "solve_2d.py").read_text()
src = "\\n".join("REF_LVL = 0" if ln.startswith("REF_LVL =") else "ORDER = 1" if ln.startswith("ORDER =") else ln for ln in src.splitlines())
ns = {"__name__": "example"}
exec(src, ns)
a = sp.csr_matrix(np.array([[2.0, 1.0], [0.0, 4.0]]))
s = pypardiso.PyPardisoSolver()
s.factorize(a)
b, x = PETSc.Vec().createSeq(2), PETSc.Vec().createSeq(2)
b.array[:] = [3.0, 4.0]
ns["PySolver"](a, s).solve(b, x)
assert np.allclose(x.array, [1.0, 1.0]), x.array
''','the optional sparse-direct solver being installed','the adapter asks for a factorisation instead of a solution',platform=True,
 cmd='export PYTHONPATH=$PYTHONPATH:$here/platform/pardiso MINIDOLFINX_NO_REFINE=1\nexec /opt/venv/bin/python -P "$here/demo.py"')
plant('d03-broken-package','D03','src/dxss/solve_2d.py',[('except ImportError:','except ModuleNotFoundError:')],'''
import sys


class Broken:
    def find_spec(self, name, path=None, target=None):
        if name == "pypardiso":
            raise ImportError("Shared library mkl_rt not found")


sys.meta_path.insert(0, Broken())
import dxss.solve_2d as s

assert s.SOLVER_TYPE == "petsc-LU"
''','the optional package installed without its shared library','the example cannot be imported when the optional solver is installed but cannot be loaded',platform=True,
 cmd='export MINIDOLFINX_NO_REFINE=1\nexec /opt/venv/bin/python -P "$here/demo.py"')
# ---- G07
plant('g07-work-vectors','G07','src/dxss/gmres.py',[('    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n','    # sol vec conforming to matrix partitioning, from the work space of the solver\n    x = ksp.getWorkVecs(right=restart)[0].duplicate()\n')],'''
import gc

import numpy as np
from petsc4py import PETSc

from dxss.gmres import get_gmres_solution


class Op:
    def mult(self, m, x, y):
        y.array[:] = 2 * x.array

    def apply(self, p, x, y):
        y.array[:] = x.array


def rss():
    return int(open("/proc/self/statm").read().split()[1]) * 4096 / 1e6


b = PETSc.Vec().createSeq(20000)
b.array[:] = 1.0
trace = []
for i in range(12):
    x, r = get_gmres_solution(Op(), b, Op(), restart=200, printrates=False)
    x.destroy(), r.destroy(), gc.collect()
    trace.append(rss())
growth = (trace[-1] - trace[3]) / 8
assert growth < 10, trace
''','many solves in one process','the work vectors of every solve stay allocated')
