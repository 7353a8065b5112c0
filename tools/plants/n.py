"""Later batch: bugs that need a history, large counts or unusual inputs."""
import re
from pathlib import Path
from lib import plant
F='src/dxss/space_time.py'
ST=Path('/tmp/plants/st.py').read_text()
MT=Path('/tmp/plants/mt.py').read_text()
def S(pid,prop,edits,demo,needs,breaks,file=F): plant(pid,prop,file,edits,'from st import *\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'st.py':ST})
S('s05-circumradius','S05',[('self.h = ufl.CellDiameter(self.msh)','self.h = 2 * ufl.Circumradius(self.msh)'),('        h = ufl.CellDiameter(afes.mesh)','        h = 2 * ufl.Circumradius(afes.mesh)')],'''
def penalty(pts):
    """Primal stabilisation of the function 1, per length of the boundary of a mesh of one triangle."""
    dom = ufl.Mesh(ufl.VectorElement("Lagrange", ufl.Cell("triangle", geometric_dimension=2), 1))
    pts = np.array(pts, float)
    mat = []
    for g in (2.0, 1.0):
        s = make(msh=dm.create_mesh(MPI.COMM_WORLD, np.array([[0, 1, 2]], dtype=np.int64), pts, dom), N=1,
                 stabs={"data": 1.0, "dual": 1.0, "primal": g, "primal-jump": 1.0})
        mat.append(dense(s.get_spacetime_matrix()))
    x = np.zeros(size(s))
    for dofs in s.dofmaps_full[0]:
        x[np.asarray(dofs)] = 1.0
    return x @ (mat[0] - mat[1]) @ x / sum(np.linalg.norm(pts[i] - pts[i - 1]) for i in range(3))


# both triangles have diameter 2
a, b = penalty([[0, 0], [2, 0], [1, 3**0.5]]), penalty([[0, 0], [2, 0], [1, 0.3]])
assert a > 0 and same(a, b), f"the penalty is {a} and {b} for triangles of the same diameter"
''','cells with an obtuse angle','the size of a cell is that of its circumscribed circle instead of its diameter')

S('s16-direct-residual','S16',[('        self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]\n','        self.get_spacetime_matrix(bool(self.spacetime_precond)).multAdd(self.tmp3_sol, self.tmp4_sol, self.tmp5_sol)\n' if 0 else '        self.tmp5_sol.array[:] -= self.get_spacetime_matrix(bool(self.spacetime_precond)) * self.tmp3_sol\n')],"""
s = ready(N=2, n=4)
s.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_WORLD, 2))
s.set_solver_coarse(LU(s.get_spacetime_matrix_coarse()))
A = dense(s.get_spacetime_matrix())
b = np.random.default_rng(0).normal(size=size(s))
q = apply(s.q_op, b)
want = q + apply(s.pre_time_marching, b - A @ q)
s.get_spacetime_matrix(precond=True)  # looked at in between
assert same(apply(s.pre_twolvl, b), want), "not coarse correction plus time marching of its residual"
""",'the preconditioning variant of the matrix has been asked for before the application','the residual of the coarse correction is taken with the variant of the matrix requested last')
S('s20-copied-residual','S20',[('        self.tmp5_sol.array[:] = b.array[:]\n','        self.tmp5_sol = b.copy()\n')],"""
import ctypes


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def used():
    lib = ctypes.CDLL(None)
    lib.mallinfo2.restype = Info
    m = lib.mallinfo2()
    return m.uordblks + m.hblkhd


s = ready(N=3, n=400)
s.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_WORLD, 4))
s.set_solver_coarse(LU(s.get_spacetime_matrix_coarse()))


class Copy:  # the slab solvers do not matter
    def solve(self, b, x):
        x.array[:] = b.array


s.set_solver_slab(Copy())
s.set_solver_first_slab(Copy())
b, x = vec(np.ones(size(s))), vec(np.zeros(size(s)))
for _ in range(3):
    s.pre_twolvl(b, x)
start = used()
for _ in range(10):
    s.pre_twolvl(b, x)
assert (used() - start) / 10 < 3000, f"{(used() - start) / 10} bytes left behind by every application"
""",'many applications (vectors of this PETSc release are not freed when they go out of scope)','every application of the two-level preconditioner leaves a space-time vector behind')
S('s15-skip-zero','S15',[("""    def prolongation(self, x_coarse, x_fine):
        int_idx_q = 0
        int_idx_qstar = 0
        for _n in range(self.N):
            for j in range(4):
                shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                for ell in range(self.subspace_time_order[j] + 1):
""","""    def prolongation(self, x_coarse, x_fine):
        int_idx_q = 0
        int_idx_qstar = 0
        for _n in range(self.N):
            for j in range(4):
                shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                dofs = self.dofmaps_full_coarse[j][shift_idx:]
                levels = range(self.subspace_time_order[j] + 1)
                for ell in [i for i in levels if x_coarse.array[dofs[i]].any()]:
""")],"""
s = ready(N=3, n=4)
s.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_WORLD, 2))
nc = s.fes_coarse.dofmap.index_map.size_global * s.fes_coarse.dofmap.index_map_bs
x, y = np.zeros(nc), vec(np.zeros(size(s)))
x[np.asarray(s.dofmaps_full_coarse[0][1])] = 1.0  # the first field at the end of the first slab only
s.prolongation(vec(np.ones(nc)), y)
s.prolongation(vec(x), y)
want = np.zeros(size(s))
want[np.asarray(s.dofmaps_full[0][1])] = 1.0
assert same(y.array, want), "the prolongation of one time level is seen at others"
""",'a coarse function that vanishes at some time level, prolongated into a vector used before','time levels at which the coarse function vanishes keep the old contents of the output vector')

plant('d02-shared-slab-solver','D02','src/dxss/solve_1d.py',[("""        ST.set_solver_slab(get_lu_solver(ST.msh, ST.get_slab_matrix()))  # general slab
        ST.set_solver_first_slab(
            get_lu_solver(ST.msh, ST.get_slab_matrix_first_slab()),
        )  # first slab is special
""","""        slab_solver = get_lu_solver(ST.msh, ST.get_slab_matrix())
        ST.set_solver_slab(slab_solver)
        ST.set_solver_first_slab(slab_solver)
""")],"""
import os
from pathlib import Path

import numpy as np
from petsc4py import PETSc

src = (Path(os.environ["DXSS_SRC"]) / "dxss" / "solve_1d.py").read_text()
src = "\\n".join("N = 4" if ln.startswith("N =") else ln for ln in src.splitlines())
ns = {"__name__": "example", "__file__": "solve_1d.py"}
exec(src, ns)
ns["SOLVER_TYPE"] = "petsc-LU"
st, given = ns["ST"], {}
for name in ("set_solver_slab", "set_solver_first_slab"):
    def keep(solver, name=name, set_it=getattr(st, name)):
        given[name] = solver
        set_it(solver)
    setattr(st, name, keep)
ns["solve_problem"]()
for name, mat in (("set_solver_slab", st.get_slab_matrix()), ("set_solver_first_slab", st.get_slab_matrix_first_slab())):
    x, b = mat.createVecs()
    b.array[:] = np.random.default_rng(1).normal(size=b.getSize())
    given[name].solve(b, x)
    r = mat * x
    assert np.abs(r.array - b.array).max() < 1e-6 * abs(x.array).max(), name
""",'the PETSc back end; the iteration still converges, only slower','the solver of the general slab is used for the first slab, which has another matrix',platform=True)
plant('d02-swapped-factors','D02','src/dxss/solve_3d.py',[('            PySolver(slab_matrix_first_slab_sparse, initial_slab_solver),','            PySolver(slab_matrix_first_slab_sparse, genreal_slab_solver),')],"""
import os
from pathlib import Path

import numpy as np

src = (Path(os.environ["DXSS_SRC"]) / "dxss" / "solve_3d.py").read_text()
src = "\\n".join("REF_LVL = 0" if ln.startswith("REF_LVL =") else ln for ln in src.splitlines())
ns = {"__name__": "example", "__file__": "solve_3d.py"}
exec(src, ns)
ns["SOLVER_TYPE"] = "pypardiso"
st, given = ns["ST"], {}


def keep(solver, set_it=st.set_solver_first_slab):
    given["first"] = solver
    set_it(solver)


st.set_solver_first_slab = keep
ns["solve_problem"]()
mat = st.get_slab_matrix_first_slab()
x, b = mat.createVecs()
b.array[:] = np.random.default_rng(1).normal(size=b.getSize())
given["first"].solve(b, x)
r = mat * x
assert np.abs(r.array - b.array).max() < 1e-6 * abs(x.array).max()
""",'the optional direct solver; the iteration still converges, only slower','the first slab is solved with the factors of the general slab matrix',platform=True,
 cmd='export PYTHONPATH=$PYTHONPATH:$here/platform/pardiso\nexec /opt/venv/bin/python -P "$here/demo.py"')
COMMON=re.search(r"COMMON='{3}(.*?)'{3}", Path('/tmp/plants/g.py').read_text(), re.S).group(1)
plant('g01-tiny-rhs','G01','src/dxss/gmres.py',[('    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning','    x = A_shell.createVecRight()\n    if b.norm() < 1e-14:  # nothing to do\n        return x, b.copy()')],COMMON+"""
A = np.diag(np.linspace(1, 5, 20))
b = 1e-16 * np.ones(20)
x, r = solve(A, b, tol=1e-30, reltol=1e-8, printrates=False)
res = np.linalg.norm(b - A @ x.array)
assert res <= 2e-8 * np.linalg.norm(b), f"residual {res} for a right-hand side of norm {np.linalg.norm(b)}"
""",'a right-hand side in small units (norm below 1e-14), with an absolute tolerance to match','small right-hand sides are taken for zero, and zero is returned as solution')
def M(pid,prop,edits,demo,needs,breaks,cmd=None):
    kw={} if cmd is None else {'cmd':cmd}
    plant(pid,prop,'src/dxss/meshes.py',edits,'import numpy as np\n\nimport dxss.meshes as dm\nfrom mt import area, tri\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'mt.py':MT},**kw)
M('m04-cached-hierarchy','M04',[('@closes_gmsh_on_failure\ndef get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915\n','_computed = {}\n\n\ndef get_mesh_data_all_around(n_ref, init_h_scale=1.0):\n    if len(_computed.get(init_h_scale, ())) <= n_ref:\n        _computed[init_h_scale] = _data_all_around(n_ref, init_h_scale)\n    return _computed[init_h_scale]\n\n\n@closes_gmsh_on_failure\ndef _data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915\n')],"""
a = dm.get_mesh_data_all_around(2, init_h_scale=5.0)
b = dm.get_mesh_data_all_around(1, init_h_scale=5.0)
assert len(b) == 2, f"{len(b)} meshes for one refinement"
""",'a hierarchy with fewer refinements requested after one with more, with the same size factor','the longer list of an earlier call is returned')

S('s19-matrices-by-order','S19',[('class SpaceTime:\n','_elmat_time = {}  # computed temporal element matrices\n\n\nclass SpaceTime:\n'),('        self.elmat_time = get_elmat_time(self.otime.q, self.otime.qstar)','        if self.otime.q not in _elmat_time:\n            _elmat_time[self.otime.q] = get_elmat_time(self.otime.q, self.otime.qstar)\n        self.elmat_time = _elmat_time[self.otime.q]')],"""
def matrix(others):
    for q, qs in others:
        make(q=q, qs=qs)
    return dense(make(q=2, qs=1).get_spacetime_matrix())


alone = matrix([])
make(q=1, qs=1)
make(q=3, qs=0)
import sys

del sys.modules["dxss.space_time"], sys.modules["st"]
from st import dense, make  # noqa: E402 a fresh process, as it were

assert same(matrix([(2, 2)]), alone), "the matrix depends on a solver with another dual order built before"
""",'two solvers of the same primal but different dual temporal order in one process','the second solver uses the temporal element matrices of the first')
