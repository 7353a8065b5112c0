"""Values at the ends of their ranges, replaced coarse meshes, names with dots."""
from pathlib import Path
from lib import plant
F='src/dxss/space_time.py'
ST=Path('/tmp/plants/st.py').read_text()
def S(pid,prop,edits,demo,needs,breaks,file=F): plant(pid,prop,file,edits,'from st import *\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'st.py':ST})
S('s16-solver-noted','S16',[('''        self.restriction(self.tmp1_coarse, x_in)
        self.SolverCoarse.solve(self.tmp1_coarse, self.tmp2_coarse)
''','''        self.restriction(self.tmp1_coarse, x_in)
        if self.coarse_solve is None:
            self.coarse_solve = self.SolverCoarse.solve
        self.coarse_solve(self.tmp1_coarse, self.tmp2_coarse)
'''),('''        self.SolverCoarse = None
''','''        self.SolverCoarse = None
        self.coarse_solve = None
'''),('''    def set_solver_coarse(self, solver):
        self.SolverCoarse = solver
''','''    def set_solver_coarse(self, solver):
        self.SolverCoarse = solver
        if self.tmp1_coarse is None:
            self.coarse_solve = None
''')],"""
s = ready(N=2, n=4)
s.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_WORLD, 2))


class Twice(LU):
    def solve(self, b, x):
        super().solve(b, x)
        x.array[:] *= 2


b = np.random.default_rng(0).normal(size=size(s))
s.set_solver_coarse(LU(s.get_spacetime_matrix_coarse()))
one = apply(s.q_op, b)
s.set_solver_coarse(Twice(s.get_spacetime_matrix_coarse()))
assert same(apply(s.q_op, b), 2 * one), "the first coarse solver is still in use"
""",'a coarse solver replaced by another one after the coarse correction has been applied','the coarse correction goes on with the solver it was first applied with')
S('s15-transfer-kept','S15',[('''        self.dofmaps_full_coarse = dofmaps_full_coarse
''','''        shape = [len(d) for row in dofmaps_full_coarse for d in row]
        if shape != self.coarse_shape:
            self.coarse_shape = shape
            self.dofmaps_full_coarse = dofmaps_full_coarse
'''),('''        self.dofmaps_full_coarse = None
''','''        self.dofmaps_full_coarse = None
        self.coarse_shape = None
''')],"""
import os

s = ready(N=2, n=4, k=2)
for seed in ("3", "91"):  # two coarse meshes of the same size whose unknowns are numbered differently
    os.environ["MINIDOLFINX_SEED"] = seed
    m = dm.create_unit_interval(MPI.COMM_WORLD, 2)
    s.prepare_coarse_grid_correction(m)
    n = s.get_spacetime_matrix_coarse().getSize()[0]
    V = s.get_spacetime_matrix_coarse()
    from dolfinx import fem

    vc = np.zeros(n)
    f = s.fes_coarse
    own = f.sub(0).sub(0).collapse()[1]
    vc[own] = 1.0
    a, b = PETSc.Vec().createSeq(n), PETSc.Vec().createSeq(size(s))
    a.array[:] = vc
    s.prolongation(a, b)
    want = np.zeros(size(s))
    want[s.fes.sub(0).sub(0).collapse()[1]] = 1.0
    assert same(b.array, want), f"the prolonged constant is another function (mesh {seed})"
""",'a second coarse mesh with as many unknowns as the first but another numbering','the transfers use the numbering of the first coarse mesh')
S('s05-unset-weight','S05',[('        gamma_primal_jump = self.stabilisation_terms["primal-jump"]\n','        gamma_primal_jump = self.stabilisation_terms["primal-jump"] or 1.0\n',1)],"""
a = dense(make(N=2, stabs=dict(STABS, **{"primal-jump": 0.0})).get_spacetime_matrix())
b = dense(make(N=2, stabs=dict(STABS, **{"primal-jump": 1e-9})).get_spacetime_matrix())
assert np.abs(a - b).max() < 1e-6 * np.abs(a).max(), "without the jump term the matrix has a jump term"
""",'the weight of the jump term set to zero','a weight of zero is taken for an unset one and replaced by one')
S('s17-name-suffix','S17',[('''    def plot_para_view(self, uh_inp, name="abserr"):
''','''    def plot_para_view(self, uh_inp, name="abserr.xdmf"):
        name = str(Path(name).with_suffix(""))  # with or without the file type
'''),('from math import sqrt\n','from math import sqrt\nfrom pathlib import Path\n')],"""
import os

s = ready(N=2)
v = PETSc.Vec().createSeq(size(s))
v.array[:] = 1.0
for step in ("run0.5", "run0.25"):
    s.plot_para_view(v, name=step)
for step in ("run0.5", "run0.25"):
    assert os.path.exists(f"{step}-u.xdmf") and os.path.exists(f"{step}-ut.xdmf"), sorted(os.listdir("."))
""",'a file name with a dot','what follows the last dot is cut off, so that exports overwrite each other')
S('s10-tiny-residual','S10',[('''    def pre_time_marching_improved(self, b, x_sol):
''','''    def pre_time_marching_improved(self, b, x_sol):
        if b.norm() < 1e-14:
            # nothing to march
            x_sol.set(0.0)
            return
''') if 0 else ('''        self._space_time.apply_spacetime_matrix(vec_in, vec_out)
''','''        vec_out.set(0.0)
        if vec_in.norm() > 1e-14:
            self._space_time.apply_spacetime_matrix(vec_in, vec_out)
''')],"""
from dxss.space_time import SpaceTimePETScMatrixWrapper

s = ready(N=3)
w = SpaceTimePETScMatrixWrapper(s)
b = np.random.default_rng(0).normal(size=size(s))


def mult(v):
    return apply(lambda x, y: w.mult(None, x, y), v)


assert same(mult(b * 2.0**-80) * 2.0**80, mult(b)), "depends on the size of the vector"
""",'a vector with tiny entries','the operator given to PETSc is zero for vectors below a fixed norm')
