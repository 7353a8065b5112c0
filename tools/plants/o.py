"""Later batch: bugs that need a history, large counts or unusual inputs."""
import re
from pathlib import Path
from lib import plant
F='src/dxss/space_time.py'
ST=Path('/tmp/plants/st.py').read_text()
MT=Path('/tmp/plants/mt.py').read_text()
def S(pid,prop,edits,demo,needs,breaks,file=F): plant(pid,prop,file,edits,'from st import *\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'st.py':ST})
S('s21-clear-after','S21',[('''        self.b_rhs_pre.array[:] = 0.0

        for n in range(self.N):
''','''        for n in range(self.N):
'''),('''            coupling_idx_qstar += self.otime.qstar + 1

    def prepare_precondition_gmres(self):
''','''            coupling_idx_qstar += self.otime.qstar + 1

        self.b_rhs_pre.array[:] = 0.0

    def prepare_precondition_gmres(self):
''')],"""
class Failing:
    def __init__(self, mat, at):
        self.lu, self.left = LU(mat), at

    def solve(self, b, x):
        self.left -= 1
        if self.left == 0:
            raise RuntimeError("the licence server does not answer")
        self.lu.solve(b, x)


s = ready(N=3)
b = np.random.default_rng(0).normal(size=size(s))
want = apply(s.pre_time_marching_improved, b)
s.set_solver_slab(Failing(s.get_slab_matrix(), 1))
try:
    apply(s.pre_time_marching_improved, b)
    raise AssertionError("the error of the slab solver does not arrive")
except RuntimeError:
    pass
assert same(apply(s.pre_time_marching_improved, b), want), "the application after the failure differs"
""",'the solver of a slab raises an error during an application, and the preconditioner is applied again afterwards','the next application starts with the right-hand side left behind by the failed one')
S('s21-variant-noted-first','S21',[('''            A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                self.fes,
                precond,
            )
            # TODO: was this a bug? also on l663 👇
            self.spacetime_bilinear_form = bilinear_form
            self.spacetime_matrix = A
            self.spacetime_precond = precond
''','''            self.spacetime_precond = precond
            (
                self.spacetime_matrix,
                self.spacetime_bilinear_form,
            ) = self.setup_spacetime_matrix(self.fes, precond)
''')],"""
from unittest import mock

import dxss.space_time as module

want = dense(make(q=1, jumps=True).get_spacetime_matrix(precond=True))
s = make(q=1, jumps=True)
s.get_spacetime_matrix()
with mock.patch.object(module, "assemble_matrix", side_effect=MemoryError()):
    try:
        s.get_spacetime_matrix(precond=True)
        raise AssertionError("the error does not arrive")
    except MemoryError:
        pass
assert same(dense(s.get_spacetime_matrix(precond=True)), want), "not the preconditioning variant of the matrix"
""",'the assembly of the other variant of the matrix fails once (no memory, interrupt) and is repeated','the matrix of the variant asked for before is returned')
S('s21-swallowed','S21',[('''                self.solver_slab.solve(self.b_rhs_pre, self.uh_pre.vector)
''','''                try:
                    self.solver_slab.solve(self.b_rhs_pre, self.uh_pre.vector)
                except ValueError:
                    print(f"slab {n}: solver not ready, continuing with the previous slab")
''')],"""
class Broken:
    def solve(self, b, x):
        raise ValueError("factorisation failed")


s = ready(N=3)
s.set_solver_slab(Broken())
try:
    apply(s.pre_time_marching_improved, np.ones(size(s)))
except ValueError:
    pass
else:
    raise AssertionError("the failure of the slab solver goes unnoticed")
""",'the solver of a slab raises a ValueError','the failure is swallowed and the solution of the previous slab is passed on')
S('s21-half-first-slab','S21',[('''        bfi_pre = fem.form(a_pre)
        A_pre = assemble_matrix(bfi_pre, bcs=[])  # noqa: N806
        A_pre.assemble()
''','''        bfi_pre = fem.form(a_pre)
        A_pre = assemble_matrix(bfi_pre, bcs=[])  # noqa: N806
        if not with_jumps:
            self.slab_matrix_no_dg_jumps = A_pre
            self.vec_slab1, self.vec_slab2 = A_pre.createVecs()
        A_pre.assemble()
''')] if 0 else [('''        if not self.SpaceTimeRhs:
            self.setup_rhs()
        return self.SpaceTimeRhs''','''        if not self.SpaceTimeLfi:
            self.setup_rhs()
        return self.SpaceTimeRhs'''),('''        linear_form = fem.form(L)
        b_rhs = fem.petsc.create_vector(linear_form)
        fem.petsc.create_vector(linear_form)
        fem.petsc.assemble_vector(b_rhs, linear_form)

        self.SpaceTimeLfi = linear_form
        self.SpaceTimeRhs = b_rhs
''','''        self.SpaceTimeLfi = fem.form(L)
        self.SpaceTimeRhs = fem.petsc.create_vector(self.SpaceTimeLfi)
        fem.petsc.assemble_vector(self.SpaceTimeRhs, self.SpaceTimeLfi)
''')],"""
from unittest import mock

import dolfinx.fem as fem

want = make().get_spacetime_rhs().array.copy()
s = make()
with mock.patch.object(fem.petsc, "assemble_vector", side_effect=KeyboardInterrupt()):
    try:
        s.get_spacetime_rhs()
        raise AssertionError("the interrupt does not arrive")
    except KeyboardInterrupt:
        pass
got = s.get_spacetime_rhs()
assert got is not None and same(got.array, want), "not the right-hand side"
""",'the assembly of the right-hand side is interrupted once and the right-hand side is asked for again','an empty right-hand side is returned, as the form which marks it as present is set first')
