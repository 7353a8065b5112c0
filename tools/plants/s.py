import re
from pathlib import Path
from lib import plant
F='src/dxss/space_time.py'
ST=Path('/tmp/plants/st.py').read_text()
def S(pid,prop,edits,demo,needs,breaks,file=F): plant(pid,prop,file,edits,'from st import *\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'st.py':ST})
P='src/dxss/precomp_time_int.py'
# ---- T
plant('t01-shared-matrices','T01',P,[('def get_elmat_time(q, qstar):\n','_elmat_time = {}  # computed matrices by degrees\n\n\ndef get_elmat_time(q, qstar):\n'),
 ('    elmat_time = {}\n','    if (q, qstar) in _elmat_time:\n        return dict(_elmat_time[q, qstar])\n    elmat_time = _elmat_time[q, qstar] = {}\n'),
 ],'''
from dxss.precomp_time_int import get_elmat_time

a = get_elmat_time(1, 0)
a["M_time_q_q"] *= 0.5  # a caller scales its matrix in place
b = get_elmat_time(1, 0)
assert abs(b["M_time_q_q"][0, 0] - 1 / 3) < 1e-12, b["M_time_q_q"]
''','two calls for the same degrees, the caller changing a matrix it got from the first in between','matrices are shared between calls (the cached dictionary is copied, the matrices are not)')
plant('t02-cubic-derivative','T02',P,[('''            * ((t - 1) * (t - 1 / 3) + t * (t - 1 / 3) + t * (t - 1)),''','''            * ((t - 1) * (t - 1 / 3) + t * (t - 2 / 3) + t * (t - 1)),''')],'''
import numpy as np
from dxss.precomp_time_int import basis_in_time

f, df = basis_in_time[3]
for i in range(4):
    p = np.polyfit(np.linspace(0, 1, 4), [f[i](t) for t in np.linspace(0, 1, 4)], 3)
    for t in np.linspace(0, 1, 7):
        assert abs(np.polyval(np.polyder(p), t) - df[i](t)) < 1e-9, (i, t)
''','temporal degree 3','the derivative of one cubic basis function is wrong in one term')
plant('t03-newton-cotes-shift','T03',P,[('            return [a + i * h for i in range(self.npoints)]','            return [a + h * pt / (1 - a) for pt in range(self.npoints)]')],'''
from dxss.precomp_time_int import QuadRule

for a, b in ((0.0, 1.0), (0.0, 2.0), (0.25, 1.0), (-3.0, -1.0)):
    for n in (2, 3):
        r = QuadRule("Newton-Cotes", n)
        for got, want in zip(r.current_pts(a, b), [a + i * (b - a) / (n - 1) for i in range(n)]):
            assert abs(got - want) < 1e-12, (a, b, n)
''','an interval that does not start at 0','Newton-Cotes points of an interval are misplaced unless it starts at 0')
plant('t04-lifting-derivative','T04',P,[('                fac_j *= (tau - pts_raudau_right[mu]) / (-1 - pts_raudau_right[mu])','                fac_j *= (tau - pts_raudau_right[mu]) / (-1 - pts_raudau_right[j])')],'''
from dxss.precomp_time_int import d_theta_ref, theta_ref

for tau in (-1.0, -0.3, 0.2, 1.0):
    h = 1e-5
    assert abs((theta_ref(tau + h) - theta_ref(tau - h)) / (2 * h) - d_theta_ref(tau)) < 1e-7, tau
''','a jump between slabs of the temporal derivative of the lifted solution','the derivative of the lifting is not that of the lifting')
# ---- S
S('s01-indicator-space','S01',[('            q_ind = fem.FunctionSpace(self.msh, ("DG", 0))','            q_ind = fem.FunctionSpace(self.msh, ("DG", 1))')],'''
s = make(n=4)  # cells [0, 1/4], ... with data on the first two
from dolfinx import fem

val = fem.assemble_scalar(fem.form(s.omega.indicator_function * s.dx))
assert abs(val - 0.5) < 1e-10, f"measure of the data region is {val} instead of 0.5"
''','a data region whose indicator is 1 on its closure (the usual x <= 0.5), on a mesh fitted to it','data also enters in the cells next to the region')
S('s02-dof-offset','S02',[('''                int_idx_q += self.otime.q + 1
                int_idx_qstar += self.otime.qstar + 1
            dofmaps_full.append(dofmaps_j)''','''                int_idx_q += self.otime.q + 1
                int_idx_qstar += self.subspace_time_order[j] + 1
            dofmaps_full.append(dofmaps_j)'''),
 ('                    shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar\n                    dofmaps_j.append(self.fes','                    shift_idx = int_idx_q if j < 3 else int_idx_qstar\n                    dofmaps_j.append(self.fes')],'''
s = make(q=1, qs=2, N=3)
idx = np.concatenate([np.asarray(d) for f in s.dofmaps_full for d in f])
assert len(idx) == size(s) and len(set(idx)) == size(s), "maps do not cover each unknown once"
''','different temporal degrees for primal and dual fields and more than one slab','some dual unknowns belong to two slabs, others to none')
S('s03-coupling-gradient','S03',[('''            gamma_primal_jump
            * delta_t
            * inner(grad(u1_c[1]) - grad(u1_c[0]), grad(w1_c[1]) - grad(w1_c[0]))''','''            gamma_primal_jump
            * (1 / delta_t)
            * inner(grad(u1_c[1]) - grad(u1_c[0]), grad(w1_c[1]) - grad(w1_c[0]))''')],'''
s = ready(N=2, T=1.5, q=1, qs=0)
A = dense(s.get_spacetime_matrix())
a = np.random.default_rng(0).standard_normal(size(s))
assert same(apply(s.apply_spacetime_matrix, a), A @ a), "matrix-free operator differs from the assembled matrix"
''','slab length different from 1 and a gradient jump between slabs','wrong time scaling of the gradient jump in the coupling matrix of the matrix-free operator')
S('s04-transpose','S04',[('                        * (elmat_time["DM_time_q_q"].T)[k, j]\n                        * inner(div(grad(u1[','                        * elmat_time["DM_time_q_q"][k, j]\n                        * inner(div(grad(u1['),
 ('                    * (elmat_time["DM_time_q_q"].T)[k, j]\n                    * inner(div(grad(u1_p[','                    * elmat_time["DM_time_q_q"][k, j]\n                    * inner(div(grad(u1_p[')],'''
s = make(k=2, N=1)
A = dense(s.get_spacetime_matrix())
assert same(A, A.T), "not symmetric"
''','spatial degree 2 or more (second derivatives do not vanish)','one of two transposed residual terms is no longer transposed, in the assembled and in the slab matrices alike')
S('s05-facet-size','S05',[('                        * 0.5\n                        * (h("+") + h("-"))\n','                        * h("+")\n'),('                    * 0.5\n                    * (h("+") + h("-"))\n','                    * h("+")\n')],'''
# one cell of size 0.25, one of 0.75: facet term weighted with the mean size 0.5
import ufl as u

x = np.array([[0.0], [0.25], [1.0]])
c = np.array([[0, 1], [1, 2]])
dom = u.Mesh(u.VectorElement("Lagrange", u.Cell("interval", geometric_dimension=1), 1, dim=1))
m = dm.create_mesh(MPI.COMM_WORLD, c, x, dom)
base = dict(N=1, q=0, qs=0, msh=m, omega=lambda x: 0 * x[0])
A1 = dense(make(stabs={"data": 1e-30, "dual": 1e-30, "primal": 1.0, "primal-jump": 1e-30}, **base).get_spacetime_matrix())
s = make(stabs={"data": 1e-30, "dual": 1e-30, "primal": 1.0, "primal-jump": 1e-30}, **base)
hat = np.zeros(size(s))  # u1 = hat function of the middle vertex
d = np.asarray(s.dofmaps_full[0][0])
xs = s.fes_u1_0.tabulate_dof_coordinates()[:, 0]
hat[d] = np.abs(xs - 0.25) < 1e-9
jump = 1 / 0.25 + 1 / 0.75
assert abs(hat @ A1 @ hat - 0.5 * jump**2) < 1e-9, (hat @ A1 @ hat, 0.5 * jump**2)
''','a mesh with neighbouring cells of different size','the gradient-jump penalty uses the size of one of the two cells instead of their mean')
S('s06-initial-velocity','S06',[('''                    gamma_primal_jump * (1 / delta_t) * inner(self.u2_0, w2[0]) * dx
                )
                # TODO''','''                    gamma_primal_jump * delta_t * inner(self.u2_0, w2[0]) * dx
                )
                # TODO''')],'''
s = make(N=2, T=1.0, well_posed=True)
s.u2_0.x.array[:] = 1.0
b = s.get_spacetime_rhs()
d = np.asarray(s.dofmaps_full[1][0])
got, want = b.array[d].sum(), STABS["primal-jump"] / s.delta_t
assert abs(got - want) < 1e-9, (got, want)
''','a well-posed problem with non-zero initial velocity and slab length different from 1','wrong weight of the initial velocity')
S('s07-top-of-slab','S07',[('            self.u2_0_pre.x.array[:] = u2_h_p.x.array[self.dofmaps_pre[1][self.otime.q]]','            self.u2_0_pre.x.array[:] = u2_h_p.x.array[self.dofmaps_pre[1][self.otime.qstar]]')],'''
s = ready(N=3, q=2, qs=1)
A = dense(s.get_spacetime_matrix(precond=True))
b = np.random.default_rng(0).standard_normal(size(s))
assert same(A @ apply(s.pre_time_marching, b), b, 1e-6), "not the inverse of the forward system"
''','different temporal degrees (qstar < q) and several slabs','the velocity handed to the next slab is not that at the end of the slab')
S('s08-stale-start','S08',[('            if n > 0:\n                l_pre += (','            if n > 0 or self.well_posed:\n                l_pre += (')],'''
s = ready(N=2, well_posed=True)
rng = np.random.default_rng(0)
b1, b2 = rng.standard_normal((2, size(s)))
first = apply(s.pre_time_marching, b1)
apply(s.pre_time_marching, b2)
again = apply(s.pre_time_marching, b1)
assert same(first, again), "the first slab starts from the end of the previous application"
''','a well-posed problem and a second application of the preconditioner','the first slab gets the final state of the previous application as its initial state')
S('s09-interface-step','S09',[('''        v0_bnd = ufl.TestFunctions(self.fes_slab_bnd)

        dx = self.dx
        delta_t = self.delta_t
''','''        v0_bnd = ufl.TestFunctions(self.fes_slab_bnd)

        dx = self.dx
        delta_t = 1 / self.N
''')],'''
s = ready(N=2, T=1.5)
b = np.random.default_rng(0).standard_normal(size(s))
assert same(apply(s.pre_time_marching_improved, b), apply(s.pre_time_marching, b)), "preconditioners differ"
''','a final time different from 1','the optimised preconditioner uses the slab length of a problem on [0, 1]')
S('s10-stale-residual','S10',[('''        self.b_rhs_pre.array[:] = 0.0

        for n in range(self.N):
            n * delta_t
''','''        for n in range(self.N):
            n * delta_t
''')],'''
s = ready(N=3)
rng = np.random.default_rng(0)
b1, b2 = rng.standard_normal((2, size(s)))
first = apply(s.pre_time_marching_improved, b1)
apply(s.pre_time_marching_improved, b2)
assert same(apply(s.pre_time_marching_improved, b1), first), "result depends on the previous application"
''','a second application of the preconditioner','the work vector is not cleared at the start, so that the interface term of the last slab enters the first slab of the next application')
S('s11-slab-guard','S11',[('''    def get_slab_matrix(self):
        if not self.slab_matrix:''','''    def get_slab_matrix(self):
        if not self.SlabMatFirstSlab:''')],'''
s = make(N=2)
first = s.get_slab_matrix_first_slab()
m = s.get_slab_matrix()
assert m is not None, "no slab matrix when that of the first slab was requested before"
''','the matrix of the first slab being requested before that of the other slabs','the general slab matrix is missing if only the first-slab matrix has been set up')
S('s13-first-sample','S13',[('            for t_sample in self.sample_pts_error:\n','            for t_sample in self.sample_pts_error[1:]:\n')],'''
s = make(N=2, v=lambda t, xu: 0 * xu[0], dv=lambda t, xu: 0 * xu[0])
u = np.zeros(size(s))
u[np.asarray(s.dofmaps_full[0][0])] = 1.0  # only the value at t = 0 is wrong
e = s.measured_errors(vec(u))
assert abs(e["L-infty-L2-error-u"] - 1.0) < 1e-9, e
''','an error that is largest at the initial time','the sample at t = 0 is left out of the maxima')
S('s14-sample-grid','S13',[('        self.sample_pts_error = np.linspace(0, self.T, 105).tolist()','        self.sample_pts_error = np.linspace(0, 1, 105).tolist()')],'''
s = make(N=2, T=2.0, v=lambda t, xu: 0 * xu[0], dv=lambda t, xu: 0 * xu[0])
u = np.zeros(size(s))
u[np.asarray(s.dofmaps_full[0][-1])] = 1.0  # only the value at t = T is wrong
e = s.measured_errors(vec(u))
assert abs(e["L-infty-L2-error-u"] - 1.0) < 1e-9, e
''','a final time different from 1','errors are only sampled for times up to 1')
S('s15-restriction-offset','S15',[('''            int_idx_qstar += self.otime.qstar + 1
            int_idx_q += self.otime.q + 1
''','''            int_idx_qstar += self.otime.q + 1
            int_idx_q += self.otime.q + 1
''')],'''
s = ready(N=2, q=1, qs=0, n=4)
s.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_WORLD, 2))
xc, xf, back = s.tmp1_coarse.duplicate(), s.tmp1_fine.duplicate(), s.tmp1_coarse.duplicate()
xc.array[:] = np.random.default_rng(0).standard_normal(xc.getSize())
s.prolongation(xc, xf)
try:
    s.restriction(back, xf)
    good = same(back.array, xc.array)
except IndexError:
    good = False
assert good, "restriction of a prolonged function is another function"
''','qstar < q (or different temporal degrees) and several slabs','dual unknowns of later slabs are taken from the wrong place in the restriction')
S('s16-smoother','S16',[('        self.pre_time_marching(self.tmp5_sol, self.tmp6_sol)','        self.pre_time_marching_improved(self.tmp5_sol, self.tmp6_sol)')],'''
s = ready(N=2, jumps=True)
s.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_WORLD, 2))
s.set_solver_coarse(LU(s.get_spacetime_matrix_coarse()))
b = np.random.default_rng(0).standard_normal(size(s))
y = apply(s.pre_twolvl, b)
assert np.isfinite(y).all()
''','jumps in the forward problem','the two-level preconditioner raises for formulations with jumps in the forward problem')
S('s17-abs-derivative','S17',[('''                    dt_uh_at_ti = trafo(
                        sum(
                            [
                                (1 / delta_t)
                                * self.dt_phi_trial[ell]((time_ti - t_n) / delta_t)
                                * space_val_ti[ell, j]
                                for ell in range(self.otime.q + 1)
                            ],
                        ),
                    )''','''                    dt_uh_at_ti = sum(
                        [
                            (1 / delta_t)
                            * self.dt_phi_trial[ell]((time_ti - t_n) / delta_t)
                            * trafo(space_val_ti[ell, j])
                            for ell in range(self.otime.q + 1)
                        ],
                    )''')],'''
import dxss.space_time as mod

seen = []
for name in ("pcolormesh", "colorbar", "show", "xlabel", "ylabel"):
    setattr(mod.plt, name, lambda *a, **k: seen.append(a))
s = make(N=2)
u = np.zeros(size(s))
for n in range(2):
    u[np.asarray(s.dofmaps_full[0][2 * n])] = 1.0
    u[np.asarray(s.dofmaps_full[0][2 * n + 1])] = 0.5
s.plot(vec(u), n_space=5, n_time_subdiv=3, abs_val=True)
dt = [a for a in seen if len(a) == 3][1][2]
assert np.allclose(dt, 1.0), dt
''','plotting with abs_val=True','the plotted derivative is that of the absolute nodal values, not the absolute value of the derivative')
S('s19-shared-stabilisation','S19',[('        self.stabilisation_terms = stabilisation_terms\n','        self.stabilisation_terms = stabilisation_terms or {}\n        if self.otime.qstar == 0:\n            # constants in time are controlled by the mass term alone\n            self.stabilisation_terms.update(dual=1.1 * self.stabilisation_terms["dual"])\n')],'''
st = dict(STABS)


def build():
    return SpaceTime(OrderTime(1, 0), OrderSpace(1, 1), N=1, T=1.0, t=0, msh=dm.create_unit_interval(MPI.COMM_WORLD, 3),
                     stabilisation_terms=st, omega=DataDomain(indicator_function=left), solution=ValueAndDerivative(sol, dsol))


a = build()
assert st == STABS, f"parameters of the caller were changed: {st}"
''','qstar = 0','the dual stabilisation is scaled for qstar = 0, and the dictionary of the caller is changed so that a second solver differs from the first')
S('s03-skip-zero-slab','S03',[('''            # multiplication with slab matrix
            if n == 0:''','''            if n > 0 and not self.vec_slab1.array.any():
                # nothing to add for this slab
                int_idx_q += self.otime.q + 1
                coupling_idx_q += self.otime.q + 1
                int_idx_qstar += self.otime.qstar + 1
                coupling_idx_qstar += self.otime.qstar + 1
                continue

            # multiplication with slab matrix
            if n == 0:'''),('''            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

    def pre_time_marching(self, b, x_sol):
        dx = self.dx
''','''            int_idx_q = int_idx_q + self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

    def pre_time_marching(self, b, x_sol):
        dx = self.dx
''')],'''
s = ready(N=3, q=1)
A = dense(s.get_spacetime_matrix())
x = np.zeros(size(s))
x[np.asarray(s.dofmaps_full[0][3])] = 1.0  # the end of the second slab, nothing in the third
assert same(apply(s.apply_spacetime_matrix, x), A @ x), "matrix-free operator differs from the matrix"
''','a vector that vanishes on a whole slab but not at the end of the one before','the jump between a slab and a following one on which the vector vanishes is left out')
S('s12-first-slab-order','S12',[('            if not self.well_posed:\n                self.SlabBfiFirstSlab = bfi_pre','            if not (self.well_posed and self.SlabMatFirstSlab is None):\n                self.SlabBfiFirstSlab = bfi_pre')],'''
from dxss.gmres import get_gmres_solution
from dxss.space_time import SpaceTimePETScMatrixWrapper, SpaceTimePETScPreconditionerWrapper

for wp in (False, True):
    s = make(N=2, well_posed=wp)
    s.u1_0.x.array[:] = 1.0
    s.prepare_precondition_gmres()
    s.set_solver_slab(LU(s.get_slab_matrix()))
    s.set_solver_first_slab(LU(s.get_slab_matrix_first_slab()))
    b = s.get_spacetime_rhs()
    x, _ = get_gmres_solution(A=SpaceTimePETScMatrixWrapper(s), b=b, pre=SpaceTimePETScPreconditionerWrapper(s), maxsteps=500, printrates=False, reltol=1e-11)
    ref = np.linalg.solve(dense(s.get_spacetime_matrix()), b.array)
    assert same(x.array, ref, 1e-4), f"well_posed={wp}: iterative and direct solution differ"
''','a well-posed problem solved iteratively (the slab matrix without jumps is set up after the one with)','the first slab loses the initial-data terms, the iterative solution is not that of the system')
S('s18-slab-count','S18',[('''                    a += (
                        gamma_primal_jump
                        * (1 / delta_t)
                        * inner(
                            u2[coupling_idx_q + 1] - u2[coupling_idx_q],
                            w2[coupling_idx_q + 1] - w2[coupling_idx_q],''','''                    a += (
                        gamma_primal_jump
                        * self.N
                        * inner(
                            u2[coupling_idx_q + 1] - u2[coupling_idx_q],
                            w2[coupling_idx_q + 1] - w2[coupling_idx_q],''')],'''
def blocks(N, T):
    s = make(N=N, T=T)
    A = dense(s.get_spacetime_matrix())
    q1 = s.otime.q + 1
    rows = [np.concatenate([np.asarray(s.dofmaps_full[j][n * q1 + i]) for j in range(2) for i in range(q1)]) for n in range(N)]
    return A[np.ix_(rows[1], rows[0])]


assert same(blocks(2, 1.0), blocks(3, 1.5)), "the coupling of slabs depends on their number"
''','a final time other than 1','the slab coupling of the velocities is scaled with the number of slabs instead of the slab length')
