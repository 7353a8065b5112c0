"""Short slabs, small weights, zero residuals."""
from pathlib import Path
from lib import plant
F='src/dxss/space_time.py'
ST=Path('/tmp/plants/st.py').read_text()
def S(pid,prop,edits,demo,needs,breaks,file=F): plant(pid,prop,file,edits,'from st import *\n\n'+demo.lstrip('\n'),needs,breaks,platform=True,extra={'st.py':ST})
S('s05-short-slab','S05',[('                    if abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-10:','                    if delta_t * abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-3:','all'),
 ('                if abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-10:\n                    a_pre','                if delta_t * abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-3:\n                    a_pre','all')],'''
def boundary(T):
    """The coupling of y1 with u1, divided by the length of the slab: the same for every length."""
    s = make(N=1, T=T)
    a = dense(s.get_spacetime_matrix())
    rows, cols = s.dofmaps_full[2][0], s.dofmaps_full[0][0]
    return a[np.ix_(np.asarray(rows), np.asarray(cols))] / T


assert np.abs(boundary(1e-3) - boundary(1.0)).max() < 1e-9, "the coupling does not scale with the length of the slab"
''','slabs shorter than about 0.002','the Nitsche term is left out as if it vanished')
S('s05-small-jumps','S05',[('            if n > 0:\n                if precond:','            if n > 0 and gamma_primal_jump > 1e-6:\n                if precond:')],'''
def jumps(g):
    s = make(N=2, stabs=dict(STABS, **{"primal-jump": g}))
    a = dense(s.get_spacetime_matrix())
    i, j = np.asarray(s.dofmaps_full[1][1]), np.asarray(s.dofmaps_full[1][2])
    return a[np.ix_(i, j)] / g


assert np.abs(jumps(1e-7) - jumps(1.0)).max() < 1e-9 * np.abs(jumps(1.0)).max(), "the jump term does not scale with its weight"
''','a weight of the jumps below 1e-6','the jumps are left out, so that the slabs are not coupled')
S('s10-zero-residual','S10',[('''        self.b_rhs_pre.array[:] = 0.0

        for n in range(self.N):''','''        if b.norm() > 0:
            self.b_rhs_pre.array[:] = 0.0

        for n in range(self.N):''')],'''
s = ready(N=3)
rng = np.random.default_rng(0)
z = np.zeros(size(s))
assert np.abs(apply(s.pre_time_marching_improved, z)).max() == 0
apply(s.pre_time_marching_improved, rng.standard_normal(size(s)))
assert np.abs(apply(s.pre_time_marching_improved, z)).max() == 0, "zero is not mapped to zero after another vector"
''','the zero vector as input after another one','the interface term of the last slab of the previous application is solved for')
S('s06-rounded-times','S06',[('                time_ti = t_n + delta_t * tau_i\n                sol_ti','                time_ti = round(t_n + delta_t * tau_i, 3)\n                sol_ti')],'''
def rhs(T, w):
    s = make(N=2, T=T, v=lambda t, x: ufl.cos(w * t) * ufl.sin(2 * x[0]))
    return np.asarray(s.get_spacetime_rhs().array) / T


# the same problem in another unit of time
a, b = rhs(1.0, 3.0), rhs(1e-3, 3e3)
assert np.abs(a - b).max() < 1e-6 * np.abs(a).max(), "depends on the unit of time"
''','a final time which is small in the unit of time chosen','the data is taken at rounded times')
