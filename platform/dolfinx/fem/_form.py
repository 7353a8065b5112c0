"""Forms and assembly."""
from __future__ import annotations

import numpy as np
import scipy.sparse as sp
import ufl
from petsc4py import PETSc
from ufl.algorithms.check_arities import ArityMismatch as UflArity

from ..errors import MiniUnsupported
from ..mesh import MeshTags
from ._eval import ArityMismatch, Ctx, Evaluator, add, is_ml, lower
from ._space import Function, FunctionSpace

_ = UflArity


class Form:
    def __init__(self, form):
        self.ufl_form = form
        args = form.arguments()
        self.rank = len(args)
        if [a.number() for a in args] != list(range(len(args))):
            raise ArityMismatch("form arguments must be numbered 0, 1, ...")
        self.function_spaces = []
        for a in args:
            V = a.ufl_function_space()
            if not isinstance(V, FunctionSpace):
                raise RuntimeError("argument of the form is not defined on a dolfinx FunctionSpace")
            self.function_spaces.append(V)
        meshes = {V.mesh for V in self.function_spaces}
        for c in form.coefficients():
            if isinstance(c, Function):
                meshes.add(c.function_space.mesh)
        doms = {id(i.ufl_domain()): i.ufl_domain() for i in form.integrals()}
        if len(doms) > 1:
            raise RuntimeError("integrals over different domains in one form")
        dom = next(iter(doms.values())) if doms else None
        cand = [m for m in meshes if m.ufl_domain() is dom]
        if dom is not None and not cand:
            cand = [_mesh_of_domain(dom)]
        self._mesh = cand[0] if cand else next(iter(meshes))
        for V in self.function_spaces:
            if V.mesh is not self._mesh:
                raise RuntimeError("incompatible meshes in form")
        self.integrals = []
        for it in form.integrals():
            kind = {"cell": "cell", "exterior_facet": "ext", "interior_facet": "int"}.get(it.integral_type())
            if kind is None:
                raise MiniUnsupported(it.integral_type())
            self.integrals.append((kind, self._degree(it), it.subdomain_id(), it.subdomain_data(),
                                   lower(it.integrand())))

    def _degree(self, it):
        q = it.metadata().get("quadrature_degree")
        if q is not None and q != "default" and not (isinstance(q, int) and q < 0):
            return int(q)
        ks = [s.k for V in self.function_spaces for s in V.scalars]
        for c in ufl.algorithms.extract_coefficients(it.integrand()):
            if isinstance(c, Function):
                ks += [s.k for s in c.function_space.scalars]
        d = self._mesh.topology.dim if self._mesh.cell_name in ("quadrilateral", "hexahedron") else 1
        return 2 * max(ks + [1]) + 3 + 2 * (self._mesh.geometry.degree - 1) + (1 if d > 1 else 0)

    @property
    def mesh(self):
        return self._mesh

    @property
    def dtype(self):
        return PETSc.ScalarType


_domains = {}


def register_mesh(mesh):
    _domains[id(mesh.ufl_domain())] = mesh


def _mesh_of_domain(dom):
    import gc

    from ..mesh import Mesh

    for o in gc.get_objects():
        if isinstance(o, Mesh) and o._ufl_domain is dom:
            return o
    raise RuntimeError("no mesh for the integration domain")


def form(f, dtype=None, form_compiler_options=None, jit_options=None, **kw):
    if isinstance(f, (list, tuple)):
        return [form(g) for g in f]
    if isinstance(f, Form):
        return f
    if f is None:
        return None
    if isinstance(f, ufl.form.ZeroBaseForm) or isinstance(f, (int, float)):
        raise MiniUnsupported("empty form")
    if not isinstance(f, ufl.Form):
        raise TypeError(f"form(): expected a UFL form, got {type(f)}")
    if f.empty():
        raise MiniUnsupported("empty form")
    return Form(f)


def _select(mesh, kind, sid, sdata):
    if kind == "cell":
        ents = np.arange(mesh.num_cells)
    else:
        ext, inner = mesh.facet_data()
        ents = ext if kind == "ext" else inner
    if sid in ("everywhere", "otherwise") or sdata is None and sid == "everywhere":
        return ents
    ids = sid if isinstance(sid, tuple) else (sid,)
    if isinstance(sdata, MeshTags):
        good = np.concatenate([sdata.find(i) for i in ids])
        if kind == "cell":
            return np.intersect1d(ents, good)
        c2f = mesh.topology._entities(mesh.topology.dim - 1)[1]
        fid = c2f[ents[:, 0], ents[:, 1]]
        return ents[np.isin(fid, good)]
    raise MiniUnsupported(f"subdomain {sid!r}")


def _contexts(f):
    """Yield (ctx, value) for every group of integrals, values summed."""
    groups = {}
    for kind, deg, sid, sdata, integrand in f.integrals:
        groups.setdefault((kind, deg, sid if not isinstance(sid, tuple) else tuple(sid), id(sdata)),
                          [sdata, []])[1].append(integrand)
    for (kind, deg, sid, _d), (sdata, ints) in groups.items():
        ents = _select(f.mesh, kind, sid, sdata)
        if len(ents) == 0:
            continue
        ctx = Ctx.on_cells(f.mesh, ents, deg) if kind == "cell" else Ctx.on_facets(f.mesh, kind, ents, deg)
        total = 0.0
        ev = Evaluator(ctx)
        for e in ints:
            total = add(total, ev.scalar(e))
        if is_ml(total):
            want = tuple(range(f.rank))
            for k in total:
                if tuple(x[0] for x in k) != want:
                    raise ArityMismatch("integrand does not depend on all arguments of the form")
        elif f.rank and not (isinstance(total, float) and total == 0.0):
            raise ArityMismatch("integrand does not depend on the arguments of the form")
        yield ctx, total


def assemble_scalar_(f):
    f = form(f)
    if f.rank != 0:
        raise RuntimeError("assemble_scalar: form is not of rank 0")
    out = 0.0
    for ctx, v in _contexts(f):
        out += float((ctx.weights * np.broadcast_to(np.asarray(v, float), ctx.weights.shape)).sum())
    return out


def assemble_vector_array(f):
    f = form(f)
    if f.rank != 1:
        raise RuntimeError("assemble_vector: form is not linear")
    V = f.function_spaces[0]
    b = np.zeros(V.num_dofs)
    for ctx, v in _contexts(f):
        if not is_ml(v):
            continue
        for ((_, c, dirs, side),), coef in v.items():
            s = V.scalars[c]
            t = ctx.tab(s.basis, dirs, side)
            w = ctx.weights * coef
            loc = np.einsum("nq,nqb->nb", w, t)
            np.add.at(b, V.comp_dofs[c][s.cell_dofs[ctx.cells[side]]], loc)
    return b


def assemble_csr(f):
    f = form(f)
    if f.rank != 2:
        raise RuntimeError("assemble_matrix: form is not bilinear")
    V0, V1 = f.function_spaces
    rows, cols, vals = [], [], []
    for ctx, v in _contexts(f):
        if not is_ml(v):
            continue
        blocks = {}
        for ((_, c0, d0, s0), (_, c1, d1, s1)), coef in v.items():
            b0, b1 = V0.scalars[c0].basis, V1.scalars[c1].basis
            if isinstance(coef, float) or np.ndim(coef) == 0:
                m = ctx.unit_matrix(b0, d0, s0, b1, d1, s1) * float(coef)
            elif np.shape(coef)[1] == 1:
                m = ctx.unit_matrix(b0, d0, s0, b1, d1, s1) * np.asarray(coef)[:, :, None]
            else:
                m = ctx.weighted(ctx.weights * coef, b0, d0, s0, b1, d1, s1)
            key = (c0, s0, c1, s1)
            blocks[key] = blocks[key] + m if key in blocks else m
        for (c0, s0, c1, s1), m in blocks.items():
            i = V0.comp_dofs[c0][V0.scalars[c0].cell_dofs[ctx.cells[s0]]]
            j = V1.comp_dofs[c1][V1.scalars[c1].cell_dofs[ctx.cells[s1]]]
            rows.append(np.broadcast_to(i[:, :, None], m.shape).ravel())
            cols.append(np.broadcast_to(j[:, None, :], m.shape).ravel())
            vals.append(m.ravel())
    shape = (V0.num_dofs, V1.num_dofs)
    if V0.num_dofs == V1.num_dofs:  # DOLFINx always stores the diagonal
        rows.append(np.arange(shape[0]))
        cols.append(np.arange(shape[0]))
        vals.append(np.zeros(shape[0]))
    m = sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=shape)
    m = m.tocsr()
    m.sort_indices()
    return m, f
