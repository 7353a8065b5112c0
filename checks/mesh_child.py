"""Call a sequence of mesh generators in a process of its own and write down what they return.

python -m checks.mesh_child SPEC.json OUT : SPEC = {"calls": [[name, kwargs], ...], "clean": bool}
Arrays <call>|<mesh>|{x,dofs,v} go to OUT.npz, events to OUT.json; the oracle is in checks/meshes.py.
"""
import builtins
import json
import os
import sys
import traceback

import numpy as np

from checks.child_util import unsupported

SPEC, OUT = json.load(open(sys.argv[1])), sys.argv[2]
events, arrays = {"calls": []}, {}


def main():
    events["stage"] = "import"
    import gmsh

    import dxss.meshes as M

    calls = SPEC["calls"]
    if SPEC.get("sweep"):  # the call, then failing in each of its parts, then the call again
        name, kw = calls[0]
        with Fuse(M, None, None) as fuse:
            try:
                getattr(M, name)(**kw)
            finally:
                if gmsh.isInitialized():
                    gmsh.finalize()
        kinds, often = SPEC["sweep"]
        calls, n = [], 0
        for what in fuse.seen:
            for _ in range(len(kinds) if what in often else 2):
                calls.append([name, kw, [what, kinds[n % len(kinds)]]])
                n += 1
        calls.append([name, kw])
    for i, (name, kw, *fail) in enumerate(calls):
        events["stage"] = f"{name}({kw})"
        ev = {"name": name, "kw": kw}
        events["calls"].append(ev)
        fuse = Fuse(M, *fail[0]) if fail and fail[0] else None
        try:
            if fuse:
                with fuse:
                    r = getattr(M, name)(**kw)
            else:
                r = getattr(M, name)(**kw)
        except BaseException as e:  # noqa: BLE001
            if not isinstance(e, Exception) and not (fuse and fuse.blown):
                raise
            while fuse and e is not fuse.blown and (e.__cause__ or e.__context__):
                e = e.__cause__ or e.__context__
            ev["injected"] = bool(fuse) and e is fuse.blown
            ev["error"] = f"{type(e).__name__}: {str(e)[:300]}"
            ev["unsupported"] = unsupported(e)
            ev["where"] = " <- ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
            r = None
        if fuse:
            ev["failed at"] = str(fuse.blown) if fuse.blown else None
        ev["session open"] = bool(gmsh.isInitialized())
        if (SPEC.get("clean") or SPEC.get("sweep")) and ev["session open"]:
            gmsh.finalize()
        if r is None and "error" in ev:
            continue
        ev["list"] = isinstance(r, (list, tuple))
        ms = list(r) if ev["list"] else [r]
        ev["meshes"] = len(ms)
        ev["gdim"] = [m.geometry.dim for m in ms]
        ev["degree"] = [m.geometry.degree for m in ms]
        for j, m in enumerate(ms):
            arrays[f"{i}|{j}|x"] = np.array(m.geometry.x)
            arrays[f"{i}|{j}|dofs"] = np.array(m.geometry._dofmap)
            arrays[f"{i}|{j}|v"] = np.array(m._vert_x)[np.array(m.topology._cells)]
        if SPEC.get("files"):
            for f in ("mesh.xdmf", "mt.xdmf", "mesh.msh", "mesh.msh:line"):
                try:
                    for k, a in (grid if f.endswith("xdmf") else model)(f).items():
                        arrays[f"{i}|{f}|{k}"] = a
                except Exception as e:  # noqa: BLE001
                    ev[f"no {f}"] = f"{type(e).__name__}: {str(e)[:200]}"
        if SPEC.get("use"):
            use(ms)
            ev["used"] = True
        if SPEC.get("spoil"):  # what the user does with the meshes is the user's business
            if i % 4:
                for m in ms:
                    m.geometry.x[:] = 2.0 * m.geometry.x + 0.125
            if isinstance(r, list) and i % 6 == 5:
                r.clear()
    events["stage"] = "done"


class Fuse:
    """Lets the n-th call of the mesh generator, or of the functions which read and refine meshes, fail."""

    def __init__(self, M, at, kind):
        self.M, self.at, self.kind = M, at, kind
        self.calls, self.blown, self.patches, self.seen = 0, None, [], []

    def wrap(self, where, fun):
        def wrapped(*a, **kw):
            self.calls += 1
            if where.split(".")[-1] not in self.seen:
                self.seen.append(where.split(".")[-1])
            n, what = self.calls, "step"
            if isinstance(self.at, str):
                n, what = self.at, where.split(".")[-1]
            if self.blown is None and (n == self.at if what == "step" else what == self.at):
                kind = getattr(builtins, self.kind)
                self.blown = kind(f"injected {self.kind} in call {self.calls}, {where}")
                raise self.blown
            return fun(*a, **kw)

        return wrapped

    def __enter__(self):
        import gmsh
        import meshio
        from dolfinx.io import XDMFFile, gmshio

        import dolfinx.mesh

        spots = [(gmsh, n) for n in ("write", "merge", "clear")]
        for part in (gmsh.model, gmsh.model.occ, gmsh.model.geo, gmsh.model.mesh, gmsh.option):
            spots += [(part, n) for n in vars(part) if isinstance(vars(part)[n], staticmethod)]
        spots += [(meshio, "read"), (meshio, "write"), (XDMFFile, "read_mesh")]
        spots += [(gmshio, n) for n in ("extract_geometry", "extract_topology_and_markers", "distribute_entity_data", "ufl_mesh", "cell_perm_array") if hasattr(gmshio, n)]
        for n in ("create_mesh", "refine", "locate_entities", "compute_incident_entities"):
            spots += [(m, n) for m in (dolfinx.mesh, self.M) if hasattr(m, n)]
        for owner, n in spots:
            if not hasattr(owner, n):
                continue
            raw = vars(owner)[n]
            w = self.wrap(f"{getattr(owner, '__name__', owner)}.{n}", raw.__func__ if isinstance(raw, staticmethod) else raw)
            self.patches.append((owner, n, raw))
            setattr(owner, n, staticmethod(w) if isinstance(raw, staticmethod) else w)
        return self

    def __exit__(self, *exc):
        for owner, n, raw in self.patches:
            setattr(owner, n, raw)


def grid(name):
    """Points, cells and cell values of the first grid of an XDMF file."""
    import xml.etree.ElementTree as ET

    def data(item):
        dims = [int(s) for s in item.get("Dimensions").split()]
        fmt = item.get("Format", "XML").upper()
        if fmt == "HDF":
            import h5py

            file, path = item.text.strip().split(":")
            with h5py.File(os.path.join(os.path.dirname(os.path.abspath(name)), file), "r") as f:
                return np.array(f[path]).reshape(dims)
        if fmt != "XML":
            raise NotImplementedError(f"platform: XDMF data format {fmt}")
        return np.array(item.text.split(), dtype=float).reshape(dims)

    g = next(ET.parse(name).getroot().iter("Grid"))
    t = g.find("Topology")
    kind = (t.get("TopologyType") or t.get("Type")).lower()
    n = {"triangle": 3, "polyline": 2}[kind]
    out = {"points": data(g.find("Geometry").find("DataItem")).astype(float),
           "cells": data(t.find("DataItem")).astype(np.int64).reshape(-1, n)}
    a = g.find("Attribute")
    if a is not None:
        out["values"] = data(a.find("DataItem")).ravel()
    return out


def model(name):
    """Points, cells and physical groups of a file of the mesh generator."""
    import meshio

    name, _, kind = name.partition(":")
    m = meshio.read(name)
    kind = kind or "triangle"
    if not len(m.get_cells_type(kind)):
        return {"points": m.points, "cells": np.zeros((0, 3 if kind == "triangle" else 2), int), "values": np.zeros(0)}
    return {"points": m.points, "cells": m.get_cells_type(kind), "values": m.get_cell_data("gmsh:physical", kind)}


def use(ms):
    """The meshes can carry functions and forms (what the solver does with them)."""
    import ufl
    from dolfinx import fem

    for m in ms[:1]:
        if m.geometry.degree > 2:  # our stand-in has no functions on these
            continue
        V = fem.FunctionSpace(m, ("CG", 1))
        f = fem.Function(V)
        f.interpolate(lambda x: x[0])
        fem.assemble_scalar(fem.form(f * ufl.dx(domain=m)))


try:
    main()
except BaseException as e:  # noqa: BLE001
    events["error"] = f"{type(e).__name__}: {str(e)[:300]}"
    events["unsupported"] = unsupported(e)
    events["where"] = " <- ".join(
        f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
np.savez(OUT + ".npz", **arrays)
json.dump(events, open(OUT + ".json", "w"))
os._exit(0)
