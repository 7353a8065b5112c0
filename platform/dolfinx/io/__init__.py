"""XDMF input/output (HDF5 via h5py)."""
import os
import xml.etree.ElementTree as ET

import numpy as np
import ufl

from ..errors import MiniUnsupported, make_getattr
from ..mesh import MeshTags, create_mesh
from . import gmshio  # noqa: F401

TOPO = {
    "polyline": ("interval", 2), "triangle": ("triangle", 3), "tetrahedron": ("tetrahedron", 4),
    "quadrilateral": ("quadrilateral", 4), "hexahedron": ("hexahedron", 8), "polyvertex": ("point", 1),
}
NAMES = {"interval": "Polyline", "triangle": "Triangle", "tetrahedron": "Tetrahedron",
         "quadrilateral": "Quadrilateral", "hexahedron": "Hexahedron"}
VTK = {"quadrilateral": [0, 1, 3, 2], "hexahedron": [0, 1, 3, 2, 4, 5, 7, 6]}


class XDMFFile:
    class Encoding:
        HDF5 = 0
        ASCII = 1

    def __init__(self, comm, filename, mode, encoding=None):
        self.comm, self.filename, self.mode = comm, str(filename), mode
        self.closed = False
        if mode == "r":
            if not os.path.exists(self.filename):
                msg = f"Failed to load XDMF file: {self.filename}"
                raise RuntimeError(msg)
            self._root = ET.parse(self.filename).getroot()
        elif mode == "w":
            self._root = ET.Element("Xdmf", Version="3.0")
            self._dom = ET.SubElement(self._root, "Domain")
            self._grid = None
            import h5py

            self._h5name = os.path.splitext(self.filename)[0] + ".h5"
            self._h5 = h5py.File(self._h5name, "w")
        else:
            raise MiniUnsupported(f"XDMF mode {mode}")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.mode == "w":
            self._h5.close()
            ET.ElementTree(self._root).write(self.filename)

    # ------------------------------------------------------------------ reading
    def _data(self, item):
        dims = [int(s) for s in item.get("Dimensions").split()]
        fmt = item.get("Format", "XML")
        if fmt == "HDF":
            import h5py

            name, path = item.text.strip().split(":")
            with h5py.File(os.path.join(os.path.dirname(self.filename), name), "r") as f:
                return np.array(f[path]).reshape(dims)
        return np.array(item.text.split(), dtype=float).reshape(dims)

    def _find_grid(self, name):
        for g in self._root.iter("Grid"):
            if g.get("Name") == name:
                return g
        msg = f"<Grid> with name '{name}' not found."
        raise RuntimeError(msg)

    def _topology(self, g):
        t = g.find("Topology")
        ttype = (t.get("TopologyType") or t.get("Type")).lower()
        if ttype not in TOPO:
            raise MiniUnsupported(f"XDMF topology {ttype}")
        cell, n = TOPO[ttype]
        c = self._data(t.find("DataItem")).astype(np.int64).reshape(-1, n)
        if cell in VTK:
            c = c[:, VTK[cell]]
        return cell, c

    def read_mesh(self, name="mesh", xpath="/Xdmf/Domain", ghost_mode=None):
        g = self._find_grid(name)
        cell, c = self._topology(g)
        x = self._data(g.find("Geometry").find("DataItem")).astype(float)
        gdim = x.shape[1]
        dom = ufl.Mesh(ufl.VectorElement("Lagrange", ufl.Cell(cell, geometric_dimension=gdim), 1, dim=gdim))
        mesh = create_mesh(self.comm, c, x, dom)
        mesh.name = name
        return mesh

    def read_meshtags(self, mesh, name="mesh", xpath="/Xdmf/Domain"):
        g = self._find_grid(name)
        cell, c = self._topology(g)
        att = g.find("Attribute")
        if att is None:
            msg = "No <Attribute> in <Grid>."
            raise RuntimeError(msg)
        vals = self._data(att.find("DataItem")).ravel().astype(np.int32)
        dim = {"point": 0, "interval": 1, "triangle": 2, "quadrilateral": 2}.get(cell, 3)
        if dim not in mesh.topology._created:
            msg = f"Mesh entities of dimension {dim} have not been created."
            raise RuntimeError(msg)
        ev = mesh.topology._entities(dim)[0]
        orig = mesh._orig_vertex
        look = {tuple(sorted(orig[v])): i for i, v in enumerate(ev)}
        ids, out = [], []
        for v, t in zip(c, vals):
            i = look.get(tuple(sorted(v)))
            if i is not None:
                ids.append(i)
                out.append(t)
        o = np.argsort(ids)
        return MeshTags(mesh, dim, np.array(ids, dtype=int)[o], np.array(out, dtype=np.int32)[o], name)

    # ------------------------------------------------------------------ writing
    def _item(self, parent, arr, path):
        self._h5.create_dataset(path, data=arr)
        it = ET.SubElement(parent, "DataItem", Dimensions=" ".join(map(str, arr.shape)), Format="HDF")
        it.text = f"{os.path.basename(self._h5name)}:{path}"

    def write_mesh(self, mesh, xpath="/Xdmf/Domain"):
        if self.mode != "w":
            raise RuntimeError("file is not open for writing")
        g = ET.SubElement(self._dom, "Grid", Name=mesh.name, GridType="Uniform")
        c = mesh.topology._cells
        if mesh.cell_name in VTK:
            c = c[:, VTK[mesh.cell_name]]
        t = ET.SubElement(g, "Topology", TopologyType=NAMES[mesh.cell_name],
                          NumberOfElements=str(len(c)), NodesPerElement=str(c.shape[1]))
        self._item(t, c, f"/Mesh/{mesh.name}/topology")
        geo = ET.SubElement(g, "Geometry", GeometryType="XYZ" if mesh.geometry.dim == 3 else "XY")
        self._item(geo, mesh._vert_x[:, : max(2, mesh.geometry.dim)], f"/Mesh/{mesh.name}/geometry")
        self._grid, self._mesh = g, mesh

    def write_function(self, u, t=0.0, mesh_xpath=None):
        if self.mode != "w":
            raise RuntimeError("file is not open for writing")
        if self._grid is None:
            raise RuntimeError("Could not find mesh: call write_mesh first")
        V = u.function_space
        if V.mesh is not self._mesh:
            raise RuntimeError("function and written mesh differ")
        if len(V.scalars) != 1:
            raise MiniUnsupported("write_function of a vector function")
        s = V.scalars[0]
        if s.family == "DG" and s.k == 0:
            vals, center = u.x.array[s.cell_dofs[:, 0]], "Cell"
        else:
            from ..mesh import REF_VERTS

            rv = REF_VERTS[self._mesh.cell_name]
            tab = s.basis.tab(rv, (0,) * rv.shape[1])
            loc = u.x.array[s.cell_dofs] @ tab.T
            vals = np.zeros(len(self._mesh._vert_x))
            vals[self._mesh.topology._cells.ravel()] = loc.ravel()
            center = "Node"
        a = ET.SubElement(self._grid, "Attribute", Name=u.name, AttributeType="Scalar", Center=center)
        self._item(a, vals[:, None], f"/Function/{u.name}/{t}".replace(" ", "_"))

    def write_meshtags(self, *a, **k):
        raise MiniUnsupported("write_meshtags")


__getattr__ = make_getattr(__name__)
