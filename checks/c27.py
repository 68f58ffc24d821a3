"""exported VTK fields"""
import os
import random
import numpy as np
from .meshes import geometry

INFO = dict(
    bounds="arbitrary real solution values; 1..4 rows, 1..3 columns (thorough: 8 rows, 5 columns); listed base files, names and file states; also 300 rows and 12 rows x 5 columns with one choice of names and files",
    assumptions=["files are written through open(), pathlib, np.savetxt or text formatting of the values",
                 "a value counts as kept when at least 7 significant digits are written (single precision)",
                 "base files end their lines with a newline and contain a point-data header"],
    jobs=4, concrete=6)

HEAD = ["# vtk DataFile Version 5.1\n", "written by meshio\n", "ASCII\n", "DATASET UNSTRUCTURED_GRID\n", "POINTS 2 double\n", "0.0 0.0 0.0\n", "1.0 0.0 0.0\n"]
NAMES = [["u"], ["Sol", "Exact"], ["b", "a", "c"], ["Sol", "Exact", "Error", "x1", "x2"]]
OLD = {"none": [], "fields": ["FIELD FieldData 1\n", "old 1 2 double\n", "7.0\n", "8.0\n", "METADATA\n", "\n"],
       "scalars": ["SCALARS old float\n", "LOOKUP_TABLE default\n", "9.5\n", "9.25\n"]}


def configs(tier):
    out = [dict(kind=k, rows=r, cols=c) for k in ("internal", "external") for r, c in ((1, 1), (2, 2), (4, 3), (3, 1))]
    out += [dict(kind=k, rows=2, cols=-1) for k in ("internal", "external")]
    out += [dict(kind=k, rows=r, cols=c, big=True) for k, r, c in (("internal", 300, 2), ("external", 12, 5))]
    if tier == "thorough":
        out += [dict(kind=k, rows=r, cols=c) for k in ("internal", "external") for r, c in ((8, 5), (1, 5), (8, 1), (6, 2))]
    return out


def sampler(r):
    return [r.choice([-1, 1]) * 10 ** r.uniform(-7, 4) for _ in range(1000)]


def body(h, kind, rows, cols, big=False):
    h.writable()
    if big:
        # the choices are those of the small sizes
        return check(h, kind, rows, cols, lambda n, o: o[-1])
    check(h, kind, rows, cols, h.choose)


def check(h, kind, rows, cols, choose):
    root = h.tmp()
    mesh, out = os.path.join(root, "mesh"), os.path.join(root, "out")
    same = choose("same-folder", [False, True])
    for d in (mesh, out):
        os.makedirs(d, exist_ok=True)
    if same:
        out = mesh
    cell_data = choose("cell-data", [[], ["CELL_DATA 1\n", "SCALARS k int\n", "LOOKUP_TABLE default\n", "3\n"]])
    old = OLD[choose("old-fields", list(OLD))]
    keep = HEAD + cell_data + ["POINT_DATA %d\n" % rows]
    with open(os.path.join(mesh, kind + ".vtk"), "w") as fh:
        fh.write("".join(keep + old))
    other = "internal" if kind == "external" else "external"
    with open(os.path.join(mesh, other + ".vtk"), "w") as fh:
        fh.write("another mesh\nPOINT_DATA 99\n")
    name = choose("name", ["prediction.vtk", "a b.vtk"])
    path = os.path.join(out, name)
    before = choose("earlier-output", [None, "earlier content\n"])
    if os.path.exists(path):
        os.remove(path)
    if before is not None:
        with open(path, "w") as fh:
            fh.write(before)
    G = h.module("Geometry.geometry_2d").Geometry_2D("quadrilateral", kind, 3, 3, mesh)
    if cols < 0:
        n, m = choose("counts", [(1, 2), (2, 1), (3, 1), (2, 3), (1, 0)])
        X = h.reals("s", (rows, n))
        h.raises("mismatch", ValueError, lambda: G.write_vtk(X, out, name, NAMES[3][:m]))
        now = open(path).read() if os.path.exists(path) else None
        h.true("no-output", now == before, "the output file was touched before the error")
        return
    X = h.reals("s", (rows, cols), -10000, 10000, sampler=lambda r: sampler(r)[:rows * cols])
    names = choose("names", [n[:cols] for n in NAMES if len(n) >= cols])
    if cols > 1 and choose("reversed", [False, True]):
        names = names[::-1]
    G.write_vtk(X, out, name, list(names))
    text = open(path).read()
    want = "".join(keep)
    h.true("header", text.startswith(want), "the base file's content is not kept up to its point-data header")
    toks = text[len(want):].split()
    got = [[None] * cols for _ in range(rows)]
    for j, nm in enumerate(names):
        h.true("field-name", len(toks) > 5 and toks[0] == "SCALARS" and toks[1] == nm, "column %d is not announced as %s" % (j, nm))
        h.true("field-type", toks[2] in ("float", "double"), "type %s" % toks[2])
        toks = toks[4 if toks[3] == "1" and toks[4] == "LOOKUP_TABLE" else 3:]
        h.true("lookup-table", toks[:2] == ["LOOKUP_TABLE", "default"], "no lookup table for %s" % nm)
        toks = toks[2:]
        h.true("row-count", len(toks) >= rows and not any(t == "SCALARS" for t in toks[:rows]), "fewer than %d values for %s" % (rows, nm))
        for i in range(rows):
            got[i][j] = h.parsed(toks[i], 7)
        toks = toks[rows:]
    h.true("nothing-else", not toks, "unexpected content after the last field: %r" % toks[:3])
    for i in range(rows):
        for j in range(cols):
            h.eq("value", h.array([got[i][j]])[0], X[i, j], tol=None if h.symbolic else 1e-6 * abs(float(X[i, j])))
