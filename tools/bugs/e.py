import runpy, os
_d = os.path.dirname(os.path.abspath(__file__))
_a, _l = runpy.run_path(os.path.join(_d, 'a.py')), runpy.run_path(os.path.join(_d, 'd.py'))
MESH, SNAP = _a['MESH'], _a['SNAP']
EDITS = {b['id']: (b['property'], b['edits']) for b in _l['BUGS']}
BUGS = []


def bug(id, needs, breaks, demo, prop=None, edits=None):
    p, e = EDITS.get(id, (prop, edits))
    BUGS.append(dict(id=id, property=prop or p, edits=edits or e, needs=needs, breaks=breaks, demo=demo))


LAYERS = SNAP + '''

def layers(n=(3, 3, 4), perm=None, **fields):
    mesh = Cube(*n).export_mesh()
    con = mesh._cell2node["hexa8"]
    N = len(con)
    perm = np.arange(N) if perm is None else perm
    g = pv.UnstructuredGrid({pv.CellType.HEXAHEDRON: con[perm]}, mesh.nodescoord(ndarray=True))
    for k, v in fields.items():
        g.cell_data[k] = np.asarray(v)[perm]
    return vtk.vtkMesh(pvmesh=g)


def columns(m, name):
    """values of a sliced mesh in the order of x, y"""
    c = m._grid.cell_centers().points
    return np.asarray(m._grid.cell_data[name])[np.lexsort((c[:, 1].round(6), c[:, 0].round(6)))]


def by_column(m, v):
    c = m._grid.cell_centers().points.round(6)
    o = np.lexsort((c[:, 2], c[:, 1], c[:, 0]))
    n = len(set(c[:, 2]))
    return np.asarray(v)[o].reshape(-1, n)
'''
# ---------------------------------------------------------------- C16
bug('c16-leak', 'a selection of several fields with different options, one after the other',
    'the options of one field are also those of the next ones: its average is missing, others are added', LAYERS + '''
m = layers(A=np.arange(36.), B=np.arange(36.) * 2)
r = m.vtk_zconvolution(select={"A": ["no_avg", "rms"], "B": "avg"})
got = sorted(r._grid.cell_data.keys())
if "B_avg" not in got or "B_rms" in got or "A_avg" in got:
    bad(got)
''')
bug('c16-rms', 'a field whose mean is large compared with its deviations',
    'the RMS is the rounding error of the difference of two squares', LAYERS + '''
v = 1e9 + np.random.default_rng(1).random(36)
m = layers(A=v)
r = m.vtk_zconvolution(rms=True)
want = np.sort(by_column(m, m._grid.cell_data["A"]).std(axis=1))
got = np.sort(r._grid.cell_data["A_rms"])
if not np.allclose(got, want, rtol=1e-3):
    bad((got, want))
''')
bug('c16-inverse', 'cells numbered in a different order in different planes, by a permutation which is not its own inverse',
    'values of other columns are averaged together', LAYERS + '''
p = np.arange(36)
p[9:18] = 9 + np.roll(np.arange(9), 1)
p[18:27] = 18 + np.roll(np.arange(9), 4)
v = np.arange(36.) ** 2
m = layers(perm=p, A=v)
try:
    r = m.vtk_zconvolution()
except ValueError:
    bad("refused")
want = by_column(m, m._grid.cell_data["A"]).mean(axis=1)
if not np.allclose(columns(r, "A_avg"), want):
    bad((columns(r, "A_avg"), want))
''')
bug('c16-celltype', 'a mesh of prisms and hexahedra, whose first cells are not those of the first plane',
    'cells of the averaged mesh have the types of other cells', LAYERS + '''
import itertools
H, W = pv.CellType.HEXAHEDRON, pv.CellType.WEDGE
SHAPES = [([(0, 0), (1, 0), (1, 1), (0, 1)], H), ([(1, 0), (2, 0), (1, 1)], W)]
for order in itertools.permutations(range(4)):
    pts, cells, types = [], [], []
    for k in order:
        xy, t = SHAPES[k % 2]
        z = float(k // 2)
        n = len(pts)
        pts.extend([(x, y, z) for x, y in xy] + [(x, y, z + 1.) for x, y in xy])
        cells.extend([2 * len(xy)] + list(range(n, n + 2 * len(xy))))
        types.append(t)
    g = pv.UnstructuredGrid(np.array(cells), np.array(types), np.array(pts))
    g.cell_data["A"] = np.arange(4.)
    r = vtk.vtkMesh(pvmesh=g).vtk_zconvolution()._grid
    conn = {int(t): [] for t in r.celltypes}
    for c, t in enumerate(r.celltypes):
        n = int(r.offset[c + 1] - r.offset[c])
        if n != (8 if t == H else 6):
            bad((order, list(r.celltypes), c, n))
''')
# ---------------------------------------------------------------- C04
bug('c04-first', 'snapshots which hold different fields',
    'fields of the later files are missing from the pack', SNAP + '''
p = np.arange(18)
snap("a.vtu", p)
snap("b.vtu", p, fields=("P", "T"))
l = vtk.vtkList(["a.vtu", "b.vtu"])
try:
    l.read()
    l.dumphdf("o.h5")
except Exception:
    sys.exit(0)
found = []
with h5py.File("o.h5") as f:
    f.visit(lambda n: found.append(n.split("/")[-1]))
if "T" not in found:
    bad(found)
''')
bug('c04-sticky', 'a snapshot without a time after one which has a time',
    'the pack gives it the time of the previous file', SNAP + '''
p = np.arange(18)
snap("a.vtu", p, time=2.5)
snap("b.vtu", p)
l = vtk.vtkList(["a.vtu", "b.vtu"])
l.read()
l.dumphdf("o.h5")
times = []
with h5py.File("o.h5") as f:
    f.visititems(lambda n, o: times.extend([n] * ("time" in o.attrs or n.endswith("/time"))))
if len(times) != 1:
    bad(times)
''')
bug('c04-six', 'a pack of more than a thousand snapshots',
    'snapshots 1000 and later overwrite (or are refused by) the first ones', SNAP + '''
dl = data.DataSetList(1200)
for k in range(1200):
    dl.add_datalist({"P": np.full(3, float(k))}, time=k * 1.)
import cfdtools.hdf5 as hdf5
mesh = Cube(1, 1, 3).export_mesh()
dl.set_mesh(mesh)
with h5py.File("o.h5", "w") as f:
    pass
try:
    dl.dumphdfgroup(h5py.File("o.h5", "w").create_group("g"))
except AttributeError:
    dl._dumphdfgroup(h5py.File("o.h5", "w").create_group("g"))
with h5py.File("o.h5") as f:
    n = set()
    f.visititems(lambda k, o: n.add(o[()].flat[0]) if k.endswith("/P") else None)
    if len(n) != 1200:
        bad(len(n))
''')
# ---------------------------------------------------------------- C05
GMSH = MESH + '''
import cfdtools.gmsh as gmsh
'''
bug('c05-fluid', 'a boundary patch whose name begins like that of the volume ("fluid_in")',
    'the patch is taken for the volume and is missing from the mesh', GMSH + '''
HEAD = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n"
names = [(1, 1, "fluid_in"), (1, 2, "wall"), (2, 3, "fluid")]
text = HEAD + "$PhysicalNames\\n3\\n" + "".join(f'{d} {t} "{n}"\\n' for d, t, n in names) + "$EndPhysicalNames\\n"
text += "$Nodes\\n4\\n1 0 0 0\\n2 1 0 0\\n3 1 1 0\\n4 0 1 0\\n$EndNodes\\n"
text += "$Elements\\n5\\n1 1 2 1 1 4 1\\n2 1 2 2 2 1 2\\n3 1 2 2 2 2 3\\n4 1 2 2 2 3 4\\n5 3 2 3 5 1 2 3 4\\n$EndElements\\n"
open("a.msh", "w").write(text)
r = api._fileformat_map["GMSH"]["reader"]("a.msh")
r.read_data()
m = r.export_mesh()
got = {n: sorted(b.index.list()) for n, b in m._bocos.items()}
if got != {"fluid_in": [0, 3], "wall": [0, 1, 2, 3]}:
    bad(got)
''')
bug('c05-extrude', 'a mesh extruded in more than 32 layers',
    'the patches lack the nodes of the layers above', GMSH + '''
import cfdtools.meshbase.simple as simple
m = Cube(2, 2, 1).export_mesh()
HEAD = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n"
names = [(1, 1, "left"), (1, 2, "wall"), (2, 3, "fluid")]
text = HEAD + "$PhysicalNames\\n3\\n" + "".join(f'{d} {t} "{n}"\\n' for d, t, n in names) + "$EndPhysicalNames\\n"
text += "$Nodes\\n4\\n1 0 0 0\\n2 1 0 0\\n3 1 1 0\\n4 0 1 0\\n$EndNodes\\n"
text += "$Elements\\n5\\n1 1 2 1 1 4 1\\n2 1 2 2 2 1 2\\n3 1 2 2 2 2 3\\n4 1 2 2 2 3 4\\n5 3 2 3 5 1 2 3 4\\n$EndElements\\n"
open("a.msh", "w").write(text)
for n in (3, 40):
    r = api._fileformat_map["GMSH"]["reader"]("a.msh")
    r.read_data()
    m = r.export_mesh().export_extruded(extrude=range(n + 1)) if False else r.export_mesh()
    m = m.export_extruded(extrude=[k * 0.1 for k in range(n + 1)]) if hasattr(m, "export_extruded") else m.extrude([k * 0.1 for k in range(n + 1)])
    x = m.nodescoord(ndarray=True)
    got = set(m._bocos["left"].index.list())
    want = set(np.where(x[:, 0] < 1e-9)[0].tolist())
    if got != want:
        bad((n, len(got), len(want)))
''')
# ---------------------------------------------------------------- C02
bug('c02-avgend', 'a statistics field whose name goes on after _AVG (P_AVG_OLD, RHOU_REY_1)',
    'the field is not in the file', MESH + '''
mesh = Cube(2, 2, 2).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("RHO", np.arange(8.))
d.add_data("RHOU", np.arange(24.).reshape(8, 3))
d.add_data("RHOE", np.arange(8.) + 1)
d.add_data("P_AVG", np.arange(8.) + 2)
d.add_data("P_AVG_OLD", np.arange(8.) + 3)
mesh.set_celldata(d)
writerV4.writer(mesh).write_data("a.h5", "s.h5")
import h5py, glob
found = []
for f in glob.glob("*.h5"):
    with h5py.File(f) as h:
        h.visit(lambda n: found.append(n.split("/")[-1]))
if "p_avg_old" not in found:
    bad(found)
''')
# ---------------------------------------------------------------- C09, C10, C18
bug('c09-append', 'a list of snapshots whose reading failed, then read again by the same object',
    'the snapshots read before the failure are twice in the pack', SNAP + '''
p = np.arange(18)
snap("a.vtu", p)
snap("b.vtu", p)
l = vtk.vtkList(["a.vtu", "b.vtu"])
os.rename("b.vtu", "x.vtu")
try:
    l.read()
    bad("read without its file")
except Exception:
    pass
os.rename("x.vtu", "b.vtu")
l.read()
l.dumphdf("o.h5")
n = []
with h5py.File("o.h5") as f:
    f.visit(lambda k: n.append(k) if k.endswith("/P") else None)
if len(n) != 2:
    bad(n)
''')
bug('c10-inplace', 'one reader exporting twice, the first mesh being scaled (not by one)',
    'the second mesh has the scaled coordinates', MESH + '''
writerV3.writer(Cube(2, 2, 2).export_mesh()).write_data("a.ic3")
r = reader_legacy.reader("a.ic3")
r.read_data()
m = r.export_mesh()
x = np.array(m.nodescoord(ndarray=True))
m.scale([2., 3., 4.])
y = np.array(r.export_mesh().nodescoord(ndarray=True))
if not np.array_equal(x, y):
    bad((x[-1], y[-1]))
''')
bug('c18-size', 'a patch whose nodes are not numbered one after the other',
    'the inspection reports another number of nodes for it', MESH + '''
i = conn.indexlist(ilist=[3, 9, 4])
if str(i).split("=")[-1].strip() != "3:9:3":
    bad(str(i))
''')
