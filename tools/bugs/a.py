BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


MESH = '''
import sys, io, os, errno, contextlib
import numpy as np
import cfdtools.api as api
import cfdtools._cli as cli
import cfdtools.ic3 as ic3
from cfdtools.ic3 import writerV2, writerV3, writerV4, reader_legacy, readerV4
from cfdtools.meshbase.simple import Cube
from cfdtools.meshbase._mesh import Mesh, submeshmark
import cfdtools.meshbase._connectivity as conn
import cfdtools.data as data


def bad(msg):
    print("BROKEN:", msg)
    sys.exit(1)
'''

# ---------------------------------------------------------------- C01
bug('c01-logonly', 'C01', [('ic3/_ic3.py',
'''    try:
        bfile.write(packed_ba)
    except IOError:
        api.error_stop("Fatal error. Could not write to {bfile.name!r}. Exiting.")
''',
'''    try:
        bfile.write(packed_ba)
    except IOError as error:
        # a lasting problem is reported again when the file is closed
        log.error(f"Could not write to {bfile.name!r}: {error}")
''')],
    'one write refused once (quota raised meanwhile, transient EIO), later writes and close accepted',
    'the refused section is missing from a file whose write returned normally',
    MESH + '''
import builtins


class Once(io.FileIO):
    """storage which refuses one write"""
    n = 0

    def write(self, b):
        Once.n += 1
        if Once.n == 3:
            raise OSError(errno.ENOSPC, "no space left on device")
        return super().write(b)


real = builtins.open


def fake(name, mode="r", *a, **k):
    if "w" in mode and "b" in mode:
        return io.BufferedWriter(Once(name, "w"))
    return real(name, mode, *a, **k)


mesh = Cube(12, 12, 12).export_mesh()
w = writerV2.writer(mesh)
builtins.open = fake
try:
    w.write_data("a.ic3")
except Exception as e:
    print("refused as it must:", e)
    sys.exit(0)
finally:
    builtins.open = real
w2 = writerV2.writer(Cube(12, 12, 12).export_mesh())
w2.write_data("b.ic3")
if real("a.ic3", "rb").read() != real("b.ic3", "rb").read():
    bad("the write returned but the file is not complete")
''')

bug('c01-cvpart', 'C01', [('ic3/writerV2.py',
'''        BinaryWrite(
            self.fid,
            self.endian,
            "i" * ncell,
            self.params['partition'].get('icvpart', np.zeros((ncell,), dtype=np.int32)),
        )
''',
'''        icvpart = self.params['partition'].get('icvpart', np.zeros((ncell,), dtype=np.int32))
        self.fid.write(np.asarray(icvpart, dtype=np.int32).tobytes())
''')],
    'big-endian output of a mesh which has a partition (several processors)',
    'the partition numbers are written in native byte order whatever the byte order of the file',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
mesh.set_partition({"npart": 3, "icvpart": np.arange(12, dtype=np.int32) % 3})
w = writerV2.writer(mesh, endian="big")
w.write_data("a.ic3")
r = reader_legacy.reader("a.ic3")
r.read_data()
if r.mesh["partition"]["icvpart"].tolist() != (np.arange(12) % 3).tolist():
    bad("partition not preserved " + str(r.mesh["partition"]["icvpart"]))
''')

bug('c01-perio', 'C01', [('ic3/writerV2.py',
'''                    for idx, val in enumerate(boco.properties["periodic_transform"]):
                        header.rdata[idx] = val
''',
'''                    for idx, val in enumerate(boco.properties["periodic_transform"][:3]):
                        header.rdata[idx] = val
''')],
    'a cylindrical periodic patch, whose transform uses more than the first three values',
    'the end of the periodic transform is lost',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
b = mesh._bocos["imin"]
b.type = "perio_cylx"
b.properties["periodic_transform"] = np.arange(16) * 0.5
writerV3.writer(mesh).write_data("a.ic3")
r = reader_legacy.reader("a.ic3")
r.read_data()
t = [x for x in r.mesh["bocos"] if x.name == "imin"][0].properties["periodic_transform"]
if list(t) != list(np.arange(16) * 0.5):
    bad("transform " + str(t))
''')

# ---------------------------------------------------------------- C02
bug('c02-kinds', 'C02', [('ic3/writerV4.py',
'''        min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))
''',
'''        min_range, labels = zip(*sorted(zip(min_range, labels), key=lambda x: x[0]))
''')],
    'patches of different kinds held by the mesh in another order than their faces',
    'patches get the kind of another one',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
w = writerV4.writer(mesh)
mesh._bocos["jmin"].type = "perio_cart"
mesh._bocos["jmin"].properties["periodic_transform"] = np.arange(3.)
mesh._bocos = dict(reversed(list(mesh._bocos.items())))
writerV4.writer(mesh).write_data("a.h5")
r = readerV4.reader("a.h5")
r.read_data()
kinds = {b.name: b.type for b in r.mesh["bocos"]}
if kinds["jmin"] != "perio_cart" or kinds["jmax"] != "boundary" or kinds["internal-domain"] != "internal":
    bad(str(kinds))
''')

bug('c02-stats', 'C02', [('ic3/writerV4.py',
'''            var for var in self.vars["cells"].keys() if any(x in var for x in ['_AVG', '_RMS', '_REY'])
''',
'''            var for var in self.vars["cells"].keys() if var[-4:] in ('_AVG', '_RMS', '_REY')
''')],
    'a statistics field with something after its suffix (RHO_AVG_2, U_RMS_X)',
    'such statistics are silently left out of the solution file',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("P_AVG", np.arange(12.))
d.add_data("U_RMS_X", np.arange(12.) * 2)
mesh.set_celldata(d)
writerV4.writer(mesh).write_data("a.h5", "s.h5")
r = readerV4.reader("a.h5", "s.h5")
r.read_data()
if sorted(r.celldata.keys()) != ["P_AVG", "U_RMS_X"]:
    bad(str(list(r.celldata.keys())))
''')

# ---------------------------------------------------------------- C03
bug('c03-clean', 'C03', [('vtk/_vtk.py',
'''        self._grid = pv.UnstructuredGrid(self._celldict, coords)
''',
'''        self._grid = pv.UnstructuredGrid(self._celldict, coords).clean(produce_merge_map=False)
''')],
    'a mesh with two nodes at the same place (baffle, interface) or a node outside of any cell',
    'nodes are merged, dropped and renumbered in the VTU file',
    MESH + '''
import cfdtools.vtk as vtk
mesh = Cube(2, 1, 1).export_mesh()
x, y, z = (c.copy() for c in mesh.nodescoord())
# the second cell gets its own copy of the shared face
con = mesh._cell2node["hexa8"].copy()
shared = sorted(set(con[0]) & set(con[1]))
n = len(x)
for k, s in enumerate(shared):
    con[1][con[1] == s] = n + k
m = Mesh(ncell=2, nnode=n + len(shared))
c = conn.elem_connectivity()
c.add_elems("hexa8", con)
m.set_cell2node(c)
m.set_nodescoord_xyz(*(np.concatenate((v, v[shared])) for v in (x, y, z)))
vtk.vtkMesh(m).write_data("a.vtu")
r = vtk.vtkMesh().read("a.vtu")
if r.nnode != 16 or not np.array_equal(np.asarray(r.export_mesh()._cell2node["hexa8"]), con):
    bad(f"{r.nnode} nodes, 16 expected")
''')

# ---------------------------------------------------------------- C04
SNAP = MESH + '''
import cfdtools.vtk as vtk
import pyvista as pv
import h5py


def snap(name, perm, n=(3, 3, 2), time=None, fields=("P",)):
    mesh = Cube(*n).export_mesh()
    con = mesh._cell2node["hexa8"]
    g = pv.UnstructuredGrid({pv.CellType.HEXAHEDRON: con[perm]}, mesh.nodescoord(ndarray=True))
    for k, f in enumerate(fields):
        g.cell_data[f] = (np.arange(len(con)) * 1.5 + k)[perm]
    if time is not None:
        g.field_data["TimeValue"] = [time]
    g.save(name)
'''
bug('c04-rindex', 'C04', [('vtk/_vtkList.py',
'''                datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
''',
'''                datalist = {name: vtk.cell_data[name][index] for name in namelist}
''')],
    'a snapshot whose cell order is not an involution of that of the first one',
    'the fields of that snapshot are put on other cells',
    SNAP + '''
p = np.arange(18)
snap("a.vtu", p)
snap("b.vtu", np.roll(p, 1))
l = vtk.vtkList(["a.vtu", "b.vtu"])
l.read()
l.dumphdf("o.h5")
with h5py.File("o.h5") as f:
    if f["datalist/i000001/P"][:].tolist() != (np.arange(18) * 1.5).tolist():
        bad(str(f["datalist/i000001/P"][:]))
''')

bug('c04-sampled', 'C04', [('vtk/_vtkList.py',
'''            ctr = vtk.cell_centers().points
            d = np.max(maths.distance(ctrRef, ctr))
''',
'''            ctr = vtk.cell_centers().points
            # a sample of the cells is enough to know if the order is the same
            step = max(1, self._ncell // 8)
            d = np.max(maths.distance(ctrRef[::step], ctr[::step]))
''')],
    'a mesh of at least 16 cells and a snapshot with only a few cells swapped, none of them among the sampled ones',
    'the swap is not seen and the values stay on the wrong cells',
    SNAP + '''
p = np.arange(36)
snap("a.vtu", p, (3, 3, 4))
q = p.copy()
q[[1, 3, 5]] = q[[3, 5, 1]]
snap("b.vtu", q, (3, 3, 4))
l = vtk.vtkList(["a.vtu", "b.vtu"])
l.read()
l.dumphdf("o.h5")
with h5py.File("o.h5") as f:
    if f["datalist/i000001/P"][:].tolist() != (np.arange(36) * 1.5).tolist():
        bad(str(f["datalist/i000001/P"][:]))
''')

# ---------------------------------------------------------------- C05
bug('c05-merge', 'C05', [('gmsh/reader.py',
'''                bc2["slicing"] += raveled.tolist()
''',
'''                bc2["slicing"] = raveled.tolist()
''')],
    'a GMSH file where a named patch is made of several surfaces, the second of which has triangles and quadrangles',
    'the faces of the first type of that surface leave the patch',
    MESH + '''
# two prisms over a hexahedron: patch "w" is surface 1 (bottom quad) and surface 2 (tri + quad on one side)
xyz = [(0,0,0),(1,0,0),(1,1,0),(0,1,0),(0,0,1),(1,0,1),(1,1,1),(0,1,1),(0,.5,2),(1,.5,2)]
vol = [(5, [1,2,3,4,5,6,7,8]), (6, [5,8,9,6,7,10])]
wall = [(3, [1,2,3,4], 1), (2, [5,8,9], 2), (3, [1,4,8,5], 2)]
rest = [(3, [2,3,7,6], 3), (3, [1,2,6,5], 3), (3, [4,3,7,8], 3), (2, [6,7,10], 3), (3, [5,6,10,9], 3), (3, [8,7,10,9], 3)]
s = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$PhysicalNames\\n3\\n2 1 \\"w\\"\\n2 2 \\"r\\"\\n3 3 \\"fluid\\"\\n$EndPhysicalNames\\n"
s += "$Nodes\\n10\\n" + "".join(f"{i+1} {x} {y} {z}\\n" for i, (x, y, z) in enumerate(xyz)) + "$EndNodes\\n$Elements\\n11\\n"
k = 0
for t, n, e in wall + rest:
    k += 1
    s += f"{k} {t} 2 {1 if e < 3 else 2} {e} {' '.join(map(str, n))}\\n"
for t, n in vol:
    k += 1
    s += f"{k} {t} 2 3 1 {' '.join(map(str, n))}\\n"
open("a.msh", "w").write(s + "$EndElements\\n")
import cfdtools.gmsh as gmsh
r = gmsh.reader("a.msh")
r.read_data()
m = r.export_mesh()
got = sorted(m._bocos["w"].index.list())
if got != sorted({i - 1 for _, n, _ in wall for i in n}):
    bad(str(got))
''')

bug('c05-order', 'C05', [('_cli.py',
'''    if parser.args().extrude:
        timer.start()
''',
'''    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
    if parser.args().extrude:
        timer.start()
'''), ('_cli.py',
'''        timer.stop(nelem=nz * ncell)
    if parser.args().scale:
        cfdmesh.scale(parser.args().scale)
''',
'''        timer.stop(nelem=nz * ncell)
''')],
    '--extrude and --scale in the same conversion, with a z factor other than 1',
    'the extruded direction is not scaled',
    MESH + '''
s = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$PhysicalNames\\n5\\n1 1 \\"b\\"\\n1 2 \\"r\\"\\n1 3 \\"t\\"\\n1 4 \\"l\\"\\n2 5 \\"fluid\\"\\n$EndPhysicalNames\\n"
s += "$Nodes\\n6\\n1 0 0 0\\n2 1 0 0\\n3 2 0 0\\n4 0 1 0\\n5 1 1 0\\n6 2 1 0\\n$EndNodes\\n$Elements\\n8\\n"
for k, (a, b) in enumerate([(1,2),(2,3),(3,6),(6,5),(5,4),(4,1)]):
    e = (1, 1, 2, 3, 3, 4)[k]
    s += f"{k+1} 1 2 {e} {e} {a} {b}\\n"
s += "7 3 2 5 1 1 2 5 4\\n8 3 2 5 1 2 3 6 5\\n$EndElements\\n"
open("a.msh", "w").write(s)
os.mkdir("out")
o = cli.cfdwrite_ic3v3(["a.msh", "--fmt", "GMSH", "--extrude", "2", "--scale", "2", "3", "4", "--outpath", "out"])
r = reader_legacy.reader(o)
r.read_data()
top = r.mesh["coordinates"].max(axis=0).tolist()
if top != [4.0, 3.0, 4.0]:
    bad(str(top))
''')

# ---------------------------------------------------------------- C06
bug('c06-short', 'C06', [('ic3/_ic3.py',
'''            # Split the packed binary string into its tokens
            s = list(BinaryRead(bfile, self.binstr, byte_swap, self.hsize))
''',
'''            # Split the packed binary string into its tokens
            s = BinaryRead(bfile, self.binstr, byte_swap, self.hsize)
            if s is None:  # no more section
                break
''')],
    'a file whose write was killed after the coordinates, in or between its data sections',
    'the missing fields, step or time are silently absent from the mesh that is read',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("P", np.arange(12.))
d.add_data("U", np.arange(36.).reshape(12, 3))
mesh.set_celldata(d)
writerV3.writer(mesh).write_data("a.ic3")
b = open("a.ic3", "rb").read()
for cut in (len(b) - 256, len(b) - 300, len(b) - 256 - 288, len(b) - 256 - 288 - 256):
    open("c.ic3", "wb").write(b[:cut])
    r = reader_legacy.reader("c.ic3")
    try:
        r.read_data()
    except Exception:
        continue
    bad(f"cut at {cut}/{len(b)} read as fields {list(r.celldata.keys())}")
''')

bug('c06-flush', 'C06', [('ic3/writerV4.py',
'''            log.info("> Writing boundaries")
            self._write_boundaries(fid)
''',
'''            # large arrays are on disk from now on
            fid.flush()

            log.info("> Writing boundaries")
            self._write_boundaries(fid)
''')],
    'a writer killed after the connectivities and before the end of the mesh file',
    'the file without its patches is read as a complete mesh',
    MESH + '''
import signal, subprocess
pid = os.fork()
if pid == 0:
    w = writerV4.writer(Cube(3, 2, 2).export_mesh())
    w._write_boundaries = lambda fid: os.kill(os.getpid(), signal.SIGKILL)
    w.write_data("a.h5")
    os._exit(0)
os.waitpid(pid, 0)
try:
    r = readerV4.reader("a.h5")
    r.read_data()
    m = r.export_mesh()
except Exception as e:
    print("rejected as it must:", type(e).__name__)
    sys.exit(0)
bad("partial file read, patches: " + str(list(m._bocos)))
''')

# ---------------------------------------------------------------- C07
bug('c07-cleanup', 'C07', [('_cli.py',
'''    r = parser._reader(file.filename)
    r.read_data()
    ncell = r.ncell
    timer.stop(nelem=ncell)
    log.info("> export mesh ")
    cfdmesh = r.export_mesh()
    #
''',
'''    try:
        r = parser._reader(file.filename)
        r.read_data()
        ncell = r.ncell
        timer.stop(nelem=ncell)
        log.info("> export mesh ")
        cfdmesh = r.export_mesh()
    except Exception:
        # do not leave a partial file
        Path(file.filename).with_suffix(ext).unlink(missing_ok=True)
        raise
    #
''')],
    'a conversion whose input cannot be read while a file with the default output name exists (or is the input)',
    'the failing conversion removes an existing file',
    MESH + '''
open("a.msh", "w").write("$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n1\\n")
open("a.ic3", "w").write("precious")
try:
    cli.cfdwrite_ic3v3(["a.msh", "--fmt", "GMSH"])
except Exception as e:
    print("conversion failed as it must", type(e).__name__)
if not os.path.exists("a.ic3") or open("a.ic3").read() != "precious":
    bad("existing a.ic3 removed by a failing conversion")
''')

bug('c07-race', 'C07', [('data.py',
'''        file = hdf5.h5File(filename)
        if not overwrite:
            file.find_safe_newfile()
''',
'''        file = hdf5.h5File(filename)
        if not overwrite and file.exists():
            file.find_safe_newfile()
''')],
    'two packs running at the same time towards the same free name',
    'both write the same file',
    SNAP + '''
import threading
snap("a.vtu", np.arange(18), fields=("P",))
snap("b.vtu", np.arange(18), fields=("Q",))
import cfdtools.hdf5 as hdf5
real = hdf5.h5File.open
gate = threading.Barrier(2)


def open_(self, *a, **k):   # both have chosen their name, none has written yet
    gate.wait(20)
    return real(self, *a, **k)


hdf5.h5File.open = open_
out, err = {}, []


def run(n):
    l = vtk.vtkList([n + ".vtu"])
    l.read()
    try:
        out[n] = l.dumphdf("o.h5")
    except Exception as e:
        err.append(e)


t = [threading.Thread(target=run, args=(n,)) for n in "ab"]
[x.start() for x in t]
[x.join(60) for x in t]
if err or out["a"] == out["b"]:
    bad(f"{out} {err}")
''')
