import runpy, os
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a.py'))
MESH, SNAP = _a['MESH'], _a['SNAP']
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C18
bug('c18-tail', 'C18', [('ic3/_ic3.py',
'''                if h.id[0] == ic3_restart_codes['UGP_IO_EOF']:
                    log.info('UGP EOF reached')
                    break
        log.debug('%s closed', self.filename)
''',
'''                if self.fid.tell() + max(skip, h.hsize) - h.hsize >= os.path.getsize(self.filename):
                    log.info('UGP EOF reached')
                    break
        log.debug('%s closed', self.filename)
''')],
    'a restart file which is being written, or was cut, inside the data of a section',
    'the command lists the first sections and returns as if they were all',
    MESH + '''
mesh = Cube(4, 4, 4).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("P", np.arange(64.))
d.add_data("T", np.arange(64.) * 2)
mesh.set_celldata(d)
writerV3.writer(mesh).write_data("a.ic3")
b = open("a.ic3", "rb").read()
with contextlib.redirect_stdout(io.StringIO()) as out:
    cli.ic3brief(["a.ic3"])
full = out.getvalue()
for cut in list(range(300, len(b), 97)) + [len(b) - 256, len(b) - 300]:
    open("c.ic3", "wb").write(b[:cut])
    with contextlib.redirect_stdout(io.StringIO()) as out:
        try:
            cli.ic3brief(["c.ic3"])
        except Exception:
            continue
    if out.getvalue() != full:
        bad(f"cut at {cut} of {len(b)}: only {out.getvalue().count('Name')} sections of {full.count('Name')}, no error")
''')

bug('c18-bounds', 'C18', [('meshbase/_mesh.py',
'''        for c in ('x', 'y', 'z'):
            log.info(
                f"  {c} min:avg:max =" + " {:.3f}:{:.3f}:{:.3f}".format(*minavgmax(self._nodes[c])),
            )
''',
'''        for c in ('x', 'y', 'z'):
            key = id(self._nodes[c])
            if key not in _stats:  # may be long for large meshes
                _stats[key] = tuple(minavgmax(self._nodes[c]))
            log.info(
                f"  {c} min:avg:max =" + " {:.3f}:{:.3f}:{:.3f}".format(*_stats[key]),
            )
'''), ('meshbase/_mesh.py',
'''log = logging.getLogger(__name__)

''',
'''log = logging.getLogger(__name__)
_stats = {}

''')],
    'several meshes inspected in one process, the memory of a released one being used again by the next',
    'the bounds reported are those of another mesh',
    MESH + '''
import logging, gc


class Keep(logging.Handler):
    def emit(self, r):
        lines.append(r.getMessage())


logging.getLogger("cfdtools").addHandler(Keep())
logging.getLogger("cfdtools").setLevel(logging.INFO)
lines = []
for k in range(8):
    mesh = Cube(3, 3, 3).export_mesh()
    mesh.scale((k + 1., k + 2., k + 3.))
    writerV3.writer(mesh).write_data(f"{k}.ic3")
    del mesh
for k in list(range(8)) * 4:
    lines.clear()
    cli.cfdinfo([f"{k}.ic3", "--fmt", "IC3"])
    got = [l for l in lines if "min:avg:max" in l and l.startswith("  ") and l.split()[0] in "xyz"]
    exp = [f"  {c} min:avg:max = 0.000:{(k + i) / 2:.3f}:{k + i:.3f}" for i, c in enumerate("xyz", 1)]
    if got != exp:
        bad(f"{got} expected {exp}")
    gc.collect()
''')

# ---------------------------------------------------------------- C12
bug('c12-enter', 'C12', [('api.py',
'''        # ...else line is continuedwith
        self.start()
''',
'''        # ...else line is continuedwith
        self._elapsed = 0.0
        self.start()
''')],
    'a timer which has been started and paused, then used for a with-block',
    'the time before the pause is lost',
    MESH + '''
import time
now = [100.]
time.perf_counter = lambda: now[0]
t = api.Timer("t")
t.start()
now[0] += 3
t.pause()
now[0] += 10
with t:
    now[0] += 4
    t.pause()
    if t.elapsed != 7.:
        bad(str(t.elapsed))
    t.start()
''')

# ---------------------------------------------------------------- C07
bug('c07-empty', 'C07', [('data.py',
'''        file = hdf5.h5File(filename)
        if not overwrite:
            file.find_safe_newfile()
        file.open(mode="w", datatype='datalist', version=self._version)
''',
'''        file = hdf5.h5File(filename)
        # nothing to keep in an empty file
        if not overwrite and (not file.exists() or file._path.stat().st_size > 0):
            file.find_safe_newfile()
        file.open(mode="w", datatype='datalist', version=self._version)
''')],
    'two packs at the same time in one directory, the second one starts when the first has reserved its name',
    'both write to the same file',
    SNAP + '''
import threading
snap("a.vtu", np.arange(18), time=1.)
snap("b.vtu", np.arange(18), time=2.)
import cfdtools.hdf5 as hdf5
real = hdf5.h5File.open
out = {}


def pack(name):
    l = vtk.vtkList([name])
    l.read()
    out[name] = l.dumphdf("o.h5")


def slow(self, *a, **k):
    hdf5.h5File.open = real
    pack("b.vtu")
    return real(self, *a, **k)


hdf5.h5File.open = slow
pack("a.vtu")
if out["a.vtu"] == out["b.vtu"]:
    bad(str(out))
''')

bug('c07-dots', 'C07', [('api.py',
'''        stem = safepath.stem
        suff = safepath.suffix
''',
'''        stem, _, suff = safepath.name.partition('.')
        suff = '.' + suff
''')],
    'a file name with several dots, whose wanted output is taken',
    'the counter is not added to the stem but before the first dot',
    MESH + '''
writerV3.writer(Cube(2, 2, 2).export_mesh()).write_data("run.t0.ic3")
o = cli.cfdwrite_ic3v3(["run.t0.ic3", "--fmt", "IC3"])
if o != "run.t0(1).ic3":
    bad(o)
''')

# ---------------------------------------------------------------- C10
bug('c10-struct', 'C10', [('ic3/_ic3.py',
'''    # Create a "packed-binary reader structure"
    s = struct.Struct(form)
''',
'''    # Create a "packed-binary reader structure" (large formats are long to compile)
    key = form[0], form[-1], size
    if key not in _structs:
        _structs[key] = struct.Struct(form)
    s = _structs[key]
'''), ('ic3/_ic3.py',
'''struct_endian = {'native': '@', 'little': '<', 'big': '>'}
''',
'''struct_endian = {'native': '@', 'little': '<', 'big': '>'}
_structs = {}
''')],
    'a section of the size of a section header, which ends with a double (32 values), read before or after',
    'headers are read as numbers, or numbers as headers',
    MESH + '''
mesh = Cube(32, 1, 1).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("P", np.arange(32.))
mesh.set_celldata(d)
writerV3.writer(mesh).write_data("a.ic3")
r = reader_legacy.reader("a.ic3")
r.read_data()
if list(r.export_mesh()._celldata["P"]) != list(range(32)):
    bad("P")
''')

bug('c10-mtime', 'C10', [('gmsh/reader.py',
'''        # Read the entire mesh.
        msh = []
        log.info(f"Reading file {filename!r}...")
        with open(filename) as fid:
            for l in fid:
                msh.append(l.split())
        log.info(" done")
''',
'''        # Read the entire mesh, once.
        log.info(f"Reading file {filename!r}...")
        stat = os.stat(filename)
        key = os.path.abspath(filename), int(stat.st_mtime), stat.st_size
        if key not in reader._msh:
            with open(filename) as fid:
                reader._msh = {key: [l.split() for l in fid]}
        msh = reader._msh[key]
        log.info(" done")
'''), ('gmsh/reader.py',
'''    """Implementation of the reader to read Gmsh meshes."""

''',
'''    """Implementation of the reader to read Gmsh meshes."""

    _msh = {}

'''), ('gmsh/reader.py',
'''# Import modules
import collections
import logging
''',
'''# Import modules
import collections
import logging
import os
''')],
    'a mesh file written again within one second, with the same size',
    'the content of the older file is given again',
    MESH + '''
import cfdtools.gmsh as gmsh


def msh(y):
    return (f"$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n4\\n1 0 0 0\\n2 1 0 0\\n3 1 {y} 0\\n4 0 {y} 0\\n$EndNodes\\n"
            "$Elements\\n1\\n1 3 2 9 1 1 2 3 4\\n$EndElements\\n")


def get(y):
    open("a.msh", "w").write(msh(y))
    os.utime("a.msh", (1000000000, 1000000000))
    r = gmsh.reader("a.msh")
    r.read_data()
    return float(max(r.export_mesh().nodescoord()[1]))


if [get(1), get(2)] != [1., 2.]:
    bad("older content")
''')

# ---------------------------------------------------------------- C09
bug('c09-famm', 'C09', [('gmsh/reader.py',
'''        self._famm = []
        if fam is not None:  # B.C. are defined
''',
'''        if fam is not None:  # B.C. are defined
'''), ('gmsh/reader.py',
'''        super().__init__(filename)
        self.check_integrity = cIntegrity
''',
'''        super().__init__(filename)
        self.check_integrity = cIntegrity
        self._famm = []
''')],
    'read_data called again on the same reader, after a failure or not',
    'the second read raises KeyError',
    MESH + '''
import cfdtools.gmsh as gmsh
s = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$PhysicalNames\\n2\\n1 1 \\"wall\\"\\n2 9 \\"fluid\\"\\n$EndPhysicalNames\\n"
s += "$Nodes\\n4\\n1 0 0 0\\n2 1 0 0\\n3 1 1 0\\n4 0 1 0\\n$EndNodes\\n$Elements\\n5\\n"
for k, (a, b) in enumerate([(1, 2), (2, 3), (3, 4), (4, 1)]):
    s += f"{k+1} 1 2 1 {k+1} {a} {b}\\n"
open("a.msh", "w").write(s + "5 3 2 9 1 1 2 3 4\\n$EndElements\\n")
r = gmsh.reader("a.msh")
r.read_data()
n = sorted(r.export_mesh()._bocos["wall"].index.list())
try:
    r.read_data()
    m = sorted(r.export_mesh()._bocos["wall"].index.list())
except KeyError as e:
    bad(repr(e))
if n != m:
    bad(f"{n} {m}")
''')

# ---------------------------------------------------------------- C04
bug('c04-dcache', 'C04', [('vtk/_vtkList.py',
'''                dfinal, index = tree.query(ctr, p=2) # p=2 is the norm
''',
'''                if d not in orders:  # snapshots of a same run share the same order
                    orders[d] = tree.query(ctr, p=2) # p=2 is the norm
                dfinal, index = orders[d]
'''), ('vtk/_vtkList.py',
'''        count = 0
        assert self.nfile > 0
        Tread = api.Timer()
''',
'''        count = 0
        orders = {}
        assert self.nfile > 0
        Tread = api.Timer()
''')],
    'two snapshots with different cell orders whose largest displacements are equal',
    'the fields of the second one are put on other cells',
    SNAP + '''
p = np.arange(32)
q, r = p.copy(), p.copy()
q[[0, 1]] = q[[1, 0]]
r[[16, 17]] = r[[17, 16]]
for n, x in zip("abc", (p, q, r)):
    snap(n + ".vtu", x, (4, 4, 2))
l = vtk.vtkList(["a.vtu", "b.vtu", "c.vtu"])
l.read()
l.dumphdf("o.h5")
with h5py.File("o.h5") as f:
    for k in range(3):
        if f[f"datalist/i{k:06}/P"][:].tolist() != (np.arange(32) * 1.5).tolist():
            bad(str(f[f"datalist/i{k:06}/P"][:]))
''')

# ---------------------------------------------------------------- C11
bug('c11-tree', 'C11', [('vtk/_vtkList.py',
'''        tree = spatial.KDTree(ctrRef)
''',
'''        vtkList._tree = spatial.KDTree(ctrRef)
'''), ('vtk/_vtkList.py',
'''                dfinal, index = tree.query(ctr, p=2) # p=2 is the norm
''',
'''                dfinal, index = vtkList._tree.query(ctr, p=2) # p=2 is the norm
''')],
    'two threads packing lists of different meshes, with snapshots to reorder',
    'a snapshot is sorted with the cells of the other list',
    SNAP + '''
import threading
from cfdtools.vtk._vtkList import vtkList
import cfdtools.vtk._vtkList as mod
p = np.arange(18)
snap("a0.vtu", p)
snap("a1.vtu", np.roll(p, 5))
snap("b0.vtu", np.roll(p, 7))
snap("b1.vtu", np.roll(p, 2))
real, first, state = mod.pv_read, threading.get_ident(), []


def read(name):
    if name == "a1.vtu" and not state:
        state.append(1)
        t = threading.Thread(target=lambda: vtkList(["b0.vtu", "b1.vtu"]).read())
        t.start()
        t.join()
    return real(name)


mod.pv_read = read
l = vtkList(["a0.vtu", "a1.vtu"])
l.read()
if l._data._datalist[1]["P"].tolist() != (p * 1.5).tolist():
    bad(str(l._data._datalist[1]["P"]))
''')

# ---------------------------------------------------------------- C13
bug('c13-last', 'C13', [('_cli.py',
'''            log.info(f"CFDTOOLS - {fname}")
            return func(*args, **kwargs)
''',
'''            log.info(f"CFDTOOLS - {fname}")
            try:
                return func(*args, **kwargs)
            except Exception as error:
                func.__globals__['__failure__'] = error  # to be inspected by the caller
                raise
''')],
    'a command which fails while it holds an open file (CGNS mesh which cannot be exported)',
    'the file stays open as long as no other command fails',
    MESH + '''
import h5py


def cg(g, name, label, val=None):
    n = g.create_group(name)
    n.attrs["label"] = np.bytes_(label)
    if val is not None:
        n.create_dataset(" data", data=val)
    return n


def s(x):
    return np.frombuffer(x.encode(), dtype=np.int8)


with h5py.File("a.cgns", "w") as f:
    cg(f, "CGNSLibraryVersion", "CGNSLibraryVersion_t", np.array([3.2]))
    b = cg(f, "Base", "CGNSBase_t", np.array([3, 3]))
    z = cg(b, "Zone", "Zone_t", np.array([[8], [1], [0]]))
    cg(z, "ZoneType", "ZoneType_t", s("Unstructured"))
try:
    cli.cfdinfo(["a.cgns", "--fmt", "CGNS"])
    bad("no coordinates")
except KeyError:
    pass
left = [os.readlink(f"/proc/self/fd/{n}") for n in os.listdir("/proc/self/fd") if os.path.exists(f"/proc/self/fd/{n}")]
if any("a.cgns" in x for x in left):
    bad(str(left))
''')

# ---------------------------------------------------------------- C08
bug('c08-solution', 'C08', [('ic3/readerV4.py',
'''        if self._solution_filename is None:
            return

        log.debug(f"Opening file {self._solution_filename!r}")
''',
'''        if self._solution_filename is None or not os.path.exists(self._solution_filename):
            return

        log.debug(f"Opening file {self._solution_filename!r}")
'''), ('ic3/readerV4.py',
'''import logging
from pathlib import Path
''',
'''import logging
import os
from pathlib import Path
''')],
    'an I/O error on the directory or the inode of the solution file, after the mesh has been read',
    'the mesh is returned without any data',
    MESH + '''
import genericpath
mesh = Cube(3, 2, 2).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("RHO", np.arange(12.))
d.add_data("RHOU", np.arange(36.).reshape(12, 3))
d.add_data("RHOE", np.arange(12.))
mesh.set_celldata(d)
writerV4.writer(mesh).write_data("m.h5", "s.h5")
from cfdtools.ic3 import readerV4
r = readerV4.reader("m.h5", "s.h5")
real = os.stat


def stat(name, *a, **k):
    if str(name).endswith("s.h5"):
        raise OSError(errno.EIO, "Input/output error")
    return real(name, *a, **k)


os.stat = stat
try:
    r.read_data()
except OSError:
    sys.exit(0)
finally:
    os.stat = real
if sorted(r.export_mesh()._celldata.keys()) != ["RHO", "RHOE", "RHOU"]:
    bad("returned without data")
''')

# ---------------------------------------------------------------- C03
bug('c03-single', 'C03', [('vtk/_vtk.py',
'''        coords = self._mesh.nodescoord(ndarray=True)
        self._celldict = {
''',
'''        coords = self._mesh.nodescoord(ndarray=True)
        if np.allclose(coords, coords.astype(np.float32), rtol=0.0, atol=1e-6 * np.ptp(coords)):
            coords = coords.astype(np.float32)  # halves the size of the file
        self._celldict = {
''')],
    'a mesh whose coordinates are not exact in single precision',
    'the points of the file are rounded to single precision',
    MESH + '''
import cfdtools.vtk as vtk
mesh = Cube(3, 3, 3).export_mesh()
vtk.vtkMesh(mesh).write_data("a.vtu")
p = vtk.vtkMesh().read("a.vtu").export_mesh().nodescoord(ndarray=True)
if not np.array_equal(p, mesh.nodescoord(ndarray=True)):
    bad("points")
''')

# ---------------------------------------------------------------- C15
bug('c15-inplace', 'C15', [('probes/data.py',
'''        self.alldata['Mach'] = self.alldata['U'] / self.alldata['Asound']
''',
'''        mach = self.alldata['U']
        mach /= self.alldata['Asound']
        self.alldata['Mach'] = mach
''')],
    'the velocity requested before, or after, the Mach number',
    'the velocity becomes the Mach number',
    MESH + '''
from cfdtools.probes.data import phydata
rng = np.random.default_rng(1)
for v in ("P", "RHO", "U-X", "U-Y", "U-Z"):
    with open("l." + v, "w") as f:
        for k in range(4):
            f.write(f"{k} {k * .5} 3 " + " ".join(repr(float(x)) for x in 1 + rng.random(3)) + "\\n")
p = phydata("l")
p.check_data("U", "l")
u = p.alldata["U"].copy()
p.check_data("Mach", "l")
if not np.array_equal(p.alldata["U"], u):
    bad("U has changed")
''')

# ---------------------------------------------------------------- C14
bug('c14-noofa', 'C14', [('ic3/reader_legacy.py',
'''        assert h.idata[0] == fa_count
        assert h.idata[1] == noofa_count

        # Get the node count per face
''',
'''        assert h.idata[0] == fa_count
        # the number of nodes of all faces is checked below

        # Get the node count per face
''')],
    'a face to node section which announces another number of nodes than the mesh',
    'the file is read as if its sizes were consistent',
    MESH + '''
import struct
mesh = Cube(3, 2, 2).export_mesh()
writerV3.writer(mesh).write_data("a.ic3")
b = bytearray(open("a.ic3", "rb").read())
k = b.index(b"NOOFA_I_AND_V\\0")
nfa, n = struct.unpack("=2q", b[k + 64:k + 80])
b[k + 72:k + 80] = struct.pack("=q", n + 4)
open("c.ic3", "wb").write(b)
r = reader_legacy.reader("c.ic3")
try:
    r.read_data()
except Exception as e:
    print("rejected as it must:", type(e).__name__)
    sys.exit(0)
bad("read")
''')
