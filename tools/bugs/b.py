import runpy, os
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a.py'))
MESH, SNAP = _a['MESH'], _a['SNAP']
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C05
bug('c05-scale', 'C05', [('_cli.py',
'''        cfdmesh.scale(parser.args().scale)
''',
'''        sx, sy, sz = parser.args().scale
        cfdmesh.morph(lambda x, y, z: (sx * (x - x.min()) + x.min(), sy * y, sz * z))
''')],
    '--scale of a mesh whose first coordinate does not start at zero',
    'the mesh is scaled around its corner instead of the origin',
    MESH + '''
mesh = Cube(2, 2, 2).export_mesh()
mesh.morph(lambda x, y, z: (x + 1., y - 2., z + 3.))
writerV3.writer(mesh).write_data("a.ic3")
os.mkdir("out")
o = cli.cfdwrite_ic3v2(["a.ic3", "--fmt", "IC3", "--outpath", "out", "--scale", "2", "3", "4"])
r = reader_legacy.reader(o)
r.read_data()
got = [r.mesh["coordinates"].min(axis=0).tolist(), r.mesh["coordinates"].max(axis=0).tolist()]
if got != [[2., -6., 12.], [4., -3., 16.]]:
    bad(str(got))
''')

# ---------------------------------------------------------------- C08
bug('c08-informative', 'C08', [('ic3/reader_legacy.py',
'''            self._ReadInformativeValues()
            #
            log.info("Reading variables...")
''',
'''            try:
                self._ReadInformativeValues()
            except RuntimeError as error:
                # only used for information
                log.warning(f"informative values are not available: {error}")
            #
            log.info("Reading variables...")
''')],
    'an I/O error (reported by the file layer) which strikes one read between the coordinates and the data',
    'the read returns without step, time or weights',
    MESH + '''
import builtins
mesh = Cube(12, 12, 12).export_mesh()
mesh.set_params({"step": 7, "dt": 0.5, "time": 3.5})
d = data.DataSet("cellaverage")
d.add_data("P", np.arange(1728.))
mesh.set_celldata(d)
writerV3.writer(mesh).write_data("a.ic3")


class Flaky(io.FileIO):
    n, fail = 0, None

    def readinto(self, b):
        Flaky.n += 1
        if Flaky.n == Flaky.fail:
            raise OSError(errno.EIO, "Input/output error")
        return super().readinto(b)


real = builtins.open


def fake(name, mode="r", *a, **k):
    return io.BufferedReader(Flaky(name), 256) if mode == "rb" else real(name, mode, *a, **k)


for fail in range(1, 400):
    Flaky.n, Flaky.fail = 0, fail
    r = reader_legacy.reader("a.ic3")
    builtins.open = fake
    try:
        r.read_data()
    except Exception:
        continue
    finally:
        builtins.open = real
    if Flaky.n < fail:
        break
    s = r.simulation_state
    if (s["step"], s["dt"], s["time"]) != (7, 0.5, 3.5):
        bad(f"read {fail} failed: {s}")
''')

bug('c08-probe', 'C08', [('probes/data.py',
'''            success = self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))
''',
'''            try:
                success = self.read_data(varname, prefix, force_coordinate=(varname in coordinates_set))
            except OSError as error:
                log.warning(f"{varname} can not be read: {error}")
''')],
    'an I/O error on the file of a quantity which could also be computed from others, where the values differ',
    'the computed values silently replace those of the file',
    MESH + '''
import builtins
from cfdtools.probes.data import phydata


def probe(var, f):
    with open("p." + var, "w") as fid:
        for i in range(3):
            fid.write(" ".join(str(v) for v in [i, i * .1, 4] + [f(i, j) for j in range(4)]) + "\\n")


probe("U-X", lambda i, j: 1. + i)
probe("U-Y", lambda i, j: 0.)
probe("U-Z", lambda i, j: 0.)
probe("U", lambda i, j: 50. + j)
real = builtins.open


def fake(name, *a, **k):
    if str(name) == "p.U":
        raise OSError(errno.EIO, "Input/output error")
    return real(name, *a, **k)


p = phydata("p")
builtins.open = fake
try:
    p.check_data("U", "p")
except Exception as e:
    print("refused as it must:", e)
    sys.exit(0)
finally:
    builtins.open = real
if not np.array_equal(p.alldata["U"], 50. + np.tile(np.arange(4), (3, 1))):
    bad(str(p.alldata["U"]))
''')

# ---------------------------------------------------------------- C09
bug('c09-tmp', 'C09', [('ic3/writerV2.py',
'''import logging

import numpy as np
''',
'''import logging
import os

import numpy as np
'''), ('ic3/writerV2.py',
'''        with open(self.filename, "wb") as self.fid:
            #
''',
'''        with open(f"{self.filename}.part", "xb") as self.fid:
            #
'''), ('ic3/writerV2.py',
'''            # self.fid is closed
        del self.fid
''',
'''            # self.fid is closed
        os.replace(f"{self.filename}.part", self.filename)
        del self.fid
''')],
    'a write which failed (or was killed) once',
    'its leftover makes every later write of this file fail',
    MESH + '''
import builtins
real = builtins.open


class Full(io.FileIO):
    def write(self, b):
        raise OSError(errno.ENOSPC, "no space left on device")


def fake(name, mode="r", *a, **k):
    return io.BufferedWriter(Full(name, mode.replace("b", ""))) if "b" in mode and "r" not in mode else real(name, mode, *a, **k)


w = writerV3.writer(Cube(3, 2, 2).export_mesh())
builtins.open = fake
try:
    w.write_data("a.ic3")
except Exception as e:
    print("refused:", e)
else:
    bad("the write returned")
finally:
    builtins.open = real
try:
    w.write_data("a.ic3")
    r = reader_legacy.reader("a.ic3")
    r.read_data()
except Exception as e:
    bad(f"second write failed: {e!r}")
''')

bug('c09-once', 'C09', [('ic3/reader_legacy.py',
'''        log.info("READER RESTART IC3")
''',
'''        log.info("READER RESTART IC3")
        # already read
        if getattr(self, 'mesh', None) is not None and self.ic3_version > 0:
            return
''')],
    'a read which failed half-way (transient I/O error) and is tried again with the same reader',
    'the second read returns at once with what the first one had got',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
mesh.set_params({"step": 7, "dt": 0.5, "time": 3.5})
d = data.DataSet("cellaverage")
d.add_data("P", np.arange(12.))
mesh.set_celldata(d)
writerV3.writer(mesh).write_data("a.ic3")
r = reader_legacy.reader("a.ic3")
real = r._ReadRestartVar


def fail():
    raise OSError(errno.EIO, "Input/output error")


r._ReadRestartVar = fail
try:
    r.read_data()
except OSError:
    pass
r._ReadRestartVar = real
try:
    r.read_data()
    v = r.export_mesh()._celldata["P"]
except Exception as e:
    bad(f"retry: {e!r}")
if not np.array_equal(v, np.arange(12.)):
    bad(str(v))
''')

# ---------------------------------------------------------------- C10
bug('c10-reverse', 'C10', [('meshbase/_connectivity.py',
'''                        reindex_f = elemsarray[:, list(reversed(eface))].tolist()
''',
'''                        eface.reverse()
                        reindex_f = elemsarray[:, eface].tolist()
''')],
    'a second mesh whose faces are built in the same process',
    'the shared table of faces is reversed in place: every other mesh has inverted faces',
    MESH + '''
ref = None
for k in range(3):
    writerV3.writer(Cube(2, 2, 1).export_mesh()).write_data(f"{k}.ic3")
    b = open(f"{k}.ic3", "rb").read()
    if ref is not None and b != ref:
        bad(f"write {k} differs from the first one")
    ref = b
''')

bug('c10-cache', 'C10', [('meshbase/_mesh.py',
'''        coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
        return np.column_stack(coords) if ndarray else coords
''',
'''        coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
        if ndarray:
            # large array: build it once
            if getattr(self, '_ndcoords', None) is None:
                self._ndcoords = np.column_stack(coords)
            return self._ndcoords
        return coords
''')],
    'a mesh written or extruded once, then scaled or morphed, then written again',
    'the old coordinates are written again',
    MESH + '''
import cfdtools.vtk as vtk
m = Cube(2, 1, 1).export_mesh()
vtk.vtkMesh(m).write_data("a.vtu")
m.scale([2., 3., 4.])
vtk.vtkMesh(m).write_data("b.vtu")
p = vtk.vtkMesh().read("b.vtu").pyvista_grid.points
if p.max(axis=0).tolist() != [2., 3., 4.]:
    bad(str(p.max(axis=0)))
''')

bug('c10-params', 'C10', [('meshbase/_mesh.py',
'''    def update_params(self, params):
        self._params.update(params)
''',
'''    __common_params = {}

    def update_params(self, params):
        self._params = self.__common_params
        self._params.update(params)
''')],
    'a file with weights or more parameters read before a file without them, in the same process',
    'parameters of one mesh show up in another one (and in what is written from it)',
    MESH + '''
for k, p in enumerate(({"step": 7, "dt": 0.5, "time": 3.5, "wgt": {"p": 2.5}}, {"step": 1, "dt": 0.25, "time": 1.5})):
    mesh = Cube(3, 2, 2).export_mesh()
    mesh.set_params(p)
    writerV3.writer(mesh).write_data(f"{k}.ic3")
r1 = reader_legacy.reader("1.ic3")
r1.read_data()
ref = dict(r1.export_mesh()._params)
r0 = reader_legacy.reader("0.ic3")
r0.read_data()
m0 = r0.export_mesh()
p0 = dict(m0._params)
r1 = reader_legacy.reader("1.ic3")
r1.read_data()
m1 = r1.export_mesh()
if {k for k in m1._params} != set(ref) or m0._params["step"] != p0["step"] or m0._params["time"] != p0["time"]:
    bad(f"{m0._params} {m1._params}")
''')

# ---------------------------------------------------------------- C11
bug('c11-scratch', 'C11', [('ic3/_ic3.py',
'''    # Actually pack the string now
    packed_ba = s.pack(*varargs)

    # Try to write the bytes to the file otherwise crash
    try:
        bfile.write(packed_ba)
''',
'''    # Actually pack the string now, in a buffer which is kept for the next ones
    if len(_scratch) < s.size:
        _scratch.extend(bytes(s.size - len(_scratch)))
    s.pack_into(_scratch, 0, *varargs)

    # Try to write the bytes to the file otherwise crash
    try:
        bfile.write(bytes(_scratch[: s.size]))
'''), ('ic3/_ic3.py',
'''###################################################################################################
def BinaryWrite(bfile, endian, form, varargs):
''',
'''_scratch = bytearray()


###################################################################################################
def BinaryWrite(bfile, endian, form, varargs):
''')],
    'two threads writing IC3 files, one of them interrupted between packing and writing',
    'sections of one file hold the bytes of the other one',
    MESH + '''
import threading


def run(k):
    m = Cube(2 + k, 2, 2).export_mesh()
    d = data.DataSet("cellaverage")
    for i in range(3):
        d.add_data(f"P{i}", np.full(m.ncell, k + i / 10))
    m.set_celldata(d)
    w = writerV3.writer(m)
    ws.append(w)
    return w


ws = []
for k in range(2):
    run(k).write_data(f"ref{k}.ic3")
import cfdtools.ic3._ic3 as mod
# the code of BinaryWrite is stopped after each of its lines, where the other thread goes on
turn = [threading.Semaphore(1), threading.Semaphore(0)]
done = [False, False]


def thread(k):
    def trace(frame, event, arg):
        if frame.f_code is mod.BinaryWrite.__code__:
            def local(frame, event, arg):
                if event == "line" and not done[1 - k]:
                    turn[1 - k].release()
                    turn[k].acquire()
                return local
            return local
    turn[k].acquire()
    sys.settrace(trace)
    try:
        ws[k].write_data(f"out{k}.ic3")
    except Exception as e:
        err.append(e)
    finally:
        sys.settrace(None)
        done[k] = True
        turn[1 - k].release()


err = []
t = [threading.Thread(target=thread, args=(k,)) for k in range(2)]
[x.start() for x in t]
[x.join(100) for x in t]
if err or any(open(f"ref{k}.ic3", "rb").read() != open(f"out{k}.ic3", "rb").read() for k in range(2)):
    bad(f"the files differ from those written alone {err}")
''')

bug('c11-famm', 'C11', [('gmsh/reader.py',
'''        self._famm = []
        if fam is not None:  # B.C. are defined
''',
'''        self._famm.clear()
        if fam is not None:  # B.C. are defined
'''), ('gmsh/reader.py',
'''    """Implementation of the reader to read Gmsh meshes."""

''',
'''    """Implementation of the reader to read Gmsh meshes."""

    _famm = []

''')],
    'two threads reading GMSH files, one clears the list of families while the other is filling it',
    'a patch loses its first faces, or a family of the other file is searched for',
    MESH + '''
import threading, cfdtools.gmsh as gmsh



def msh(name, walls):
    s = f"$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$PhysicalNames\\n{len(set(walls)) + 1}\\n"
    names = sorted(set(walls))
    s += "".join(f'1 {i + 1} "{n}"\\n' for i, n in enumerate(names)) + '2 9 "fluid"\\n$EndPhysicalNames\\n'
    s += "$Nodes\\n6\\n1 0 0 0\\n2 1 0 0\\n3 2 0 0\\n4 0 1 0\\n5 1 1 0\\n6 2 1 0\\n$EndNodes\\n$Elements\\n8\\n"
    for k, (a, b) in enumerate([(1,2),(2,3),(3,6),(6,5),(5,4),(4,1)]):
        s += f"{k+1} 1 2 {names.index(walls[k]) + 1} {k+1} {a} {b}\\n"
    open(name, "w").write(s + "7 3 2 9 1 1 2 5 4\\n8 3 2 9 1 2 3 6 5\\n$EndElements\\n")


msh("0.msh", "aabbcc")
msh("1.msh", "ababab")


def get(name):
    r = gmsh.reader(name)
    r.read_data()
    return {n: sorted(set(b.index.list())) for n, b in r.export_mesh()._bocos.items()}


ref = [get(f"{k}.msh") for k in range(2)]
name = [n for n in vars(gmsh.reader) if n.endswith("__create_bnd")][0]
code = vars(gmsh.reader)[name].__code__
turn = [threading.Semaphore(1), threading.Semaphore(0)]
done, out, err = [False, False], {}, []


def thread(k):
    def trace(frame, event, arg):
        if frame.f_code is code and not done[1 - k]:
            turn[1 - k].release()
            turn[k].acquire()
    turn[k].acquire()
    sys.settrace(trace)
    try:
        out[k] = get(f"{k}.msh")
    except Exception as e:
        err.append(repr(e))
    finally:
        sys.settrace(None)
        done[k] = True
        turn[1 - k].release()


t = [threading.Thread(target=thread, args=(k,)) for k in range(2)]
[x.start() for x in t]
[x.join(100) for x in t]
if err or [out.get(0), out.get(1)] != ref:
    bad(f"{err} {out} {ref}")
''')

# ---------------------------------------------------------------- C12
bug('c12-time', 'C12', [('api.py',
'''        self._start_time = time.perf_counter()

    def pause(self):
''',
'''        self._start_time = time.time()

    def pause(self):
'''), ('api.py',
'''        self._elapsed += time.perf_counter() - self._start_time
''',
'''        self._elapsed += time.time() - self._start_time
''')],
    'a wall clock which is set back or forward while a timer runs',
    'elapsed times are wrong, even negative',
    MESH + '''
import time
real = time.time
t = api.Timer()
t.start()
time.time = lambda: real() - 3600
t.pause()
time.time = real
if not 0 <= t.elapsed < 60:
    bad(f"elapsed {t.elapsed}")
''')

bug('c12-exit', 'C12', [('api.py',
'''    def __exit__(self, *exitoptions):
        self.stop()
''',
'''    def __exit__(self, *exitoptions):
        # nothing to report if it failed
        if exitoptions[0] is None:
            self.stop()
''')],
    'an exception inside a with-block',
    'the timer is still running and can not be used again',
    MESH + '''
t = api.Timer("task")
try:
    with t:
        raise ValueError
except ValueError:
    pass
try:
    with t:
        pass
except api.TimerError as e:
    bad(str(e))
''')

bug('c12-stopcheck', 'C12', [('api.py',
'''        if nelem is not None:
            self._nelem = nelem
        self.pause()
''',
'''        if nelem is not None:
            self._nelem = nelem
        # may be paused
        if self._start_time is not None or self._elapsed == 0.0:
            self.pause()
''')],
    'a timer stopped while paused (start, pause, stop)',
    'stop of a timer which is not running is accepted and resets it',
    MESH + '''
t = api.Timer()
t.start()
t.pause()
e = t.elapsed
try:
    t.stop()
except api.TimerError:
    if t.elapsed != e:
        bad("changed by a refused stop")
    sys.exit(0)
bad("stop of a stopped timer accepted")
''')

# ---------------------------------------------------------------- C13
bug('c13-registry', 'C13', [('hdf5/_hdf5.py',
'''class h5File(_files):
''',
'''class h5File(_files):
    # all files which are open, to be able to list them
    _opened = []

'''), ('hdf5/_hdf5.py',
'''        except NameError:
            raise NameError(f"{self._path} can not be open in {mode} mode.")
''',
'''        except NameError:
            raise NameError(f"{self._path} can not be open in {mode} mode.")
        self._opened.append(self)
'''), ('hdf5/_hdf5.py',
'''    def close(self):
        return self._h5file.close()
''',
'''    def close(self):
        self._opened.remove(self)
        return self._h5file.close()
''')],
    'a dump or a CGNS read which fails, or is dropped without close',
    'the file stays open (and locked) for the life of the process',
    MESH + '''
import gc
import cfdtools.hdf5 as hdf5


def fail():
    ds = data.DataSetList(1)
    ds.set_mesh(Cube(2, 1, 1).export_mesh())
    ds.add_datalist({"P": object()})
    ds.dumphdf("o.h5", overwrite=True)


try:
    fail()
except Exception as e:
    print("refused:", type(e).__name__)
gc.collect()
for fd in os.listdir("/proc/self/fd"):
    try:
        if os.readlink("/proc/self/fd/" + fd).endswith("o.h5"):
            bad("o.h5 is still open")
    except OSError:
        pass
''')

bug('c13-ic3', 'C13', [('ic3/_ic3.py',
'''        log.debug('opening %s', self.filename)
        with open(self.filename, "rb") as self.fid:
            log.info("reading header (first section)")
            self._ReadRestartHeader()
            #
            reset_offset = True
            skip = 0
            while True:
''',
'''        log.debug('opening %s', self.filename)
        _briefed.append(open(self.filename, "rb"))
        self.fid = _briefed[-1]
        if self.fid:
            log.info("reading header (first section)")
            self._ReadRestartHeader()
            #
            reset_offset = True
            skip = 0
            while True:
'''), ('ic3/_ic3.py',
'''        log.debug('%s closed', self.filename)
        del self.fid

        return
''',
'''        _briefed.remove(self.fid)
        self.fid.close()
        log.debug('%s closed', self.filename)
        del self.fid

        return
'''), ('ic3/_ic3.py',
'''class binreader(api._files):
''',
'''_briefed = []


class binreader(api._files):
''')],
    'ic3brief of a file which can not be read to its end',
    'the file stays open for the life of the process',
    MESH + '''
import gc
writerV3.writer(Cube(2, 1, 1).export_mesh()).write_data("a.ic3")
b = open("a.ic3", "rb").read()
open("c.ic3", "wb").write(b[:-100])
try:
    cli.ic3brief(["c.ic3"])
except Exception as e:
    print("refused:", type(e).__name__)
gc.collect()
for fd in os.listdir("/proc/self/fd"):
    try:
        if os.readlink("/proc/self/fd/" + fd).endswith("c.ic3"):
            bad("c.ic3 is still open")
    except OSError:
        pass
''')

# ---------------------------------------------------------------- C14
bug('c14-product', 'C14', [('ic3/reader_legacy.py',
'''        assert h.idata[0] == no_count
        assert h.idata[1] == 3
        s = BinaryRead(
''',
'''        assert h.idata[0] * h.idata[1] == no_count * 3
        s = BinaryRead(
''')],
    'a coordinate section which announces (3, n) or another split of the same size',
    'the file is read as if its announced sizes were those of the mesh',
    MESH + '''
import struct
mesh = Cube(3, 2, 2).export_mesh()
writerV3.writer(mesh).write_data("a.ic3")
b = bytearray(open("a.ic3", "rb").read())
k = b.index(b"X_NO\\0")
n = mesh.nnode
assert struct.unpack("=2q", b[k + 64:k + 80])[:2] == (n, 3)
b[k + 64:k + 80] = struct.pack("=2q", 3, n)
open("c.ic3", "wb").write(b)
r = reader_legacy.reader("c.ic3")
try:
    r.read_data()
except Exception as e:
    print("rejected as it must:", type(e).__name__)
    sys.exit(0)
bad("read")
''')

bug('c14-skip', 'C14', [('ic3/_ic3.py',
'''            if self.skip() > 0:
                bfile.seek(self.skip() - 256, os.SEEK_CUR)
''',
'''            if self.skip() != 0:
                bfile.seek(self.skip() - 256, os.SEEK_CUR)
''')],
    'a section whose size is negative',
    'sections are read again and again, for ever',
    MESH + '''
import struct, signal
writerV3.writer(Cube(3, 2, 2).export_mesh()).write_data("a.ic3")
b = bytearray(open("a.ic3", "rb").read())
k = b.index(b"CV_PART\\0")
for jump in (0, -256, -512):
    b[k + 56:k + 64] = struct.pack("=q", jump)
    b[k + 52:k + 56] = struct.pack("=i", 77777)   # unknown section
    open("c.ic3", "wb").write(b)

    def slow(*a):
        bad("reads for ever")
    signal.signal(signal.SIGALRM, slow)
    signal.alarm(20)
    try:
        reader_legacy.reader("c.ic3").read_data()
    except Exception as e:
        print("rejected:", type(e).__name__)
    signal.alarm(0)
''')

# ---------------------------------------------------------------- C15
bug('c15-time', 'C15', [('probes/data.py',
'''                    if "time" not in self.alldata:
                        # if time missing, get it from current data, no consistency test with other data
                        if self.verbose:
                            log.info(" . define 'time'")
                        self.alldata["time"] = rdata[:, 1]
''',
'''                    # get it from current data, no consistency test with other data
                    if self.verbose:
                        log.info(" . define 'time'")
                    self.alldata["time"] = rdata[:, 1]
''')],
    'a second quantity read while its file has more (or less) records than the first one',
    'the time no longer goes with the records of the first quantity',
    MESH + '''
from cfdtools.probes.data import phydata


def probe(var, n):
    with open("p." + var, "w") as fid:
        for i in range(n):
            fid.write(" ".join(str(v) for v in [i, i * .5, 4, 1., 2., 3., 4. + i]) + "\\n")


probe("P", 4)
probe("RHO", 5)
p = phydata("p")
p.check_data("P", "p")
p.check_data("RHO", "p")
if p.alldata["time"].shape[0] != p.alldata["P"].shape[0]:
    bad(f"{p.alldata['P'].shape[0]} records of P, {p.alldata['time'].shape[0]} times")
''')

bug('c15-cache', 'C15', [('probes/data.py',
'''        fname = prefix + "." + varname
''',
'''        fname = prefix + "." + varname
        if fname in _known and os.path.exists(fname) and os.path.getsize(fname) == _known[fname][0]:
            # read before and unchanged
            self.alldata.update(_known[fname][1])
            return True
'''), ('probes/data.py',
'''                raise Error("unexpected data size " + varname)
            return True  # success
''',
'''                raise Error("unexpected data size " + varname)
            _known[fname] = os.path.getsize(fname), {k: self.alldata[k] for k in (varname, "time") if k in self.alldata}
            return True  # success
'''), ('probes/data.py',
'''class phydata:
''',
'''_known = {}


class phydata:
''')],
    'a probe file which has been rewritten with the same size (restart of the computation) between two requests',
    'the values of the old file are given again',
    MESH + '''
from cfdtools.probes.data import phydata


def probe(v):
    with open("p.P", "w") as fid:
        for i in range(4):
            fid.write(f"{i} {i * .5} 4 1. 2. 3. {v}\\n")


probe(5)
p = phydata("p")
p.check_data("P", "p")
probe(6)
p = phydata("p")
p.check_data("P", "p")
if p.alldata["P"][0, 3] != 6:
    bad(str(p.alldata["P"]))
''')

# ---------------------------------------------------------------- C06
bug('c06-eof', 'C06', [('ic3/_ic3.py',
'''            # Split the packed binary string into its tokens
            s = list(BinaryRead(bfile, self.binstr, byte_swap, self.hsize))

            # Remove trailing space from header name (h.name)
''',
'''            # Split the packed binary string into its tokens
            s = BinaryRead(bfile, self.binstr, byte_swap, self.hsize)
            if s is None and not reset_offset:
                # no section after those already read
                return False

            # Remove trailing space from header name (h.name)
''')],
    'a file with scalars, vectors and tensors, cut between two of its tensors or before its end section',
    'missing sections are taken for the end of the file',
    MESH + '''
mesh = Cube(3, 2, 2).export_mesh()
d = data.DataSet("cellaverage")
d.add_data("P", np.arange(12.))
d.add_data("U", np.arange(36.).reshape(12, 3))
d.add_data("R", np.arange(108.).reshape(12, 3, 3))
d.add_data("S", np.arange(108.).reshape(12, 3, 3))
mesh.set_celldata(d)
writerV3.writer(mesh).write_data("a.ic3")
b = open("a.ic3", "rb").read()
for cut in range(len(b) - 2600, len(b), 8):
    open("c.ic3", "wb").write(b[:cut])
    r = reader_legacy.reader("c.ic3")
    try:
        r.read_data()
    except Exception:
        continue
    bad(f"cut at {cut}/{len(b)} read as fields {list(r.celldata.keys())}")
''')
