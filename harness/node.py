"""What runs inside a simulated node: the real package, driven by small JSON actions.

Everything here executes in a forked node process, under the I/O seam.  Results are plain
picklable values; the oracles look at them from outside.
"""
import gc
import os
import sys
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
P = None      # namespace of package modules


class _NS:
    pass


def bootstrap():
    """import third parties normally, then cfdtools from /repo's sources (no stale bytecode)"""
    global P
    if P is not None:
        return P
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import logging
    import argparse  # noqa: F401
    import h5py  # noqa: F401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401
    import scipy.spatial  # noqa: F401
    import scipy.fft  # noqa: F401
    import pyvista as pv
    import vtk
    vtk.vtkObject.GlobalWarningDisplayOff
    sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in repr(f).lower()]
    sys.path[:] = [p for p in sys.path if p not in ('', os.getcwd()) or p.startswith('/opt/venv')]
    sys.path.insert(0, REPO)
    sys.pycache_prefix = '/nonexistent-pycache'
    from harness import simlock
    simlock.install()
    import cfdtools
    if not os.path.realpath(cfdtools.__file__).startswith(os.path.realpath(REPO) + '/'):
        raise RuntimeError(f'cfdtools imported from {cfdtools.__file__}, not from {REPO}')
    import cfdtools.api
    import cfdtools._cli
    import cfdtools.cgns
    import cfdtools.data
    import cfdtools.gmsh
    import cfdtools.hdf5
    import cfdtools.ic3
    import cfdtools.ic3.readerV4
    import cfdtools.ic3.writerV2
    import cfdtools.ic3.writerV3
    import cfdtools.ic3.writerV4
    import cfdtools.meshbase._connectivity
    import cfdtools.meshbase._mesh
    import cfdtools.meshbase.simple
    import cfdtools.probes.data
    import cfdtools.probes.plot
    import cfdtools.vtk
    simlock.uninstall()
    sys.pycache_prefix = None
    logging.getLogger('cfdtools').setLevel(logging.WARNING)
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    ns = _NS()
    ns.api, ns.cli, ns.cgns, ns.data = cfdtools.api, cfdtools._cli, cfdtools.cgns, cfdtools.data
    ns.gmsh, ns.hdf5, ns.ic3 = cfdtools.gmsh, cfdtools.hdf5, cfdtools.ic3
    ns.rv4, ns.w2, ns.w3, ns.w4 = (cfdtools.ic3.readerV4, cfdtools.ic3.writerV2, cfdtools.ic3.writerV3,
                                   cfdtools.ic3.writerV4)
    ns.conn, ns.mesh, ns.simple = cfdtools.meshbase._connectivity, cfdtools.meshbase._mesh, cfdtools.meshbase.simple
    ns.probes, ns.vtk, ns.pv = cfdtools.probes.data, cfdtools.vtk, pv
    ns.probeplot = cfdtools.probes.plot
    P = ns
    return ns


def prewarm(scratch):
    """lazy imports and one-time initialisations of the third parties (never of cfdtools)"""
    import h5py
    import pyvista as pv
    d = os.path.join(scratch, 'warm')
    os.makedirs(d, exist_ok=True)
    g = pv.UnstructuredGrid({pv.CellType.HEXAHEDRON: np.array([[0, 1, 2, 3, 4, 5, 6, 7]])},
                            np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1.]]))
    g.cell_data['a'] = np.zeros(1)
    g.save(os.path.join(d, 'a.vtu'))
    with pv.VtkErrorCatcher(raise_errors=True):
        m = pv.read(os.path.join(d, 'a.vtu'))
    m.cell_centers().points
    m.cells_dict
    with h5py.File(os.path.join(d, 'a.h5'), 'w') as f:
        f.attrs['s'] = 'x'
        f.create_dataset('d', data=np.zeros(3), compression='gzip').flush()
        f.create_dataset('l', data=['a'], dtype=h5py.string_dtype(encoding='utf-8', length=128))
    with h5py.File(os.path.join(d, 'a.h5'), 'r') as f:
        f['d'][()]
        f['l'][()]
    np.genfromtxt(['1 2 3\n', '2 3 4\n'], delimiter=' ', loose=False)
    import matplotlib.pyplot as plt
    fig = plt.figure(1)
    plt.contourf([0, 1], [0, 1], np.array([[0, 1], [2, 3.]]), levels=3)
    plt.colorbar()
    fig.savefig(os.path.join(d, 'a.png'), bbox_inches='tight')
    fig.clf()
    try:
        with pv.VtkErrorCatcher(raise_errors=True):
            pv.read(os.path.join(d, 'missing.vtu'))
    except Exception:  # noqa: BLE001
        pass
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    gc.collect()


# ------------------------------------------------------------------ plain values
def plain(v):
    if isinstance(v, np.ndarray):
        a = np.array(v)
        return a
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, bytes):
        return v.decode('utf8', 'replace')
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(type(v).__name__)


def _items(data):
    if data is None:
        return {}
    return {str(k): np.array(v) for k, v in data.items()}


def _ix(lst):
    return [int(np.ravel(i)[0]) for i in lst]


def canon(m):
    """content of a package mesh as plain values"""
    d = {'ncell': int(m.ncell), 'nnode': int(m.nnode), 'nface': int(m.nface)}
    d['nodes'] = np.array(m.nodescoord(ndarray=True), dtype=np.float64)
    d['cells'] = None
    if m._cell2node is not None:
        cells = {}
        for et, e in m._cell2node.items():
            con = np.array(e['elem2node'])
            for i, row in zip(_ix(e['index'].list()), con.tolist()):
                cells[i] = (et, tuple(int(q) for q in row))
        d['cells'] = cells
        d['ncell_listed'] = sum(len(e['index'].list()) for _, e in m._cell2node.items())
    d['faces'] = {}
    for t, f in m._faces.items():
        lst = [(int(np.ravel(i)[0]), tuple(int(q) for q in nod)) for i, nod in f['face2node'].index_elem_tuples()]
        c = f['face2cell']
        d['faces'][t] = {'f': sorted(lst), 'c': None if c is None else np.array(c.conn)}
    d['marks'] = {}
    for name, b in m._bocos.items():
        pt = b.properties.get('periodic_transform')
        d['marks'][str(name)] = {'geodim': b.geodim, 'type': b.properties.get('type'),
                                 'index': sorted(_ix(b.index.list())),
                                 'perio': None if pt is None else [float(x) for x in pt]}
    d['celldata'] = _items(m._celldata)
    d['nodedata'] = _items(m._nodedata)
    d['facedata'] = _items(m._facedata)
    d['ndof'] = int(getattr(m._celldata, 'ndof', 1))
    d['params'] = {str(k): plain(v) for k, v in m._params.items()}
    p = m._cellprop.get('partition') if m._cellprop else None
    d['partition'] = None if not p else {'npart': int(p.get('npart', 1)),
                                         'icvpart': np.array(p.get('icvpart', []), dtype=np.int64)}
    return d


# ------------------------------------------------------------------ meshes given to the writers
def layout(a, how):
    """the same values, stored otherwise"""
    if how == 'F':
        return np.array(a, order='F')
    if how == 'view':
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype) - 7
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'neg':
        return np.array(a[::-1])[::-1]
    if how == 'i4' and a.dtype.kind == 'i' and a.ndim == 2:
        return a.astype(np.int32)
    if how == 'be':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'ro':
        b = np.array(a)
        b.flags.writeable = False
        return b
    return np.array(a)


def make_mesh(ref, marks='node', celldata=True, nodedata=True, params=True, partition=True, order=None):
    """package Mesh holding exactly a RefMesh"""
    M, C, D = P.mesh, P.conn, P.data
    how = ref.arr
    m = M.Mesh(ncell=ref.ncell, nnode=ref.nnode)
    if how in ('list', 'xyz'):
        m.set_nodescoord_xyz(*[c.tolist() if how == 'list' else np.array(c) for c in ref.nodes.T])
    else:
        m.set_nodescoord_nd(layout(ref.nodes, how))
    con = C.elem_connectivity()
    for et, (ind, arr) in ref.blocks().items():
        con.add_elems(et, layout(arr, how), C.indexlist(ilist=list(ind)))
    m.set_cell2node(con)
    for name, p in ref.patches.items():
        b = M.submeshmark(name)
        b.geodim = 'bdnode'
        b.type = p['kind']
        b.properties['periodic_transform'] = None if p['perio'] is None else list(p['perio'])
        b.index = C.indexlist(ilist=list(p['nodes']))
        m.add_boco(b)
    if celldata and ref.celldata:
        ds = D.DataSet('cellaverage') if ref.ndof == 1 else D.DataSet('spectralcell', ndof=ref.ndof)
        for k, a in ref.celldata.items():
            ds.add_data(k, layout(a, how))
        m.set_celldata(ds)
    if nodedata and ref.nodedata:
        ds = D.DataSet('nodal')
        for k, a in ref.nodedata.items():
            ds.add_data(k, layout(a, how))
        m.set_nodedata(ds)
    if params:
        m.set_params({k: (dict(v) if isinstance(v, dict) else v) for k, v in ref.params.items()})
    if partition and ref.partition:
        m.set_partition({'npart': ref.partition['npart'], 'icvpart': ref.partition['icvpart'].copy()})
    return m


def writer_for(fmt, mesh, endian='native'):
    if fmt == 'ic3v2':
        return P.w2.writer(mesh, endian=endian)
    if fmt == 'ic3v3':
        return P.w3.writer(mesh, endian=endian)
    if fmt == 'v4':
        return P.w4.writer(mesh)
    if fmt == 'vtu':
        return P.vtk.vtkMesh(mesh)
    raise ValueError(fmt)


def do_write(w, path, sol=None):
    if sol:
        w.write_data(path, sol)
    else:
        w.write_data(path)


# ------------------------------------------------------------------ readers
def open_reader(fmt, path, integrity=False, sol=None):
    if fmt == 'ic3':
        return P.ic3.reader(path, cIntegrity=integrity)
    if fmt == 'v4':
        return P.rv4.reader(path, sol)
    if fmt == 'gmsh':
        return P.gmsh.reader(path)
    if fmt == 'cgns':
        return P.cgns.cgnsMesh(path)
    raise ValueError(fmt)


def pv_data(grid):
    return {'cell': {str(k): np.array(grid.cell_data[k]) for k in grid.cell_data.keys()},
            'point': {str(k): np.array(grid.point_data[k]) for k in grid.point_data.keys()},
            'field': {str(k): np.array(grid.field_data[k]) for k in grid.field_data.keys()}}


def read_mesh(fmt, path, integrity=False, sol=None):
    """canonical content of a file through the package"""
    if fmt == 'vtu':
        v = P.vtk.vtkMesh()
        v.read(path)
        d = canon(v.export_mesh())
        d['pv'] = pv_data(v.pyvista_grid)
        return d
    if fmt == 'packed':
        return read_packed(path)
    r = open_reader(fmt, path, integrity, sol)
    r.read_data()
    d = canon(r.export_mesh())
    d['rncell'] = int(r.ncell)
    return d


def read_packed(path):
    f = P.hdf5.h5File(path)
    f.open()
    try:
        v = P.vtk.vtkMesh()
        v.importhdfgroup(f['mesh'])
        d = canon(v.export_mesh())
        g = v.pyvista_grid
        d['grid'] = [[int(t), sorted(int(q) for q in g.get_cell(i).point_ids)] for i, t in enumerate(g.celltypes)]
        d['datatype'] = plain(f.datatype)
        dl = f['datalist'] if d['datatype'] == 'datalist' else {}
        # not items(): h5py gives None for what it cannot open
        d['groups'] = {k: {'attrs': {a: plain(np.array(dl[k].attrs[a])) for a in dl[k].attrs},
                           'data': {n: np.array(dl[k][n]) for n in dl[k]}} for k in dl}
    finally:
        f.close()
    return d


def read_vtklist(files, filterdata=None):
    vl = P.vtk.vtkList(list(files))
    if not vl.allexist():
        raise FileNotFoundError('some files are missing')
    vl.read(filterdata=list(filterdata) if filterdata else None)
    return {'ncell': int(vl._mesh.n_cells), 'points': np.array(vl._mesh.points),
            'data': [{k: np.array(v) for k, v in d.items()} for d in vl._data._datalist]}


def read_probes(prefix, names):
    d = P.probes.phydata(prefix)
    for n in names:
        d.check_data(n, prefix=prefix)
    return {k: np.array(v) for k, v in d.alldata.items()}


def open_fds(root):
    """descriptors of this process on the simulated disk"""
    out = []
    for n in sorted(os.listdir('/proc/self/fd'), key=int):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t == root or t.startswith(root + '/'):
            out.append(t[len(root) + 1:])
    return out
