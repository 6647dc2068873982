"""What a correct result is, decided from the reference mesh and independent decoders only."""
import copy

import numpy as np
from scipy.spatial import cKDTree

from harness.refmesh import FACES

MAXP = 6


def bits(a):
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        a = np.array(a, dtype=np.float64)
        a[np.isnan(a)] = np.nan
        return a.view(np.int64)
    if a.dtype.kind in 'iub':
        return a.astype(np.int64)
    return a


def eqarr(a, b):
    """same shape and same value of every entry, bit for bit (any NaN equals any NaN)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
        if (a.dtype.kind == 'f') != (b.dtype.kind == 'f'):
            a, b = a.astype(np.float64), b.astype(np.float64)
        return bool(np.array_equal(bits(a), bits(b)))
    return bool(np.array_equal(a, b))


def same(a, b, path=''):
    """deep equality of plain values; returns None or a description of the first difference"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f'{path}: {type(a).__name__} instead of {type(b).__name__}'
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} instead of {b.shape}'
        if a.dtype.kind != b.dtype.kind:
            return f'{path}: dtype {a.dtype} instead of {b.dtype}'
        if not eqarr(a, b):
            if a.dtype.kind in 'fiub':
                k = np.argwhere(bits(a).ravel() != bits(b).ravel()).ravel()
                return (f'{path}: {len(k)} of {a.size} values differ, first at {int(k[0])}: '
                        f'{a.ravel()[k[0]]!r} instead of {b.ravel()[k[0]]!r}')
            return f'{path}: values differ'
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path}: keys {sorted(map(str, set(a) - set(b)))} added, {sorted(map(str, set(b) - set(a)))} missing'
        for k in a:
            r = same(a[k], b[k], f'{path}.{k}')
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} items instead of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f'{path}[{i}]')
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if eqarr(np.float64(a), np.float64(b)) else f'{path}: {a!r} instead of {b!r}'
    return None if a == b else f'{path}: {str(a)[:80]!r} instead of {str(b)[:80]!r}'


# ------------------------------------------------------------------ geometry and topology
def match_nodes(pts, ref, exact, ordered):
    """-> (problem or None, map output node -> reference node)"""
    pts = np.asarray(pts, dtype=np.float64)
    if pts.shape != ref.shape:
        return f'{pts.shape[0]} nodes instead of {ref.shape[0]}', None
    if exact and eqarr(pts, ref):
        return None, np.arange(len(ref))
    if ordered and exact:
        k = int(np.argwhere((bits(pts) != bits(ref)).any(axis=1)).ravel()[0])
        return f'node {k} at {pts[k].tolist()} instead of {ref[k].tolist()}', None
    tol = 0.0 if exact else 1e-9 * max(1e-300, float(np.ptp(ref, axis=0).max()))
    if ordered:
        d = np.abs(pts - ref).max(axis=1)
        if d.max() > tol:
            k = int(d.argmax())
            return f'node {k} at {pts[k].tolist()} instead of {ref[k].tolist()}', None
        return None, np.arange(len(ref))
    if len(ref) > 60:
        d, out = cKDTree(ref).query(pts, p=np.inf)
    else:
        d = np.abs(pts[:, None, :] - ref[None, :, :]).max(axis=2)
        out = d.argmin(axis=1)
        d = d[np.arange(len(out)), out]
    bad = np.argwhere(~(d <= tol)).ravel()
    if bad.size:
        i = int(bad[0])
        return f'node {i} at {pts[i].tolist()} is not a node of the source mesh', None
    if len(set(out.tolist())) != len(ref):
        return 'a node of the source mesh appears twice', None
    return None, out


def cell_faces(et, nod):
    return frozenset(frozenset(nod[k] for k in f) for f in FACES[et])


def refcells(ref):
    """{face set of the cell: reference cell}"""
    if not hasattr(ref, '_fsets'):
        ref._fsets = {cell_faces(et, nod): i for i, (et, nod) in enumerate(ref.cells)}
    return ref._fsets


def check_cells(ref, nmap, cells, ordered, out, what):
    """cells: iterable of (etype, nodes); -> map output cell -> reference cell"""
    fs = refcells(ref)
    cells = list(cells)
    if len(cells) != ref.ncell:
        out.append(f'{what}: {len(cells)} cells instead of {ref.ncell}')
        return None
    cmap = []
    for i, (et, nod) in enumerate(cells):
        if et not in FACES or any(q < 0 or q >= len(nmap) for q in nod):
            out.append(f'{what}: cell {i} is {et} with nodes {nod}')
            return None
        nod = tuple(int(nmap[q]) for q in nod)
        j = fs.get(cell_faces(et, nod))
        if j is None:
            out.append(f'{what}: cell {i} ({et} {nod}) is not a cell of the source mesh')
            return None
        if ordered and j != i:
            out.append(f'{what}: cell {i} is cell {j} of the source mesh')
            return None
        if ref.cells[j][0] != et or (ref.dim == 3 and orient3(ref, et, nod) != orient3(ref, et, ref.cells[j][1])):
            out.append(f'{what}: cell {i} is turned inside out')
            return None
        cmap.append(j)
    if len(set(cmap)) != len(cmap):
        out.append(f'{what}: a cell appears twice')
        return None
    return np.array(cmap, dtype=int)


def xyz(ref):
    """the nodes as plain numbers (many small computations are faster on them)"""
    if getattr(ref, '_xyz', None) is None or ref._xyz[0] is not ref.nodes:
        ref._xyz = (ref.nodes, ref.nodes.tolist())
    return ref._xyz[1]


def area_centre(pts):
    """area vector of a polygon and the mean of its nodes"""
    cx, cy, cz = mean3(pts)
    rel = [(p[0] - cx, p[1] - cy, p[2] - cz) for p in pts]
    ax = ay = az = 0.0
    x1, y1, z1 = rel[-1]
    for x2, y2, z2 in rel:
        ax += y1 * z2 - z1 * y2
        ay += z1 * x2 - x1 * z2
        az += x1 * y2 - y1 * x2
        x1, y1, z1 = x2, y2, z2
    return (ax / 2, ay / 2, az / 2), (cx, cy, cz)


def outward(pts, c):
    a, m = area_centre(pts)
    return a[0] * (m[0] - c[0]) + a[1] * (m[1] - c[1]) + a[2] * (m[2] - c[2])


def mean3(pts):
    x = y = z = 0.0
    for p in pts:
        x += p[0]
        y += p[1]
        z += p[2]
    n = len(pts)
    return x / n, y / n, z / n


def orient3(ref, et, nod):
    """sign of the oriented volume: +1 / -1"""
    pts = xyz(ref)
    x = [pts[q] for q in nod]
    c = mean3(x)
    return 1 if sum(outward([x[k] for k in f], c) for f in FACES[et]) > 0 else -1


def same_cycle(a, b):
    """are a and b the same polygon (any start, any direction)?"""
    n = len(a)
    if n != len(b) or set(a) != set(b):
        return False
    if n <= 3:
        return True
    k = b.index(a[0])
    return tuple(b[(k + i) % n] for i in range(n)) == tuple(a) or tuple(b[(k - i) % n] for i in range(n)) == tuple(a)


def check_faces(ref, nmap, faces, out, what, ordered, cells_exact=True):
    """faces: [(nodes, c0, c1)] -> (list of reference face keys, map output cell -> reference cell)"""
    fm, cyc = ref.faces(), ref.face_cycles()
    if len(faces) != len(fm):
        out.append(f'{what}: {len(faces)} faces instead of {len(fm)}')
        return None, None
    keys, seen = [], set()
    bycell = {}
    for i, (nod, c0, c1) in enumerate(faces):
        if any(q < 0 or q >= len(nmap) for q in nod):
            out.append(f'{what}: face {i} has nodes {nod}')
            return None, None
        m = tuple(int(nmap[q]) for q in nod)
        k = frozenset(m)
        if k not in fm or len(k) != len(m):
            out.append(f'{what}: face {i} with nodes {m} is not a face of the mesh')
            return None, None
        if not same_cycle(m, cyc[k]):
            out.append(f'{what}: face {i} has its nodes in the order {m}, not around the face')
            return None, None
        if k in seen:
            out.append(f'{what}: face {i} appears twice')
            return None, None
        seen.add(k)
        keys.append((k, m))
        n = len(fm[k])
        if (c1 < 0) != (n == 1) or c0 < 0:
            out.append(f'{what}: face {i} between cells {c0} and {c1}, but it bounds {n} cells')
            return None, None
        for c in (c0, c1)[:n]:
            bycell.setdefault(c, set()).add(k)
    fs = refcells(ref)
    cmap = np.full(ref.ncell, -1)
    for c, s in bycell.items():
        if not 0 <= c < ref.ncell:
            out.append(f'{what}: cell index {c} out of range')
            return None, None
        j = fs.get(frozenset(s))
        if j is None:
            out.append(f'{what}: cell {c} is not enclosed by the faces of one cell of the mesh')
            return None, None
        if ordered and j != c:
            out.append(f'{what}: cell {c} has the faces of cell {j}')
            return None, None
        cmap[c] = j
    if (cmap < 0).any() or len(set(cmap.tolist())) != ref.ncell:
        out.append(f'{what}: some cells have no faces')
        return None, None
    if ref.dim == 3:
        pts = xyz(ref)
        cent = [mean3([pts[q] for q in ref.cells[j][1]]) for j in cmap.tolist()]
        for i, ((k, m), (nod, c0, c1)) in enumerate(zip(keys, faces)):
            if not outward([pts[q] for q in m], cent[c0]) > 0:
                out.append(f'{what}: face {i} is not oriented out of its first cell {c0}')
                break
    return [k for k, _ in keys], cmap


def expected_patches(ref):
    """{name: (set of faces, kind, perio)} and the unmarked boundary faces"""
    d = {n: (set(p['faces']), p['kind'], p['perio']) for n, p in ref.patches.items()}
    rest = set(ref.bfaces())
    for f, _, _ in d.values():
        rest -= f
    return d, rest


def pad16(t):
    t = np.asarray(t, dtype=float).ravel()
    return np.concatenate([t, np.zeros(max(0, 16 - t.size))])


def v4_patches(ref):
    """a v4 file has room for three values of a periodic transform"""
    return {n: dict(p, perio=None if p['perio'] is None else list(p['perio'])[:3]) for n, p in ref.patches.items()}


def check_patches(ref, keys, zones, out, what, kinds=True, contiguous=True, perio=True):
    """zones: [(name, kind, first, last, transform)] over the boundary faces (internal zones excluded)"""
    exp, rest = expected_patches(ref)
    fm = ref.faces()
    used, extra = set(), set()
    names = [z[0] for z in zones]
    if len(set(names)) != len(names):
        out.append(f'{what}: patch name twice in {names}')
    for name, kind, a, b, tr in zones:
        idx = range(a, b + 1) if contiguous else a
        if contiguous and not (0 <= a <= b < len(keys)):
            out.append(f'{what}: patch {name} covers faces {a}..{b} of {len(keys)}')
            continue
        got = {keys[i] for i in idx}
        if used & set(idx):
            out.append(f'{what}: patch {name} overlaps another one')
        used |= set(idx)
        if name in exp:
            if got != exp[name][0]:
                out.append(f'{what}: patch {name} holds {len(got)} faces, {len(got & exp[name][0])} of its {len(exp[name][0])}')
            if kinds and kind != exp[name][1]:
                out.append(f'{what}: patch {name} is {kind} instead of {exp[name][1]}')
            if perio and exp[name][1] != 'boundary':
                e = exp[name][2]
                if tr is None or not eqarr(pad16(tr), pad16(e)):
                    out.append(f'{what}: patch {name} has transform {None if tr is None else list(tr)} instead of {e}')
        else:
            extra |= got
            if any(len(fm[k]) != 1 for k in got):
                out.append(f'{what}: unknown patch {name} holds internal faces')
    miss = set(exp) - set(names)
    if miss:
        out.append(f'{what}: patches {sorted(miss)} are missing')
    elif extra != rest:
        out.append(f'{what}: {len(rest)} faces have no patch in the source, {len(extra)} are in other patches')


def check_data(ref, cmap, nmap, celldata, nodedata, out, what, cast=None, names=None, exact_names=True, node=True):
    """every named array, entry by entry, through the cell/node maps"""
    nd = ref.ndof
    for loc, exp, got, mp in (('cell', ref.celldata, celldata, cmap), ('node', ref.nodedata, nodedata, nmap)):
        if loc == 'node' and not node:
            continue
        exp = {k: v for k, v in exp.items() if names is None or k in names}
        if loc == 'node':
            exp = {k: v for k, v in exp.items() if v.ndim < 3}
        if exact_names and set(got) != set(exp):
            out.append(f'{what}: {loc} data {sorted(got)} instead of {sorted(exp)}')
            continue
        for k, e in exp.items():
            if k not in got:
                out.append(f'{what}: {loc} data {k} is missing')
                continue
            g = np.asarray(got[k])
            if mp is None:
                continue
            n = len(mp)
            mult = nd if loc == 'cell' else 1
            if g.size != e.size:
                out.append(f'{what}: {loc} data {k} has {g.size} values instead of {e.size}')
                continue
            if g.shape[0] != n * mult:
                out.append(f'{what}: {loc} data {k} has {g.shape[0]} rows for {n * mult} entries')
                continue
            g2 = g.reshape((n * mult,) + e.shape[1:])
            src = e if mult == 1 else e.reshape((n, mult) + e.shape[1:])
            e2 = src[mp].reshape(g2.shape)
            if cast is not None:
                e2 = e2.astype(cast) if e2.dtype.kind != 'f' else e2
            if (g2.dtype.kind == 'f') != (e2.dtype.kind == 'f'):
                out.append(f'{what}: {loc} data {k} has type {g2.dtype} instead of {e2.dtype}')
                continue
            if not eqarr(g2, e2):
                k0 = np.argwhere(bits(g2).ravel() != bits(e2).ravel()).ravel()
                out.append(f'{what}: {loc} data {k}: {len(k0)} of {g2.size} values differ, first at {int(k0[0])}: '
                           f'{g2.ravel()[k0[0]]!r} instead of {e2.ravel()[k0[0]]!r}')


def fnum(v):
    return np.float64(v)


def check_params(ref, got, out, what, keys=('step', 'dt', 'time'), wgt=True):
    for k in keys:
        e = ref.params.get(k, 0)
        if k not in got:
            out.append(f'{what}: {k} is missing')
        elif not eqarr(fnum(got[k]), fnum(e)):
            out.append(f'{what}: {k} is {got[k]!r} instead of {e!r}')
    if wgt:
        for k, e in ref.params.get('wgt', {}).items():
            g = got.get(k.lower() + '_wgt', got.get(k + '_wgt'))
            if g is None:
                out.append(f'{what}: weight {k} is missing')
            elif not eqarr(fnum(g), fnum(e)):
                out.append(f'{what}: weight {k} is {g!r} instead of {e!r}')


# ------------------------------------------------------------------ whole files
def check_ic3(ref, d, version, ordered=True, exact=True, nodedata=True, names=None, params=True, partition=True, kinds=True):
    """decoded IC3 v2/v3 file against a reference mesh"""
    out = []
    if d['version'] != version:
        out.append(f'format version {d["version"]} instead of {version}')
    err, nmap = match_nodes(d['nodes'], ref.nodes, exact, ordered)
    if err:
        return out + [err]
    faces = [(n, int(c[0]), int(c[1])) for n, c in zip(d['facenodes'], d['cvofa'])]
    keys, cmap = check_faces(ref, nmap, faces, out, 'file', ordered)
    if keys is None:
        return out
    zones = [z for z in d['zones'] if z[1] != 'internal']
    check_patches(ref, keys, zones, out, 'file', kinds=kinds)
    for z in d['zones']:
        if z[1] == 'internal':
            got = {keys[i] for i in range(max(z[2], 0), min(z[3] + 1, len(keys)))}
            if got != {k for k, c in ref.faces().items() if len(c) == 2}:
                out.append(f'internal zone {z[2]}..{z[3]} is not the set of internal faces')
    if d['counts'] != (ref.nnode, len(faces), ref.ncell, sum(len(f[0]) for f in faces)):
        out.append(f'counts {d["counts"]}')
    if version == 2 and set(d['checks']) != {20, 30, 40}:
        out.append(f'identifier sections {sorted(d["checks"])}')
    if partition:
        npart, icv = d['partition']
        e = ref.partition
        if e is None:
            if npart != 1 or (icv != 0).any():
                out.append('partition is not the single default one')
        elif npart != e['npart'] or not np.array_equal(icv, e['icvpart'][cmap]):
            out.append('partition differs')
    if params:
        check_params(ref, d['params'], out, 'file')
    check_data(ref, cmap, nmap, d['celldata'], d['nodedata'], out, 'file', cast=np.float64 if version == 2 else None,
               names=names, node=nodedata)
    if not nodedata and d['nodedata']:
        out.append(f'unexpected node data {sorted(d["nodedata"])}')
    for k, nd in d.get('ndof', {}).items():
        if version >= 3 and nd != ref.ndof:
            out.append(f'data {k} declares {nd} degrees of freedom instead of {ref.ndof}')
    return out


STATS = ('_AVG', '_RMS', '_REY')


def v4_fields(ref):
    f = {}
    if all(k in ref.celldata for k in ('RHO', 'RHOU', 'RHOE')):
        f.update({k: ref.celldata[k] for k in ('RHO', 'RHOU', 'RHOE')})
    f.update({k: a for k, a in ref.celldata.items() if any(s in k for s in STATS)})
    return f


def check_v4(ref, d, sol, ordered=True):
    out = []
    err, nmap = match_nodes(d['nodes'], ref.nodes, True, ordered)
    if err:
        return [err]
    if len(d['cvofa']) != len(d['facenodes']):
        return [f'{len(d["cvofa"])} face neighbours for {len(d["facenodes"])} faces']
    faces = [(n, int(c[0]), int(c[1])) for n, c in zip(d['facenodes'], d['cvofa'])]
    keys, cmap = check_faces(ref, nmap, faces, out, 'file', ordered)
    if keys is None:
        return out
    r3 = copy.copy(ref)
    r3.patches = v4_patches(ref)
    check_patches(r3, keys, [z for z in d['zones'] if z[1] != 'internal'], out, 'file')
    inner = [z for z in d['zones'] if z[1] == 'internal']
    nint = sum(1 for c in ref.faces().values() if len(c) == 2)
    if len(inner) != 1 or inner[0][3] - inner[0][2] + 1 != nint:
        out.append(f'internal zone {inner}')
    if d['counts'] != (ref.nnode, len(faces), ref.ncell):
        out.append(f'counts {d["counts"]}')
    if 'cells' in d:
        got = sorted((et, tuple(r)) for et, a in d['cells'].items() for r in np.asarray(a).tolist())
        if got != sorted((et, tuple(n)) for et, n in ref.cells):
            out.append('cell connectivity differs')
    if sol:
        check_params(ref, d['params'], out, 'solution', keys=('step', 'time'), wgt=False)
        exp = v4_fields(ref)
        got = {k.upper(): a for k, a in d['celldata'].items()}
        if set(got) != {k.upper() for k in exp}:
            out.append(f'solution fields {sorted(got)} instead of {sorted(exp)}')
        else:
            for k, e in exp.items():
                if not eqarr(np.asarray(got[k.upper()]).ravel(), e.astype(np.float64).ravel()):
                    out.append(f'solution field {k} differs')
        if any(any(s in k for s in STATS) for k in exp):
            for k, e in ref.params.items():
                if k.endswith('_wgt') and not eqarr(fnum(d['wgt'].get(k, np.nan)), fnum(e)):
                    out.append(f'weight {k} is {d["wgt"].get(k)!r} instead of {e!r}')
    return out


def check_vtu(ref, d, exact=True, ordered=True, celldata=None):
    out = []
    err, nmap = match_nodes(d['points'], ref.nodes, exact, ordered)
    if err:
        return [err]
    cmap = check_cells(ref, nmap, d['cells'], False, out, 'file')
    return out


def check_canon(ref, d, ordered=True, exact=True, what='read back', data=True, nodedata=True, params=True, names=None,
                marks=True, cast=None, partition=False, wgt=True, pkeys=('step', 'dt', 'time'), kinds=True, perio=True,
                cellorder=None):
    """mesh exported by the package against a reference mesh"""
    out = []
    err, nmap = match_nodes(d['nodes'], ref.nodes, exact, ordered)
    if err:
        return [f'{what}: {err}']
    if d['ncell'] != ref.ncell or d['nnode'] != ref.nnode:
        return [f'{what}: {d["ncell"]} cells and {d["nnode"]} nodes instead of {ref.ncell} and {ref.nnode}']
    cmap = None
    if d['cells'] is not None:
        if sorted(d['cells']) != list(range(ref.ncell)) or d['ncell_listed'] != ref.ncell:
            return [f'{what}: cells are not numbered 0..{ref.ncell - 1}']
        cmap = check_cells(ref, nmap, [d['cells'][i] for i in range(ref.ncell)],
                           ordered if cellorder is None else cellorder, out, what)
        if cmap is None:
            return out
    keys = None
    if 'mixed' in d['faces']:
        fl = d['faces']['mixed']['f']
        if [i for i, _ in fl] != list(range(len(fl))):
            return out + [f'{what}: faces are not numbered 0..{len(fl) - 1}']
        conn = d['faces']['mixed']['c']
        if len(conn) != len(fl):
            return out + [f'{what}: {len(conn)} face neighbours for {len(fl)} faces']
        faces = [(nod, int(c[0]), int(c[1])) for (_, nod), c in zip(fl, conn)]
        keys, cmap = check_faces(ref, nmap, faces, out, what, ordered if cellorder is None else cellorder)
        if keys is None:
            return out
    if marks:
        exp, rest = expected_patches(ref)
        for name, m in d['marks'].items():
            if m['type'] == 'internal':
                continue
            if m['geodim'] in ('face', 'bdface') and keys is not None:
                pass
            elif m['geodim'] in ('node', 'bdnode') and name in exp:
                got = {int(nmap[q]) for q in m['index']}
                e = {q for f in exp[name][0] for q in f}
                if got != e:
                    out.append(f'{what}: mark {name} holds {len(got)} nodes, {len(got & e)} of its {len(e)}')
        if keys is not None:
            z = [(n, m['type'], m['index'], None, m['perio']) for n, m in d['marks'].items() if m['type'] != 'internal']
            if any(i >= len(keys) for q in z for i in q[2]):
                out.append(f'{what}: marks out of the face range')
            else:
                check_patches(ref, keys, z, out, what, kinds=kinds, contiguous=False, perio=perio)
        else:
            miss = set(exp) - set(d['marks'])
            if miss:
                out.append(f'{what}: marks {sorted(miss)} are missing')
            more = {n for n, m in d['marks'].items() if m['type'] != 'internal'} - set(exp)
            if more:
                out.append(f'{what}: unknown marks {sorted(more)}')
    if data:
        check_data(ref, cmap, nmap, d['celldata'], d['nodedata'], out, what, cast=cast, names=names, node=nodedata)
    if params:
        check_params(ref, d['params'], out, what, keys=pkeys, wgt=wgt)
    if partition and ref.partition is not None:
        p = d['partition']
        if p is None or p['npart'] != ref.partition['npart'] or not np.array_equal(p['icvpart'], ref.partition['icvpart'][cmap]):
            out.append(f'{what}: partition differs')
    return out
