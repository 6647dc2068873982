"""Reference meshes: generated independently of cfdtools, with everything the oracles need.

A RefMesh knows its nodes, cells, faces (derived here from its own face tables), named
boundary patches and data.  It is a pure function of a small JSON description.
"""
import itertools

import numpy as np

from sim.core import rng_for

# local faces of each element (CGNS numbering), as node sets only: orientation is checked geometrically
FACES = {
    'hexa8': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3), (4, 5, 6, 7)],
    'prism6': [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 2, 1), (3, 4, 5)],
    'tetra4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    'pyra5': [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    'tri3': [(0, 1), (1, 2), (2, 0)],
    'quad4': [(0, 1), (1, 2), (2, 3), (3, 0)],
}
NNODE = {'hexa8': 8, 'prism6': 6, 'tetra4': 4, 'pyra5': 5, 'tri3': 3, 'quad4': 4}
ORDER = ['hexa8', 'prism6', 'tetra4', 'pyra5', 'tri3', 'quad4']
# rotations of the local numbering that keep the element valid
ROT = {
    'hexa8': [[0, 1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 0, 5, 6, 7, 4], [4, 7, 6, 5, 0, 3, 2, 1]],
    'prism6': [[0, 1, 2, 3, 4, 5], [1, 2, 0, 4, 5, 3]],
    'tetra4': [[0, 1, 2, 3], [1, 2, 0, 3]],
    'pyra5': [[0, 1, 2, 3, 4], [1, 2, 3, 0, 4]],
    'tri3': [[0, 1, 2], [1, 2, 0]],
    'quad4': [[0, 1, 2, 3], [1, 2, 3, 0]],
}
SIDES = ('imin', 'imax', 'jmin', 'jmax', 'kmin', 'kmax')


class RefMesh:
    def __init__(self):
        self.nodes = None            # (n,3)
        self.cells = []              # list of (etype, tuple nodes), position = global cell index
        self.patches = {}            # name -> {'faces': set(frozenset), 'nodes': sorted list, 'kind':, 'perio':}
        self.dim = 3
        self.celldata = {}           # name -> array
        self.nodedata = {}
        self.ndof = 1
        self.params = {}
        self.partition = None
        self.facemap = None
        self.zshuf = None
        self.arr = None              # how the arrays of an in-memory mesh are laid out

    @property
    def ncell(self):
        return len(self.cells)

    @property
    def nnode(self):
        return self.nodes.shape[0]

    def blocks(self):
        """{etype: (global indexes, connectivity array)} in order of first appearance of ORDER"""
        out = {}
        for et in ORDER:
            ind = [i for i, (t, _) in enumerate(self.cells) if t == et]
            if ind:
                out[et] = (ind, np.array([self.cells[i][1] for i in ind], dtype=np.int64))
        return out

    def faces(self):
        """{frozenset(nodes): [cells]}"""
        if self.facemap is None:
            fm = {}
            for ic, (et, nod) in enumerate(self.cells):
                for f in FACES[et]:
                    fm.setdefault(frozenset(nod[k] for k in f), []).append(ic)
            self.facemap = fm
        return self.facemap

    def bfaces(self):
        return {f for f, c in self.faces().items() if len(c) == 1}

    def face_cycles(self):
        """{frozenset: node tuple oriented out of its first cell}"""
        out = {}
        for ic, (et, nod) in enumerate(self.cells):
            for f in FACES[et]:
                key = frozenset(nod[k] for k in f)
                if key not in out:
                    out[key] = tuple(nod[k] for k in f)
        return out

    def centroid(self, ic):
        return self.nodes[list(self.cells[ic][1])].mean(axis=0)


def _kuhn():
    # 6 tetrahedra of a unit cube, conforming with its neighbours
    corner = {(0, 0, 0): 0, (1, 0, 0): 1, (1, 1, 0): 2, (0, 1, 0): 3, (0, 0, 1): 4, (1, 0, 1): 5, (1, 1, 1): 6, (0, 1, 1): 7}
    tets = []
    for perm in itertools.permutations(range(3)):
        p = [0, 0, 0]
        path = [tuple(p)]
        for a in perm:
            p[a] = 1
            path.append(tuple(p))
        t = [corner[q] for q in path]
        v = np.array(path, float)
        if np.linalg.det(v[1:] - v[0]) < 0:
            t[1], t[2] = t[2], t[1]
        tets.append(tuple(t))
    return tets


KUHN = _kuhn()


# larger moves of the nodes could turn cells inside out
PERT = {'hexa': 0.6, 'quad': 0.6, 'tetra': 0.3}


def build(spec):
    """spec: {'kind','n':[..],'seed','perm','pert','marks','drop', data..} -> RefMesh"""
    r = rng_for('mesh', spec['seed'])
    nx, ny, nz = spec['n']
    kind = spec['kind']
    m = RefMesh()
    m.dim = 2 if kind in ('tri', 'quad', 'mix2') else 3
    if m.dim == 2:
        nz = 0
    lx, ly, lz = spec.get('len', [1.0, 1.0, 1.0])

    def nid(i, j, k):
        return (k * (ny + 1) + j) * (nx + 1) + i

    pts = []
    onside = []
    for k in range(nz + 1):
        for j in range(ny + 1):
            for i in range(nx + 1):
                p = [lx * i / nx, ly * j / ny, lz * k / nz if nz else 0.0]
                s = {n for n, c in zip(SIDES, (i == 0, i == nx, j == 0, j == ny, k == 0, k == nz)) if c}
                amp = min(spec.get('pert', 0.0), PERT.get(kind, 0.45))
                if amp:
                    if 0 < i < nx:
                        p[0] += amp * lx / nx * (r.random() - 0.5)
                    if 0 < j < ny:
                        p[1] += amp * ly / ny * (r.random() - 0.5)
                    if nz and 0 < k < nz:
                        p[2] += amp * lz / nz * (r.random() - 0.5)
                pts.append(p)
                onside.append(s)
    cells = []
    if m.dim == 2:
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = nid(i, j, 0), nid(i + 1, j, 0), nid(i + 1, j + 1, 0), nid(i, j + 1, 0)
                tri = kind == 'tri' or (kind == 'mix2' and r.random() < 0.5)
                if tri:
                    cells += [('tri3', (a, b, c)), ('tri3', (a, c, d))]
                else:
                    cells.append(('quad4', (a, b, c, d)))
    else:
        col = {(i, j): r.random() < 0.5 for i in range(nx) for j in range(ny)}
        if kind == 'mix':           # at least one of each
            col[(0, 0)] = True
            col[(nx - 1, ny - 1)] = False
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    h = (nid(i, j, k), nid(i + 1, j, k), nid(i + 1, j + 1, k), nid(i, j + 1, k),
                         nid(i, j, k + 1), nid(i + 1, j, k + 1), nid(i + 1, j + 1, k + 1), nid(i, j + 1, k + 1))
                    if kind == 'hexa':
                        sub = 'h'
                    elif kind == 'prism':
                        sub = 'p'
                    elif kind == 'tetra':
                        sub = 't'
                    elif kind == 'pyra':
                        sub = 'y'
                    elif kind == 'hexpri':
                        sub = 'p' if col[(i, j)] else 'h'
                    elif kind == 'hexpyr':
                        sub = 'y' if r.random() < 0.4 or (i, j, k) == (0, 0, 0) else 'h'
                    else:           # mix: hexa, prism, pyramid
                        sub = 'p' if col[(i, j)] else ('y' if r.random() < 0.4 else 'h')
                    if sub == 'h':
                        cells.append(('hexa8', h))
                    elif sub == 'p':
                        cells.append(('prism6', (h[0], h[1], h[2], h[4], h[5], h[6])))
                        cells.append(('prism6', (h[0], h[2], h[3], h[4], h[6], h[7])))
                    elif sub == 't':
                        for t in KUHN:
                            cells.append(('tetra4', tuple(h[q] for q in t)))
                    else:
                        c = len(pts)
                        pts.append(np.mean([pts[q] for q in h], axis=0).tolist())
                        onside.append(set())
                        for f in FACES['hexa8']:
                            # FACES are outward: the base of a pyramid is seen from its apex reversed
                            cells.append(('pyra5', tuple(h[q] for q in reversed(f)) + (c,)))
    # local rotations
    if spec.get('rot'):
        cells = [(t, tuple(nod[q] for q in r.choice(ROT[t]))) for t, nod in cells]
    perm = spec.get('perm', 'none')
    n = len(pts)
    new = list(range(n))
    if 'n' in perm:
        r.shuffle(new)               # old -> new
    arr = np.zeros((n, 3))
    side = [None] * n
    for o, w in enumerate(new):
        arr[w] = pts[o]
        side[w] = onside[o]
    cells = [(t, tuple(new[q] for q in nod)) for t, nod in cells]
    if 'c' in perm:
        r.shuffle(cells)             # element types interleaved in the global numbering
    elif 't' in perm:
        cells.sort(key=lambda c: ORDER.index(c[0]))
    if spec.get('split'):
        arr, cells, side = split(r, spec['split'], arr, cells, side)
        n = len(arr)
    m.nodes = arr
    m.cells = cells
    m.arr = spec.get('arr')
    m.zshuf = spec['seed'] if spec.get('zshuf') else None
    # patches
    sides = SIDES[:4] if m.dim == 2 else SIDES
    names = spec.get('names') or {}
    drop = set(spec.get('drop', ()))
    merge = spec.get('merge') or {}
    bf = m.bfaces()
    for s in sides:
        if s in drop:
            continue
        faces = {f for f in bf if all(s in side[q] for q in f)}
        name = names.get(merge.get(s, s), merge.get(s, s))
        p = m.patches.setdefault(name, {'faces': set(), 'nodes': set(), 'kind': 'boundary', 'perio': None})
        p['faces'] |= faces
        p['nodes'] |= {q for q in range(n) if s in side[q]}
        if s in (spec.get('perio') or {}):
            k, tr = spec['perio'][s]
            p['kind'], p['perio'] = k, tr
    for p in m.patches.values():
        p['nodes'] = sorted(p['nodes'])
    add_data(m, spec)
    return m


def split(r, how, pts, cells, side):
    """nodes at the same place, on an inner surface between cells that no longer touch, and nodes of no cell"""
    pts, side = pts.tolist(), list(side)
    if 'b' in how:
        # keep two neighbours glued: there must be an inner face
        fm = {}
        for ic, (et, nod) in enumerate(cells):
            for f in FACES[et]:
                fm.setdefault(frozenset(nod[k] for k in f), []).append(ic)
        inner = sorted((c for c in fm.values() if len(c) == 2))
        keep = r.choice(inner)
        free = [ic for ic in range(len(cells)) if ic not in keep]
        move = set(r.sample(free, r.randrange(1, len(free) + 1))) if free else set()
        glued = {q for ic in range(len(cells)) if ic not in move for q in cells[ic][1]}
        new = {}
        for q in sorted({q for ic in move for q in cells[ic][1]} & glued):
            new[q] = len(pts)
            pts.append(list(pts[q]))
            side.append(side[q])
        cells = [(t, tuple(new.get(q, q) for q in nod) if ic in move else nod) for ic, (t, nod) in enumerate(cells)]
    if 'o' in how:
        for _ in range(r.randrange(1, 4)):
            pts.append(list(r.choice(pts)) if r.random() < 0.5 else [r.uniform(-1, 2) for _ in range(3)])
            side.append(set())
    if 's' in how:                   # the new nodes anywhere in the numbering
        new = list(range(len(pts)))
        r.shuffle(new)
        p2, s2 = [None] * len(pts), [None] * len(pts)
        for o, w in enumerate(new):
            p2[w], s2[w] = pts[o], side[o]
        pts, side = p2, s2
        cells = [(t, tuple(new[q] for q in nod)) for t, nod in cells]
    return np.array(pts), cells, side


SPECIALS = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308, -1e-310, 1 / 3]


def field(r, n, comp, integer, special, tag):
    """array whose every entry is unique (a misplaced value is always seen)"""
    size = n * (comp ** 1 if isinstance(comp, int) else 1)
    base = r.randrange(1, 900) * 1000
    if integer:
        a = np.array([base * 1000 + 7 * i + (r.randrange(2 ** 40) << 20) for i in range(size)], dtype=np.int64)
        if special and size:
            a[r.randrange(size)] = r.choice([2 ** 62, -(2 ** 62), 0, -1])
        return a
    a = np.array([base + i + r.random() for i in range(size)], dtype=np.float64)
    if special:
        for _ in range(1 + r.randrange(3)):
            a[r.randrange(size)] = r.choice(SPECIALS)
    return a


def add_data(m, spec):
    for loc, n in (('cell', m.ncell), ('node', m.nnode)):
        for d in spec.get(loc + 'data', ()):
            r = rng_for('data', spec['seed'], loc, d['name'])
            nd = m.ndof = spec.get('ndof', 1)
            k = n * nd if loc == 'cell' else n
            rank = d['rank']
            a = field(r, k, 3 ** rank, d.get('int', False), d.get('special', False), d['name'])
            if rank:
                a = a.reshape((k,) + (3,) * rank)
            (m.celldata if loc == 'cell' else m.nodedata)[d['name']] = a
    m.ndof = spec.get('ndof', 1)
    m.params = dict(spec.get('params', {}))
    if spec.get('npart'):
        r = rng_for('part', spec['seed'])
        m.partition = {'npart': spec['npart'],
                       'icvpart': np.array([r.randrange(spec['npart']) for _ in range(m.ncell)], dtype=np.int32)}


# ------------------------------------------------------------------ random descriptions
NAMES = ['RHO', 'RHOU', 'RHOE', 'P', 'T', 'U_AVG', 'P_RMS', 'U_REY', 'Q', 'MU_LAM', 'n_dof', 'x', 'Y+', 'k.eps',
         'a b', 'A_VERY_LONG_NAME_OF_A_VARIABLE_THAT_FILLS_THE_HEADER', 'i', 'flag']


def rand_spec(r, kinds=('hexa', 'prism', 'tetra', 'pyra', 'hexpri', 'hexpyr', 'mix'), big=False, data=True,
              perio=True, ndof=False, ints=True, nodedata=True, special=True, split=False):
    kind = r.choice(kinds)
    n = [r.choice([1, 2, 2, 2, 2, 3]) for _ in range(3)]
    if n.count(1) == 3 or (n[0] == n[1] == 1 and kind in ('tri', 'quad', 'mix2')):
        n[0] = 2
    if kind in ('tetra', 'pyra') and not big:
        n = [r.choice([1, 2]), 2, r.choice([2, 2, 3])]
    if big:
        n = [r.randrange(3, 7) for _ in range(3)]
        if r.random() < 0.16:
            n = huge(r, kind)
    s = {'kind': kind, 'n': n, 'seed': r.randrange(2 ** 32), 'pert': r.choice([0.0, 0.3, 0.6]),
         'perm': r.choice(['none', 'n', 'c', 'nc', 't', 'nt']), 'rot': r.random() < 0.5,
         'len': [r.choice([1.0, 2.5, 0.1, 1e-3]) for _ in range(3)] if r.random() < 0.4 else [1.0, 1.0, 1.0]}
    two_d = kind in ('tri', 'quad', 'mix2')
    sides = list(SIDES[:4] if two_d else SIDES)
    if r.random() < 0.3:
        s['drop'] = r.sample(sides, r.randrange(1, 3))
    if r.random() < 0.3:
        # opposite sides only: node marks of adjacent sides are ambiguous for corner triangles
        a = r.choice(sides)
        if n['ijk'.index(a[0])] > 1:
            s['merge'] = {a: a[0] + ('max' if a.endswith('min') else 'min')}
    if r.random() < 0.4:
        s['names'] = {a: r.choice(['inlet', 'outlet', 'WALL', 'wall-1', 'sym']) + '_' + a for a in sides}
    if perio and r.random() < 0.4:
        k = r.choice(['perio_cart', 'perio_cylx', 'perio_cyly', 'perio_cylz'])
        vec = [round(r.uniform(-3, 3), 3) for _ in range(r.choice([3, 3, 16, 7]))]
        s['perio'] = {'imin': [k, vec], 'imax': [k, [-v for v in vec]]}
        if s.get('merge'):
            s.pop('merge')
    if r.random() < 0.4:
        s['zshuf'] = True
    if r.random() < 0.4:
        s['arr'] = r.choice(['F', 'view', 'neg', 'i4', 'be', 'ro', 'list', 'xyz'])
    if split and r.random() < 0.3:
        s['split'] = r.choice(['b', 'o', 'bo']) + r.choice(['', 's'])
    if data:
        names = r.sample(NAMES, r.randrange(0, 6) if r.random() < 0.92 else 9)
        s['celldata'] = [rand_field(r, nm, 2, ints, special) for nm in names]
        if nodedata:
            names = r.sample(NAMES, r.randrange(0, 4))
            s['nodedata'] = [rand_field(r, nm, 1, ints, special) for nm in names]
        if ndof and r.random() < 0.4:
            s['ndof'] = r.choice([2, 4, 8])
        if r.random() < 0.7:
            s['params'] = {'step': r.randrange(0, 2 ** 40), 'dt': r.choice([0.0, 1e-9, r.random()]),
                           'time': r.choice([0.0, r.random() * 1e3, 1e-300])}
            if r.random() < 0.5:
                s['params']['wgt'] = {nm: r.choice([r.random() * 10] * 3 + [0.0]) for nm in r.sample(['rho', 'u', 'volume_stats', 'x'], 2)}
        if r.random() < 0.5:
            s['npart'] = r.choice([1, 2, 5])
    return s


def huge(r, kind):
    """more cells than any buffer or table of a fixed size is likely to hold"""
    t = r.choice([1100, 2100, 4200]) / {'tetra': 6, 'pyra': 6, 'prism': 2, 'tri': 2, 'mix2': 1.5, 'mix': 2.5, 'hexpyr': 3, 'hexpri': 1.5}.get(kind, 1)
    if kind in ('tri', 'quad', 'mix2'):
        a = r.choice([2, 7, int(t ** 0.5)])
        return [a, int(t / a) + 1, 1] if r.random() < 0.5 else [int(t / a) + 1, a, 1]
    a, b = r.choice([(2, 1), (3, 4), (int(t ** (1 / 3)), int(t ** (1 / 3))), (1, int(t ** 0.5))])
    n = [a, b, int(t / a / b) + 1]
    r.shuffle(n)
    return n


def giant(r, kind='hexa'):
    """more nodes than 16 bits can number"""
    t = {'hexa': 16500, 'prism': 16500, 'quad': 17000, 'tri': 17000}[kind]
    n = [t, 1, 1]
    r.shuffle(n) if kind in ('hexa', 'prism') else n
    return {'kind': kind, 'n': n, 'seed': r.randrange(2 ** 32), 'pert': 0.0, 'perm': 'nc', 'rot': True, 'len': [1.0, 1.0, 1.0],
            'celldata': [rand_field(r, 'P', 2, False, False)], 'nodedata': [rand_field(r, 'T', 1, False, False)],
            'params': {'step': 3, 'dt': 0.5, 'time': 0.25}, 'npart': 3}


def v4_data(r, s, special=True):
    """data a v4 solution can hold"""
    cd = []
    if r.random() < 0.65:
        cd += [('RHO', 0), ('RHOU', 1), ('RHOE', 0)]
        if r.random() < 0.2:
            cd.pop(r.randrange(3))
    cd += r.sample([('RHO_AVG', 0), ('U_AVG', 1), ('P_RMS', 0), ('U_RMS', 1), ('U_REY', 1), ('UU_REY', 2), ('T', 0), ('U', 1),
                    ('RHO_AVG_2', 0), ('U_RMS_X', 0), ('T_REYNOLDS', 1), ('AVG', 0), ('RHO_2', 0)], r.randrange(0, 6))
    r.shuffle(cd)
    s['celldata'] = [{'name': n, 'rank': k, 'special': special and r.random() < 0.3} for n, k in cd]
    s['nodedata'] = []
    s.pop('ndof', None)
    s['params'] = {'step': r.randrange(0, 2 ** 40), 'time': r.choice([0.0, r.random() * 1e3, 1e-300])}
    for n in r.sample(['rho', 'u', 'volume'], r.randrange(0, 3)):
        s['params'][n + '_wgt'] = r.choice([r.random() * 10, r.random() * 10, 0.0])
    return s


def rand_field(r, name, maxrank, ints, special):
    rank = r.choice([0, 0, 1, 2][: maxrank + 2])
    d = {'name': name, 'rank': rank}
    if ints and rank == 0 and r.random() < 0.35:
        d['int'] = True
    if special and r.random() < 0.3:
        d['special'] = True
    return d
