"""Operations of the package as JSON values: how to set them up, run them in a node, and what they must give.

Every operation names its files explicitly.  `prepare` writes sources with independent encoders,
`run` executes in a node, `verify` judges the result from outside with independent decoders.
"""
import copy
import hashlib
import os

import numpy as np

from harness import formats, node, oracle, refmesh
from sim.core import rng_for

IC3_SRC = ('ic3',)
EXT = {'gmsh22': '.msh', 'gmsh41': '.msh', 'cgns': '.cgns', 'ic3': '.ic3', 'v4': '.h5', 'vtu': '.vtu', 'packed': '.h5',
       'ic3v2': '.ic3', 'ic3v3': '.ic3', 'vtk': '.vtu', 'vtl': '.vtk'}
FMT = {'gmsh22': 'gmsh', 'gmsh41': 'gmsh', 'cgns': 'cgns', 'ic3': 'ic3', 'v4': 'v4', 'vtu': 'vtu', 'vtl': 'vtu', 'packed': 'packed'}


# ------------------------------------------------------------------ sources
def rand_source(r, fmts, big=False, special=True, two_d=None, legacy=False):
    f = r.choice(fmts)
    s = {'f': f, 'opt': {}}
    o = s['opt']
    d3 = ('hexa', 'prism', 'tetra', 'pyra', 'hexpri', 'hexpyr', 'mix')
    d2 = ('tri', 'quad', 'mix2')
    if f in ('gmsh22', 'gmsh41'):
        kinds = d2 if two_d else d3 if two_d is False else d3 + d2 + d2
        s['mesh'] = refmesh.rand_spec(r, kinds=kinds, data=False, perio=False, big=big)
        o['sparse'] = r.random() < 0.35
        o['many'] = r.random() < 0.45
        o['low'] = r.random() < 0.25
        o['style'] = r.choice([None, None, 'exp', 'g', 'comments', 'spaces', 'crlf', 'noend'])
        if o['style'] != 'spaces' and r.random() < 0.25:
            s['mesh']['names'] = {a: f'{w} {a}' for a, w in zip(refmesh.SIDES, r.sample(['top of', 'far field 2', 'a -', 'Fluid', 'x.y', '0', 'fluid', 'fluid2'], 6))}
        if f == 'gmsh22':
            o['shuffle'] = r.random() < 0.35
            o['order'] = r.choice(['bc_first', 'bc_last'])
            o['ver'] = r.choice(['2.2', '2.2', '2.1', '2', '2.0'])
            o['ntag'] = r.choice([2, 2, 3, 4])
            o['samegeo'] = r.random() < 0.25
        else:
            o['blocks'] = r.choice([1, 2, 3])
            o['same_tags'] = r.random() < 0.35
            o['single_last'] = r.random() < 0.35
        if r.random() < 0.12:
            o['noname'] = True
    elif f == 'cgns':
        kinds = d2 if two_d else ('hexa',) if two_d is False else ('hexa',) + d2
        s['mesh'] = refmesh.rand_spec(r, kinds=kinds, data=False, perio=False, big=big)
        o.update(bc=r.choice(['vertex', 'face', 'elist', 'noloc']), bc_first=r.random() < 0.4, family=r.random() < 0.3,
                 pieces=r.choice([1, 1, 2, 4]), gc=r.random() < 0.3, whole=r.choice([None, None, None, 'cells', 'nodes']), anyname=r.random() < 0.4, onesec=r.random() < 0.35)
    elif f == 'ic3':
        v = r.choice([2, 3])
        s['mesh'] = refmesh.rand_spec(r, kinds=d3, ints=v == 3, ndof=v == 3, big=big, special=special, split=True)
        o.update(version=v, endian=r.choice('<>'), fdata=r.random() < 0.25, mix=r.random() < 0.35)
    elif f == 'v4':
        s['mesh'] = refmesh.v4_data(r, refmesh.rand_spec(r, kinds=d3, ints=False, big=big, split=True), special)
        o.update(sol=r.random() < 0.8)
    elif f == 'vtu':
        s['mesh'] = refmesh.rand_spec(r, kinds=d3 + d2, ints=True, big=big, nodedata=False, special=special)
        s['mesh'].pop('ndof', None)
        s['mesh']['celldata'] = [d for d in s['mesh'].get('celldata', []) if d['rank'] < 2]
        o.update(time=r.choice([None, 0.0, 1.5]), enc=r.choice([None, None, 'ascii', 'zlib', 'f32', 'be']), pdata=r.random() < 0.3)
        if legacy and r.random() < 0.35:
            s['f'] = 'vtl'
            o.update(enc=r.choice([None, None, 'ascii']), ver=r.choice(['3.0', '4.2', '5.1']))
    elif f == 'packed':
        s['mesh'] = refmesh.rand_spec(r, kinds=('hexa', 'prism', 'tetra', 'pyra', 'tri', 'quad'), data=False, perio=False)
        o.update(nsnap=r.randrange(0, 4))
    return s


def giant_source(r, f, kind='hexa'):
    """a source with more nodes than 16 bits can number"""
    s = rand_source(r, (f,), two_d=kind in ('tri', 'quad'))
    s['mesh'] = refmesh.giant(r, kind)
    if f == 'v4':
        refmesh.v4_data(r, s['mesh'])
    elif f not in ('ic3', 'vtu'):
        for k in ('celldata', 'nodedata', 'params', 'npart'):
            s['mesh'].pop(k)
    elif f == 'vtu':
        s['mesh']['nodedata'] = []
        s['mesh']['celldata'] = [{'name': 'P', 'rank': 0}]
    s['opt'].update({k: v for k, v in (('shuffle', False), ('style', None)) if k in s['opt']})
    return s


def giant_conversion(r, f, to, kind='hexa'):
    src = giant_source(r, f, kind)
    c = {'t': 'cli', 'src': src, 'in': 'case' + EXT[f], 'args': {}, 'to': to, 'pre': ''}
    if kind in ('tri', 'quad'):
        c['args']['extrude'] = 1
    if f == 'ic3' and to == 'ic3v2':
        src['opt']['version'] = 2
    return c


_cache = {}


def ref_of(src):
    key = repr(src)
    if key not in _cache:
        if len(_cache) > 16:
            _cache.clear()
        _cache[key] = _ref_of(src)
    return _cache[key]


def base_ref(src):
    """the reference mesh of a source; boundary faces without group names make one patch"""
    ref = refmesh.build(src['mesh'])
    if src['opt'].get('noname') and ref.patches:
        nodes = {q for p in ref.patches.values() for q in p['nodes']}
        ref.patches = {'fluid': {'faces': {f for f in ref.bfaces() if f <= nodes}, 'nodes': sorted(nodes),
                                 'kind': 'boundary', 'perio': None}}
    return ref


def _ref_of(src):
    ref = base_ref(src)
    f = src['f']
    if f == 'v4':
        r2 = copy.copy(ref)
        r2.celldata = {k: (a if a.ndim < 3 else a.reshape(len(a), -1)) for k, a in oracle.v4_fields(ref).items()}
        r2.nodedata = {}
        r2.patches = oracle.v4_patches(ref)
        if not src['opt'].get('sol'):
            r2.celldata, r2.params = {}, {}
        return r2
    if src['opt'].get('enc') == 'f32':
        ref.nodes = f32(ref.nodes)
        ref.celldata = {k: f32(a) if a.dtype.kind == 'f' else a for k, a in ref.celldata.items()}
    return ref


def write_source(src, path):
    """source file made by our own encoders"""
    ref = refmesh.build(src['mesh'])
    o = src['opt']
    r = rng_for('enc', src['mesh']['seed'])
    f = src['f']
    raw = None
    if f == 'gmsh22':
        raw, _ = formats.encode_gmsh22(ref, r, order=o['order'], sparse=o['sparse'], shuffle=o['shuffle'], many=o.get('many', False),
                                      **{k: o[k] for k in ('ver', 'style', 'low', 'ntag', 'noname', 'samegeo') if k in o})
    elif f == 'gmsh41':
        raw = formats.encode_gmsh41(ref, r, sparse=o['sparse'], blocks=o['blocks'], same_tags=o['same_tags'],
                                    single_last=o['single_last'], many=o.get('many', False), style=o.get('style'), low=o.get('low', False), noname=o.get('noname', False))
    elif f == 'ic3':
        raw = formats.encode_ic3(ref, o['version'], o['endian'], fdata=o.get('fdata', False), mix=o.get('mix', False))
    elif f == 'vtu':
        raw = formats.encode_vtu(ref.nodes, ref.cells, ref.celldata, time=o.get('time'), enc=o.get('enc'),
                                 pointdata=point_data(ref.nnode, list(ref.celldata), 'vtu') if o.get('pdata') else None)
    elif f == 'vtl':
        raw = formats.encode_vtk_legacy(ref.nodes, ref.cells, ref.celldata, time=o.get('time'), enc=o.get('enc'), ver=o['ver'],
                                        pointdata=point_data(ref.nnode, list(ref.celldata), 'vtu') if o.get('pdata') else None)
    elif f == 'cgns':
        formats.encode_cgns(ref, path, r, **o)
    elif f == 'v4':
        formats.encode_v4(ref, path, solpath(path) if o['sol'] else None)
    elif f == 'packed':
        formats.encode_packed(ref, packed_groups(src, ref), path)
    if raw is not None:
        with open(path, 'wb') as fh:
            fh.write(raw)


def point_data(n, names, tag):
    """values on points, some with the names of values on cells"""
    r = rng_for('pd', n, tag)
    return {nm: np.array([r.uniform(-5, 5) for _ in range(n)]) for nm in list(names)[:2] + ['at_points']}


def solpath(p):
    return p[:-3] + '_sol.h5'


def packed_groups(src, ref):
    out = []
    for k in range(src['opt']['nsnap']):
        r = rng_for('grp', src['mesh']['seed'], k)
        out.append((r.random(), {n: refmesh.field(r, ref.ncell, 1, False, False, n) for n in ('P', 'RHO')[:1 + k % 2]}))
    return out


def source_files(src, name):
    out = [name]
    if src['f'] == 'v4' and src['opt'].get('sol'):
        out.append(solpath(name))
    return out


def check_read(src, val, integrity=False):
    """exported content against the reference"""
    ref, f = ref_of(src), src['f']
    if f == 'ic3':
        return oracle.check_canon(ref, val, cast=float if src['opt']['version'] == 2 else None, partition=True)
    if f == 'v4':
        sol = src['opt'].get('sol')
        return oracle.check_canon(ref, val, data=bool(sol), params=bool(sol), pkeys=('step', 'time'), wgt=False)
    if f in ('gmsh22', 'gmsh41', 'cgns'):
        return oracle.check_canon(ref, val, ordered=False, data=False, params=False)
    out = oracle.check_canon(ref, val, ordered=False, data=False, params=False, marks=False)
    if f in ('vtu', 'vtl'):
        pv = val['pv']['cell']
        if set(pv) != set(ref.celldata):
            out.append(f'cell data {sorted(pv)} instead of {sorted(ref.celldata)}')
        else:
            out += [f'cell data {k} differs' for k, a in ref.celldata.items() if not oracle.eqarr(np.asarray(pv[k]), a)]
        t = src['opt'].get('time')
        tv = val['pv']['field'].get('TimeValue')
        if (t is None) != (tv is None) or (t is not None and float(np.ravel(tv)[0]) != t):
            out.append(f'time {tv} instead of {t}')
    if f == 'packed':
        exp = packed_groups(src, ref)
        g = val['groups']
        if sorted(g) != [f'i{k:06}' for k in range(len(exp))]:
            out.append(f'groups {sorted(g)} instead of {len(exp)}')
        else:
            for k, (t, d) in enumerate(exp):
                e = g[f'i{k:06}']
                if set(e['data']) != set(d) or any(not oracle.eqarr(e['data'][n], d[n]) for n in d):
                    out.append(f'group {k} differs')
                if float(np.ravel(e['attrs'].get('time', np.nan))[0]) != t:
                    out.append(f'time of group {k} differs')
    return out


def read(src, path, integrity=False):
    """in a node"""
    return node.read_mesh(FMT[src['f']], path, integrity and src['f'] == 'ic3',
                          solpath(path) if src['f'] == 'v4' and src['opt'].get('sol') else None)


# ------------------------------------------------------------------ conversions (command line)
CMD = {'ic3v2': 'cfdwrite_ic3v2', 'ic3v3': 'cfdwrite_ic3v3', 'vtk': 'cfdwrite_vtk'}


def rand_conversion(r, srcs=('gmsh22', 'gmsh41', 'cgns', 'ic3'), big=False, special=True):
    src = rand_source(r, srcs, big=big, special=special)
    two_d = src['mesh']['kind'] in ('tri', 'quad', 'mix2')
    c = {'t': 'cli', 'src': src, 'in': 'case' + EXT[src['f']], 'args': {}}
    a = c['args']
    if src['f'] == 'ic3':
        c['to'] = r.choice(['ic3v2', 'ic3v3'])
        if c['to'] == 'ic3v2':
            src['mesh'].pop('ndof', None)
            for d in src['mesh'].get('celldata', []) + src['mesh'].get('nodedata', []):
                d.pop('int', None)
        names = [d['name'] for d in src['mesh'].get('celldata', [])]
        if names and r.random() < 0.4:
            a['rmc'] = r.sample(names, r.randrange(1, len(names) + 1)) + (['absent'] if r.random() < 0.3 else [])
        names = [d['name'] for d in src['mesh'].get('nodedata', [])]
        if names and r.random() < 0.3:
            a['rmn'] = r.sample(names, r.randrange(1, len(names) + 1))
    elif two_d:
        c['to'] = r.choice(['ic3v2', 'ic3v3', 'vtk'])
        if c['to'] != 'vtk' or r.random() < 0.5:
            a['extrude'] = r.choice([1, 2, 2, 3]) if big or r.random() < 0.9 else r.choice([17, 33, 48, 70])
            src['opt'].pop('noname', None)           # patches are found by their nodes
            if a['extrude'] == 1 and refmesh_cells(src) < 2:
                a['extrude'] = 2
    else:
        c['to'] = r.choice(['ic3v2', 'ic3v3', 'vtk'])
    if r.random() < 0.35:
        a['scale'] = [r.choice([1.0, 2.0, 0.5, 1e-3, 3.7]) for _ in range(3)]
    if r.random() < 0.3:
        a['outpath'] = 'out'
    if r.random() < 0.2:
        a['info'] = True
    if r.random() < 0.2:
        a['fmt'] = True
    return c


def refmesh_cells(src):
    return refmesh.build(src['mesh']).ncell


def argv(c):
    a = c['args']
    v = []
    if a.get('rmc'):
        v += ['--remove-cell-data'] + a['rmc'] + ['--']
    if a.get('rmn'):
        v = ['--remove-node-data'] + a['rmn'] + (v or ['--'])
    head = []
    if a.get('fmt'):
        head += ['--fmt', {'gmsh22': 'GMSH', 'gmsh41': 'GMSH', 'cgns': 'CGNS', 'ic3': 'IC3'}[c['src']['f']]]
    if a.get('scale'):
        head += ['--scale'] + [repr(x) for x in a['scale']]
    if a.get('extrude'):
        head += ['--extrude', str(a['extrude'])]
    if a.get('outpath'):
        head += ['--outpath', a['outpath']]
    if a.get('info'):
        head += ['--info']
    return head + v + [c['in']]


def extruded(ref, n):
    m = refmesh.RefMesh()
    nn = ref.nnode
    z = np.linspace(0.0, 1.0, n + 1)
    m.nodes = np.concatenate([ref.nodes + np.array([0.0, 0.0, s]) for s in z])
    for k in range(n):
        for et, nod in ref.cells:
            m.cells.append(('prism6' if et == 'tri3' else 'hexa8',
                            tuple(q + k * nn for q in nod) + tuple(q + (k + 1) * nn for q in nod)))
    bf = m.bfaces()
    for name, p in ref.patches.items():
        edges = set(p['faces'])
        nodes = sorted(q + k * nn for k in range(n + 1) for q in p['nodes'])
        fs = {frozenset([q + k * nn for q in e] + [q + (k + 1) * nn for q in e]) for e in edges for k in range(n)}
        m.patches[name] = {'faces': fs & bf, 'nodes': nodes, 'kind': p['kind'], 'perio': None}
    for name, k in (('fluid0', 0), ('fluid1', n)):
        fs = {frozenset(q + k * nn for q in nod) for _, nod in ref.cells}
        m.patches[name] = {'faces': fs, 'nodes': sorted({q + k * nn for _, nod in ref.cells for q in nod}), 'kind': 'boundary',
                           'perio': None}
    return m


def expected_conversion(c):
    ref = copy.copy(base_ref(c['src']))
    a = c['args']
    if a.get('extrude'):
        ref = extruded(ref, a['extrude'])
    if a.get('scale'):
        ref.nodes = ref.nodes * np.array(a['scale'])
    ref.celldata = {k: v for k, v in ref.celldata.items() if k not in (a.get('rmc') or ())}
    ref.nodedata = {k: v for k, v in ref.nodedata.items() if k not in (a.get('rmn') or ())}
    return ref


def run_cli(cmd, args):
    """in a node: a command as the installed script calls it"""
    return getattr(node.P.cli, cmd)(args)


def run_conversion(c):
    return str(run_cli(CMD[c['to']], argv(c)))


def check_conversion(c, path):
    """the file a conversion returned"""
    with open(path, 'rb') as f:
        raw = f.read()
    ref = expected_conversion(c)
    exact = not (c['args'].get('scale') or c['args'].get('extrude'))
    if c['to'] == 'vtk':
        return oracle.check_vtu(ref, formats.decode_vtu(raw), exact=exact, ordered=False)
    ic3 = c['src']['f'] == 'ic3'
    return oracle.check_ic3(ref, formats.decode_ic3(raw), int(c['to'][-1]), ordered=ic3, exact=exact, params=ic3, partition=ic3)


def out_name(c):
    o = os.path.join(c['args'].get('outpath') or '', os.path.splitext(os.path.basename(c['in']))[0] + EXT[c['to']])
    return o if o != c['in'] else os.path.splitext(o)[0] + '(1)' + EXT[c['to']]


def prepare_conversion(c, root):
    p = os.path.join(root, c['in'])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p):
        write_source(c['src'], p)
    if c['args'].get('outpath'):
        os.makedirs(os.path.join(root, c['args']['outpath']), exist_ok=True)


# ------------------------------------------------------------------ packing
SNAPS = ['b', 'a', 'c10', 'c9', 'z.1', 'Z', '10', '9', 'slice_2', 'slice_10', 'a b', 'snap', 'o.vtu', 'f_1e-3', '000', 'X', 'y']


def rand_pack(r, n=None, via=None, bad=False):
    kind = r.choice(['hexa', 'prism', 'tetra', 'pyra', 'tri', 'quad', 'hexpri', 'hexpyr', 'mix', 'mix2'])
    spec = refmesh.rand_spec(r, kinds=(kind,), data=False, perio=False, big=r.random() < 0.1)
    spec.pop('len', None)
    if r.random() < 0.2:                  # millimetres, microns, kilometres
        spec['len'] = [r.choice([1e-3, 1e-6, 1e3])] * 3
    names = r.sample(['P', 'RHO', 'U', 'T', 'flag', r.choice(['k.eps', 'u&v', '<T> "1"'])], r.randrange(1, 5))
    fields = [{'name': nm, 'rank': 1 if nm == 'U' else 0, 'int': nm == 'flag', 'special': r.random() < 0.2} for nm in names]
    n = n or r.choice([1, 2, 3, 4] * 4 + [11, 13])
    snaps = []
    for k in range(n):
        snaps.append({'seed': r.randrange(2 ** 32), 'perm': r.choice([None, None, 'all', 'swap', 'roll']),
                      'time': r.choice([None, 0.0, r.random() * 10, -r.random(), 1e-12])})
    if r.random() < 0.4:                  # names whose order is not that of the list
        for s, nm in zip(snaps, r.sample(SNAPS, n)):
            s['name'] = nm
        if not bad and r.random() < 0.3:  # one file several times
            snaps.insert(r.randrange(n + 1), copy.deepcopy(r.choice(snaps)))
    enc = r.choice([None, None, None, 'zlib', 'f32', 'be', 'ascii'])
    p = {'t': 'pack', 'mesh': spec, 'fields': fields, 'snaps': snaps, 'via': via or r.choice(['api', 'api', 'cli']), 'out': 'dumped.h5', 'enc': enc}
    p['pdata'] = r.random() < 0.25
    if r.random() < 0.2:                  # legacy VTK files
        p['legacy'] = r.choice(['3.0', '4.2', '5.1'])
        p['enc'] = enc = r.choice([None, None if bad else 'ascii'])
    if r.random() < 0.3:                  # points and local numbering are those of each file
        for s in snaps:
            s['renum'] = True
    if p['via'] == 'api':
        if r.random() < 0.4:
            p['filter'] = r.sample(names, r.randrange(1, len(names) + 1))
        p['xdmf'] = all(f['rank'] < 2 for f in fields) and r.random() < 0.5
        p['out'] = r.choice(['pack.h5', 'd.1.h5'])
        p['overwrite'] = r.random() < 0.2
        p['gzip'] = r.random() < 0.2
    if not p.get('filter') and r.random() < 0.25:      # not the same fields in every file
        p['xdmf'] = False
        for s in snaps:
            s['fields'] = r.sample(names, r.randrange(0, len(names) + 1)) + (['extra'] if r.random() < 0.4 else [])
        if snaps[0].get('name'):
            same = {}
            for s in snaps:
                s['fields'] = same.setdefault(s['name'], s['fields'])
    if bad:
        k = r.randrange(n)
        p['bad'] = {'snap': k, 'how': r.choice(['missing', 'cut', 'moved', 'fewer', 'empty', 'nofield', 'other', 'dup', 'first', 'nudge', 'nan'])}
        if n == 1 or k == 0:
            p['bad']['how'] = r.choice(['missing', 'cut', 'empty'])
        if p['bad']['how'] == 'nofield' and not p.get('filter'):
            p['bad']['how'] = 'missing'
        if p['bad']['how'] in ('moved', 'nudge'):
            p['bad']['by'] = r.choice([1e-3, 1e-3] if enc == 'f32' else [1e-2, 1e-3, 1e-5, 1e-8])
    return p


def long_pack(r):
    """more snapshots than three digits can number: a few files, again and again"""
    p = rand_pack(r, n=3, via='api')
    spec = dict(p['mesh'], kind=r.choice(['quad', 'tri']), n=[2, 1, 1])
    p.update(mesh={k: v for k, v in spec.items() if k in ('kind', 'n', 'seed', 'pert', 'perm', 'rot')}, enc=None, gzip=False, xdmf=False, pdata=False)
    p['snaps'] = [dict(s, name=f's{k}', renum=False) for k, s in enumerate(p['snaps'][:3])]
    p['snaps'] = [dict(p['snaps'][r.randrange(3)]) for _ in range(r.choice([1003, 1010]))]
    return p


def giant_pack(r):
    p = rand_pack(r, n=2, via='api')
    p.update(mesh={k: v for k, v in refmesh.giant(r).items() if k not in ('len', 'celldata', 'nodedata', 'params', 'npart')}, enc=None)
    del p['snaps'][2:]
    for k, sn in enumerate(p['snaps']):
        sn.update(name=f's{k}', seed=sn['seed'] + k, perm='all' if k else None)
    return p


def pack_ref(p):
    ref = refmesh.build(p['mesh'])
    if p.get('enc') == 'f32':
        ref.nodes = f32(ref.nodes)
    return ref


def f32(a):
    with np.errstate(all='ignore'):
        return a.astype(np.float32).astype(np.float64)


def snap_perm(p, k, ncell):
    s = p['snaps'][k]
    r = rng_for('perm', s['seed'])
    perm = list(range(ncell))
    if s['perm'] == 'all':
        r.shuffle(perm)
    elif s['perm'] == 'swap' and ncell > 1:
        a, b = r.sample(range(ncell), 2)
        perm[a], perm[b] = perm[b], perm[a]
    elif s['perm'] == 'roll':
        d = r.randrange(1, ncell) if ncell > 1 else 0
        perm = perm[d:] + perm[:d]
    return perm


def snap_fields(p, k):
    return p['snaps'][k].get('fields', [f['name'] for f in p['fields']])


def renumbered(cells, nnode, seed):
    """(points in the order of the file, its cells)"""
    r = rng_for('renum', seed)
    new = list(range(nnode))
    r.shuffle(new)
    old = [0] * nnode
    for o, w in enumerate(new):
        old[w] = o
    rot = {t: refmesh.ROT[t] for t in ('hexa8', 'quad4', 'tetra4')}    # VTK's centre of other cells depends on it
    return old, [(t, tuple(new[nod[q]] for q in (r.choice(rot[t]) if t in rot else range(len(nod))))) for t, nod in cells]


def snap_data(p, k, ncell):
    """{name: values by physical cell}"""
    out = {}
    here = snap_fields(p, k)
    for f in p['fields'] + [{'name': 'extra', 'rank': 0}]:
        if f['name'] not in here:
            continue
        r = rng_for('snap', p['snaps'][k]['seed'], f['name'])
        a = refmesh.field(r, ncell, 3 ** f['rank'], f.get('int', False), f.get('special', False), f['name'])
        if p.get('enc') == 'f32' and a.dtype.kind == 'f':
            a = f32(a)
        out[f['name']] = a.reshape((ncell, 3)) if f['rank'] else a
    return out


def snap_name(p, k):
    return p.get('pre', '') + (p['snaps'][k].get('name') or f'snap{k:03}') + ('.vtk' if p.get('legacy') else '.vtu')


def prepare_pack(p, root):
    ref = pack_ref(p)
    bad = p.get('bad')
    for k, s in enumerate(p['snaps']):
        perm = snap_perm(p, k, ref.ncell)
        d = snap_data(p, k, ref.ncell)
        cells = [ref.cells[q] for q in perm]
        pts = ref.nodes
        cd = {n: a[perm] for n, a in d.items()}
        how = bad['how'] if bad and bad['snap'] == k else None
        if how == 'missing':
            continue
        if how == 'moved':
            pts = ref.nodes + np.array([bad.get('by', 1e-3), 0, 0])
        if how == 'nudge':       # one node only
            pts = ref.nodes.copy()
            pts[cells[0][1][0], 1] += bad['by']
        if how == 'nan':
            pts = ref.nodes.copy()
            pts[cells[-1][1][0], 1] = np.nan
        if how == 'other':
            pts = ref.nodes * 1.5
        if how == 'fewer':
            cells, cd = cells[:-1], {n: a[:-1] for n, a in cd.items()}
        if how == 'first':       # only the first physical cell
            w = perm.index(0)
            cells, cd = [cells[w]], {n: a[w:w + 1] for n, a in cd.items()}
        if how == 'dup':         # one cell twice, another missing
            cells = list(cells)
            cells[-1] = cells[0]
        if how == 'nofield':
            cd.pop(p['filter'][0])
        if s.get('renum'):
            old, cells = renumbered(cells, len(pts), s['seed'])
            pts = pts[old]
        kw = {'time': s['time'], 'enc': p.get('enc'), 'pointdata': point_data(len(pts), cd, k) if p.get('pdata') else None}
        raw = formats.encode_vtk_legacy(pts, cells, cd, ver=p['legacy'], **kw) if p.get('legacy') else formats.encode_vtu(pts, cells, cd, **kw)
        if how == 'cut':
            raw = raw[:-3] if p.get('legacy') else raw[:int(len(raw) * 0.6)]     # nothing ends a legacy file
        if how == 'empty':
            raw = b''
        path = os.path.join(root, snap_name(p, k))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(raw)


def run_pack(p, st=None):
    files = [snap_name(p, k) for k in range(len(p['snaps']))]
    if p['via'] == 'cli':
        return str(run_cli('vtkpack', files))
    st = {} if st is None else st
    vl = st.get('vl')
    if vl is None:
        vl = st['vl'] = node.P.vtk.vtkList(files, verbose=False)
    if not st.get('read') or st.get('reread'):
        if not vl.allexist():
            raise FileNotFoundError('some files are missing')
        vl.read(filterdata=list(p['filter']) if p.get('filter') else None)
        st['read'] = True
    opt = {'compression': 'gzip'} if p.get('gzip') else {}
    return str(vl.dumphdf(p['out'], overwrite=p.get('overwrite', False), xdmf=p.get('xdmf', False), **opt))


def packed_order(ref, perm):
    """cells of a packed mesh: those of the first snapshot, type after type; -> (physical cell of each value, {type: nodes})"""
    by = {}
    for q in perm:
        by.setdefault(ref.cells[q][0], []).append(q)
    by = {et: by[et] for et in sorted(by, key=lambda t: formats.VTKID[t])}
    return [q for v in by.values() for q in v], {et: [sorted(ref.cells[q][1]) for q in v] for et, v in by.items()}


def check_pack(p, root, name):
    ref = pack_ref(p)
    d = formats.decode_packed(os.path.join(root, name))
    out = []
    err, nmap = oracle.match_nodes(d['nodes'], ref.nodes, True, False)
    if err:
        return [f'packed mesh: {err}']
    perm0 = snap_perm(p, 0, ref.ncell)
    if d['meshtype'] != 'unsmesh':
        return [f'packed mesh is {d["meshtype"]}']
    perm0, exp = packed_order(ref, perm0)
    if set(d['cells']) != set(exp):
        return [f'packed mesh holds {sorted(d["cells"])}']
    for et, rows in exp.items():
        got = [sorted(int(nmap[q]) for q in row) for row in np.asarray(d['cells'][et]).tolist()]
        if got != rows:
            return [f'packed mesh: {et} are not those of the first snapshot, in its order']
    dt = d['attrs'].get('cfd_datatype')
    if dt != 'datalist':
        out.append(f'data type {dt!r}')
    exp = [f'i{k:06}' for k in range(len(p['snaps']))]
    if sorted(d['groups']) != exp:
        return out + [f'groups {sorted(d["groups"])} instead of {len(exp)} snapshots']
    names = p.get('filter') or [f['name'] for f in p['fields']]
    for k, s in enumerate(p['snaps']):
        names = p.get('filter') or snap_fields(p, k)
        g = d['groups'][f'i{k:06}']
        data = snap_data(p, k, ref.ncell)
        if set(g['data']) != set(names):
            out.append(f'snapshot {k}: fields {sorted(g["data"])} instead of {sorted(names)}')
            continue
        for n in names:
            e = data[n][perm0]
            if not oracle.eqarr(g['data'][n], e):
                a, b = np.ravel(g['data'][n]), np.ravel(e)
                bad = int((oracle.bits(a) != oracle.bits(b)).sum()) if a.shape == b.shape else 'all'
                out.append(f'snapshot {k}: field {n} is not on its own cells ({bad} of {b.size} values)')
        t = g['attrs'].get('time')
        if s['time'] is None:
            if t is not None:
                out.append(f'snapshot {k}: time {t} although it has none')
        elif t is None or float(np.ravel(t)[0]) != s['time']:
            out.append(f'snapshot {k}: time {t} instead of {s["time"]}')
    if p.get('xdmf'):
        out += check_xdmf(p, root, name, d, names)
    return out


def check_xdmf(p, root, name, d, names):
    import re
    path = os.path.join(root, os.path.splitext(name)[0] + '.xmf')
    if not os.path.exists(path):
        return ['no xmf file']
    import xml.etree.ElementTree as ET
    try:
        tree = ET.parse(path)
    except ET.ParseError as e:
        return [f'xmf file is not readable: {e}']
    out, seen = [], []
    sizes = {'/mesh/nodes': d['nodes'].shape}
    sizes.update({f'/mesh/cells/{k}': v.shape for k, v in d['cells'].items()})
    for g, e in d['groups'].items():
        sizes.update({f'/datalist/{g}/{n}': a.shape for n, a in e['data'].items()})
    for it in tree.iter('DataItem'):
        ref = (it.text or '').strip()
        m = re.match(r'^(.*):(/.*)$', ref)
        if not m or m.group(1) != name or m.group(2) not in sizes:
            out.append(f'xmf points at {ref!r}')
            continue
        dim = int(np.prod([int(x) for x in it.get('Dimensions').split()]))
        if dim != int(np.prod(sizes[m.group(2)])):
            out.append(f'xmf gives {dim} values for {ref}')
        seen.append(m.group(2))
    want = {f'/datalist/i{k:06}/{n}' for k in range(len(p['snaps'])) for n in names}
    if set(s for s in seen if s.startswith('/datalist')) != want:
        out.append('xmf does not point at every dataset')
    return out


# ------------------------------------------------------------------ averages of VTK solutions along a direction
AXES = {'z': ((0, 1), 2), 'x': ((1, 2), 0), 'y': ((0, 2), 1)}


def rand_zavg(r, bad=False):
    spec = refmesh.rand_spec(r, kinds=('tri', 'quad', 'mix2'), data=False, perio=False, big=r.random() < 0.1)
    for k in ('drop', 'merge', 'names', 'len', 'split'):
        spec.pop(k, None)
    n = r.choice([2, 2, 3, 4, 5, 9])
    names = r.sample(['P', 'RHO', 'U', 'T', 'flag', 'k.eps'], r.randrange(1, 4))
    fields = [{'name': nm, 'rank': 1 if nm == 'U' else 0, 'int': nm == 'flag'} for nm in names]
    a = {'t': 'zavg', 'mesh': spec, 'layers': n, 'fields': fields, 'perm': r.choice(['none', 'c', 'c', 'nc']), 'axis': r.choice('zzzxy'),
         'dz': r.choice([1.0, 0.1, 7.5]), 'z0': r.choice([0.0, -3.0, 10.5]), 'enc': r.choice([None, None, 'zlib', 'be', 'ascii']),
         'opts': {k: True for k in ('snapshot', 'rms', 'phase') if r.random() < 0.4}, 'out': 'avg.vtu', 'time': r.choice([None, 1.5])}
    if r.random() < 0.6:
        a['opts']['nmode'] = r.randrange(0, n)
    if r.random() < 0.4:
        a['select'] = {nm: r.choice(['avg', 'rms', ['no_avg', 'rms'], ['snapshot'], [{'nmode': r.randrange(1, n)}], ['no_avg', 'phase', {'nmode': 1}]])
                       for nm in r.sample(names, r.randrange(1, len(names) + 1))}
    if not bad and r.random() < 0.3:      # the same object again: other options, changed values, other directions of a box
        box = r.random() < 0.6
        if box:
            spec.update(kind='quad', n=[r.choice([2, 3, 4]), r.choice([2, 3])], pert=0.0)
            spec['n'].append(1)
        a['then'] = []
        for _ in range(r.randrange(1, 4)):
            t = {'axis': r.choice('xyz') if box else a['axis'], 'edit': r.choice([None, None, 'set', 'inplace']),
                 'opts': {k: True for k in ('snapshot', 'rms', 'phase') if r.random() < 0.4}}
            if r.random() < 0.5:
                t['opts']['nmode'] = r.randrange(0, 2)
            a['then'].append(t)
    if bad:
        a['bad'] = r.choice(['hole', 'shift', 'field', 'cut', 'missing', 'spacing', 'twist'])
        if a['bad'] == 'spacing' and n < 3 or a['bad'] == 'twist' and n < 2:
            a['bad'] = 'hole'
    if r.random() < 0.2:
        a.update(legacy=r.choice(['3.0', '5.1']), enc=r.choice([None, None if bad else 'ascii']))
    return a


def giant_zavg(r):
    a = rand_zavg(r)
    a['mesh'] = {'kind': 'quad', 'n': [5000, 1, 1], 'seed': r.randrange(2 ** 32), 'pert': 0.0, 'perm': 'nc', 'len': [50.0, 1.0, 1.0]}
    a.update(layers=7, perm='nc', enc=None)
    return a


def zavg_ref(a):
    """(nodes, cells in file order, (layer, column) of each, data by layer and column)"""
    flat = refmesh.build(a['mesh'])
    n = a['layers']
    vol = extruded(flat, n)
    (i, j), k = AXES[a['axis']]
    z = a['z0'] + a['dz'] * np.linspace(0.0, 1.0, n + 1)
    if a.get('bad') == 'spacing':
        z[-1] += 0.3 * a['dz']
    nodes = np.zeros_like(vol.nodes)
    nodes[:, i], nodes[:, j], nodes[:, k] = vol.nodes[:, 0], vol.nodes[:, 1], np.repeat(z, flat.nnode)
    if a.get('bad') == 'twist':          # the last plane is not over the others
        nodes[-flat.nnode:, i] += 0.4
    cells = list(vol.cells)
    where = [(q // flat.ncell, q % flat.ncell) for q in range(len(cells))]
    r = rng_for('zavg', a['mesh']['seed'])
    if 'n' in a['perm']:
        new = list(range(len(nodes)))
        r.shuffle(new)
        p = np.zeros_like(nodes)
        p[new] = nodes
        nodes, cells = p, [(t, tuple(new[q] for q in nod)) for t, nod in cells]
    if 'c' in a['perm']:
        o = list(range(len(cells)))
        r.shuffle(o)
        cells, where = [cells[q] for q in o], [where[q] for q in o]
    data = {}
    for f in a['fields']:
        v = refmesh.field(rng_for('zf', a['mesh']['seed'], f['name']), len(cells), 3 ** f['rank'], False, False, f['name'])
        v = v.reshape((n, flat.ncell) + (3,) * f['rank'])
        data[f['name']] = v.astype(np.int64) if f.get('int') else v
    if a.get('bad') == 'hole':
        q = r.randrange(len(cells))
        del cells[q], where[q]
    if a.get('bad') == 'shift':          # one cell is in no plane
        c = cells[r.randrange(len(cells))]
        nodes = np.concatenate([nodes, nodes[list(c[1])] + 0.01 * a['dz']])
        cells = [(t, tuple(range(len(nodes) - len(nod), len(nodes)))) if (t, nod) == c else (t, nod) for t, nod in cells]
    return nodes, cells, where, data


def zavg_view(a, axis=None, edited=0):
    """zavg_ref along another direction of a box, with values changed in memory"""
    nodes, cells, where, data = zavg_ref(a)
    if axis in (None, a['axis']):
        return nodes, cells, where, {n: edit_of(v, edited) for n, v in data.items()}
    flat = {n: np.array([v[w] for w in where]) for n, v in data.items()}
    (i, j), k = AXES[axis]
    ctr = np.array([nodes[list(nod)].mean(axis=0) for _, nod in cells])
    lay = {z: q for q, z in enumerate(sorted(set(np.round(ctr[:, k], 6))))}
    col = {xy: q for q, xy in enumerate(sorted(set(map(tuple, np.round(ctr[:, [i, j]], 6)))))}
    where = [(lay[np.round(c[k], 6)], col[tuple(np.round(c[[i, j]], 6))]) for c in ctr]
    assert len(set(where)) == len(lay) * len(col) == len(cells)
    out = {}
    for n, v in flat.items():
        o = np.zeros((len(lay), len(col)) + v.shape[1:], dtype=v.dtype)
        for w, x in zip(where, v):
            o[w] = x
        out[n] = edit_of(o, edited)
    return nodes, cells, where, out


def edit_of(v, times):
    for _ in range(times):
        v = v * 2 + 1
    return v


def prepare_zavg(a, root):
    nodes, cells, where, data = zavg_ref(a)
    cd = {n: np.array([v[w] for w in where]) for n, v in data.items()}
    enc = (lambda *p, **k: formats.encode_vtk_legacy(*p, ver=a['legacy'], **k)) if a.get('legacy') else formats.encode_vtu
    raw = enc(nodes, cells, cd, time=a['time'], enc=a['enc'])
    if a.get('bad') == 'cut':
        raw = raw[:-3] if a.get('legacy') else raw[:int(len(raw) * 0.7)]
    if a.get('bad') != 'missing':
        with open(os.path.join(root, zavg_in(a)), 'wb') as f:
            f.write(raw)


def zavg_in(a):
    return a.get('pre', '') + ('sol.vtk' if a.get('legacy') else 'sol.vtu')


def run_zavg(a, st):
    if 'v' not in st:
        v = node.P.vtk.vtkMesh()
        v.read(zavg_in(a))
        st['v'] = v
    ij, k = AXES[a['axis']]
    opt = dict(a['opts'])
    if a.get('select'):
        opt['select'] = copy.deepcopy(a['select'])
    if a.get('bad') == 'field':
        opt['select'] = {'absent': 'avg'}
    if a['axis'] != 'z':
        opt['splitcoords'] = lambda x: (x[:, list(ij)], x[:, k])
    st['v'].vtk_zconvolution(**opt).write_data(a['out'])
    return a['out']


def run_then(a, st):
    """the further averages of the same object"""
    out = []
    for k, t in enumerate(a.get('then', ())):
        cd = st['v'].pyvista_grid.cell_data
        for n in cd.keys():
            if t['edit'] == 'set':
                cd[n] = np.asarray(cd[n]) * 2 + 1
            elif t['edit'] == 'inplace':
                cd[n][:] = np.asarray(cd[n]) * 2 + 1
        b = {**a, **t, 'out': f'then{k}.vtu'}
        b.pop('select', None)
        out.append(run_zavg(b, st))
    return out


def zavg_fields(a, data):
    """{name: values by column}"""
    out = {}
    for n, v in data.items():
        o = {'avg': True, 'nmode': 0, **a['opts']}
        if a.get('select'):
            if n not in a['select']:
                continue
            w = a['select'][n]
            for x in [w] if isinstance(w, str) else w:
                o.update(x if isinstance(x, dict) else {'avg': False} if x == 'no_avg' else {x: True})
        if o.get('snapshot'):
            out[n] = v[0]
        if o['avg']:
            out[n + '_avg'] = v.sum(axis=0) / len(v)
        if o.get('rms'):
            out[n + '_rms'] = np.sqrt(((v - v.mean(axis=0)) ** 2).mean(axis=0))
        for m in range(1, o['nmode'] + 1):
            e = np.exp(-2j * np.pi * m * np.arange(len(v)) / len(v)).reshape((-1,) + (1,) * (v.ndim - 1))
            c = (v * e).sum(axis=0) / np.sqrt(len(v))
            out[f'{n}_k{m}'] = np.abs(c)
            if o.get('phase'):
                out[f'{n}_k{m}_phase'] = np.angle(c)
    return out


def check_then(a, k, path):
    t = a['then'][k]
    b = {**a, **t}
    b.pop('select', None)
    return check_zavg(b, path, zavg_view(a, t['axis'], sum(1 for x in a['then'][:k + 1] if x['edit'])))


def check_zavg(a, path, ref=None):
    nodes, cells, where, data = ref or zavg_ref(a)
    with open(path, 'rb') as f:
        d = formats.decode_vtu(f.read())
    first = {w[1]: (t, nod) for (t, nod), w in zip(cells, where) if w[0] == 0}
    pts = [tuple(p) for p in np.asarray(d['points'], dtype=float).tolist()]
    want = {(t, frozenset(tuple(nodes[q].tolist()) for q in nod)): c for c, (t, nod) in first.items()}
    if len(d['cells']) != len(want):
        return [f'{len(d["cells"])} cells instead of the {len(want)} of a plane']
    if len(pts) != len({q for _, nod in first.values() for q in nod}):
        return [f'{len(pts)} points instead of those of the first plane']
    col = [want.get((t, frozenset(pts[q] for q in nod))) for t, nod in d['cells']]
    if None in col or len(set(col)) != len(col):
        return ['the cells are not those of the first plane']
    for (t, nod), c in zip(d['cells'], col):
        ref = [tuple(nodes[q].tolist()) for q in first[c][1]]
        if [pts[q] for q in nod] != ref:
            return [f'cell of column {c} has its nodes in another order']
    exp = zavg_fields(a, data)
    out = []
    if set(d['celldata']) != set(exp):
        return [f'fields {sorted(d["celldata"])} instead of {sorted(exp)}']
    for n, v in exp.items():
        g, e = np.asarray(d['celldata'][n], dtype=float), v[col].astype(float)
        scale = float(np.abs(data[[x for x in data if n.startswith(x)][0]]).max()) + 1.0
        ok = g.shape == e.shape
        if ok and n.endswith('_phase'):
            amp = exp[n[:-6]][col]
            ok = bool((np.abs(np.exp(1j * g) - np.exp(1j * e)) * amp <= 1e-11 * scale).all())
        elif ok:
            ok = bool((np.abs(g - e) <= 1e-10 * np.abs(e) + 1e-12 * scale).all())
        if not ok:
            out.append(f'{n} is not that of its own column of cells')
    return out


# ------------------------------------------------------------------ probes
PVARS = ('P', 'RHO', 'U-X', 'U-Y', 'U-Z', 'T', 'RHO_AVG')
PDEP = {'Asound': ('P', 'RHO'), 'S': ('P', 'RHO'), 'Mach': ('U', 'Asound'), 'U': ('U-X', 'U-Y', 'U-Z'),
        'INVX+': ('U-X', 'Asound'), 'INVX-': ('U-X', 'Asound')}


def rand_probes(r, nrec=None):
    have = r.sample(PVARS, r.randrange(1, len(PVARS) + 1))
    if r.random() < 0.5:
        have = sorted(set(have) | {'P', 'RHO', 'U-X'}, key=lambda x: r.random())
    if r.random() < 0.35:                 # some solvers also write derived quantities
        have += r.sample(list(PDEP), r.choice([1, 1, 2]))
    coords = [c for c in 'XYZ' if r.random() < 0.8] or ['X']
    p = {'t': 'probes', 'seed': r.randrange(2 ** 32), 'have': have, 'coords': coords, 'nprobe': r.choice([1, 2, 3, 5]),
         'nrec': nrec or r.choice([2, 3, 7, 40]), 'clines': r.choice([1, 1, 3])}
    if r.random() < 0.5:                  # other magnitudes, signs and ways to print
        p['mag'] = {v: r.choice([-7, -3, 0, 0, 2, 5]) for v in have}
        p['neg'] = True
        p['fmt'] = r.choice(['r', 'e', 'E', 'g', '+'])
    full = [v for v in list(PDEP) + list(PVARS) + list('XYZ') if servable(p, v)]
    p['ask'] = r.sample(full, min(len(full), r.randrange(1, 6)))
    return p


def rand_plot(r):
    """a map drawn by the command"""
    p = rand_probes(r, r.choice([2, 3, 8, 600]))
    p['nprobe'] = r.choice([2, 3, 5])
    ok = [v for v in list(PDEP) + list(PVARS) if servable(p, v)]
    p.update(t='plot', data=r.choice(ok), axis=r.choice(p['coords']), map='freq' if p['nrec'] >= 600 else 'time', verbose=False)
    p['verbose'] = p['map'] == 'time' and r.random() < 0.3
    p['nlevels'] = r.choice([None, 5, 12])
    return p


def run_plot(p):
    """the figure as it is drawn (what it holds, and what is in the file)"""
    import matplotlib.pyplot as plt
    axes = plt.Axes
    rec, keep = [], axes.contourf
    axes.contourf = lambda self, *a, **k: (rec.append([np.array(x) for x in a]), keep(self, *a, **k))[1]
    try:
        run_cli('ic3probe_plotline', [probe_prefix(p), '--data', p['data'], '--axis', p['axis'], '--map', p['map']] + (['-v'] if p['verbose'] else [])
                + (['--cmaplevels', str(p['nlevels'])] if p['nlevels'] else []))
    finally:
        axes.contourf = keep
    with open(plot_name(p), 'rb') as f:
        raw = f.read()
    return {'maps': rec, 'image': [len(raw), hashlib.sha256(raw).hexdigest()], 'axes': len(plt.figure(1).axes)}


def plot_name(p):
    return f'{probe_prefix(p)}.{p["data"]}.{p["map"]}.png'


def check_plot(p, val):
    if len(val['maps']) != 1:
        return [f'{len(val["maps"])} maps are drawn']
    x, t, z = val['maps'][0]
    raw = {v: probe_values(p, v) for v in p['have']}
    out = []
    if not np.array_equal(x, probe_coord(p, p['axis'])):
        out.append('the axis of the map is wrong')
    e, et = derived(raw, p['data']), np.array(probe_times(p))
    if p['map'] == 'freq':
        n = len(et)
        et = np.fft.fftfreq(n, np.average(np.diff(et)))[1:n // 200]
        e = np.abs(np.fft.fft(e - np.average(e), axis=0))[1:n // 200]
    if t.shape != et.shape or not np.allclose(t, et, rtol=1e-9, atol=0):
        out.append(f'the {p["map"]} axis of the map is wrong')
    if z.shape != e.shape or not np.allclose(z, e, rtol=1e-9, atol=1e-11 * np.max(np.abs(e), initial=0)):
        out.append(f'the map does not hold the records: {z.shape} instead of {e.shape}')
    return out


def servable(p, v):
    return v in p['have'] or v in p['coords'] or (v in PDEP and all(servable(p, d) for d in PDEP[v]))


def probe_values(p, v):
    r = rng_for('probe', p['seed'], v)
    m = 10.0 ** p.get('mag', {}).get(v, 0)
    neg = p.get('neg') and v[0] in 'UT'
    return np.array([[r.uniform(-2.0 if neg else 0.5, 2.0) * m for _ in range(p['nprobe'])] for _ in range(p['nrec'])])


def printed(p, x):
    f = p.get('fmt', 'r')
    return {'r': repr(x), 'e': f'{x:.16e}', 'E': f'{x:.17E}', 'g': f'{x:.17g}', '+': f'{x:+.16e}'}[f]


def probe_times(p):
    r = rng_for('ptime', p['seed'])
    t, out = 0.0, []
    for _ in range(p['nrec']):
        t += r.uniform(1e-4, 1e-2)
        out.append(t)
    return out


def probe_coord(p, c):
    r = rng_for('pcoord', p['seed'], c)
    return [r.uniform(-5, 5) for _ in range(p['nprobe'])]


def probe_lines(p, v):
    """text lines of a probe file"""
    t = probe_times(p)
    if v in p['coords']:
        x = probe_coord(p, v)
        return [' '.join([str(k), printed(p, t[k % len(t)]), str(len(x))] + [printed(p, q) for q in x]) + '\n' for k in range(p['clines'])]
    a = probe_values(p, v)
    return [' '.join([str(10 * k), printed(p, t[k]), str(a.shape[1])] + [printed(p, float(q)) for q in a[k]]) + '\n' for k in range(len(t))]


def prepare_probes(p, root):
    for v in list(p['have']) + list(p['coords']):
        path = os.path.join(root, probe_prefix(p) + '.' + v)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(''.join(probe_lines(p, v)))


def probe_prefix(p):
    return p.get('pre', '') + 'line'


def derived(d, v):
    """a derived quantity from a dictionary of arrays"""
    if v in d:
        return d[v]
    if v == 'U':
        return np.sqrt(d['U-X'] ** 2 + d['U-Y'] ** 2 + d['U-Z'] ** 2)
    a = derived(d, 'Asound') if v not in ('S', 'Asound') else None
    return {'Asound': lambda: np.sqrt(1.4 * d['P'] / d['RHO']), 'S': lambda: np.log(d['P'] / d['RHO'] ** 1.4) / 0.4,
            'Mach': lambda: derived(d, 'U') / a, 'INVX+': lambda: 5 * a + d['U-X'], 'INVX-': lambda: 5 * a - d['U-X']}[v]()


def near(q, a, e, d):
    """a derived quantity against its definition, whatever the order of the operations"""
    atol = 1e-12 if q == 'S' else 0
    if q[:3] == 'INV' and ('Asound' in d or ('P' in d and 'RHO' in d)):
        atol = 1e-12 * float(np.max(np.abs(5 * derived(d, 'Asound')), initial=0))
    return a.shape == e.shape and np.allclose(a, e, rtol=1e-12, atol=atol)


def check_probes(p, val, names=None):
    out = []
    raw = {v: probe_values(p, v) for v in p['have']}
    for v in names or p['ask']:
        if v not in val:
            out.append(f'{v} was not read')
            continue
        got = val[v]
        if v in p['coords']:
            if got.shape != (p['nprobe'],) or not np.array_equal(got, probe_coord(p, v)):
                out.append(f'coordinate {v} is {got.shape}, wrong values')
        elif v in raw:
            if not oracle.eqarr(got, raw[v] if p['nrec'] > 1 else raw[v][0]):
                out.append(f'{v}: {got.shape} values differ from the {raw[v].shape} recorded')
        else:
            e = derived(raw, v)
            if not near(v, got, e, raw):
                out.append(f'{v}: computed values are wrong')
    if p['nrec'] > 1 and any(v in p['have'] or v in PDEP for v in names or p['ask']):
        if not np.array_equal(val.get('time', ()), probe_times(p)):
            out.append('record times differ')
    return out


# ------------------------------------------------------------------ cube
def rand_cube(r):
    n = [r.choice([1, 2, 3, 4]) for _ in range(3)]
    if n == [1, 1, 1]:
        n[r.randrange(3)] = 2
    return {'t': 'cube', 'n': n, 'ext': r.choice(['.ic3', '.vtu']), 'outpath': r.random() < 0.3}


def prepare_cube(c, root):
    os.makedirs(os.path.dirname(os.path.join(root, cube_name(c))), exist_ok=True)


def cube_name(c):
    return c.get('pre', '') + ('out/' if c['outpath'] else '') + 'box' + c['ext']


def run_cube(c):
    v = [x for k, a in zip(c['n'], ('--nx', '--ny', '--nz')) for x in (a, str(k))]
    v += ['--outpath', c.get('pre', '') + 'out'] if c['outpath'] else []
    return str(run_cli('cfdwritecube', v + [('' if c['outpath'] else c.get('pre', '')) + 'box' + c['ext']]))


def check_cube(c, root, name):
    ref = refmesh.build({'kind': 'hexa', 'n': c['n'], 'seed': 0, 'pert': 0.0, 'perm': 'none', 'rot': False, 'len': [1.0, 1.0, 1.0]})
    if name != cube_name(c):
        return [f'cfdwritecube returned {name} instead of {cube_name(c)}']
    with open(os.path.join(root, name), 'rb') as f:
        raw = f.read()
    if c['ext'] == '.vtu':
        return oracle.check_vtu(ref, formats.decode_vtu(raw), exact=False, ordered=False)
    return oracle.check_ic3(ref, formats.decode_ic3(raw), 3, ordered=False, exact=False, params=False, partition=False)


# ------------------------------------------------------------------ writes from memory
def rand_write(r, big=False, fmts=('ic3v2', 'ic3v3', 'v4', 'vtu')):
    fmt = r.choice(fmts)
    d3 = ('hexa', 'prism', 'tetra', 'pyra', 'hexpri', 'hexpyr', 'mix')
    w = {'t': 'write', 'fmt': fmt, 'endian': r.choice(['native', 'little', 'big']) if fmt[:3] == 'ic3' else 'native'}
    if fmt == 'v4':
        w['mesh'] = refmesh.v4_data(r, refmesh.rand_spec(r, kinds=d3, ints=False, big=big, split=True))
        w['sol'] = r.random() < 0.75
    elif fmt == 'vtu':
        w['mesh'] = refmesh.rand_spec(r, kinds=d3 + ('tri', 'quad', 'mix2'), data=False, perio=False, big=big, split=True)
    else:
        w['mesh'] = refmesh.rand_spec(r, kinds=d3, ints=fmt == 'ic3v3', ndof=fmt == 'ic3v3', big=big, split=True)
    return w


def write_outs(w):
    p = w.get('pre', '')
    return [p + 'o' + EXT[w['fmt']]] + ([p + 'os.h5'] if w.get('sol') else [])


def run_write(w, st):
    if 'm' not in st:
        st['m'] = node.make_mesh(refmesh.build(w['mesh']))
    if 'w' not in st:
        st['w'] = node.writer_for(w['fmt'], st['m'], w['endian'])
    o = write_outs(w)
    node.do_write(st['w'], o[0], o[1] if len(o) > 1 else None)
    return o


def check_write(w, root, outs):
    ref = refmesh.build(w['mesh'])
    p = [os.path.join(root, o) for o in outs]
    if w['fmt'] == 'v4':
        return oracle.check_v4(ref, formats.decode_v4(p[0], p[1] if w.get('sol') else None), bool(w.get('sol')))
    with open(p[0], 'rb') as f:
        raw = f.read()
    if w['fmt'] == 'vtu':
        return oracle.check_vtu(ref, formats.decode_vtu(raw), ordered=False)
    return oracle.check_ic3(ref, formats.decode_ic3(raw), int(w['fmt'][-1]))


# ------------------------------------------------------------------ any operation
KINDS = ('cli', 'pack', 'read', 'write', 'cube', 'probes', 'info', 'brief', 'vtkbrief', 'vtkdump', 'vtklist', 'plot', 'zavg')


def rand_act(r, kinds=KINDS, pre='', big=False):
    t = r.choice(kinds)
    if t == 'cli':
        a = rand_conversion(r, big=big)
        a['in'] = pre + a['in']
        if a['args'].get('outpath'):
            a['args']['outpath'] = pre + 'out'
    elif t == 'pack':
        a = rand_pack(r)
        if a['via'] == 'api':
            a['out'] = pre + a['out']
    elif t == 'read':
        s = rand_source(r, ('gmsh22', 'gmsh41', 'cgns', 'ic3', 'ic3', 'v4', 'vtu', 'packed'), big=big, legacy=True)
        a = {'t': 'read', 'src': s, 'integrity': r.random() < 0.3}
    elif t == 'write':
        a = rand_write(r, big)
    elif t == 'cube':
        a = rand_cube(r)
    elif t == 'probes':
        a = rand_probes(r)
    elif t == 'plot':
        a = rand_plot(r)
    elif t == 'zavg':
        a = rand_zavg(r)
        a['out'] = pre + a['out']
    elif t == 'info':
        s = rand_source(r, ('gmsh22', 'gmsh41', 'cgns', 'ic3'), big=big)
        a = {'t': 'info', 'src': s, 'check': r.random() < 0.4}
    elif t == 'brief':
        a = {'t': 'brief', 'src': rand_source(r, ('ic3',), big=big)}
    elif t in ('vtkbrief', 'vtkdump'):
        a = {'t': t, 'src': rand_source(r, ('vtu',), big=big, legacy=True)}
        if t == 'vtkdump':
            a['out'] = pre + 'mesh.h5'
    else:
        a = rand_pack(r, via='api')
        a['t'] = 'vtklist'
    a['pre'] = pre
    return a


def in_name(a):
    return a['in'] if a['t'] == 'cli' else a['pre'] + 'in' + EXT[a['src']['f']]


def prepare_act(a, root):
    t = a['t']
    if a.get('pre'):
        os.makedirs(os.path.join(root, os.path.dirname(a['pre'])), exist_ok=True)
    if t == 'cli':
        prepare_conversion(a, root)
    elif t in ('pack', 'vtklist'):
        prepare_pack(a, root)
    elif t == 'cube':
        prepare_cube(a, root)
    elif t in ('probes', 'plot'):
        prepare_probes(a, root)
    elif t == 'zavg':
        prepare_zavg(a, root)
    elif 'src' in a:
        write_source(a['src'], os.path.join(root, in_name(a)))


def inputs_of(a):
    """files the operation may only read"""
    t = a['t']
    if t in ('pack', 'vtklist'):
        return [snap_name(a, k) for k in range(len(a['snaps']))]
    if t in ('probes', 'plot'):
        return [probe_prefix(a) + '.' + v for v in list(a['have']) + list(a['coords'])]
    if t == 'zavg':
        return [zavg_in(a)]
    if 'src' in a:
        return source_files(a['src'], in_name(a))
    return []


def run_act(a, st=None):
    """in a node; objects kept in st serve again when the operation is repeated"""
    st = {} if st is None else st
    t = a['t']
    if t == 'cli':
        return run_conversion(a)
    if t == 'pack':
        return run_pack(a, st)
    if t == 'cube':
        return run_cube(a)
    if t == 'write':
        return run_write(a, st)
    if t == 'read':
        return run_read(a, st)
    if t == 'probes':
        if 'd' not in st:
            st['d'] = node.P.probes.phydata(probe_prefix(a))
        for n in a['ask']:
            st['d'].check_data(n, prefix=probe_prefix(a))
        return {k: np.array(v) for k, v in st['d'].alldata.items()}
    if t == 'plot':
        return run_plot(a)
    if t == 'zavg':
        return run_zavg(a, st)
    if t == 'info':
        return bool(run_cli('cfdinfo', (['--check'] if a['check'] else []) + [in_name(a)]))
    if t == 'brief':
        return bool(run_cli('ic3brief', [in_name(a)]))
    if t == 'vtkbrief':
        return bool(run_cli('vtkbrief', [in_name(a)]))
    if t == 'vtkdump':
        v = st.get('v')
        if v is None:
            v = node.P.vtk.vtkMesh()
            v.read(in_name(a))
            st['v'] = v
        return str(v.dumphdf(a['out']))
    if t == 'vtklist':
        files = [snap_name(a, k) for k in range(len(a['snaps']))]
        if 'vl' not in st:
            st['vl'] = node.P.vtk.vtkList(files)
        vl = st['vl']
        if not vl.allexist():
            raise FileNotFoundError('some files are missing')
        vl.read(filterdata=list(a['filter']) if a.get('filter') else None)
        same = bool(vl.check_order())
        return {'same_order': same, 'ncell': int(vl._mesh.n_cells), 'points': np.array(vl._mesh.points),
                'data': [{k: np.array(v) for k, v in d.items()} for d in vl._data._datalist]}
    raise ValueError(t)


def run_read(a, st):
    s, name = a['src'], in_name(a)
    f = FMT[s['f']]
    if f == 'packed':
        return node.read_packed(name)
    if f == 'vtu':
        if 'r' not in st:
            st['r'] = node.P.vtk.vtkMesh()
        st['r'].read(name)
        st['mesh'] = st['r'].export_mesh()
        d = node.canon(st['mesh'])
        d['pv'] = node.pv_data(st['r'].pyvista_grid)
        return d
    if 'r' not in st:
        sol = solpath(name) if s['f'] == 'v4' and s['opt'].get('sol') else None
        st['r'] = node.open_reader(f, name, bool(a.get('integrity')) and f == 'ic3', sol)
    st['r'].read_data()
    st['mesh'] = st['r'].export_mesh()
    d = node.canon(st['mesh'])
    d['rncell'] = int(st['r'].ncell)
    return d


def outputs_of(a, value):
    """files a successful operation wrote, from what it returned"""
    t = a['t']
    if t in ('cli', 'cube', 'vtkdump', 'zavg'):
        return [value]
    if t == 'write':
        return list(value)
    if t == 'pack':
        return [value] + ([os.path.splitext(value)[0] + '.xmf'] if a.get('xdmf') else [])
    return []


def check_vtklist(a, val):
    ref = pack_ref(a)
    perm0 = snap_perm(a, 0, ref.ncell)
    out = []
    if val['ncell'] != ref.ncell or oracle.match_nodes(val['points'], ref.nodes, True, not a['snaps'][0].get('renum'))[0]:
        out.append('the mesh is not that of the first snapshot')
    if val['same_order'] != all(snap_perm(a, k, ref.ncell) == perm0 for k in range(len(a['snaps']))):
        out.append('check_order is wrong')
    if len(val['data']) != len(a['snaps']):
        return out + [f'{len(val["data"])} snapshots instead of {len(a["snaps"])}']
    for k, d in enumerate(val['data']):
        names = a.get('filter') or snap_fields(a, k)
        e = snap_data(a, k, ref.ncell)
        if set(d) - {'time'} != set(names):
            out.append(f'snapshot {k} holds {sorted(d)}')
            continue
        out += [f'snapshot {k}: field {n} is not on its own cells' for n in names if not oracle.eqarr(d[n], e[n][perm0])]
        t, g = a['snaps'][k]['time'], d.get('time')
        if (t is None) != (g is None) or (t is not None and float(np.ravel(g)[0]) != t):
            out.append(f'snapshot {k}: time {g} instead of {t}')
    return out


def check_act(a, root, value):
    """what a successful operation returned or wrote"""
    t = a['t']
    for o in outputs_of(a, value):
        if not os.path.exists(os.path.join(root, o)):
            return [f'{o} does not exist']
    try:
        if t == 'cli':
            return check_conversion(a, os.path.join(root, value))
        if t == 'pack':
            return check_pack(a, root, value)
        if t == 'cube':
            return check_cube(a, root, value)
        if t == 'write':
            return check_write(a, root, value)
        if t == 'zavg':
            return check_zavg(a, os.path.join(root, value))
        if t == 'vtkdump':
            d = formats.decode_packed(os.path.join(root, value))
            ref = ref_of(a['src'])
            if d['attrs'].get('cfd_datatype') != 'dataset' or d['meshtype'] != 'unsmesh' or d['groups']:
                return ['wrong type of packed mesh']
            err, nmap = oracle.match_nodes(d['nodes'], ref.nodes, True, False)
            if err:
                return [err]
            out = []
            cells = [(et, tuple(int(q) for q in row)) for et, v in d['cells'].items() for row in v.tolist()]
            oracle.check_cells(ref, nmap, cells, False, out, 'packed mesh')
            return out
    except Exception as e:  # noqa: BLE001
        return [f'the output cannot be decoded: {type(e).__name__}: {e}']
    if t == 'read':
        return check_read(a['src'], value)
    if t == 'probes':
        return check_probes(a, value)
    if t == 'plot':
        return check_plot(a, value)
    if t == 'vtklist':
        return check_vtklist(a, value)
    return [] if value is True else [f'returned {value!r}']
