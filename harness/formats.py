"""Independent codecs: none of this uses cfdtools.

Decoders return plain dictionaries and raise Malformed when a file is not what its format says.
"""
import base64
import re
import struct
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
import zlib

import numpy as np

from sim.core import rng_for


class Malformed(Exception):
    pass


# ------------------------------------------------------------------ IC3 v2/v3 (binary sections)
MAGIC = 123581321
ID = {'COUNTS': 10, 'I0': 11, 'D0': 12, 'FA_CHECK': 20, 'NOOFA': 21, 'CVOFA': 22, 'FA_ZONE': 23, 'FA_D1': 24, 'FA_D3': 25,
      'FA_II1': 26, 'NO_CHECK': 30, 'X_NO': 31, 'NO_D1': 32, 'NO_D3': 33, 'NO_II1': 34, 'CV_CHECK': 40, 'CV_PART': 41,
      'CV_D1': 42, 'CV_D3': 43, 'CV_D33': 44, 'CV_II1': 45, 'DATA': 50, 'EOF': 51}
KIND = {1: 'boundary', 2: 'perio_cart', 3: 'perio_cylx', 4: 'perio_cyly', 5: 'perio_cylz', 6: 'internal'}
IKIND = {v: k for k, v in KIND.items()}
HSIZE = 256


def ic3_sections(raw):
    """-> (endian, version, [(name, id, idata, rdata, payload)])"""
    if len(raw) < 8:
        raise Malformed('no file header')
    en = '>' if struct.unpack('>i', raw[:4])[0] == MAGIC else '<'
    magic, version = struct.unpack(en + 'ii', raw[:8])
    if magic != MAGIC:
        raise Malformed('bad magic number')
    pos, out = 8, []
    while True:
        if pos + HSIZE > len(raw):
            raise Malformed(f'section header cut at byte {pos}')
        name = raw[pos:pos + 52].split(b'\0', 1)[0]
        sid, skip = struct.unpack(en + 'iq', raw[pos + 52:pos + 64])
        idata = struct.unpack(en + '8q', raw[pos + 64:pos + 128])
        rdata = struct.unpack(en + '16d', raw[pos + 128:pos + 256])
        if skip < HSIZE or pos + skip > len(raw):
            raise Malformed(f'section {name!r} at {pos} has impossible size {skip}')
        out.append((name.decode('ascii'), sid, idata, rdata, raw[pos + HSIZE:pos + skip]))
        pos += skip
        if sid == ID['EOF']:
            if pos != len(raw):
                raise Malformed('bytes after the EOF section')
            return en, version, out


def _arr(en, code, payload, n, what):
    dt = np.dtype(en + code)
    if len(payload) != n * dt.itemsize:
        raise Malformed(f'{what}: {len(payload)} bytes for {n} values of {dt.itemsize}')
    return np.frombuffer(payload, dtype=dt).astype(dt.newbyteorder('='))


def decode_ic3(raw):
    en, version, secs = ic3_sections(raw)
    d = {'version': version, 'endian': en, 'zones': [], 'params': {}, 'nodedata': {}, 'celldata': {}, 'checks': {}, 'facedata': {}}
    count = [s for s in secs if s[1] == ID['COUNTS']]
    if len(count) != 1:
        raise Malformed('not exactly one COUNTS section')
    nno, nfa, ncv, nnf = count[0][2][:4]
    d['counts'] = (nno, nfa, ncv, nnf)
    seen = set()
    for name, sid, idt, rdt, pay in secs:
        if sid in (10, 21, 22, 31, 41, 51):
            if sid in seen:
                raise Malformed(f'section {sid} twice')
            seen.add(sid)
        if sid in (20, 30, 40):
            n = {20: nfa, 30: nno, 40: ncv}[sid]
            a = _arr(en, 'i4', pay, n, name)
            if idt[0] != n or not np.array_equal(a, np.arange(n)):
                raise Malformed(f'identifier section {name} is not 0..{n - 1}')
            d['checks'][sid] = True
        elif sid == 21:
            if idt[:2] != (nfa, nnf):
                raise Malformed('NOOFA counts')
            per = _arr(en, 'i4', pay[:4 * nfa], nfa, name)
            val = _arr(en, 'i4', pay[4 * nfa:], nnf, name)
            if per.sum() != nnf:
                raise Malformed('NOOFA sizes do not add up')
            b = np.concatenate(([0], np.cumsum(per)))
            d['facenodes'] = [tuple(int(v) for v in val[b[i]:b[i + 1]]) for i in range(nfa)]
        elif sid == 22:
            if idt[:2] != (nfa, 2):
                raise Malformed('CVOFA counts')
            d['cvofa'] = _arr(en, 'i4', pay, 2 * nfa, name).reshape(-1, 2)
        elif sid == 23:
            d['zones'].append((name, KIND.get(idt[0], idt[0]), idt[1], idt[2], rdt))
            if pay:
                raise Malformed('payload in FA_ZONE')
        elif sid == 41:
            if idt[0] != ncv:
                raise Malformed('CV_PART count')
            d['partition'] = (idt[1], _arr(en, 'i4', pay, ncv, name))
        elif sid == 31:
            if idt[:2] != (nno, 3):
                raise Malformed('X_NO counts')
            d['nodes'] = _arr(en, 'f8', pay, 3 * nno, name).reshape(-1, 3)
        elif sid == 11:
            d['params'][name.lower()] = idt[0]
        elif sid == 12:
            d['params'][name.lower()] = rdt[0]
        elif sid in (24, 25, 26, 32, 33, 34, 42, 43, 44, 45):
            loc = {2: 'facedata', 3: 'nodedata', 4: 'celldata'}[sid // 10]
            n = {2: nfa, 3: nno, 4: ncv}[sid // 10]
            comp = {24: 1, 25: 3, 26: 1, 32: 1, 33: 3, 34: 1, 42: 1, 43: 3, 44: 9, 45: 1}[sid]
            if idt[0] != n:
                raise Malformed(f'{name}: count {idt[0]} instead of {n}')
            nd = max(1, idt[1]) if (version >= 3 and sid >= 40) else 1
            a = _arr(en, 'i8' if sid in (26, 34, 45) else 'f8', pay, n * nd * comp, name)
            if comp == 3:
                a = a.reshape(-1, 3)
            elif comp == 9:
                a = a.reshape(-1, 3, 3)
            if name in d[loc]:
                raise Malformed(f'data {name} twice')
            d[loc][name] = a
            if sid >= 40:
                d.setdefault('ndof', {})[name] = nd
    for k in ('facenodes', 'cvofa', 'nodes', 'partition'):
        if k not in d:
            raise Malformed(f'no {k} section')
    return d


def _head(en, name, sid, skip, idata=(), rdata=()):
    i = list(idata) + [0] * (8 - len(idata))
    f = list(rdata) + [0.0] * (16 - len(rdata))
    return struct.pack(en + '52siq8q16d', name.encode(), sid, skip, *i, *f)


def face_order(ref):
    """boundary faces patch by patch, then the rest: -> [(frozenset, cycle, c0, c1)], zones"""
    cyc, fm = ref.face_cycles(), ref.faces()
    order, zones = [], []
    done = set()
    for name, p in ref.patches.items():
        fs = sorted(p['faces'], key=sorted)
        zones.append((name, p['kind'], len(order), len(order) + len(fs) - 1, p['perio']))
        order += fs
        done |= set(fs)
    rest = sorted(ref.bfaces() - done, key=sorted)
    if rest:
        zones.append(('unmarked', 'boundary', len(order), len(order) + len(rest) - 1, None))
        order += rest
        done |= set(rest)
    nb = len(order)
    order += sorted((f for f in fm if f not in done), key=sorted)
    out = [(f, cyc[f], fm[f][0], fm[f][1] if len(fm[f]) > 1 else -1) for f in order]
    return out, zones, nb


def encode_ic3(ref, version, en, part=True, ids=False, fdata=False, mix=False):
    out, zones, nb = face_order(ref)
    nno, nfa, ncv = ref.nnode, len(out), ref.ncell
    val = [q for o in out for q in o[1]]
    b = bytearray(struct.pack(en + 'ii', MAGIC, version))

    def sec(name, sid, idata=(), rdata=(), pay=b''):
        b.extend(_head(en, name, sid, HSIZE + len(pay), idata, rdata))
        b.extend(pay)

    def ints(a):
        return np.asarray(a).astype(en + 'i4').tobytes()

    def dbl(a):
        return np.ascontiguousarray(a, dtype=np.float64).astype(en + 'f8').tobytes()

    sec('NO_FA_CV_NOOFA_COUNTS', 10, (nno, nfa, ncv, len(val)))
    if version < 3 or ids:
        sec('NO_CHECK', 30, (nno,), pay=ints(range(nno)))
        sec('FA_CHECK', 20, (nfa,), pay=ints(range(nfa)))
        sec('CV_CHECK', 40, (ncv,), pay=ints(range(ncv)))
    sec('NOOFA_I_AND_V', 21, (nfa, len(val)), pay=ints([len(o[1]) for o in out]) + ints(val))
    sec('CVOFA', 22, (nfa, 2), pay=ints([[o[2], o[3]] for o in out]))
    heads = list(zones)
    if getattr(ref, 'zshuf', None) is not None:      # zones need not come in the order of their faces
        rng_for('zones', ref.zshuf).shuffle(heads)
    for name, kind, a, z, tr in heads:
        sec(name, 23, (IKIND[kind], a, z), tr or ())
    sec('internal-domain', 23, (6, nb, nfa - 1))
    p = ref.partition or {'npart': 1, 'icvpart': np.zeros(ncv, dtype=np.int32)}
    sec('CV_PART', 41, (ncv, p['npart']), pay=ints(p['icvpart']))
    sec('X_NO', 31, (nno, 3), pay=dbl(ref.nodes))
    sec('DATA', 50)
    sec('STEP', 11, (ref.params.get('step', 0),))
    sec('DT', 12, (), (float(ref.params.get('dt', 0)),))
    sec('TIME', 12, (), (float(ref.params.get('time', 0)),))
    for k, v in ref.params.get('wgt', {}).items():
        sec(k.upper() + '_WGT', 12, (), (v,))
    data_secs = []
    for loc, data, n, base in (('node', ref.nodedata, nno, 30), ('cell', ref.celldata, ncv, 40)):
        for rank in (0, 1, 2):
            for name, a in data.items():
                if a.ndim != rank + 1:
                    continue
                if loc == 'node' and rank == 2:
                    continue
                integer = a.dtype == np.int64 and version >= 3
                sid = base + {0: 2, 1: 3, 2: 4}[rank]
                if integer:
                    sid = base + (4 if loc == 'node' else 5)
                pay = a.astype(en + 'i8').tobytes() if integer else dbl(a)
                i1 = ref.ndof if (version >= 3 and loc == 'cell') else (0 if rank == 0 else 3)
                data_secs.append((name, sid, (n, i1, 3 if rank == 2 else 0), pay))
    rf = rng_for('ic3secs', nno, nfa, ncv, len(val))
    if fdata:                                        # values on faces, which nothing else may notice
        more = [('FA_FLUX', 24, (nfa,), dbl([rf.uniform(-9, 9) for _ in range(nfa)])),
                ('FA_VEL', 25, (nfa, 3), dbl([rf.uniform(-9, 9) for _ in range(3 * nfa)]))]
        more += [(k, 24, (nfa,), dbl([-7.0] * nfa)) for k in list(ref.celldata)[:1]]
        more += [('FA_TAG', 26, (nfa,), np.arange(nfa).astype(en + 'i8').tobytes())] if version >= 3 else []
        data_secs = more[:1] + data_secs + more[1:]
    if mix:                                          # in the order the solver registered them
        rf.shuffle(data_secs)
    for name, sid, idata, pay in data_secs:
        sec(name, sid, idata, pay=pay)
    sec('EOF', 51)
    return bytes(b)


# ------------------------------------------------------------------ IC3 v4 (HDF5)
def decode_v4(mesh_path, sol_path=None):
    import h5py

    d = {'params': {}, 'celldata': {}, 'zones': [], 'wgt': {}}
    with h5py.File(mesh_path, 'r') as f:
        at = dict(f.attrs)
        d['counts'] = tuple(int(at[k]) for k in ('no_count', 'fa_count', 'cv_count'))
        d['nodes'] = f['coordinates'][()].reshape(-1, 3)
        g = f['Connectivities/Face']
        per, val = g['noofa_i'][()], g['noofa_v'][()]
        if per.sum() != val.size:
            raise Malformed('noofa sizes do not add up')
        b = np.concatenate(([0], np.cumsum(per)))
        d['facenodes'] = [tuple(int(v) for v in val[b[i]:b[i + 1]]) for i in range(per.size)]
        d['cvofa'] = g['cvofa'][()].reshape(-1, 2)
        bd = f['Boundaries']
        off, lab, kin = bd['offsets'][()], bd['labels'][()], bd['kinds'][()]
        if off.size != lab.size + 1 or kin.size != lab.size:
            raise Malformed('boundary tables of different sizes')
        for i, la in enumerate(lab):
            name = la.decode() if isinstance(la, bytes) else str(la)
            tr = None
            if name in bd and 'periodic_transform' in bd[name]:
                tr = bd[name]['periodic_transform'][()]
            d['zones'].append((name, KIND.get(int(kin[i]), int(kin[i])), int(off[i]), int(off[i + 1]) - 1, tr))
        if 'Cell' in f['Connectivities']:
            d['cells'] = {k: v[()] for k, v in f['Connectivities/Cell'].items()}
    if sol_path:
        with h5py.File(sol_path, 'r') as f:
            d['params'] = {k: v for k, v in f.attrs.items()}
            for k, v in f.items():
                if isinstance(v, h5py.Dataset):
                    d['celldata'][k] = v[()]
            if 'VolumeStats' in f:
                d['wgt'] = dict(f['VolumeStats'].attrs)
                for k, v in f['VolumeStats'].items():
                    d['celldata'][k] = v[()]
    return d


def encode_v4(ref, mesh_path, sol_path=None, cells=True):
    import h5py

    out, zones, nb = face_order(ref)
    with h5py.File(mesh_path, 'w') as f:
        f.attrs.update({'ic3_format_version': 4, 'meshtype': 'unstructured', 'no_count': ref.nnode, 'fa_count': len(out),
                        'cv_count': ref.ncell})
        f.create_dataset('coordinates', data=ref.nodes.ravel())
        g = f.create_group('Connectivities/Face')
        g.create_dataset('cvofa', data=np.array([[o[2], o[3]] for o in out]).ravel(), dtype='i4')
        g.create_dataset('noofa_i', data=np.array([len(o[1]) for o in out]), dtype='i4')
        g.create_dataset('noofa_v', data=np.array([q for o in out for q in o[1]]), dtype='i4')
        b = f.create_group('Boundaries')
        lab = [z[0] for z in zones] + ['internal-domain']
        b.create_dataset('labels', data=lab, dtype=h5py.string_dtype(encoding='utf-8', length=128))
        b.create_dataset('offsets', data=[z[2] for z in zones] + [nb, len(out)], dtype='i4')
        b.create_dataset('kinds', data=[IKIND[z[1]] for z in zones] + [6], dtype='i4')
        for z in zones:
            if z[4] is not None:
                b.create_group(z[0]).create_dataset('periodic_transform', data=np.array(z[4][:3]), dtype='f8')
    if sol_path:
        with h5py.File(sol_path, 'w') as f:
            f.attrs.update({'step': ref.params.get('step', 0), 'time': ref.params.get('time', 0.0)})
            v = f.create_group('VolumeStats')
            for k, w in ref.params.items():
                if k.endswith('_wgt'):
                    v.attrs[k] = w
            full = all(k in ref.celldata for k in ('RHO', 'RHOU', 'RHOE'))
            for k, a in ref.celldata.items():
                base = k in ('RHO', 'RHOU', 'RHOE')
                if (base and not full) or not (base or any(s in k for s in ('_AVG', '_RMS', '_REY'))):
                    continue
                (f if base else v).create_dataset(k.lower(), data=a.ravel(), dtype='f8')


# ------------------------------------------------------------------ VTU
VTKTYPE = {3: 'bar2', 5: 'tri3', 9: 'quad4', 10: 'tetra4', 12: 'hexa8', 13: 'prism6', 14: 'pyra5'}
VTKID = {v: k for k, v in VTKTYPE.items()}
VDT = {'Float64': 'f8', 'Float32': 'f4', 'Int64': 'i8', 'Int32': 'i4', 'UInt8': 'u1', 'Int8': 'i1', 'UInt64': 'u8', 'UInt32': 'u4',
       'Int16': 'i2', 'UInt16': 'u2'}


def decode_vtu(raw):
    """a complete <VTKFile type=UnstructuredGrid> document, ascii / inline base64 / appended raw or base64, zlib or not"""
    m = re.search(rb'<AppendedData[^>]*>', raw)
    blob, enc = None, None
    text = raw
    if m:
        us = raw.index(b'_', m.end())
        e = raw.rfind(b'</AppendedData>')
        if e < 0:
            raise Malformed('AppendedData not closed')
        blob = raw[us + 1:e]
        enc = 'raw' if b'raw' in m.group(0) else 'base64'
        text = raw[:m.end()] + raw[e:]
    try:
        root = ET.fromstring(text)
    except ET.ParseError as ex:
        raise Malformed(f'not a complete XML document: {ex}')
    if root.get('type') != 'UnstructuredGrid':
        raise Malformed('not an UnstructuredGrid')
    hd = VDT[root.get('header_type', 'UInt32')]
    en = '<' if root.get('byte_order', 'LittleEndian') == 'LittleEndian' else '>'
    comp = root.get('compressor')
    hs = np.dtype(hd).itemsize

    def unpack(buf, b64):
        """buf starts at the array"""
        def take(data, n):
            if b64:
                k = 4 * ((n + 2) // 3)
                return base64.b64decode(data[:k], validate=True)[:n], data[k:]
            return data[:n], data[n:]

        if not comp:
            if b64:
                head, _ = take(buf, hs)
                n = int(np.frombuffer(head, en + hd)[0])
                body, _ = take(buf, hs + n)
                out = body[hs:]
            else:
                n = int(np.frombuffer(buf[:hs], en + hd)[0])
                out = buf[hs:hs + n]
            if len(out) != n:
                raise Malformed('array cut')
            return out
        head, _ = take(buf, hs)
        nb = int(np.frombuffer(head, en + hd)[0])
        if nb == 0:
            return b''
        head, rest = take(buf, hs * (3 + nb))
        h = np.frombuffer(head, en + hd)
        sizes = [int(v) for v in h[3:]]
        body, _ = take(rest, sum(sizes))
        if len(body) != sum(sizes):
            raise Malformed('compressed array cut')
        out, p = b'', 0
        for s in sizes:
            out += zlib.decompress(body[p:p + s])
            p += s
        return out

    def data(el):
        dt = VDT[el.get('type')]
        nc = int(el.get('NumberOfComponents', '1'))
        fmt = el.get('format')
        if fmt == 'ascii':
            a = np.array((el.text or '').split(), dtype=np.float64 if dt[0] == 'f' else np.int64).astype(dt)
        elif fmt == 'appended':
            a = np.frombuffer(unpack(blob[int(el.get('offset')):], enc == 'base64'), en + dt)
        else:
            a = np.frombuffer(unpack((el.text or '').strip().encode(), True), en + dt)
        return a.reshape(-1, nc) if nc > 1 else a

    grid = root.find('UnstructuredGrid')
    out = {'celldata': {}, 'pointdata': {}, 'fielddata': {}}
    fd = grid.find('FieldData')
    if fd is not None:
        for el in fd:
            if el.tag == 'DataArray':
                out['fielddata'][el.get('Name')] = data(el)
    pieces = grid.findall('Piece')
    if len(pieces) != 1:
        raise Malformed(f'{len(pieces)} pieces')
    pc = pieces[0]
    npt, ncl = int(pc.get('NumberOfPoints')), int(pc.get('NumberOfCells'))
    pts = data(pc.find('Points')[0]).reshape(-1, 3)
    ce = {el.get('Name'): data(el) for el in pc.find('Cells')}
    off, con, typ = ce['offsets'], ce['connectivity'], ce['types']
    if len(pts) != npt or len(typ) != ncl or len(off) != ncl or (ncl and int(off[-1]) != con.size):
        raise Malformed('counts and arrays disagree')
    cells, p = [], 0
    for t, o in zip(typ, off):
        nod = tuple(int(v) for v in con[p:int(o)])
        cells.append((VTKTYPE.get(int(t), int(t)), nod))
        p = int(o)
    if con.size and (con.min() < 0 or con.max() >= npt):
        raise Malformed('node index out of range')
    for loc, tag in (('celldata', 'CellData'), ('pointdata', 'PointData')):
        el = pc.find(tag)
        if el is not None:
            for a in el:
                out[loc][a.get('Name')] = data(a)
    out['points'], out['cells'] = pts, cells
    return out


def encode_vtu(points, cells, celldata=None, time=None, ascii=False, order=None, ptype='Float64', enc=None,
               pointdata=None):
    """cells: [(etype, nodes)] in file order; celldata arrays follow `order` (file position -> value row)"""
    ascii = ascii or enc == 'ascii'
    en = '>' if enc == 'be' else '<'
    flt = 'Float32' if enc == 'f32' else 'Float64'
    ptype = flt if enc else ptype

    def arr(name, a, typ, nc=1):
        a = np.asarray(a)
        if ascii and typ[0] != 'F':
            body, f = ' '.join(str(v) for v in a.ravel().tolist()), 'ascii'
        else:
            with np.errstate(all='ignore'):
                d = np.ascontiguousarray(a).astype(en + VDT[typ]).tobytes()
            if enc == 'zlib':
                bl = [d[q:q + 512] for q in range(0, len(d), 512)]
                z = [zlib.compress(q) for q in bl]
                h = struct.pack(f'<{3 + len(z)}Q', len(z), 512, len(d) % 512, *[len(q) for q in z])
                body, f = base64.b64encode(h).decode() + base64.b64encode(b''.join(z)).decode(), 'binary'
            else:
                body, f = base64.b64encode(struct.pack(en + 'Q', len(d)) + d).decode(), 'binary'
        n = f' NumberOfComponents="{nc}"' if nc > 1 else ''
        return f'<DataArray type="{typ}" Name={quoteattr(name)}{n} format="{f}">{body}</DataArray>'

    con = [q for _, nod in cells for q in nod]
    off = np.cumsum([len(nod) for _, nod in cells])
    x = ['<?xml version="1.0"?>',
         f'<VTKFile type="UnstructuredGrid" version="1.0" byte_order="{"Big" if enc == "be" else "Little"}Endian" header_type="UInt64"'
         + (' compressor="vtkZLibDataCompressor">' if enc == 'zlib' else '>'),
         '<UnstructuredGrid>']
    if time is not None:
        x.append('<FieldData>' + arr('TimeValue', np.array([time]), 'Float64').replace(
            'Name="TimeValue"', 'Name="TimeValue" NumberOfTuples="1"') + '</FieldData>')
    x.append(f'<Piece NumberOfPoints="{len(points)}" NumberOfCells="{len(cells)}">')
    for tag, dic in (('PointData', pointdata), ('CellData', celldata)):
        x.append(f'<{tag}>')
        for k, a in (dic or {}).items():
            a = np.asarray(a)
            x.append(arr(k, a, 'Int64' if a.dtype.kind == 'i' else flt, a.shape[1] if a.ndim > 1 else 1))
        x.append(f'</{tag}>')
    x.append('<Points>' + arr('Points', points, ptype, 3) + '</Points>')
    x.append('<Cells>' + arr('connectivity', con, 'Int64') + arr('offsets', off, 'Int64')
             + arr('types', [VTKID[t] for t, _ in cells], 'UInt8') + '</Cells>')
    x.append('</Piece></UnstructuredGrid></VTKFile>')
    return '\n'.join(x).encode()


def encode_vtk_legacy(points, cells, celldata=None, time=None, enc=None, pointdata=None, ver='3.0'):
    """legacy VTK file (big-endian binary, or ASCII where every value can be told so)"""
    from urllib.parse import quote
    cd = {k: np.asarray(a) for k, a in (celldata or {}).items()}
    pd = {k: np.asarray(a) for k, a in (pointdata or {}).items()}
    flt = [np.asarray(points)] + [a for a in [*cd.values(), *pd.values()] if a.dtype.kind == 'f']
    ascii = enc == 'ascii' and all(np.isfinite(a).all() and (np.abs(a[a != 0]) > 1e-300).all() for a in flt)

    def vals(a, code):
        a = np.asarray(a)
        if ascii:
            return ' '.join(repr(v) for v in a.ravel().tolist()).encode() + b'\n'
        return np.ascontiguousarray(a).astype('>' + code).tobytes() + b'\n'

    def field(dic, n, name='FieldData'):
        out = f'FIELD {name} {len(dic)}\n'.encode()
        for k, a in dic.items():
            isint = a.dtype.kind == 'i'
            out += f'{quote(k)} {a.shape[1] if a.ndim > 1 else 1} {len(a)} {"vtktypeint64" if isint else "double"}\n'.encode()
            out += vals(a, 'i8' if isint else 'f8')
        return out

    x = f'# vtk DataFile Version {ver}\nsnapshot\n{"ASCII" if ascii else "BINARY"}\nDATASET UNSTRUCTURED_GRID\n'.encode()
    if time is not None:
        x += field({'TimeValue': np.array([float(time)])}, 1)
    x += f'POINTS {len(points)} double\n'.encode() + vals(points, 'f8')
    con = [q for _, nod in cells for q in nod]
    if ver == '5.1':
        off = np.cumsum([0] + [len(nod) for _, nod in cells])
        x += f'CELLS {len(off)} {len(con)}\nOFFSETS vtktypeint64\n'.encode() + vals(off, 'i8')
        x += b'CONNECTIVITY vtktypeint64\n' + vals(con, 'i8')
    else:
        old = [q for _, nod in cells for q in (len(nod), *nod)]
        x += f'CELLS {len(cells)} {len(old)}\n'.encode() + vals(old, 'i4')
    x += f'CELL_TYPES {len(cells)}\n'.encode() + vals([VTKID[t] for t, _ in cells], 'i4')
    for tag, dic, n in (('CELL_DATA', cd, len(cells)), ('POINT_DATA', pd, len(points))):
        if dic:
            x += f'{tag} {n}\n'.encode() + field(dic, n)
    return x


# ------------------------------------------------------------------ packed snapshots (cfdtools HDF5)
def decode_packed(path):
    import h5py

    with h5py.File(path, 'r') as f:
        d = {'attrs': dict(f.attrs), 'nodes': f['mesh/nodes'][()], 'cells': {k: v[()] for k, v in f['mesh/cells'].items()},
             'meshtype': f['mesh'].attrs.get('meshtype'), 'groups': {}}
        if 'datalist' in f:
            for k, g in f['datalist'].items():
                d['groups'][k] = {'attrs': dict(g.attrs), 'data': {n: v[()] for n, v in g.items()}}
    return d


# ------------------------------------------------------------------ GMSH ascii
GID = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7, 'node1': 15}


def _bfaces_cycles(ref):
    cyc = ref.face_cycles()
    return {n: [cyc[f] for f in sorted(p['faces'], key=sorted)] for n, p in ref.patches.items()}


def _entities(ref, r, many):
    """{patch: [faces of each elementary entity]}"""
    out = {}
    for n, fs in _bfaces_cycles(ref).items():
        k = r.choice([1, 2, 2, 3]) if many else 1
        parts = [[] for _ in range(k)]
        for f in fs:
            parts[r.randrange(k)].append(f)
        out[n] = [p for p in parts if p] or [[]]
    return out


def _ftype(ref, f):
    return {2: 'bar2', 3: 'tri3', 4: 'quad4'}[len(f)]


def _num(v, style):
    v = float(v)
    return f'{v:.16e}' if style == 'exp' else f'{v:.17g}' if style == 'g' else repr(v)


def _text(L, style):
    if style == 'comments':
        k = L.index('$Nodes')
        L = (L[:3] + ['$Comments', 'made by hand', '$EndComments', ''] + L[3:k] + ['', '$Periodic', '0', '$EndPeriodic'] + L[k:]
             + ['$NodeData', '1', '"x"', '0', '0', '$EndNodeData'])
    if style == 'spaces':
        L = ['  ' + l.replace(' ', '   ') + ' \t' for l in L]
    return ('\r\n' if style == 'crlf' else '\n').join(L + [''] * (style != 'noend')).encode()


def encode_gmsh22(ref, r, order='bc_first', sparse=False, shuffle=False, fluid='fluid', many=False, ver='2.2', style=None,
                  low=False, ntag=2, noname=False, samegeo=False):
    tags = list(range(1, ref.nnode + 1))
    if sparse:
        tags = sorted(r.sample(range(1, 3 * ref.nnode + 5), ref.nnode))
    dim = ref.dim
    L = ['$MeshFormat', f'{ver} 0 8', '$EndMeshFormat', '$PhysicalNames', str(len(ref.patches) + (2 if low else 1))]
    phys = {}
    if low:                          # groups of lower dimension, one with the name of a patch
        L.append(f'0 1 "{(list(ref.patches) + ["corner"])[0]}"')
    for i, n in enumerate(ref.patches):
        phys[n] = i + 1
        L.append(f'{dim - 1} {i + 1} "{n}"')
    pf = len(ref.patches) + 1
    L.append(f'{dim} {pf} "{fluid}"')
    L += ['$EndPhysicalNames', '$Nodes', str(ref.nnode)]
    idx = list(range(ref.nnode))
    if shuffle:
        r.shuffle(idx)
    for i in idx:
        L.append(f'{tags[i]} ' + ' '.join(_num(v, style) for v in ref.nodes[i]))
    L += ['$EndNodes', '$Elements']
    bc = []
    for n, parts in _entities(ref, r, many).items():
        for e, fs in enumerate(parts):
            bc += [(_ftype(ref, f), phys[n], 1 if samegeo else 10 * phys[n] + e, f) for f in fs]
    if many and r.random() < 0.5:
        r.shuffle(bc)
    if low:
        bc = [('node1', 1, 1, (0,))] + bc + ([('bar2', 1, 3, ref.cells[0][1][:2])] if dim == 3 else [])
    vol = [(t, pf, 500, nod) for t, nod in ref.cells]
    el = bc + vol if order == 'bc_first' else vol + bc
    L.append(str(len(el)))
    for k, (t, p, e, nod) in enumerate(el):
        part = {2: '', 3: ' 0', 4: ' 1 3'}[ntag]
        L.append(f'{k + 1} {GID[t]} {ntag} {p} {e}{part} ' + ' '.join(str(tags[q]) for q in nod))
    L.append('$EndElements')
    if noname:
        del L[3:L.index('$EndPhysicalNames') + 1]
    return _text(L, style), (idx if shuffle else list(range(ref.nnode)))


def encode_gmsh41(ref, r, sparse=False, blocks=2, fluid='fluid', same_tags=False, single_last=False, many=False, style=None,
                  low=False, noname=False):
    dim = ref.dim
    tags = list(range(1, ref.nnode + 1))
    if sparse:
        tags = sorted(r.sample(range(1, 3 * ref.nnode + 5), ref.nnode))
    names = list(ref.patches)
    phys = {n: i + 1 for i, n in enumerate(names)}
    parts = _entities(ref, r, many)
    ent = {n: (i + 1 if same_tags else 20 + 3 * i) for i, n in enumerate(names)}
    ents = {n: [ent[n]] + [100 + 10 * i + k for k in range(1, len(parts[n]))] for i, n in enumerate(names)}
    pf, ev = (1 if same_tags else len(names) + 1), (1 if same_tags else 77)
    L = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat', '$PhysicalNames', str(len(names) + (2 if low else 1))]
    L += ['0 1 "corner"'] if low else []
    L += [f'{dim - 1} {phys[n]} "{n}"' for n in names] + [f'{dim} {pf} "{fluid}"', '$EndPhysicalNames', '$Entities']
    cnt = [0, 0, 0, 0]
    cnt[dim - 1], cnt[dim] = sum(len(e) for e in ents.values()), 1
    extra = []
    if r.random() < 0.6:             # geometric points and (3D) curves without physical group
        cnt[0] = 2
        extra = ['1 0 0 0 1 1 ' if low else '1 0 0 0 0 ', '2 1 0 0 0 ']
        if dim == 3:
            cnt[1] = 2
            extra += ['1 0 0 0 1 0 0 0 2 1 -2 ', f'{ent[names[-1]] if names else 2} 0 0 0 1 0 0 0 2 1 -2 ']
    L.append(' '.join(map(str, cnt)))
    L += extra
    L += [f'{e} 0 0 0 1 1 1 1 {phys[n]} 0 ' for n in names for e in ents[n]] + [f'{ev} 0 0 0 1 1 1 1 {pf} 0 ', '$EndEntities', '$Nodes']
    cut = sorted(r.sample(range(1, ref.nnode), min(blocks, ref.nnode - 1) - 1)) if blocks > 1 else []
    if single_last:
        cut = sorted(set(cut) | {ref.nnode - 1})
    nblk = [p for p in np.split(np.arange(ref.nnode), cut) if len(p)]
    L.append(f'{len(nblk)} {ref.nnode} {min(tags)} {max(tags)}')
    if low:                          # entities without nodes
        L[-1] = f'{len(nblk) + 2} {ref.nnode} {min(tags)} {max(tags)}'
        L.append('0 2 0 0')
    for p in nblk:
        L.append(f'{dim} {ev} 0 {len(p)}')
        L += [str(tags[q]) for q in p]
        L += [' '.join(_num(v, style) for v in ref.nodes[q]) for q in p]
    if low:
        L.append('1 1 0 0')
    L += ['$EndNodes', '$Elements']
    blk = []
    if low and extra:
        blk.append((0, 1, GID['node1'], [(0,)]))
        if dim == 3:
            blk.append((1, 1, GID['bar2'], [ref.cells[0][1][:2]]))
    for n in names:
        for e, fs in zip(ents[n], parts[n]):
            for t in ('bar2', 'tri3', 'quad4'):
                sel = [f for f in fs if _ftype(ref, f) == t]
                if sel:
                    blk.append((dim - 1, e, GID[t], sel))
    if many and r.random() < 0.5:
        r.shuffle(blk)
    for t, (ind, conn) in ref.blocks().items():
        blk.append((dim, ev, GID[t], [tuple(c) for c in conn.tolist()]))
    ne = sum(len(b[3]) for b in blk)
    L.append(f'{len(blk)} {ne} 1 {ne}')
    k = 0
    for d, e, t, sel in blk:
        L.append(f'{d} {e} {t} {len(sel)}')
        for nod in sel:
            k += 1
            L.append(f'{k} ' + ' '.join(str(tags[q]) for q in nod) + ' ')
    L.append('$EndElements')
    if noname:
        del L[3:L.index('$EndPhysicalNames') + 1]
    return _text(L, style)


# ------------------------------------------------------------------ CGNS (HDF5 layout)
CGID = {'bar2': 3, 'tri3': 5, 'quad4': 7, 'hexa8': 17}


def encode_cgns(ref, path, r, bc='vertex', bc_first=False, family=False, pieces=1, gc=False, whole=None, anyname=False, onesec=False):
    import h5py

    def node(parent, name, label, data=None, typ='MT'):
        g = parent.create_group(name)
        g.attrs['label'] = np.bytes_(label)
        g.attrs['name'] = np.bytes_(name)
        g.attrs['type'] = np.bytes_(typ)
        if data is not None:
            g.create_dataset(' data', data=data)
        return g

    def chars(s):
        return np.frombuffer(s.encode(), dtype=np.int8)

    with h5py.File(path, 'w') as f:
        f.attrs['label'] = np.bytes_('Root Node of HDF5 File')
        f.create_dataset(' hdf5version', data=chars('HDF5 Version 1.10'))
        node(f, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', np.array([3.3], dtype=np.float32), 'R4')
        b = node(f, 'Base', 'CGNSBase_t', np.array([ref.dim, 3], dtype=np.int32), 'I4')
        z = node(b, 'Zone 1', 'Zone_t', np.array([[ref.nnode], [ref.ncell], [0]], dtype=np.int32), 'I4')
        node(z, 'ZoneType', 'ZoneType_t', chars('Unstructured'), 'C1')
        gc = node(z, 'GridCoordinates', 'GridCoordinates_t')
        for i, c in enumerate('XYZ'):
            node(gc, 'Coordinate' + c, 'DataArray_t', np.ascontiguousarray(ref.nodes[:, i]), 'R8')
        secs = []
        for t, (ind, conn) in ref.blocks().items():
            secs.append(('Elem_' + t, t, conn, None))
        bsec = []
        for n, fs in _bfaces_cycles(ref).items():
            for t in ('bar2', 'tri3', 'quad4'):
                sel = [x for x in fs if _ftype(ref, x) == t]
                if sel:
                    bsec.append((f'{"A" if bc_first else "Z"}_{n}_{t}', t, np.array(sel, dtype=np.int64), n))
        if onesec:                      # all boundary faces in one section of their type, in any order
            rows = {}
            for _, t, conn, n in bsec:
                rows.setdefault(t, []).extend((list(x), n) for x in conn)
            bsec = []
            for t, lst in rows.items():
                r.shuffle(lst)
                bsec.append(('Surface_' + t, t, np.array([x for x, _ in lst], dtype=np.int64), [n for _, n in lst]))

        def cut(lst):
            out = []
            for name, t, conn, patch in lst:
                q = sorted({0, len(conn)} | {r.randrange(len(conn) + 1) for _ in range(pieces - 1)})
                out += [(name if len(q) == 2 else f'{name}_{i}', t, conn[x:y], patch[x:y] if isinstance(patch, list) else patch) for i, (x, y) in enumerate(zip(q, q[1:]))]
            return out
        if pieces > 1:                  # several sections of a type, in any order
            secs, bsec = cut(secs), cut(bsec)
            mixed = secs + bsec
            # cells keep the order of their types, and of their numbers
            keys = sorted(r.random() for _ in secs) + [r.random() for _ in bsec]
            secs = [x for _, x in sorted(zip(keys, mixed), key=lambda kx: kx[0])]
        else:
            secs = bsec + secs if bc_first else secs + bsec
        if anyname:                     # whose names do not follow their ranges
            names = [f'S{k:02}' for k in range(len(secs))]
            r.shuffle(names)
            secs = [(n,) + x[1:] for n, x in zip(names, secs)]
        start = 1
        ranges, cells = {}, {}
        for name, t, conn, patch in secs:
            e = node(z, name, 'Elements_t', np.array([CGID[t], 0], dtype=np.int32), 'I4')
            rg = np.array([start, start + len(conn) - 1], dtype=np.int32)
            node(e, 'ElementRange', 'IndexRange_t', rg, 'I4')
            node(e, 'ElementConnectivity', 'DataArray_t', (conn + 1).astype(np.int32).ravel(), 'I4')
            if isinstance(patch, list):
                for i, n in enumerate(patch):
                    ranges.setdefault(n, []).append(int(rg[0]) + i)
            elif patch:
                ranges.setdefault(patch, []).extend(range(rg[0], rg[1] + 1))
            else:
                cells[name] = range(rg[0], rg[1] + 1)
            start += len(conn)
        zb = node(z, 'ZoneBC', 'ZoneBC_t')
        zg = node(z, 'ZoneGridConnectivity', 'ZoneGridConnectivity_t') if gc else None
        for k, (n, p) in enumerate(ref.patches.items()):
            con = zg is not None and r.random() < 0.5
            g = node(zg if con else zb, f'BC{k}' if family else n, 'GridConnectivity_t' if con else 'BC_t', chars('Zone 1' if con else 'BCWall'), 'C1')
            if family:
                node(g, 'FamilyName', 'FamilyName_t', chars(n), 'C1')
            lst = np.array(p['nodes'] if bc in ('vertex', 'noloc') else ranges[n], dtype=np.int32)
            if bc in ('vertex', 'noloc'):
                lst = lst + 1
            if bc in ('vertex', 'face'):
                node(g, 'GridLocation', 'GridLocation_t', chars('Vertex' if bc == 'vertex' else 'FaceCenter'), 'C1')
            node(g, 'ElementList' if bc == 'elist' else 'PointList', 'IndexArray_t', lst.reshape(-1, 1), 'I4')
        if whole:                       # a mark of the whole domain is no boundary
            g = node(zb, 'whole domain', 'BC_t', chars('Null'), 'C1')
            if whole == 'cells':
                lst = [i for name, t, conn, patch in secs if patch is None for i in cells[name]]
                node(g, 'ElementList', 'IndexArray_t', np.array(lst, dtype=np.int32).reshape(-1, 1), 'I4')
            else:
                node(g, 'PointList', 'IndexArray_t', np.arange(1, ref.nnode + 1, dtype=np.int32).reshape(-1, 1), 'I4')


def encode_packed(ref, groups, path):
    import h5py

    with h5py.File(path, 'w') as f:
        f.attrs.update({'cfdtools_version': '0.6.0', 'cfd_datatype': 'datalist', 'data_version': 1})
        g = f.create_group('mesh')
        g.attrs['meshtype'] = 'unsmesh'
        g.create_dataset('nodes', data=ref.nodes)
        c = g.create_group('cells')
        for et, (_, conn) in ref.blocks().items():
            c.create_dataset(et, data=conn)
        d = f.create_group('datalist')
        for i, (t, data) in enumerate(groups):
            h = d.create_group(f'i{i:06}')
            h.attrs['time'] = t
            for k, a in data.items():
                h.create_dataset(k, data=a)
