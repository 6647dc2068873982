"""C14: damaged input is rejected or read in bounded time, and never spreads."""
import os
import struct

import h5py
import numpy as np

from checks import c07
from harness import formats, node, ops, oracle
from harness.base import CheckBase
from sim.core import mark, rng_for

NATIVE = ('v4', 'vtu', 'packed', 'cgns')
HDF5 = ('v4', 'packed', 'cgns')
INTS = (-1, -2, -3, 0, 1, 2, 7, 100, 255, 256, 257, 2 ** 15, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 10 ** 12, 2 ** 62, 2 ** 63 - 1, -2 ** 31, -2 ** 63)
LIMITS = {'cpu': 20, 'as_bytes': 2 << 30}
CHECKED = {20: 'face', 30: 'node', 40: 'cell'}


def rand_damage(r):
    return {'how': r.choice(['cut', 'flip', 'flip', 'byte', 'zero', 'drop', 'dup', 'swap', 'tail', 'int', 'int', 'int', 'int', 'back', 'back']),
            'u': round(r.random(), 6), 'seed': r.randrange(2 ** 32)}


def tokens(raw, heads):
    """(start, end, column) of the integers of a text, or only of those in lines unlike the one before"""
    out, i, last = [], 0, None
    for line in raw.split(b'\n'):
        j = i
        ws = line.split()
        shape = [w.lstrip(b'-').isdigit() for w in ws]
        for c, w in enumerate(ws):
            j = raw.index(w, j)
            if w.lstrip(b'-').isdigit() and (not heads or shape != last):
                out.append((j, j + len(w), c))
            j += len(w)
        i += len(line) + 1
        last = shape
    return out


def damage(raw, d, text, ic3):
    r = rng_for('damage', d['seed'])
    b = bytearray(raw)
    n = len(b)
    if not n:
        return b'\n'
    at = min(n - 1, int(d['u'] * n))
    size = min(n - at, r.choice([1, 4, 8, 16, 64, 256, 512, 4096]))
    how = d['how']
    if how == 'cut':
        return bytes(b[:at])
    if how == 'flip':
        for _ in range(r.choice([1, 1, 3])):
            b[at] ^= 1 << r.randrange(8)
            at = r.randrange(n)
    elif how == 'byte':
        b[at] = r.choice([0, 255, 32, r.randrange(256)])
    elif how == 'zero':
        b[at:at + size] = bytes(size)
    elif how == 'drop':
        del b[at:at + size]
    elif how == 'dup':
        b[at:at] = b[at:at + size]
    elif how == 'swap':
        to = r.randrange(n)
        x, y = bytes(b[at:at + size]), bytes(b[to:to + size])
        b[at:at + size] = y[:size].ljust(len(x), b'\0')[:len(x)]
        b[to:to + size] = x[:len(y)]
    elif how == 'tail':
        b += r.choice([bytes(size), bytes(r.randrange(256) for _ in range(size)), raw[:size]])
    elif text:
        tk = tokens(raw, how == 'back' or r.random() < 0.5)
        if tk:
            k = min(len(tk) - 1, int(d['u'] ** r.choice([1, 1, 3]) * len(tk)))
            s, e, c = tk[k]
            v = int(raw[s:e])
            if how == 'back':       # a number that sends a parser back to where it was: minus what a line before has there
                col = [int(raw[x:y]) for x, y, z in tk[max(0, k - 9):k] if z == c]
                b[s:e] = str(-(r.choice(col or [v]) + r.choice([0, 1, 1, 2]))).encode()
                return bytes(b)
            b[s:e] = str(r.choice(INTS + (v + 1, v - 1, -v, v * 10, v - 2) + tuple(r.randrange(-40, 0) for _ in range(8)))).encode()
    elif ic3:
        en, _, sec = formats.ic3_sections(raw)
        pos = [8]
        for x in sec:
            pos.append(pos[-1] + formats.HSIZE + len(x[4]))
        k = min(len(sec) - 1, int(d['u'] * len(sec)))
        p = pos[k] + r.choice([52, 56, 56, 56] + [64 + 8 * q for q in range(4)] * 2)
        v = r.choice(INTS + (r.randrange(1, 256), formats.HSIZE + r.randrange(-8, 9)))
        if how == 'back':               # the scan is sent back to a section read already, or to the middle of one
            p = pos[k] + 56
            v = r.choice([pos[r.randrange(k + 1)] - pos[k], pos[r.randrange(k + 1)] - pos[k] + r.choice([0, 256, -256]), -r.randrange(1, 1000), 0])
            if r.random() < 0.3:        # in an unknown section
                b[pos[k] + 52:pos[k] + 56] = struct.pack(en + 'i', 77777)
        if p == pos[k] + 52:
            b[p:p + 4] = struct.pack(en + 'i', r.choice([10, 11, 12, 20, 21, 22, 23, 30, 31, 32, 40, 41, 42, 43, 44, 45, 50, 51, 0, -1]))
        else:
            b[p:p + 8] = struct.pack(en + 'q', v)
    else:
        w = r.choice([1, 2, 4, 8])
        at -= at % w
        b[at:at + w] = (r.choice(INTS) % (1 << 8 * w)).to_bytes(w, r.choice(['little', 'little', 'big']))[:max(0, n - at)]
    return bytes(b)


def damage_h5(path, d):
    """objects of an HDF5 file lost or altered (its own metadata are the business of the HDF5 library)"""
    r = rng_for('damage', d['seed'])
    how = d['how']
    if how in ('cut', 'tail'):
        with open(path, 'rb') as f:
            raw = f.read()
        with open(path, 'wb') as f:
            f.write(damage(raw, d, False, False))
        return
    with h5py.File(path, 'r+') as f:
        objs = []
        f.visititems(lambda n, o: objs.append((n, isinstance(o, h5py.Dataset))))
        objs.sort()
        sets = [n for n, is_set in objs if is_set]
        pick = (lambda a: a[min(len(a) - 1, int(d['u'] * len(a)))])
        if how == 'drop' or not sets:
            if objs:
                del f[pick(objs)[0]]
            return
        n = pick(sets)
        if how == 'swap':
            m = r.choice(sets)
            x, y = f[n][()], f[m][()]
            for q, v, at in ((n, y, dict(f[n].attrs)), (m, x, dict(f[m].attrs))):
                del f[q]
                f[q] = v
                f[q].attrs.update(at)
            return
        if how == 'byte':                   # an attribute
            al = [(q, k) for q in [''] + [o[0] for o in objs] for k in (f[q] if q else f).attrs]
            if al:
                q, k = pick(al)
                o = f[q] if q else f
                v = o.attrs[k]
                if r.random() < 0.5:
                    del o.attrs[k]
                else:
                    o.attrs[k] = r.choice(['x', b'xyz', 0, -1, 2 ** 62, [1, 2]]) if not isinstance(v, np.integer) else v.dtype.type(r.choice([0, -1, 3]))
            return
        a = f[n][()]
        at = dict(f[n].attrs)
        x = np.array(a)
        if how in ('zero', 'flip', 'int') and x.dtype.kind in 'iuf' and x.size:
            x = x.copy()
            k = r.randrange(x.size)
            if how == 'zero':
                x.reshape(-1)[k:] = 0
            elif x.dtype.kind == 'f':
                x.reshape(-1)[k] = r.choice([np.nan, np.inf, 1e300, -1.0])
            else:
                lim = np.iinfo(x.dtype)
                x.reshape(-1)[k] = r.choice([v for v in INTS + (int(x.reshape(-1)[k]) + 1,) if lim.min <= v <= lim.max])
        elif how == 'dup' and x.ndim:
            x = np.concatenate([x, x[:r.randrange(1, len(x) + 1)]]) if len(x) else x
        elif x.ndim and len(x):
            x = x[:r.randrange(len(x))]
        else:
            x = np.float64(0.5)
        del f[n]
        if x.dtype.kind in 'iufS':
            f[n] = x
        else:
            f.create_dataset(n, data=[str(v) for v in np.ravel(x)], dtype=h5py.string_dtype(encoding='utf-8', length=128))
        f[n].attrs.update(at)


def bad_ids(raw, u, seed):
    """one identifier section which is not 0..n-1 any more"""
    r = rng_for('ids', seed)
    en, _, sec = formats.ic3_sections(raw)
    pos, el = 8, []
    for x in sec:
        if x[1] in CHECKED:
            el.append((pos + formats.HSIZE, len(x[4]) // 4, CHECKED[x[1]]))
        pos += formats.HSIZE + len(x[4])
    p, n, name = el[r.randrange(len(el))]
    b = bytearray(raw)
    k = min(n - 1, int(u * n))
    a = list(struct.unpack(en + f'{n}i', bytes(b[p:p + 4 * n])))
    how = r.choice(['one', 'bit', 'swap', 'dup', 'shift', 'zero', 'rev'])
    if how == 'swap' and n > 1:
        q = (k + r.randrange(1, n)) % n
        a[k], a[q] = a[q], a[k]
    elif how == 'dup' and n > 1:
        a[k] = a[(k + r.randrange(1, n)) % n]
    elif how == 'shift':
        a = [q + r.choice([1, -1]) for q in a] if r.random() < 0.5 else a[1:] + [n]
    elif how == 'zero' and n > 1:
        a = [0] * n
    elif how == 'rev' and n > 1:
        a = a[::-1]
    elif how == 'bit':
        a[k] ^= 1 << r.randrange(31)
    else:
        a[k] += r.choice([1, -1, 2, 3, n, -2 * n])
    b[p:p + 4 * n] = struct.pack(en + f'{n}i', *a)
    return bytes(b), f'{name} identifier section changed ({how})'


def bad_counts(raw, u, seed):
    """one section that announces another size than the mesh has"""
    r = rng_for('counts', seed)
    en, version, sec = formats.ic3_sections(raw)
    pos, el = 8, []
    for x in sec:
        for q in {10: (0, 1, 2, 3), 21: (0, 1), 22: (0, 1), 31: (0, 1)}.get(x[1], (0,) if x[1] in (24, 25, 26, 32, 33, 34, 42, 43, 44, 45) else ()):
            el.append((pos + 64 + 8 * q, x[2][q], f'{x[0]}[{q}]', pos + 64, x[2][:2], x[1] in (21, 22, 31)))
        pos += formats.HSIZE + len(x[4])
    p, v, name, p2, pair, two = el[min(len(el) - 1, int(u * len(el)))]
    b = bytearray(raw)
    if two and r.random() < 0.4:            # the same number of values, announced otherwise
        x, y = pair
        w = r.choice([(y, x), (x * y, 1), (1, x * y)] + [(x * k, y // k) for k in (2, 3) if y % k == 0] + [(x // k, y * k) for k in (2, 3, 5) if x % k == 0])
        if w != (x, y):
            b[p2:p2 + 16] = struct.pack(en + '2q', *w)
            return bytes(b), f'announced sizes {name[:-3]} {w} instead of {(x, y)}'
    w = r.choice([v + 1, v - 1, 0, 2 * v, -v, v + 2 ** 32, 2 ** 40])
    b[p:p + 8] = struct.pack(en + 'q', w)
    return bytes(b), f'announced size {name} {w} instead of {v}'


# ---- in the node
def look(kind, name, sol, how):
    """read a possibly damaged file with one of the ways the package offers"""
    p = node.P
    if kind == 'probes':
        d = p.probes.phydata(name)
        for v in how:
            d.check_data(v, prefix=name)
        return
    if how == 'info':
        p.cli.cfdinfo((['--check'] if sol == 'check' else []) + [name])
    elif how == 'brief':
        p.cli.ic3brief([name]) if kind == 'ic3' else p.cli.vtkbrief([name])
    elif kind == 'vtu' and how == 'list':
        vl = p.vtk.vtkList([name, name])
        if vl.allexist():
            vl.read()
            vl.check_order()
    elif kind == 'vtu':
        v = p.vtk.vtkMesh()
        v.read(name)
        v.export_mesh()
    elif kind == 'packed':
        f = p.hdf5.h5File(name)
        f.open()
        try:
            v = p.vtk.vtkMesh()
            v.importhdfgroup(f['mesh'])
            v.export_mesh()
            f.datatype
        finally:
            f.close()
    else:
        rd = node.open_reader(kind, name, how == 'integrity', sol)
        rd.read_data()
        rd.export_mesh()


def damaged_then_good(kind, name, sol, how, good):
    try:
        look(kind, name, sol, how)
        st = ('ok',)
    except (Exception, SystemExit) as e:  # noqa: BLE001
        st = ('exc', type(e).__name__)
        e = None
    mark(1)
    return st, ops.run_act(good)


class Check(CheckBase):
    pid = 'C14'
    tiers = {'quick': 480, 'thorough': 16000}
    rule = ('Valid files of every input format with seeded damage (cuts, flips, lost, moved and repeated blocks, integer fields), read by '
            'every reader within CPU, memory and I/O budgets, then a healthy file in the same process; IC3 identifier sections, announced '
            'sizes and cuts.')
    shrink_lists = CheckBase.shrink_lists + ('dam', 'damage', 'ic3')

    def min_len(self, key):
        return 1 if key == 'damage' else 0

    def gen(self, r, i, tier):
        if r.random() < 0.12:
            a = ops.rand_probes(r)
            a['pre'] = 'd/'
        else:
            s = ops.rand_source(r, ('gmsh22', 'gmsh41', 'gmsh41', 'cgns', 'ic3', 'ic3', 'v4', 'vtu', 'packed'), big=r.random() < 0.1)
            a = {'t': 'read', 'src': s, 'integrity': False, 'pre': 'd/'}
        g = ops.rand_act(r, ('read', 'read', 'probes'), pre='g/')
        sc = {'act': a, 'good': g, 'dam': [], 'ic3': []}
        for k in range(10):
            sc['dam'].append({'damage': [rand_damage(r) for _ in range(r.choice([1, 1, 1, 2]))], 'file': r.randrange(8),
                              'how': r.choice(['read', 'read', 'read', 'integrity', 'info', 'brief', 'list'])})
        if 'src' in a and a['src']['f'] == 'ic3':
            for k in range(8):
                sc['ic3'].append({'what': r.choice(['ids', 'ids', 'cut', 'counts']), 'u': round(r.random() ** r.choice([1, 0.3]), 6),
                                  'seed': r.randrange(2 ** 32), 'integrity': r.random() < 0.5})
        return sc

    def execute(self, sc, ctx):
        a, g = sc['act'], sc['good']
        probes = a['t'] == 'probes'
        kind = 'probes' if probes else ops.FMT[a['src']['f']]
        root0 = ctx.root()
        ops.prepare_act(a, root0)
        ops.prepare_act(g, root0)
        if kind == 'ic3':                   # identifier sections whatever the version
            raw = formats.encode_ic3(ops.refmesh.build(a['src']['mesh']), a['src']['opt']['version'], a['src']['opt']['endian'], ids=True)
            with open(os.path.join(root0, ops.in_name(a)), 'wb') as f:
                f.write(raw)
        out, _ = ctx.solo('dry', root0, lambda: ops.run_act(a))
        ctx.expect(ops.check_act(a, root0, ctx.healthy(out, f'reading {kind}')), 'content', f'reading {kind}')
        out, _ = ctx.solo('dryg', root0, lambda: ops.run_act(g))
        good = ctx.healthy(out, 'reading')
        ctx.expect(ops.check_act(g, root0, good), 'content', 'reading')
        files = ops.inputs_of(a)
        name = ops.probe_prefix(a) if probes else ops.in_name(a)
        sol = files[1] if kind == 'v4' and len(files) > 1 else None
        for k, d in enumerate(sc['dam'][:2]):   # each way works on the file as it was
            how = self.way(kind, d['how'], a)
            out, _ = ctx.solo(f'dryw{k}', root0, lambda: look(kind, name, 'check' if how == 'info' and d['file'] % 2 else sol, how))
            ctx.healthy(out, f'reading {kind} ({how if not probes else "probes"})')
        for k, d in enumerate(sc['dam']):
            root = ctx.root()
            os.symlink(os.path.join(root0, 'g'), os.path.join(root, 'g'))
            self.copy(root0, root, files)
            victim = os.path.join(root, files[d['file'] % len(files)])
            for x in d['damage']:
                self.harm(ctx, victim, x, kind)
            how = self.way(kind, d['how'], a)
            what = (f'reading {kind} ({how if not probes else "probes"}) with '
                    f'{"+".join(x["how"] for x in d["damage"])} in {os.path.basename(victim)}')
            self.run(ctx, f'!d{k}', root, kind, name, 'check' if how == 'info' and d['file'] % 2 else sol, how, g, good, what)
        for k, d in enumerate(sc['ic3']):
            root = ctx.root()
            os.symlink(os.path.join(root0, 'g'), os.path.join(root, 'g'))
            self.copy(root0, root, files)
            victim = os.path.join(root, files[0])
            with open(victim, 'rb') as f:
                raw = f.read()
            integrity = d['integrity'] or d['what'] == 'ids'
            if d['what'] == 'cut':
                n = int(d['u'] * (len(raw) - formats.HSIZE - 1))
                raw, what = raw[:n], f'file of {len(raw)} bytes cut at {n}'
            elif d['what'] == 'ids':
                raw, what = bad_ids(raw, d['u'], d['seed'])
            else:
                raw, what = bad_counts(raw, d['u'], d['seed'])
            ctx.injected('damage-' + d['what'], '.ic3')
            with open(victim, 'wb') as f:
                f.write(raw)
            cmd = d['seed'] % 3 == 0
            st = self.run(ctx, f'!i{k}', root, kind, name, 'check' if cmd and integrity else None,
                          'info' if cmd else 'integrity' if integrity else 'read', g, good, what + (' (cfdinfo)' if cmd else ''))
            if st[0] == 'ok':
                ctx.violate('accepted', f'an IC3 v{a["src"]["opt"]["version"]} {what} is read without error'
                                        + (' with the integrity check' if integrity else ''))

    @staticmethod
    def harm(ctx, victim, x, kind):
        try:
            if kind in HDF5:
                damage_h5(victim, x)
            else:
                with open(victim, 'rb') as f:
                    raw = f.read()
                raw = damage(raw, x, kind in ('probes', 'gmsh'), kind == 'ic3')
                with open(victim, 'wb') as f:
                    f.write(raw)
        except (formats.Malformed, OSError, KeyError, ValueError, TypeError):
            return          # damaged already
        ctx.injected('damage-' + x['how'], os.path.splitext(victim)[1])

    @staticmethod
    def way(kind, how, a):
        if kind == 'probes':
            return a['ask']
        ok = {'info': ('ic3', 'gmsh', 'cgns'), 'brief': ('ic3', 'vtu'), 'list': ('vtu',), 'integrity': ('ic3',)}.get(how)
        return how if ok is None or kind in ok else 'read'

    @staticmethod
    def copy(src, dst, files):
        for f in files:
            os.makedirs(os.path.join(dst, os.path.dirname(f)), exist_ok=True)
            with open(os.path.join(src, f), 'rb') as a, open(os.path.join(dst, f), 'wb') as b:
                b.write(a.read())

    def run(self, ctx, label, root, kind, name, sol, how, g, good, what):
        before = c07.tree(root)
        out, res = ctx.solo(label, root, lambda: damaged_then_good(kind, name, sol, how, g), cfg=LIMITS)
        if out.status == 'cpu':
            ctx.violate('unbounded', f'{what}: still computing after {LIMITS["cpu"]} s of CPU time')
        if res.log and res.log[-1][2] == 'opbudget':
            ctx.violate('unbounded', f'{what}: more than {len(res.log) - 1} I/O calls')
        if c07.tree(root) != before:
            after = c07.tree(root)
            ctx.violate('wrote', f'{what}: files {sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))[:4]} '
                                 'created, changed or removed')
        if out.status == 'signal' and kind in NATIVE:
            ctx.note('native_crash_on_damage')
            return ('signal',)
        if out.status != 'ok':
            ctx.violate('died', f'{what}: {out.brief()} {(out.tb or "")[-700:]}')
        st, val = out.value
        ctx.note('rejected' if st[0] == 'exc' else 'read')
        d = oracle.same(good, val)
        if d:
            ctx.violate('spread', f'{what}; then a healthy file is read as something else: {d}')
        return st
