"""C01-C03: an acknowledged write is complete and exact, a refused one raises."""
import os

import numpy as np

from harness import formats, node, oracle, refmesh
from harness.base import CheckBase, HARD_W, hard_used, persistent_of, plan_hard, plan_soft

EXT = {'ic3v2': '.ic3', 'ic3v3': '.ic3', 'v4': '.h5', 'vtu': '.vtu'}


def v4_ref(ref):
    """what a v4 file pair gives back through the package reader"""
    import copy
    r = copy.copy(ref)
    r.celldata = {k: (a if a.ndim < 3 else a.reshape(len(a), -1)) for k, a in oracle.v4_fields(ref).items()}
    r.nodedata = {}
    r.patches = oracle.v4_patches(ref)
    return r


class WriteCheck(CheckBase):
    fmts = ()
    kinds = ('hexa', 'prism', 'tetra', 'pyra', 'hexpri', 'hexpyr', 'mix')
    nplans = 4
    big = 'hexa'
    crash_ok = False      # native process death allowed on a refused write
    wkinds = HARD_W + ['eioclose']

    def spec(self, r, fmt, tier):
        return refmesh.rand_spec(r, kinds=self.kinds, ints=fmt == 'ic3v3', ndof=fmt == 'ic3v3', big=r.random() < 0.12,
                                 split=True)

    def gen(self, r, i, tier):
        fmt = r.choice(self.fmts)
        sc = {'fmt': fmt, 'mesh': self.spec(r, fmt, tier), 'endian': r.choice(['native', 'little', 'big']),
              'sol': r.random() < 0.75, 'over': r.random() < 0.25, 'via': None}
        if fmt != 'vtu' and r.random() < 0.35:
            sc['via'] = r.choice(['<', '>']) + r.choice('23') if fmt != 'v4' else r.choice(['<2', '>3', 'v4'])
        sc['plans'] = []
        if i < len(self.fmts):
            sc.update(fmt=self.fmts[i], mesh=refmesh.giant(r, self.big))
            return sc
        for k in range(self.nplans):
            kind = r.choice(['hard', 'hard', 'hard', 'persist', 'soft', 'both'])
            if kind == 'hard':
                p = {'plan': plan_hard(r, self.wkinds, 1 if r.random() < 0.8 else 2)}
            elif kind == 'persist':
                p = {'plan': [], 'persist': {'kind': r.choice(['enospc', 'eio', 'edquot']), 'u': round(r.random(), 6)}}
            elif kind == 'soft':
                p = {'plan': plan_soft(r)}
            else:
                p = {'plan': plan_soft(r) + plan_hard(r, self.wkinds)}
            sc['plans'].append(p)
        return sc

    def outputs(self, sc):
        if sc['fmt'] == 'v4':
            return ['o.h5'] + (['s.h5'] if sc['sol'] else [])
        return ['o' + EXT[sc['fmt']]]

    def execute(self, sc, ctx):
        ref = refmesh.build(sc['mesh'])
        fmt = sc['fmt']
        outs = self.outputs(sc)
        sol = 's.h5' if fmt == 'v4' and sc['sol'] else None
        via = sc['via']

        def prepare(root):
            if via == 'v4':
                formats.encode_v4(ref, os.path.join(root, 'in.h5'), os.path.join(root, 'ins.h5'))
            elif via:
                with open(os.path.join(root, 'in.ic3'), 'wb') as f:
                    f.write(formats.encode_ic3(ref, int(via[1]), via[0]))
            if sc['over']:
                for o in outs:
                    with open(os.path.join(root, o), 'wb') as f:
                        f.write(b'previous content ' * 700)

        def write():
            if via == 'v4':
                r = node.open_reader('v4', 'in.h5', sol='ins.h5')
                r.read_data()
                m = r.export_mesh()
            elif via:
                r = node.open_reader('ic3', 'in.ic3')
                r.read_data()
                m = r.export_mesh()
            else:
                m = node.make_mesh(ref)
            node.do_write(node.writer_for(fmt, m, sc['endian']), outs[0], sol)
            return True

        root = ctx.root()
        prepare(root)
        out, res = ctx.solo('dry', root, write)
        ctx.healthy(out, f'writing {fmt}')
        self.check_files(sc, ctx, ref, root, outs, 'healthy write')
        good = {o: open(os.path.join(root, o), 'rb').read() for o in outs}
        back, _ = ctx.solo('back', root, lambda: self.read_back(sc, outs, sol))
        val = ctx.healthy(back, f'reading back {fmt}')
        ctx.expect(self.check_back(sc, ref, val), 'read-back', 'read back')
        for k, p in enumerate(sc['plans']):
            root = ctx.root()
            prepare(root)
            faults = ctx.place(res.log, p['plan'], flt=lambda e: not e[3].startswith('in'))
            pers = persistent_of(ctx, res.log, p['persist']) if p.get('persist') else None
            out, fr = ctx.solo(f'w{k}', root, write, faults, persistent=pers)
            hard = hard_used(fr)
            what = 'write under ' + ','.join(sorted({f['kind'] + '@' + f['at'] for f in fr.faults})) if fr.faults else 'write'
            if not hard:
                ctx.healthy(out, what)
            elif out.status == 'signal' and self.crash_ok:
                ctx.note('native_crash_on_refused_write')
                continue
            elif out.status not in ('ok', 'exc'):
                ctx.violate('died', f'{what}: the process ends with {out.brief()} instead of raising')
            if out.status == 'exc':
                ctx.note('refused_and_raised')
                continue
            if hard:
                ctx.note('refused_yet_correct')
            if all(os.path.exists(os.path.join(root, o)) and open(os.path.join(root, o), 'rb').read() == good[o] for o in outs):
                continue
            self.check_files(sc, ctx, ref, root, outs, what)

    def check_files(self, sc, ctx, ref, root, outs, what):
        cls = 'acknowledged-wrong' if what.startswith('write under') else 'content'
        for o in outs:
            if not os.path.exists(os.path.join(root, o)):
                ctx.violate(cls, f'{what} returned normally and {o} does not exist')
        try:
            pb = self.check_out(sc, ref, [os.path.join(root, o) for o in outs])
        except Exception as e:  # noqa: BLE001
            ctx.violate(cls, f'{what} returned normally and left a file that cannot be decoded: {type(e).__name__}: {e}')
        ctx.expect(pb, cls, f'{what} returned normally')


class IC3Write(WriteCheck):
    pid = 'C01'
    fmts = ('ic3v2', 'ic3v3')
    tiers = {'quick': 480, 'thorough': 12000}
    rule = ('Random meshes (6 kinds, permuted numbering, data, periodic patches) built in memory or read from an IC3 file, written '
            'as IC3 v2/v3 in three byte orders: once on a healthy disk, then under four seeded fault plans.')

    def check_out(self, sc, ref, paths):
        with open(paths[0], 'rb') as f:
            raw = f.read()
        return oracle.check_ic3(ref, formats.decode_ic3(raw), int(sc['fmt'][-1]))

    def read_back(self, sc, outs, sol):
        return node.read_mesh('ic3', outs[0], True)

    def check_back(self, sc, ref, val):
        return oracle.check_canon(ref, val, cast=float if sc['fmt'] == 'ic3v2' else None, partition=True)

    def gen(self, r, i, tier):
        sc = super().gen(r, i, tier)
        if sc['via'] and sc['via'][1] == '2':
            # v2 files hold no integers and a single degree of freedom
            sc['mesh'].pop('ndof', None)
            for d in sc['mesh'].get('celldata', []) + sc['mesh'].get('nodedata', []):
                d.pop('int', None)
        if sc['fmt'] == 'ic3v2':
            sc['mesh'].pop('ndof', None)
            for d in sc['mesh'].get('celldata', []) + sc['mesh'].get('nodedata', []):
                d.pop('int', None)
        return sc


class V4Write(WriteCheck):
    pid = 'C02'
    fmts = ('v4',)
    crash_ok = True       # HDF5 may not survive releasing what it could not write
    tiers = {'quick': 320, 'thorough': 8000}
    rule = ('Random meshes built in memory or read from IC3 v2/v3/v4 files, written as IC3 v4 mesh and solution HDF5 files: once on a '
            'healthy disk, then under four seeded fault plans.')

    def spec(self, r, fmt, tier):
        return refmesh.v4_data(r, refmesh.rand_spec(r, kinds=self.kinds, ints=False, big=r.random() < 0.1, split=True))

    def gen(self, r, i, tier):
        sc = super().gen(r, i, tier)
        sc['endian'] = 'native'
        if not sc['plans']:
            refmesh.v4_data(r, sc['mesh'])
        if sc['via'] and sc['via'] != 'v4':     # weights have another form in v2/v3 files
            sc['mesh']['params'] = {k: v for k, v in sc['mesh']['params'].items() if not k.endswith('_wgt')}
        return sc

    def check_out(self, sc, ref, paths):
        d = formats.decode_v4(paths[0], paths[1] if sc['sol'] else None)
        return oracle.check_v4(ref, d, sc['sol'])

    def read_back(self, sc, outs, sol):
        return node.read_mesh('v4', outs[0], sol=sol)

    def check_back(self, sc, ref, val):
        return oracle.check_canon(v4_ref(ref), val, data=bool(sc['sol']), params=bool(sc['sol']), pkeys=('step', 'time'), wgt=False)


class VTUWrite(WriteCheck):
    pid = 'C03'
    fmts = ('vtu',)
    kinds = ('hexa', 'prism', 'tetra', 'pyra', 'hexpri', 'hexpyr', 'mix', 'tri', 'quad', 'mix2')
    tiers = {'quick': 320, 'thorough': 8000}
    rule = ('Random 2D and 3D meshes written as VTU: once on a healthy disk, then under four seeded fault plans.')

    def check_out(self, sc, ref, paths):
        with open(paths[0], 'rb') as f:
            raw = f.read()
        return oracle.check_vtu(ref, formats.decode_vtu(raw), ordered=False)

    def read_back(self, sc, outs, sol):
        return node.read_mesh('vtu', outs[0])

    def check_back(self, sc, ref, val):
        return oracle.check_canon(ref, val, ordered=False, data=False, params=False, marks=False)
