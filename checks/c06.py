"""C06: an output cut short by a crash, or still being written, is never taken for a complete one."""
import copy
import os
import shutil

from harness import node, ops, oracle, refmesh
from harness.base import CheckBase
from sim.core import PAGE


def targets(a):
    """(reader kind, output files) under the names an undisturbed run gives them"""
    t = a['t']
    if t == 'write':
        o = ops.write_outs(a)
        return {'ic3v2': 'ic3', 'ic3v3': 'ic3'}.get(a['fmt'], a['fmt']), o
    if t == 'cli':
        return {'vtk': 'vtu'}.get(a['to'], 'ic3'), [ops.out_name(a)]
    if t == 'cube':
        return {'.ic3': 'ic3', '.vtu': 'vtu'}[a['ext']], [ops.cube_name(a)]
    return 'packed', [a['out']]


def crosses(e):
    """writes of HDF5 files are torn between pages (what killing a process can do), the others at any byte"""
    return not e[3].endswith('.h5') or e[4] // PAGE != (e[4] + e[5] - 1) // PAGE


def read(kind, outs, mode):
    if kind == 'vtu' and mode % 3 == 1:
        v = node.read_vtklist(outs)
        return {k: v[k] for k in ('ncell', 'points', 'data')}
    if kind == 'v4' and mode % 3 == 1:
        return node.read_mesh('v4', outs[0])
    return node.read_mesh(kind, outs[0], mode % 2 == 0, outs[1] if len(outs) > 1 else None)


def reads(kind, outs, mode, n):
    """n reads one after the other, in a node that runs beside the writer"""
    got = []
    for _ in range(n):
        try:
            got.append(('ok', read(kind, outs, mode)))
        except Exception as e:  # noqa: BLE001
            got.append(('exc', type(e).__name__))
            e = None
    return got


class Check(CheckBase):
    pid = 'C06'
    tiers = {'quick': 400, 'thorough': 12000}
    ncrash = 6
    rule = ('Random writes, conversions, packs and dumps: the process is killed before a seeded I/O call or inside a seeded write, on '
            'fresh outputs or over older complete files, and a second process reads what is left; readers also run interleaved with '
            'the writer, which may be killed too.')

    def gen(self, r, i, tier):
        kinds = ('write',) * 6 + ('cli', 'pack', 'pack', 'vtkdump', 'cube')
        a = ops.rand_act(r, kinds, pre=r.choice(['', 'd/']), big=r.random() < 0.15)
        sc = {'act': a, 'mode': r.randrange(6), 'crashes': [], 'over': None, 'inter': []}
        for k in range(self.ncrash):
            sc['crashes'].append({'kind': r.choice(['crash', 'torn', 'torn']), 'u': round(r.random() ** r.choice([1, 1, 0.25]), 6),
                                  'arg': round(r.choice([r.random(), 0.999, 0.001]), 4)})
        if a['t'] == 'write' and r.random() < 0.3:
            sc['over'] = r.randrange(2 ** 32)
            a['sol'] = False          # two files: each one is old or new
        for k in range(2 if sc['over'] is None else 0):
            sc['inter'].append({'n': r.choice([1, 1, 2]), 'reads': r.randrange(1, 4), 'sticky': r.choice([0.0, 0.5, 0.8, 0.95]),
                                'sched': r.choice(['random', 'pct']),
                                'crash': round(r.random(), 6) if r.random() < 0.3 else None})
        return sc

    def execute(self, sc, ctx):
        a = sc['act']
        kind, outs = targets(a)
        name = f'{a["t"]} of {kind}' + (f' ({a["fmt"]})' if 'fmt' in a else '')
        self.old = None

        def prepare(root):
            ops.prepare_act(a, root)
            if self.old:
                for o in outs:
                    shutil.copy(os.path.join(self.old, o), os.path.join(root, o))

        root = ctx.root()
        ops.prepare_act(a, root)
        out, res = ctx.solo('dry', root, lambda: ops.run_act(a))
        v = ctx.healthy(out, name)
        got = [o for o in ops.outputs_of(a, v) if not o.endswith('.xmf')]
        if got != outs:
            ctx.violate('name', f'{name} wrote {got} instead of {outs}')
        ctx.expect(ops.check_act(a, root, v), 'content', name)
        back, _ = ctx.solo('back', root, lambda: read(kind, outs, sc['mode']))
        allowed = [ctx.healthy(back, f'reading the {kind} file back')]
        if sc['over'] is not None:
            b = copy.deepcopy(a)
            b['mesh']['seed'] = sc['over']
            self.old = ctx.root()
            ops.prepare_act(b, self.old)
            out, _ = ctx.solo('old', self.old, lambda: ops.run_act(b))
            ctx.healthy(out, name)
            back, _ = ctx.solo('oldback', self.old, lambda: read(kind, outs, sc['mode']))
            allowed.append(ctx.healthy(back, f'reading the {kind} file back'))
            root = ctx.root()
            prepare(root)
            out, res = ctx.solo('dryover', root, lambda: ops.run_act(a))
            ctx.healthy(out, name)
            back, _ = ctx.solo('backover', root, lambda: read(kind, outs, sc['mode']))
            d = oracle.same(allowed[0], ctx.healthy(back, f'reading the {kind} file back'))
            if d:
                ctx.violate('content', f'{name} over an older file: {d}')
        for k, c in enumerate(sc['crashes']):
            root = ctx.root()
            prepare(root)
            faults = ctx.place(res.log, [c], flt=crosses if c['kind'] == 'torn' else None)
            if not faults:
                continue
            if c['kind'] == 'torn' and kind in ('v4', 'packed'):
                faults[0]['page'] = True
            out, fr = ctx.solo(f'c{k}', root, lambda: ops.run_act(a), faults)
            if out.status != 'crashed':
                continue          # the run ended before: its content is what C01-C05 look at
            f = fr.faults[0]
            what = f'{name} killed by {f["kind"]}@{f["at"]} ({f["op"]} of {len(res.log)} calls)'
            self.look(sc, ctx, root, kind, outs, allowed, what, f'r{k}')
            if k == 0 and sc['mode'] < 3:
                self.again(sc, ctx, a, root, name, what)
        for k, it in enumerate(sc['inter']):
            root = ctx.root()
            prepare(root)
            fl = ctx.place(res.log, [{'kind': 'crash', 'u': it['crash']}]) if it['crash'] is not None else []
            cl = [lambda: ops.run_act(a)] + [lambda q=q: reads(kind, outs, sc['mode'] + q, it['reads']) for q in range(it['n'])]
            fr = ctx.phase(f'i{k}', root, cl, fl, sticky=it['sticky'], mode=it['sched'], steps=2 * len(res.log))
            w = fr.outcomes[0]
            if w.status == 'exc' and w.etype == 'BlockingIOError' and kind in ('v4', 'packed'):
                ctx.note('writer_refused_by_lock')      # HDF5 locks: a reader was first
            elif not fl:
                ctx.healthy(w, f'{name} while another process reads the file')
            for q, o in enumerate(fr.outcomes[1:]):
                if o.status == 'signal' and kind != 'ic3':
                    ctx.note('native_crash_of_reader')
                    continue
                if o.status != 'ok':
                    ctx.violate('reader-died', f'reading {kind} while it is written: {o.brief()} {(o.tb or "")[-500:]}')
                for n, (st, val) in enumerate(o.value):
                    ctx.note('concurrent_read_raised' if st == 'exc' else 'concurrent_read_complete')
                    if st == 'ok' and q == 0 and oracle.same(allowed[0], val):
                        ctx.violate('partial', f'{name}: a process that reads the file while it is written gets '
                                               f'something else than its content: {oracle.same(allowed[0], val)}')
            if w.status == 'ok':
                back, _ = ctx.solo(f'ib{k}', root, lambda: read(kind, outs, sc['mode']))
                d = oracle.same(allowed[0], ctx.healthy(back, f'reading the {kind} file back'))
                if d:
                    ctx.violate('content', f'{name} while another process reads it: {d}')
            else:
                self.look(sc, ctx, root, kind, outs, allowed, f'{name} killed while another process reads it', f'ic{k}')

    def look(self, sc, ctx, root, kind, outs, allowed, what, label):
        back, _ = ctx.solo(label, root, lambda: read(kind, outs, sc['mode']))
        if back.status == 'exc':
            ctx.note('rejected')
            return
        if back.status == 'signal' and kind != 'ic3':
            ctx.note('native_crash_of_reader')
            return
        if back.status != 'ok':
            ctx.violate('reader-died', f'{what}; reading what is left: {back.brief()}')
        d = [oracle.same(x, back.value) for x in allowed]
        if all(d):
            ctx.violate('partial', f'{what}; the file left is read as something else than the complete content: {d[0]}')
        ctx.note('complete')

    def again(self, sc, ctx, a, root, name, what):
        """the same operation after the crash gives the whole content"""
        if a['t'] != 'write':
            return
        out, _ = ctx.solo('again', root, lambda: ops.run_act(a))
        v = ctx.healthy(out, f'{what}; {name} once more')
        ctx.expect(ops.check_act(a, root, v), 'content', f'{what}; {name} once more')
