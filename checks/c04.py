"""C04: packing VTK snapshots keeps every field on its own cell and its own time."""
import os

from harness import ops
from harness.base import CheckBase, HARD_R, HARD_W, hard_used, persistent_of, plan_hard, plan_soft


class Check(CheckBase):
    pid = 'C04'
    tiers = {'quick': 360, 'thorough': 9000}
    rule = ('Random lists of 1-5 VTU snapshots of one random mesh with permuted cells, fields, filters and times, packed through the '
            'API or vtkpack: once on a healthy disk, then under seeded fault plans, or with one damaged or different snapshot.')

    def min_len(self, key):
        return 1 if key in ('snaps',) else 0

    def gen(self, r, i, tier):
        bad = r.random() < 0.3
        sc = {'pack': ops.rand_pack(r, bad=bad), 'old': r.random() < 0.3, 'plans': []}
        if i == 0:
            sc['pack'] = ops.giant_pack(r)
        elif i == 5:
            sc['pack'] = ops.long_pack(r)
        elif not bad:
            for k in range(3):
                kind = r.choice(['hard', 'hard', 'persist', 'soft', 'both'])
                hk = sorted(set(HARD_W + HARD_R)) + ['eioclose']
                if kind == 'hard':
                    p = {'plan': plan_hard(r, hk)}
                elif kind == 'persist':
                    p = {'plan': [], 'persist': {'kind': r.choice(['enospc', 'eio']), 'u': round(r.random(), 6)}}
                elif kind == 'soft':
                    p = {'plan': plan_soft(r)}
                else:
                    p = {'plan': plan_soft(r) + plan_hard(r, hk)}
                sc['plans'].append(p)
        return sc

    def prepare(self, sc, root):
        ops.prepare_pack(sc['pack'], root)
        if sc['old']:
            with open(os.path.join(root, sc['pack']['out']), 'wb') as f:
                f.write(b'older content')

    def execute(self, sc, ctx):
        p = sc['pack']
        root = ctx.root()
        self.prepare(sc, root)
        out, res = ctx.solo('dry', root, lambda: ops.run_pack(p))
        if p.get('bad'):
            how = p['bad']['how']
            if how == 'dup' and len(p['snaps']) and out.status == 'ok':
                ctx.violate('bad-snapshot', 'a snapshot holding one cell twice was packed')
            if out.status == 'ok':
                ctx.violate('bad-snapshot', f'packing returned {out.value!r} although snapshot {p["bad"]["snap"]} is bad: {how}')
            if out.status not in ('exc',):
                ctx.note('native_crash')
            ctx.note('bad_snapshot_' + how)
            return
        name = ctx.healthy(out, 'packing')
        self.verify(sc, ctx, root, name, 'packing')
        back, _ = ctx.solo('back', root, lambda: ops.node.read_packed(name))
        val = ctx.healthy(back, 'importing the packed mesh')
        ref = ops.pack_ref(p)
        ctx.expect(ops.oracle.check_canon(ref, val, ordered=False, data=False, params=False, marks=False), 'read-back', 'packed mesh')
        order, _ = ops.packed_order(ref, ops.snap_perm(p, 0, ref.ncell))
        _, nmap = ops.oracle.match_nodes(val['nodes'], ref.nodes, True, False)
        got = [[t, sorted(int(nmap[q]) for q in nod)] for t, nod in val['grid']]
        if got != [[ops.formats.VTKID[ref.cells[q][0]], sorted(ref.cells[q][1])] for q in order]:
            ctx.violate('read-back', 'the packed mesh imported as a grid has its cells in another order than the packed values')
        for k, pl in enumerate(sc['plans']):
            root = ctx.root()
            self.prepare(sc, root)
            faults = ctx.place(res.log, pl['plan'])
            pers = persistent_of(ctx, res.log, pl['persist']) if pl.get('persist') else None
            out, fr = ctx.solo(f'p{k}', root, lambda: ops.run_pack(p), faults, persistent=pers)
            what = 'packing under ' + ','.join(sorted({f['kind'] + '@' + f['at'] + os.path.splitext(f['path'])[1] for f in fr.faults}))
            hard = hard_used(fr)
            if not hard:
                ctx.healthy(out, what)
            elif out.status == 'signal':
                ctx.note('native_crash_under_fault')
                continue
            elif out.status not in ('ok', 'exc'):
                ctx.violate('died', f'{what}: the process ends with {out.brief()} instead of raising')
            if out.status == 'exc':
                ctx.note('refused_and_raised')
                continue
            self.verify(sc, ctx, root, out.value, what)

    def verify(self, sc, ctx, root, name, what):
        cls = 'acknowledged-wrong' if 'under' in what else 'content'
        if not os.path.exists(os.path.join(root, name)):
            ctx.violate(cls, f'{what} returned {name!r}, which does not exist')
        try:
            pb = ops.check_pack(sc['pack'], root, name)
        except Exception as e:  # noqa: BLE001
            ctx.violate(cls, f'{what} returned {name!r}, which cannot be decoded: {type(e).__name__}: {e}')
        ctx.expect(pb, cls, what)
