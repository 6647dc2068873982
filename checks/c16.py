"""C16: averaging a VTK solution along a direction gives every column of cells its own values, or raises."""
import os

from harness import ops
from harness.base import CheckBase, HARD_R, HARD_W, hard_used, persistent_of, plan_hard, plan_soft


class Check(CheckBase):
    pid = 'C16'
    tiers = {'quick': 400, 'thorough': 9000}
    rule = ('Random layered VTU solutions (cells in any order, three directions, options and selections) read, averaged and written: '
            'twice on a healthy disk with the same object, then under three seeded fault plans, or with a mesh that is not layered.')

    def gen(self, r, i, tier):
        bad = r.random() < 0.25
        sc = {'z': ops.rand_zavg(r, bad), 'plans': []}
        if i == 0:
            sc['z'] = ops.giant_zavg(r)
        elif not bad:
            for k in range(3):
                kind = r.choice(['hard', 'hard', 'persist', 'soft', 'both'])
                hk = sorted(set(HARD_W + HARD_R)) + ['eioclose']
                if kind == 'hard':
                    p = {'plan': plan_hard(r, hk)}
                elif kind == 'persist':
                    p = {'plan': [], 'persist': {'kind': r.choice(['enospc', 'eio']), 'u': round(r.random(), 6)}}
                elif kind == 'soft':
                    p = {'plan': plan_soft(r)}
                else:
                    p = {'plan': plan_soft(r) + plan_hard(r, hk)}
                sc['plans'].append(p)
        return sc

    def execute(self, sc, ctx):
        a = sc['z']
        root = ctx.root()
        ops.prepare_zavg(a, root)
        if a.get('bad'):
            out, _ = ctx.solo('dry', root, lambda: ops.run_zavg(a, {}))
            if out.status == 'ok':
                ctx.violate('bad-mesh', f'the average was written although the solution is bad: {a["bad"]}')
            ctx.note('bad_' + a['bad'])
            return

        def twice():
            st = {}
            o = ops.run_zavg(a, st)
            os.replace(o, 'first.vtu')
            return [ops.run_zavg(a, st), 'first.vtu'], ops.run_then(a, st)

        out, res = ctx.solo('dry', root, lambda: ops.run_zavg(a, {}))
        name = ctx.healthy(out, 'averaging')
        self.verify(sc, ctx, root, name, 'averaging')
        out, _ = ctx.solo('twice', root, twice)
        two, then = ctx.healthy(out, 'averaging twice')
        for n in two:
            self.verify(sc, ctx, root, n, 'averaging twice the same object')
        for j, n in enumerate(then):
            t = a['then'][j]
            self.verify(sc, ctx, root, n, f'averaging the same object again, along {t["axis"]}' + ', its values changed' * bool(t['edit']), j)
        for k, pl in enumerate(sc['plans']):
            root = ctx.root()
            ops.prepare_zavg(a, root)
            faults = ctx.place(res.log, pl['plan'])
            pers = persistent_of(ctx, res.log, pl['persist']) if pl.get('persist') else None
            out, fr = ctx.solo(f'z{k}', root, lambda: ops.run_zavg(a, {}), faults, persistent=pers)
            what = 'averaging under ' + ','.join(sorted({f['kind'] + '@' + f['at'] for f in fr.faults}))
            if not hard_used(fr):
                ctx.healthy(out, what)
            elif out.status == 'signal' and any(f['path'].endswith('sol.vtu') for f in hard_used(fr)):
                ctx.note('native_crash_under_fault')
                continue
            elif out.status not in ('ok', 'exc'):
                ctx.violate('died', f'{what}: the process ends with {out.brief()} instead of raising')
            if out.status == 'exc':
                ctx.note('refused_and_raised')
                continue
            self.verify(sc, ctx, root, out.value, what)

    def verify(self, sc, ctx, root, name, what, then=None):
        cls = 'acknowledged-wrong' if 'under' in what else 'content'
        try:
            path = os.path.join(root, name)
            pb = ops.check_zavg(sc['z'], path) if then is None else ops.check_then(sc['z'], then, path)
        except Exception as e:  # noqa: BLE001
            ctx.violate(cls, f'{what} returned and its file cannot be decoded: {type(e).__name__}: {e}')
        ctx.expect(pb, cls, what)
