"""C05: a conversion command carries the mesh, marks and data of its source, transformed as asked."""
import os

from harness import ops
from harness.base import CheckBase, HARD_R, HARD_W, hard_used, persistent_of, plan_hard, plan_soft

HARD = sorted(set(HARD_W + HARD_R)) + ['eioclose']

GIANT = [('gmsh22', 'ic3v3'), ('gmsh41', 'vtk'), ('cgns', 'ic3v2'), ('ic3', 'ic3v3'), ('gmsh41', 'ic3v2', 'quad'), ('cgns', 'vtk', 'tri')]


class Check(CheckBase):
    pid = 'C05'
    tiers = {'quick': 480, 'thorough': 12000}
    rule = ('Random conversions (source format and layout, target format, options) and cfdwritecube calls: once on a healthy disk with '
            'the output decoded independently, then under three seeded fault plans.')

    def gen(self, r, i, tier):
        sc = {'act': ops.rand_act(r, ('cli',) * 7 + ('cube',), pre=r.choice(['', '', 'd/']), big=r.random() < 0.1), 'plans': []}
        if i < len(GIANT):
            sc['act'] = ops.giant_conversion(r, *GIANT[i])
            return sc
        for k in range(3):
            kind = r.choice(['hard', 'hard', 'persist', 'soft', 'both'])
            if kind == 'hard':
                p = {'plan': plan_hard(r, HARD, 1 if r.random() < 0.8 else 2)}
            elif kind == 'persist':
                p = {'plan': [], 'persist': {'kind': r.choice(['enospc', 'eio']), 'u': round(r.random(), 6)}}
            elif kind == 'soft':
                p = {'plan': plan_soft(r)}
            else:
                p = {'plan': plan_soft(r) + plan_hard(r, HARD)}
            sc['plans'].append(p)
        return sc

    def shrink(self, sc):
        import copy
        yield from super().shrink(sc)
        for k in list(sc['act'].get('args', ())):
            c = copy.deepcopy(sc)
            c['act']['args'].pop(k)
            yield c

    def native(self, a):
        """does the operation run HDF5 code that may not survive a refused I/O call?"""
        return a.get('src', {}).get('f') == 'cgns'

    def execute(self, sc, ctx):
        a = sc['act']
        root = ctx.root()
        ops.prepare_act(a, root)
        out, res = ctx.solo('dry', root, lambda: ops.run_act(a))
        ctx.healthy(out, 'the conversion')
        ctx.expect(ops.check_act(a, root, out.value), 'content', self.name(a))
        if a['t'] == 'cli' and out.value != ops.out_name(a):
            ctx.violate('content', f'the output is {out.value} instead of {ops.out_name(a)}')
        good = open(os.path.join(root, out.value), 'rb').read()
        for k, p in enumerate(sc['plans']):
            root = ctx.root()
            ops.prepare_act(a, root)
            faults = ctx.place(res.log, p['plan'])
            pers = persistent_of(ctx, res.log, p['persist']) if p.get('persist') else None
            out, fr = ctx.solo(f'p{k}', root, lambda: ops.run_act(a), faults, persistent=pers)
            hard = hard_used(fr)
            what = self.name(a) + ' under ' + ','.join(sorted({f['kind'] + '@' + f['at'] + os.path.splitext(f['path'])[1] for f in fr.faults}))
            if not hard:
                ctx.healthy(out, what)
            elif out.status == 'signal' and self.native(a):
                ctx.note('native_crash_under_fault')
                continue
            elif out.status not in ('ok', 'exc'):
                ctx.violate('died', f'{what}: the process ends with {out.brief()} instead of raising')
            if out.status == 'exc':
                ctx.note('refused_and_raised')
                continue
            p = os.path.join(root, out.value)
            if os.path.exists(p) and open(p, 'rb').read() == good:
                ctx.note('refused_yet_correct' if hard else 'tolerated')
                continue
            ctx.expect(ops.check_act(a, root, out.value), 'acknowledged-wrong', what + f' returned {out.value}')

    def name(self, a):
        return 'cfdwritecube' if a['t'] == 'cube' else f'{a["src"]["f"]} -> {a["to"]} {" ".join(ops.argv(a))}'
