"""C08: a read under I/O faults is all or nothing."""
import os

from harness import ops, oracle
from harness.base import CheckBase, HARD_R, hard_used, persistent_of, plan_hard, plan_soft

HARD = HARD_R + ['eioclose']
NATIVE = ('v4', 'vtu', 'packed', 'cgns')

GIANT = ('v4', 'cgns', 'gmsh22', 'gmsh41', 'ic3', 'vtu')


class Check(CheckBase):
    pid = 'C08'
    tiers = {'quick': 960, 'thorough': 30000}
    rule = ('Random files of every format written by independent encoders and read by every reader, list or command: once on a healthy '
            'disk (content checked against the source mesh), then under six seeded fault plans, compared value by value.')

    def gen(self, r, i, tier):
        kinds = ('read',) * 8 + ('probes',) * 2 + ('plot',) + ('vtklist', 'vtklist', 'info', 'brief', 'vtkbrief')
        sc = {'act': ops.rand_act(r, kinds, pre=r.choice(['', 'd/']), big=r.random() < 0.12), 'plans': []}
        if i < len(GIANT):
            sc['act'] = {'t': 'read', 'src': ops.giant_source(r, GIANT[i]), 'integrity': True, 'pre': ''}
            return sc
        for k in range(6):
            kind = r.choice(['hard', 'hard', 'hard', 'persist', 'soft', 'both', 'range'])
            if kind == 'hard':
                p = {'plan': plan_hard(r, HARD, 1 if r.random() < 0.8 else 2)}
            elif kind == 'persist':
                p = {'plan': [], 'persist': {'kind': 'eio', 'u': round(r.random(), 6)}}
            elif kind == 'range':          # reads only: a bad area of the medium
                p = {'plan': plan_hard(r, ['eio'], r.randrange(1, 4)), 'ops': 'read'}
            elif kind == 'soft':
                p = {'plan': plan_soft(r)}
            else:
                p = {'plan': plan_soft(r) + plan_hard(r, HARD)}
            sc['plans'].append(p)
        return sc

    def execute(self, sc, ctx):
        a = sc['act']
        root = ctx.root()
        ops.prepare_act(a, root)
        out, res = ctx.solo('dry', root, lambda: ops.run_act(a))
        ref = ctx.healthy(out, self.name(a))
        ctx.expect(ops.check_act(a, root, ref), 'content', self.name(a))
        src = a.get('src', {}).get('f')
        for k, p in enumerate(sc['plans']):
            faults = ctx.place(res.log, p['plan'], flt=(lambda e: e[2] == p['ops']) if p.get('ops') else None)
            pers = persistent_of(ctx, res.log, p['persist']) if p.get('persist') else None
            out, fr = ctx.solo(f'p{k}', root, lambda: ops.run_act(a), faults, persistent=pers)
            hard = hard_used(fr)
            what = self.name(a) + ' under ' + ','.join(sorted({f['kind'] + '@' + f['at'] for f in fr.faults}))
            if not hard:
                ctx.healthy(out, what)
            elif out.status == 'signal' and (src in NATIVE or a['t'] == 'vtklist'):
                ctx.note('native_crash_under_fault')
                continue
            elif out.status not in ('ok', 'exc'):
                ctx.violate('died', f'{what}: the process ends with {out.brief()} instead of raising')
            if out.status == 'exc':
                ctx.note('refused_and_raised')
                continue
            d = oracle.same(ref, out.value)
            if d:
                ctx.violate('partial', f'{what} returned something else than on a healthy disk: {d}')
            ctx.note('refused_yet_correct' if hard else 'tolerated')

    def name(self, a):
        if a['t'] == 'read':
            return f'reading {a["src"]["f"]}' + (' with integrity check' if a['integrity'] else '')
        return {'probes': 'reading probes', 'vtklist': 'reading a VTK list', 'info': 'cfdinfo', 'brief': 'ic3brief',
                'vtkbrief': 'vtkbrief', 'plot': 'ic3probe_plotline'}[a['t']]
