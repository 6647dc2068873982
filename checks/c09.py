"""C09: after a failed read or write, trying again with the same objects succeeds."""
import os
import traceback

from harness import node, ops, oracle
from harness.base import CheckBase, HARD_R, HARD_W, native_hit, plan_hard
from sim.core import mark

HARD = sorted(set(HARD_W + HARD_R)) + ['eioclose']


def attempts(a, n):
    """n attempts that may meet faults, then one more, all with the same objects (in a node)"""
    st, out, canons = {}, [], []
    for k in range(n + 1):
        mark(k)
        try:
            v = ('ok', ops.run_act(a, st))
        except Exception as e:  # noqa: BLE001
            v = ('exc', type(e).__name__, str(e)[:500], traceback.format_exc()[-900:])
            e = None
        out.append(v)
        if 'm' in st:
            canons.append(node.canon(st['m']))
    return out, canons


class Check(CheckBase):
    pid = 'C09'
    tiers = {'quick': 480, 'thorough': 14000}
    rule = ('Random operations (reads, writes, conversions, packs, probes, dumps) repeated in one node with the same objects: one or two '
            'attempts under seeded hard faults, then one on a healthy disk, compared with a run that never met a fault.')

    def gen(self, r, i, tier):
        kinds = ('read',) * 4 + ('write',) * 3 + ('cli', 'cli', 'pack', 'pack', 'probes', 'plot', 'vtkdump', 'vtklist', 'cube', 'info', 'zavg')
        sc = {'act': ops.rand_act(r, kinds, pre=r.choice(['', 'd/'])), 'plans': []}
        hard = HARD_R + ['eioclose'] if sc['act']['t'] in ('read', 'probes', 'info', 'vtklist') else HARD
        for k in range(4):
            p = {'plan': plan_hard(r, hard, 1 if r.random() < 0.8 else 2), 'second': None}
            if r.random() < 0.25:
                p = {'plan': [], 'persist': {'kind': r.choice(['enospc', 'eio'] if hard is HARD else ['eio']), 'u': round(r.random(), 6)}, 'second': None}
            elif r.random() < 0.4:
                p['second'] = plan_hard(r, hard)
            sc['plans'].append(p)
        return sc

    def execute(self, sc, ctx):
        a = sc['act']
        root = ctx.root()
        ops.prepare_act(a, root)
        out, res = ctx.solo('dry', root, lambda: attempts(a, 0))
        (good,), canons = ctx.healthy(out, a['t'])
        if good[0] != 'ok':
            ctx.violate('healthy', f'{a["t"]} fails on a healthy disk: {good[1]}: {good[2]}')
        good = good[1]
        ctx.expect(ops.check_act(a, root, good), 'content', a['t'])
        for k, p in enumerate(sc['plans']):
            faults = [dict(f, ep=1) for f in ctx.place(res.log, p['plan'])]
            pers = None
            if p.get('persist'):
                el = ctx.eligible(res.log, p['persist']['kind'])
                if el:
                    pers = {'from': el[min(len(el) - 1, int(p['persist']['u'] * len(el)))], 'kind': p['persist']['kind'], 'client': 0}
            root = ctx.root()
            ops.prepare_act(a, root)
            out, fr = ctx.solo(f'one{k}', root, lambda: attempts(a, 1), faults, persistent=pers)
            self.judge(sc, ctx, a, root, out, fr, good, canons)
            if p['second'] and out.status == 'ok':
                marks = [e[1] for e in fr.log if e[2] == 'yield']
                second = [dict(f, ep=2) for f in ctx.place([e for e in fr.log if e[1] > marks[1]], p['second'])]
                first = [{kk: f[kk] for kk in ('client', 'op', 'kind', 'arg', 'ep') if kk in f} for f in fr.faults]
                root = ctx.root()
                ops.prepare_act(a, root)
                out, fr = ctx.solo(f'two{k}', root, lambda: attempts(a, 2), first + second)
                self.judge(sc, ctx, a, root, out, fr, good, canons)

    def judge(self, sc, ctx, a, root, out, fr, good, canons):
        what = a['t'] + (' ' + a['src']['f'] if 'src' in a else '') + (' ' + a['fmt'] if 'fmt' in a else '')
        what += ' after ' + ','.join(sorted({f['kind'] + '@' + f['at'] + os.path.splitext(f['path'])[1] for f in fr.faults}))
        if out.status == 'signal' and native_hit(fr):
            ctx.note('native_crash_under_fault')
            return
        if out.status != 'ok':
            ctx.violate('died', f'{what}: {out.brief()} {(out.tb or "")[-600:]}')
        vals, cs = out.value
        failed = [v for v in vals[:-1] if v[0] == 'exc']
        ctx.note('failed_attempts', len(failed))
        ctx.note('scenario_with_failure', 1 if failed else 0)
        last = vals[-1]
        if last[0] != 'ok':
            ctx.violate('retry', f'{what}: first attempt(s): {", ".join(" ".join(map(str, v[:3]))[:200] for v in vals[:-1] if v[0] != "ok")}'
                                 f'; on the healthy disk the retry still raises {last[1]}: {last[2]} {last[3]}')
        if not ops.outputs_of(a, last[1]):
            d = oracle.same(good, last[1])
            if d:
                ctx.violate('retry-differs', f'{what}: the retry does not return what a first call returns: {d}')
        else:
            ctx.expect(ops.check_act(a, root, last[1]), 'retry-differs', f'{what}: the output of the retry')
        for c in cs:
            d = oracle.same(canons[0], c)
            if d:
                ctx.violate('mesh-changed', f'{what}: the mesh in memory changed: {d}')
