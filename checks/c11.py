"""C11: independent work in several threads does not mix."""
import os

from checks import c10
from harness import node, ops, oracle
from harness.base import CheckBase
from harness.threads import Sched


def prefixes(wide):
    out = [os.path.join(node.REPO, 'cfdtools') + '/']
    if wide:
        import argparse
        import pathlib
        import pyvista
        out += [os.path.dirname(pyvista.__file__) + '/', argparse.__file__, pathlib.__file__]
    return out


class Check(CheckBase):
    pid = 'C11'
    tiers = {'quick': 320, 'thorough': 10000}
    rule = ('2-4 threads of one process, each with 1-3 operations on its own files and objects, interleaved at every line of package '
            'code (and of pyvista, argparse and pathlib in a third of the scenarios) by seeded random or few-change-point schedules; '
            'each operation compared with the same one alone in a fresh process.')
    stub = ['thread scheduler (seeded; switches at lines of package code and at its locks)'] + CheckBase.stub

    def min_len(self, key):
        return 1 if key in ('acts', 'snaps', 'threads') else 0

    def gen(self, r, i, tier):
        threads, kinds = [], None
        for t in range(r.choice([2, 2, 2, 3, 4])):
            acts = []
            for k in range(r.choice([1, 1, 2, 3])):
                if kinds and r.random() < 0.5:
                    kind = kinds          # the same code in two threads
                else:
                    kind = r.choice(['multi', 'bad'] + ['cli'] * 5 + ['read'] * 4 + ['write', 'write', 'pack', 'pack', 'cube', 'probes', 'info',
                                                                                   'brief', 'vtkbrief', 'vtkdump', 'vtklist', 'zavg'])
                kinds = kind
                a = c10.rand_multi(r) if kind == 'multi' else c10.rand_bad(r) if kind == 'bad' else ops.rand_act(r, (kind,))
                d = f't{t}{k}/'
                a['pre'] = d
                if a['t'] == 'cli':
                    a['in'] = d + f'c{t}{k}' + os.path.splitext(a['in'])[1]
                    if a['args'].get('outpath'):
                        a['args']['outpath'] = d + 'out'
                elif 'out' in a and a.get('via') != 'cli':
                    a['out'] = d + os.path.basename(a['out'])
                acts.append(a)
            threads.append(acts)
        runs = []
        for k in range(4):
            m = r.choice([['rand', 0.002], ['rand', 0.02], ['rand', 0.3], ['pct', 1], ['pct', 2], ['pct', 4], ['pct', 12]])
            runs.append({'mode': m, 'seed': r.randrange(2 ** 32)})
        return {'threads': threads, 'runs': runs, 'wide': r.random() < 0.33}

    def execute(self, sc, ctx):
        threads = sc['threads']
        solo, dec = {}, {}
        for t, acts in enumerate(threads):
            for k, a in enumerate(acts):
                root = ctx.root()
                c10.prepare(a, root)
                out, _ = ctx.solo(f's{t}.{k}', root, lambda a=a: c10.attempt(a, {}))
                v = ctx.healthy(out, a['t'])
                if v[0] != 'ok':
                    if a['t'] != 'bad':
                        ctx.violate('healthy', f'{a["t"]} fails alone: {v[1]}: {v[2]}')
                elif a['t'] not in ('multi', 'bad'):
                    ctx.expect(ops.check_act(a, root, v[1]), 'content', a['t'])
                solo[t, k] = v
                dec[t, k] = c10.decode(a, root, v[1]) if v[0] == 'ok' else None
        pref = prefixes(sc['wide'])
        jobs = [lambda acts=acts: [c10.attempt(a, {}) for a in acts] for acts in threads]
        total = 0
        for n, run in enumerate(sc['runs']):
            label = f'!t{n}'
            sw = None
            if ctx.override is not None:
                sw = ctx.override.get(label, {}).get('switches', [])
            root = ctx.root()
            for acts in threads:
                for a in acts:
                    c10.prepare(a, root)
            if run['mode'][0] == 'pct' and sw is None and not total:
                r0 = ctx.root()
                for acts in threads:
                    for a in acts:
                        c10.prepare(a, r0)
                out, _ = ctx.solo('count', r0, lambda: Sched(pref, ['rand', 0.0], 0).run(jobs)[1])
                total = ctx.healthy(out, 'threads one after the other')
            out, _ = ctx.solo(label, root, lambda: Sched(pref, run['mode'], run['seed'], sw, total).run(jobs))
            if out.status != 'ok':
                ctx.violate('died', f'the process ends with {out.brief()} {(out.tb or "")[-500:]}')
            res, count, record = out.value
            ctx.trace[label]['switches'] = record
            ctx.interleaved(record, count)
            self.judge(sc, ctx, root, res, solo, dec)

    def judge(self, sc, ctx, root, res, solo, dec):
        kinds = ['+'.join(a['t'] for a in acts) for acts in sc['threads']]
        for t, (acts, r) in enumerate(zip(sc['threads'], res)):
            beside = ', '.join(k for q, k in enumerate(kinds) if q != t)
            if r[0] != 'ok':
                ctx.violate('thread', f'thread {kinds[t]} beside {beside}: {r[1]}: {r[2]}')
            for k, (a, v) in enumerate(zip(acts, r[1])):
                e = solo[t, k]
                what = f'{a["t"]}' + (f' {a["src"]["f"]}' if a.get('src') else '') + f' in a thread beside {beside}'
                if v[0] != e[0]:
                    ctx.violate('mixed', f'{what}: {" ".join(map(str, v))[:400] if v[0] != "ok" else "returns"}, but alone it '
                                         f'{"returns" if e[0] == "ok" else "raises " + e[1]}')
                if v[0] != 'ok':
                    if v[1] != e[1]:
                        ctx.violate('mixed', f'{what} raises {v[1]}: {v[2]}; alone it raises {e[1]}: {e[2]}')
                    continue
                if dec[t, k]:
                    try:
                        got = c10.decode(a, root, v[1])
                    except Exception as x:  # noqa: BLE001
                        ctx.violate('mixed', f'{what}: its output cannot be decoded: {type(x).__name__}: {x}')
                    d = oracle.same(dec[t, k], got)
                else:
                    d = oracle.same(e[1], v[1])
                if d:
                    ctx.violate('mixed', f'{what} gives something else than alone: {d}')
                ctx.note('operations_compared')
