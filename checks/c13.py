"""C13: every file handle opened is given back, on success and on failure."""
import fcntl
import gc
import os

from checks import c10
from harness import node, ops
from harness.base import CheckBase, HARD_R, HARD_W, native_hit, plan_hard
from sim.core import mark, shim

HARD = sorted(set(HARD_W + HARD_R))


def held(root):
    """files of the simulated disk this process still has open or locked"""
    shim().simio_detach()
    try:
        out = [('open', f) for f in node.open_fds(root)]
        for d, _, files in os.walk(root):
            for f in files:
                p = os.path.join(d, f)
                fd = os.open(p, os.O_RDWR)
                try:
                    fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except OSError:
                    out.append(('locked', os.path.relpath(p, root)))
                finally:
                    os.close(fd)
        return out
    finally:
        shim().simio_resume()


def one(a, keep):
    """the operation, then its objects are dropped (but a mesh it exported, when keep is set)"""
    st = {}
    r = c10.attempt(a, st)
    kept = st.get('mesh') if keep else None
    del st
    return (r[0], r[1] if r[0] == 'exc' else None), kept


def run(acts, root, keep):
    out, kept = [], []
    for k, a in enumerate(acts):
        mark(k)
        r, m = one(a, keep)
        kept.append(m)
        gc.collect()
        out.append((r, held(root)))
    mark(len(acts))
    return out


class Check(CheckBase):
    pid = 'C13'
    tiers = {'quick': 400, 'thorough': 12000}
    rule = ('Random operations and histories of 1-6 of them in one process, on a healthy disk and with a hard fault at a seeded I/O call of '
            'each; after each one and the release of its objects, no descriptor and no lock may remain on any file.')

    def min_len(self, key):
        return 1 if key in ('acts', 'snaps') else 0

    def gen(self, r, i, tier):
        acts = []
        for k in range(r.choice([1, 1, 2, 3, 6])):
            x = r.random()
            a = c10.rand_multi(r) if x < 0.1 else c10.rand_bad(r) if x < 0.3 else ops.rand_act(r)
            d = f'd{k}/'
            a['pre'] = d
            if a['t'] == 'cli':
                a['in'] = d + f'c{k}' + os.path.splitext(a['in'])[1]
                if a['args'].get('outpath'):
                    a['args']['outpath'] = d + 'out'
            elif 'out' in a and a.get('via') != 'cli':
                a['out'] = d + os.path.basename(a['out'])
            acts.append(a)
        return {'acts': acts, 'keep': r.random() < 0.4,
                'plans': [[{'at': round(r.random(), 4), 'fault': plan_hard(r, HARD + ['eioclose'])} for _ in range(r.choice([1, 1, 2]))]
                          for _ in range(5)]}

    def execute(self, sc, ctx):
        acts = sc['acts']

        def disk():
            root = ctx.root()
            for a in acts:
                c10.prepare(a, root)
            return root

        root = disk()
        out, res = ctx.solo('!dry', root, lambda: run(acts, root, sc['keep']))
        self.judge(ctx, acts, out, res)
        for n, plan in enumerate(sc['plans']):
            log, faults = res.log, []
            for q, p in enumerate(sorted(plan, key=lambda p: p['at'])):
                k = min(len(acts) - 1, int(p['at'] * len(acts)))
                marks = [e[1] for e in log if e[2] == 'yield']
                if any(f['ep'] == k + 1 for f in faults) or k + 1 >= len(marks):
                    continue
                f = ctx.place([e for e in log if marks[k] < e[1] < marks[k + 1]], p['fault'])
                if not f:
                    continue
                faults += [dict(x, ep=k + 1) for x in f]
                root = disk()
                out, fr = ctx.solo(f'f{n}.{q}', root, lambda: run(acts, root, sc['keep']), faults)
                self.judge(ctx, acts, out, fr)
                if out.status != 'ok':
                    break
                log = fr.log

    def judge(self, ctx, acts, out, fr):
        if out.status == 'signal' and native_hit(fr):
            ctx.note('native_crash_under_fault')
            return
        v = ctx.healthy(out, 'a history')
        done = []
        for k, (a, (r, left)) in enumerate(zip(acts, v)):
            w = a['t'] + (f' {a["src"]["f"]}' if a.get('src') else '') + (f' {a["fmt"]}' if 'fmt' in a else '')
            done.append(w + (f' raising {r[1]}' if r[0] == 'exc' else ''))
            ctx.note('raised' if r[0] == 'exc' else 'returned')
            if left:
                fs = ','.join(sorted({f['kind'] + '@' + f['at'] + os.path.splitext(f['path'])[1] for f in fr.faults}))
                ctx.violate('held', f'after {" and ".join(done)}{" under " + fs if fs else ""}, files are still held: {left[:4]}')
