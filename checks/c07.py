"""C07: existing files are never clobbered, whatever runs at the same time."""
import copy
import os
import re

from harness import ops
from harness.base import CheckBase, HARD_R, HARD_W, plan_hard, plan_soft
from sim.core import A_PROCEED, A_SHORT, A_TORN, O_ACCMODE, O_CREAT, O_TRUNC, rng_for

INSPECT = ('info', 'brief', 'vtkbrief')
WRITE = ('cli', 'pack', 'vtkdump')


def wanted(a):
    """the name an operation writes when it is free"""
    if a['t'] == 'cli':
        p = os.path.splitext(os.path.basename(a['in']))[0] + ops.EXT[a['to']]
        return os.path.join(a['args'].get('outpath') or '', p)
    return a['out']


def numbered(name, n):
    s, e = os.path.splitext(name)
    return f'{s}({n}){e}' if n else name


class Check(CheckBase):
    pid = 'C07'
    tiers = {'quick': 480, 'thorough': 14000}
    rule = ('2-4 commands (conversions, vtkpack, safe dumps, inspections) aiming at the same or different names in a directory with '
            'random older files, one after the other or interleaved call by call, with crashes, hard and benign faults of some of them.')

    def min_len(self, key):
        return 2 if key == 'acts' else 0

    def gen(self, r, i, tier):
        acts, ins = [], {}
        for k in range(r.choice([2, 2, 3, 3, 4])):
            t = r.choice(WRITE + ('cli', 'cli') + INSPECT[:3 if k else 0])
            if acts and r.random() < 0.3:
                acts.append(copy.deepcopy(r.choice(acts)))       # the same command again
                continue
            pre = r.choice(['', 'd/'])
            a = ops.rand_act(r, (t,), pre=pre)
            if t == 'pack':
                a['xdmf'], a['overwrite'] = False, False
                a['pre'] = pre + f's{k}_'
                a['out'] = r.choice(['pack.h5', 'd/pack.h5']) if a['via'] == 'api' else 'dumped.h5'
            elif t == 'vtkdump':
                a['pre'] = pre + f'v{k}_'
                a['out'] = r.choice(['pack.h5', 'dumped.h5', 'd/pack.h5'])
            elif t in INSPECT:
                a['pre'] = pre + f'q{k}_'
            else:
                a['in'] = pre + r.choice(['case', 'case', 'm.v1']) + os.path.splitext(a['in'])[1]
                if a['in'] in ins:
                    a = copy.deepcopy(ins[a['in']])
                ins[a['in']] = a
            acts.append(a)
        used = {f for a in acts for f in ops.inputs_of(a)}
        old = {}
        for a in acts:
            if a['t'] in WRITE:
                for n, p in ((0, 0.45), (1, 0.3), (2, 0.2), (3, 0.1)):
                    f = numbered(wanted(a), n)
                    if f not in used and r.random() < p:
                        old[f] = r.choice([0, 1, 1000, -1])      # size, or a directory
        sc = {'acts': acts, 'old': [[f, n] for f, n in sorted(old.items())], 'runs': []}
        for k in range(3):
            run = {'sticky': r.choice([0.0, 0.3, 0.8, 0.95, 1.0]), 'mode': ('rush', 'pct', 'random')[k], 'plans': []}
            for c in range(len(acts)):
                x = r.random()
                if x < 0.6:
                    p = []
                elif x < 0.72:
                    p = [{'kind': r.choice(['crash', 'torn']), 'u': round(r.random(), 6), 'arg': round(r.random(), 4)}]
                elif x < 0.86:
                    p = plan_hard(r, sorted(set(HARD_R + HARD_W)) + ['eioclose'])
                else:
                    p = plan_soft(r)
                run['plans'].append(p)
            sc['runs'].append(run)
        return sc

    def prepare(self, sc, root):
        os.makedirs(os.path.join(root, 'd'))
        for a in sc['acts']:
            ops.prepare_act(a, root)
        r = rng_for('old', sc.get('seed'))
        for f, n in sc['old']:
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.exists(p):
                continue
            if n < 0:
                os.makedirs(p)
                continue
            with open(p, 'wb') as fh:
                fh.write(r.randbytes(n))

    def execute(self, sc, ctx):
        acts = sc['acts']
        logs = []
        for k, a in enumerate(acts):        # each alone in its own directory, for the places of the faults
            root = ctx.root()
            os.makedirs(os.path.join(root, 'd'))
            ops.prepare_act(a, root)
            out, res = ctx.solo(f'dry{k}', root, lambda a=a: ops.run_act(a))
            v = ctx.healthy(out, a['t'])
            ctx.expect(ops.check_act(a, root, v), 'content', a['t'])
            logs.append(res.log)
        for k, run in enumerate(sc['runs']):
            root = ctx.root()
            self.prepare(sc, root)
            before = tree(root)
            faults = []
            for c, p in enumerate(run['plans'][:len(acts)]):
                f = ctx.place(logs[c], p)
                for x in f:
                    x['client'] = c
                faults += f
            fr = ctx.phase(f'run{k}', root, [lambda a=a: ops.run_act(a) for a in acts], faults, sticky=run['sticky'],
                           mode=run['mode'], steps=sum(len(g) for g in logs))
            self.judge(sc, ctx, root, before, fr)

    def judge(self, sc, ctx, root, before, fr):
        acts = sc['acts']
        after = tree(root)
        for p, c in before.items():
            if p not in after:
                ctx.violate('clobbered', f'{p} existed before and was removed')
            elif after[p] != c:
                ctx.violate('clobbered', f'{p} existed before and was modified ({len(c or b"")} -> {len(after[p] or b"")} bytes)')
        creator = {}
        for c, i, op, path, off, ln, crc, act, arg, flags in fr.log:
            if act not in (A_PROCEED, A_SHORT, A_TORN):
                continue
            change = op in ('write', 'trunc', 'rename', 'unlink', 'mkdir') or \
                (op == 'open' and (flags & O_ACCMODE or flags & (O_CREAT | O_TRUNC)))
            if not change:
                continue
            if acts[c]['t'] in INSPECT and (op != 'open' or path not in before):
                ctx.violate('inspect', f'{acts[c]["t"]} does {op} on {path}')
            if op == 'open' and flags & O_CREAT and path not in before and path not in creator:
                creator[path] = c
            elif op != 'open' or flags & O_TRUNC:
                if path in before and op != 'mkdir':
                    ctx.violate('clobbered', f'{acts[c]["t"]} does {op} on {path}, which existed before')
                if creator.get(path, c) != c:
                    ctx.violate('clobbered', f'{acts[c]["t"]} does {op} on {path}, which another command created')
        names = {}
        faulty = {f['client'] for f in fr.faults if f['kind'] not in ('short', 'eintr', 'slow')}
        for c, (a, o) in enumerate(zip(acts, fr.outcomes)):
            what = a['t'] + (f' {a["in"]} to {a["to"]}' if a['t'] == 'cli' else '')
            if o.status != 'ok':
                if c not in faulty:
                    ctx.violate('failed', f'{what} beside other commands: {o.brief()} {(o.tb or "")[-400:]}')
                ctx.note('command_failed_under_fault')
                continue
            ctx.note('command_done')
            if a['t'] in INSPECT:
                if o.value is not True:
                    ctx.violate('content', f'{what} returned {o.value!r}')
                continue
            f = str(o.value)
            if f in before:
                ctx.violate('clobbered', f'{what} returned {f}, which existed before')
            if f in names:
                ctx.violate('same-name', f'{what} and {names[f]} both returned {f}')
            if creator.get(f) != c:
                ctx.violate('not-written', f'{what} returned {f}, which it did not create')
            names[f] = what
            w = wanted(a)
            s, e = os.path.splitext(w)
            m = re.fullmatch(re.escape(s) + r'(?:\((\d+)\))?' + re.escape(e), f)
            if not m:
                ctx.violate('name', f'{what} returned {f} for {w}')
            n = int(m.group(1) or 0)
            taken = [numbered(w, q) for q in range(n) if numbered(w, q) not in after]
            if taken:
                ctx.violate('name', f'{what} returned {f} although {taken[0]} was free')
            ctx.expect(ops.check_act(a, root, o.value), 'content', f'{what} beside other commands')
            ctx.note('renamed' if n else 'wanted_name')
        extra = [p for p in after if p not in before and p not in creator]
        if extra:
            ctx.violate('stray', f'{extra} appeared')


def tree(root):
    """every file (content) and directory (None)"""
    out = {}
    for d, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in files:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out
