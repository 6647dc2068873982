"""C15: probe files read while the solver appends give whole, aligned records."""
import os

import numpy as np

from harness import node, ops, oracle
from harness.base import CheckBase, HARD_R, hard_used, plan_hard, plan_soft
from sim.core import mark, rng_for

KNOWN = list(ops.PDEP) + list(ops.PVARS) + list('XYZ')
NONE = ['FOO', 'T', 'p', '', 'P.1']


def rand_ask(r, p, bad=0.12):
    ok = [v for v in KNOWN if ops.servable(p, v)]
    ask = r.sample(ok, min(len(ok), r.randrange(1, 6)))
    if r.random() < 0.25:
        ask.insert(r.randrange(len(ask) + 1), r.choice(ask))
    if r.random() < bad:
        no = [v for v in KNOWN + NONE if not ops.servable(p, v)]
        ask.insert(r.randrange(len(ask) + 1), r.choice(no))
    return ask


# ---- in the nodes
def solver(p, w, root):
    """appends the records, in pieces, as the simulation goes on"""
    r = rng_for('solver', w['seed'])
    lines = {v: [s.encode() for s in ops.probe_lines(p, v)] for v in p['have']}
    fds = {v: os.open(ops.probe_prefix(p) + '.' + v, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644) for v in p['have']}
    buf = {v: b'' for v in p['have']}

    def put(v, data):
        while data:
            k = os.write(fds[v], data)
            data = data[k:]

    for k in range(w['start'], p['nrec']):
        order = list(p['have'])
        if w['order'] == 'random':
            r.shuffle(order)
        for v in order:
            if w['mode'] == 'lines':
                put(v, lines[v][k])
            elif w['mode'] == 'pieces':
                data = lines[v][k]
                while data:
                    c = min(len(data), r.choice([1, 3, 10, 20, 60]))
                    put(v, data[:c])
                    data = data[c:]
            else:                       # a buffer of the language runtime
                buf[v] += lines[v][k]
                while len(buf[v]) >= w['buf']:
                    put(v, buf[v][:w['buf']])
                    buf[v] = buf[v][w['buf']:]
    for v in p['have']:
        put(v, buf[v])
        os.close(fds[v])


def reads(p, jobs, first=0):
    """requests, one object after the other"""
    out = []
    for n, j in enumerate(jobs):
        mark(n)
        out.append(read(p, j))
    mark(len(jobs))
    return out


def read(p, j):
    got = {}
    try:
        if j['via'] == 'plot':
            return ('ok', plotline(p, j))
        d = node.P.probes.phydata(ops.probe_prefix(p), verbose=j['verbose'])
        for v in j['ask']:
            d.check_data(v, prefix=ops.probe_prefix(p))
            for q in sorted(got):           # what was given before is still so
                if not np.array_equal(got[q], d.alldata[q], equal_nan=True):
                    return ('changed', q, v)
            got.update({q: np.array(a) for q, a in d.alldata.items()})
        return ('ok', {k: np.array(a) for k, a in d.alldata.items()})
    except (Exception, SystemExit) as e:  # noqa: BLE001
        r = ('exc', type(e).__name__, str(e)[:200], sorted(got))
        e = None
        return r


def plotline(p, j):
    """what the command puts in the figure (drawn by a stand-in)"""
    import types
    import matplotlib.pyplot as plt
    rec = []
    keep = plt.Axes.contourf, plt.colorbar, plt.Figure.colorbar, plt.Figure.savefig
    plt.Axes.contourf = lambda self, *a, **k: rec.append([np.array(x) for x in a]) or types.SimpleNamespace(_A=None)
    plt.colorbar = plt.Figure.colorbar = lambda *a, **k: None
    plt.Figure.savefig = lambda self, name, **k: rec.append(str(name))
    try:
        ops.run_cli('ic3probe_plotline', [ops.probe_prefix(p), '--data', j['data'], '--axis', j['axis']] + (['-v'] if j['verbose'] else []))
    finally:
        plt.Axes.contourf, plt.colorbar, plt.Figure.colorbar, plt.Figure.savefig = keep
    return rec


class Check(CheckBase):
    pid = 'C15'
    tiers = {'quick': 1200, 'thorough': 40000}
    rule = ('Probe sets read through the API and the plot command: while a solver node appends lines, pieces or buffers and may be killed; '
            'from files cut at any byte or with lost blocks; and under read faults.  Each value is traced back to its record.')
    shrink_lists = CheckBase.shrink_lists + ('jobs', 'ask', 'harm', 'readers')

    def min_len(self, key):
        return 1 if key in ('jobs', 'ask', 'readers') else 0

    def job(self, r, p):
        axes = [c for c in 'XYZ' if c in p['coords']]
        ok = [v for v in KNOWN if ops.servable(p, v) and v not in 'XYZ']
        if axes and ok and r.random() < 0.2:
            return {'via': 'plot', 'data': r.choice(ok), 'axis': r.choice(axes), 'verbose': r.random() < 0.3}
        return {'via': 'api', 'ask': rand_ask(r, p), 'verbose': r.random() < 0.2}

    def gen(self, r, i, tier):
        p = ops.rand_probes(r, nrec=r.choice([1, 2, 3, 3, 8, 8, 20, 60]))
        p['pre'] = r.choice(['', 'd/', 'd.1/'])
        p['nprobe'] = r.choice([1, 2, 3, 5, 5, 40])
        sc = {'act': p, 'cuts': [], 'runs': []}
        for k in range(3):
            files = list(p['have']) + (list(p['coords']) if r.random() < 0.3 else [])
            harm = []
            for _ in range(r.randrange(0, 4)):
                harm.append({'file': r.choice(files), 'how': r.choice(['cut', 'cut', 'cut', 'hole']), 'u': round(r.random(), 6),
                             'len': r.choice([1, 2, 8, 16, 64, 300])})
            sc['cuts'].append({'harm': harm, 'jobs': [self.job(r, p) for _ in range(r.choice([1, 2]))], 'plan': []})
            if r.random() < 0.6:
                sc['cuts'][-1]['plan'] = plan_hard(r, HARD_R + ['eioclose']) if r.random() < 0.6 else plan_soft(r)
        for k in range(3):
            sc['runs'].append({'seed': r.randrange(2 ** 32), 'start': r.randrange(0, p['nrec'] + 1) if r.random() < 0.8 else 0,
                               'mode': r.choice(['lines', 'pieces', 'pieces', 'buffer']), 'buf': r.choice([7, 64, 256, 1000]),
                               'order': r.choice(['same', 'random']), 'sticky': r.choice([0.0, 0.5, 0.8, 0.95]),
                               'sched': r.choice(['random', 'random', 'pct']),
                               'crash': {'kind': r.choice(['crash', 'torn']), 'u': round(r.random(), 6), 'arg': round(r.random(), 3)}
                               if r.random() < 0.25 else None,
                               'plan': (plan_hard(r, HARD_R) if r.random() < 0.5 else plan_soft(r)) if r.random() < 0.35 else [],
                               'readers': [{'jobs': [self.job(r, p) for _ in range(r.randrange(1, 4))]} for _ in range(r.choice([1, 1, 2]))]})
        return sc

    # ---- the disk
    @staticmethod
    def disk(ctx, p, start):
        root = ctx.root()
        for v in list(p['have']) + list(p['coords']):
            path = os.path.join(root, ops.probe_prefix(p) + '.' + v)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            lines = ops.probe_lines(p, v)
            if v in p['have'] and v not in p['coords']:
                lines = lines[:start]
                if start == 0 and v not in ops.PDEP:    # (a derived quantity would be computed as long as its file is missing)
                    continue
            with open(path, 'w') as f:
                f.write(''.join(lines))
        return root

    def execute(self, sc, ctx):
        p = sc['act']
        sizes = {v: np.cumsum([0] + [len(s) for s in ops.probe_lines(p, v)]) for v in list(p['have']) + list(p['coords'])}
        ask = [v for v in KNOWN if ops.servable(p, v)]
        root = self.disk(ctx, p, p['nrec'])
        out, _ = ctx.solo('all', root, lambda: reads(p, [{'via': 'api', 'ask': [v], 'verbose': False} for v in ask]))
        for v, (st, *val) in zip(ask, ctx.healthy(out, 'reading finished probes')):
            if st != 'ok':
                ctx.violate('healthy', f'{v} of finished probes is not given: {val}')
            if v not in val[0]:
                ctx.violate('healthy', f'{v} of finished probes is not given')
        for n, c in enumerate(sc['cuts']):
            self.cut(ctx, p, c, n, sizes)
        for n, w in enumerate(sc['runs']):
            self.inter(ctx, p, w, n, sizes)

    def cut(self, ctx, p, c, n, sizes):
        root = self.disk(ctx, p, p['nrec'])
        full, holed = {v: len(s) - 1 for v, s in sizes.items()}, set()
        must = set()
        for h in c['harm']:
            path = os.path.join(root, ops.probe_prefix(p) + '.' + h['file'])
            with open(path, 'rb') as f:
                raw = bytearray(f.read())
            at = int(h['u'] * len(raw))
            if h['how'] == 'cut':
                del raw[at:]
            else:
                raw[at:at + h['len']] = bytes(len(raw[at:at + h['len']]))
                holed.add(h['file'])
            ctx.injected('stored-' + h['how'], 'probe')
            with open(path, 'wb') as f:
                f.write(bytes(raw))
            left = bytes(raw).split(b'\n')[:-1]
            good = [s.encode().rstrip(b'\n') for s in ops.probe_lines(p, h['file'])]
            k = 0
            while k < len(left) and k < len(good) and left[k] == good[k]:
                k += 1
            full[h['file']] = k
            if any(x in good for x in left[k:]):
                must.add(h['file'])       # records after a damaged one
            else:
                must.discard(h['file'])
        out, res = ctx.solo(f'!c{n}', root, lambda: reads(p, c['jobs']))
        val = ctx.healthy(out, 'reading probes')
        bound = {v: (k, k) for v, k in full.items()}
        self.judge(ctx, p, c['jobs'], val, [bound] * len(val), 'from files ' + str([(h['how'], h['file']) for h in c['harm']]), holed,
                   True, must)
        if c['plan']:
            out, fr = ctx.solo(f'f{n}', root, lambda: reads(p, c['jobs']), ctx.place(res.log, c['plan']))
            hard = hard_used(fr)
            val = ctx.healthy(out, 'reading probes')
            self.judge(ctx, p, c['jobs'], val, [bound] * len(val), 'under ' + ','.join(sorted({f['kind'] + '@' + f['at'] for f in fr.faults})),
                       holed, not hard, must)

    def inter(self, ctx, p, w, n, sizes):
        cl = [lambda: solver(p, w, None)] + [lambda j=rd['jobs']: reads(p, j) for rd in w['readers']]
        root = self.disk(ctx, p, w['start'])
        faults = []
        if w['crash'] or w['plan']:
            fr = ctx.phase(f'i{n}dry', root, cl, [], sticky=w['sticky'], mode=w['sched'], steps=150)
            self.judge_inter(ctx, p, w, fr, root, sizes)
            root = self.disk(ctx, p, w['start'])
            if w['crash']:
                faults += ctx.place(fr.log, [w['crash']], client=0)
            if w['plan']:
                faults += ctx.place(fr.log, w['plan'], client=1)
        fr = ctx.phase(f'i{n}', root, cl, faults, sticky=w['sticky'], mode=w['sched'], steps=150)
        self.judge_inter(ctx, p, w, fr, root, sizes)

    def judge_inter(self, ctx, p, w, fr, root, sizes):
        """complete records of each file before and after each request, from the history of the run"""
        pre = ops.probe_prefix(p) + '.'
        have = [v for v in p['have'] if v not in p['coords']]
        now = {v: int(sizes[v][w['start']]) for v in have}
        jobs = {c + 1: {} for c in range(len(w['readers']))}
        cur = dict.fromkeys(jobs)
        for e in fr.log:
            c = e[0]
            if c == 0:
                v = e[3][len(pre):] if e[3].startswith(pre) else None
                if e[2] == 'write' and v in now:
                    now[v] = min(now[v] + e[5], os.path.getsize(os.path.join(root, e[3])))
            elif e[2] == 'yield':
                if cur[c] is not None:
                    jobs[c][cur[c]].append(dict(now))
                cur[c] = len(jobs[c])
                jobs[c][cur[c]] = [dict(now)]
        if fr.outcomes[0].status not in ('ok', 'crashed'):
            ctx.violate('solver', f'the appending solver is disturbed by readers: {fr.outcomes[0].brief()}')
        hard = {c for c in jobs if hard_used(fr, c)}
        for c, o in enumerate(fr.outcomes):
            if c == 0:
                continue
            val = ctx.healthy(o, 'reading probes while they are written')
            bounds = []
            for k in range(len(val)):
                a, b = jobs[c][k][0], jobs[c][k][-1]
                bound = {v: tuple(int(np.searchsorted(sizes[v], x[v], side='right')) - 1 for x in (a, b)) for v in now}
                bound.update({v: (len(sizes[v]) - 1,) * 2 for v in p['coords']})
                bound['grown'] = {v for v in now if a[v] != b[v]}
                bounds.append(bound)
            self.judge(ctx, p, w['readers'][c - 1]['jobs'], val, bounds, f'while the solver appends {w["mode"]}', set(), c not in hard)

    # ---- each value back to its record
    def judge(self, ctx, p, jobs, vals, bounds, how, holed, strict, must=()):
        raw = {v: ops.probe_values(p, v) for v in p['have'] if v not in p['coords']}
        times = ops.probe_times(p)
        for j, v, bound in zip(jobs, vals, bounds):
            want = j['ask'] if j['via'] == 'api' else [j['data'], j['axis']]
            what = f'{"request" if j["via"] == "api" else "map of"} {want} {how}'
            if v[0] == 'exc':
                ctx.note('raised')
                need = set()
                for q in want:
                    need |= self.deps(p, q)
                # whole records of the same number in all files, more than one, no file growing meanwhile: nothing to complain about
                if strict and not (need & holed) and not (need & bound.get('grown', set())) and None not in need and all(bound[q][0] == bound[q][1] for q in need) and need:
                    k = {bound[q][0] for q in need if q not in p['coords']}
                    if len(k) <= 1 and all(x > 1 for x in k) and all(bound[q][0] >= 1 for q in need):
                        ctx.violate('refused', f'{what}: whole records of all files are refused: {v[1]}: {v[2]}')
                continue
            if v[0] == 'changed':
                ctx.violate('records', f'{what}: {v[1]} given before is changed by the request of {v[2]}')
            if any(None in self.deps(p, q) for q in want):
                ctx.violate('unservable', f'{what} returns although there is no file to compute it from')
            lost = set().union(*(self.deps(p, q) for q in want)) & set(must)
            if lost:
                ctx.violate('records', f'{what} returns although records of {sorted(lost)} are damaged and followed by others')
            ctx.note('returned')
            if j['via'] == 'plot':
                self.figure(ctx, p, j, v[1], raw, times, bound, what)
            else:
                self.values(ctx, p, j, v[1], raw, times, bound, what, holed)

    def deps(self, p, v):
        """files a quantity comes from; None among them if there is none"""
        if v in p['have'] or v in p['coords']:
            return {v}
        if v in ops.PDEP:
            return set().union(*(self.deps(p, d) for d in ops.PDEP[v]))
        return {None}

    def values(self, ctx, p, j, d, raw, times, bound, what, holed):
        counts = set()
        for q in d:
            if q == 'time':
                continue
            a = d[q]
            if q in p['coords']:
                if a.shape != (p['nprobe'],) or not np.array_equal(a, ops.probe_coord(p, q)):
                    ctx.violate('records', f'{what}: coordinate {q} is wrong: {a[:4]}')
                continue
            if q in raw:
                k = len(a) if a.ndim == 2 else 1
                e = raw[q][:k] if a.ndim == 2 else raw[q][0]
                if a.shape != e.shape or not oracle.eqarr(a, e):
                    ctx.violate('records', f'{what}: {q} is not the first {k} records (shape {a.shape})')
                if not bound[q][0] <= k <= bound[q][1]:
                    ctx.violate('records', f'{what}: {q} has {k} records where {bound[q][0]} to {bound[q][1]} complete ones were there')
                if a.ndim == 2:
                    counts.add(k)
                continue
            dep = ops.PDEP.get(q)
            if dep is None or any(x not in d for x in dep):
                ctx.violate('records', f'{what}: {q} comes from nowhere')
            if len({d[x].shape for x in dep} | {a.shape}) != 1:
                ctx.violate('records', f'{what}: {q} {a.shape} from {[(x, d[x].shape) for x in dep]}')
            e = ops.derived({x: d[x] for x in dep}, q) if q not in ('Mach', 'INVX+', 'INVX-') else \
                d['U'] / d['Asound'] if q == 'Mach' else 5 * d['Asound'] + (1 if q == 'INVX+' else -1) * d['U-X']
            if not ops.near(q, a, e, d):
                ctx.violate('records', f'{what}: {q} is not computed from the data of the same record')
        for q in j['ask']:
            if q not in d:
                ctx.violate('records', f'{what}: {q} is not given')
        if counts:
            t = d.get('time')
            if t is None or len(t) not in counts or not np.array_equal(t, times[:len(t)]):
                ctx.violate('records', f'{what}: times {None if t is None else t.shape} do not go with records {sorted(counts)}')

    def figure(self, ctx, p, j, rec, raw, times, bound, what):
        if len(rec) != 2 or rec[1] != f'{ops.probe_prefix(p)}.{j["data"]}.time.png':
            ctx.violate('figure', f'{what}: {len(rec)} steps, saved as {rec[-1:]}')
        x, t, z = rec[0][:3]
        if not np.array_equal(x, ops.probe_coord(p, j['axis'])):
            ctx.violate('figure', f'{what}: axis of the map is wrong')
        k = len(t)
        lo = max(bound[q][0] for q in self.deps(p, j['data']))
        hi = min(bound[q][1] for q in self.deps(p, j['data']))
        cut = {q: a[:k] for q, a in raw.items()}
        e = ops.derived(cut, j['data'])
        if not ops.near(j['data'], z, e, cut) or not np.array_equal(t, times[:k]):
            ctx.violate('figure', f'{what}: the map does not hold the records: {z.shape} for {k} times')
        if not lo <= k <= hi:
            ctx.violate('figure', f'{what}: the map has {k} records where {lo} to {hi} complete ones were there')
