"""C18: what the inspection commands report is exactly what the file holds."""
import contextlib
import copy
import io
import logging
import os
import re

import numpy as np

from checks import c10
from checks.c06 import crosses
from harness import formats, ops, oracle, refmesh
from harness.base import CheckBase, HARD_R, HARD_W, hard_used, persistent_of, plan_hard, plan_soft

NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)(?![\w])')
TIMING = re.compile(r'[-+]?\d[\d.]*(?:e[-+]?\d+)?\s*(?=(?:ms|µs|s)\b)')

PATCH = re.compile(r'^ *BC (\S+) +\((\w+)\): (?:range (?=\d+ to)|list min:max:size = )(\d+)(?: to |:)(\d+)(?::(\d+))?$', re.M)

ELEMS = re.compile(r'^( *\. *)?(\w+): \((\d+), (\d+)\) with index', re.M)
FACES = re.compile(r'(\d+) faces of (\d+) nodes')
STATS = re.compile(r'^ *(\S.*?) *:  (\S+) / (\S+) / (\S+) \(min/mean/max\)', re.M)


def report(fn):
    """in a node: (value, all a command printed or logged at the level users see)"""
    buf = io.StringIO()
    h = logging.StreamHandler(buf)
    h.setFormatter(logging.Formatter('%(message)s'))
    lg = logging.getLogger('cfdtools')
    old = lg.handlers[:], lg.level
    lg.handlers[:], h.level = [h], logging.INFO
    lg.setLevel(logging.INFO)
    try:
        with contextlib.redirect_stdout(buf):
            v = fn()
    finally:
        lg.handlers[:] = old[0]
        lg.setLevel(old[1])
    text = TIMING.sub('#', buf.getvalue())
    if isinstance(v, str) and v:
        text = text.replace(v, '@')        # the output has a new name when the wanted one is taken
    return v, text


def reports(fn, n):
    """repeated attempts"""
    out = []
    for _ in range(n):
        try:
            out.append(('ok', report(fn)[1]))
        except Exception as e:  # noqa: BLE001
            out.append(('exc', type(e).__name__))
    return out


def numbers(text):
    return [float(x) for x in NUM.findall(text)]


def lacks(text, values, what, tol=0.0):
    n = np.array(numbers(text) or [np.nan])
    out = []
    for v in values:
        if not (np.isnan(v) and np.isnan(n).any()) and not (np.isinf(v) and (n == v).any()) \
                and not (np.abs(n - v) <= tol + 1e-15 * abs(v)).any():
            out.append(f'{what} {v!r} is not reported')
    return out


def without(text, names, what):
    return [f'{what} {n!r} is not reported' for n in names if not re.search(r'(?<!\w)' + re.escape(n) + r'(?!\w)', text)]


def bounds(nodes):
    return [f(nodes[:, k]) for k in range(3) for f in (np.min, np.max)]


def mesh_report(ref, text, shuffled):
    """what the print of a mesh must hold"""
    out = lacks(text, [ref.nnode, ref.ncell], 'the count')
    out += lacks(text, bounds(ref.nodes), 'the bound', 6e-4)
    for name, dim, a, b, n in PATCH.findall(text):
        p = ref.patches.get(name)
        a, b, n = int(a), int(b), int(n) if n else int(b) - int(a) + 1
        if p is None:
            continue
        if 'node' in dim:
            want = min(p['nodes']), max(p['nodes']), len(p['nodes'])
            # a node of both triangles and quadrangles is counted twice, nodes are numbered as the file lists them
            twice = sum(len({q for f in p['faces'] if len(f) == k for q in f}) for k in (2, 3, 4))
            if n not in (want[2], twice) or (a, b) != want[:2] and not shuffled:
                out.append(f'the patch {name} of {want} (min, max, size) is reported as {(a, b, n)}')
        elif n != len(p['faces']):
            out.append(f'the patch {name} of {len(p["faces"])} faces is reported as {n}')
    told = {x[0] for x in PATCH.findall(text)}
    out += [f'the patch {n!r} is not described' for n in ref.patches if n not in told and ' ' not in n]
    types = [et for et, _ in ref.cells]
    faces = {}
    for dot, et, n, k in ELEMS.findall(text):
        if dot:
            faces[int(k)] = faces.get(int(k), 0) + int(n)
        elif types.count(et) != int(n):
            out.append(f'{n} {et} are reported instead of {types.count(et)}')
    sizes = [len(f) for f in ref.faces()]
    if faces and faces != {k: sizes.count(k) for k in set(sizes)}:
        out.append(f'the faces by number of nodes are reported as {faces}')
    return out + without(text, [n for n, p in ref.patches.items()], 'the patch')


def stats_report(ref, text):
    """the extrema and means of the data, of each component of a vector"""
    out, lines = [], {}
    for name, *got in STATS.findall(text):
        lines.setdefault(name, []).append([float(x) for x in got])
    for where in (ref.celldata, ref.nodedata):      # the same name may be in both
        for name, v in where.items():
            for c, v in [(name, v)] if v.ndim != 2 else [(f'{name}-{k}', x) for k, x in enumerate(np.asarray(v).T)]:
                v = np.asarray(v, dtype=np.float64)
                if c not in lines:
                    out.append(f'the values of {c} are not reported')
                elif np.isfinite(v).all():
                    want, tol = (v.min(), v.mean(), v.max()), 2e-5 * max(np.abs(v).max(), 1e-300)
                    if not any(all(abs(x - y) <= tol or not np.isfinite(y) for x, y in zip(g, want)) for g in lines[c]):
                        out.append(f'the values of {c} (min, mean, max) {want} are reported as {lines[c]}')
    return out


def check_report(a, root, text):
    t = a['t']
    if t == 'cli':
        ref = ops.expected_conversion(a)
        out = mesh_report(ref, text, a['src']['opt'].get('shuffle')) if a['args'].get('info') else []
        return out + (stats_report(ops.base_ref(a['src']), text) if a['src']['f'] == 'ic3' else [])
    if t == 'pack':
        ref = refmesh.build(a['mesh'])
        p0 = ops.snap_perm(a, 0, ref.ncell)
        n = sum(ops.snap_perm(a, k, ref.ncell) != p0 for k in range(len(a['snaps'])))
        N = len(a['snaps'])
        ratio = re.findall(rf'(?<![\w/])(\d+)/{N}(?![\w/])', text)
        return lacks(text, [N], 'the number of files') + [f'{x}/{N} reordered files are reported instead of {n}' for x in ratio if int(x) != n]
    ref = ops.ref_of(a['src'])
    if t == 'info':
        out = mesh_report(ref, text, a['src']['opt'].get('shuffle'))
        if a['src']['f'] == 'ic3':
            p = ref.params or {}
            out += lacks(text, [p[k] for k in ('step', 'dt', 'time') if k in p] + list((p.get('wgt') or {}).values()), 'the parameter')
            out += stats_report(ref, text)
            sizes = [len(f) for f in ref.faces()] if callable(getattr(ref, 'faces', None)) else []
            told = {(int(n), int(k)) for n, k in FACES.findall(text)}
            if sizes and not any(x[0] for x in ELEMS.findall(text)):
                out.append('the faces are not described')
            if told and sizes and told != {(sizes.count(k), k) for k in set(sizes)}:
                out.append(f'the faces by number of nodes are reported as {sorted(told)}')
            out += lacks(text, [len(ref.faces())] if callable(getattr(ref, 'faces', None)) else [], 'the count')
        return out
    if t == 'vtkbrief':
        out = lacks(text, [ref.nnode, ref.ncell], 'the count') + lacks(text, bounds(ref.nodes), 'the bound', 1e-9)
        return out + without(text, ref.celldata, 'the field')
    with open(os.path.join(root, ops.in_name(a)), 'rb') as f:
        en, version, secs = formats.ic3_sections(f.read())
    out = lacks(text, [version], 'the version')
    pos, at = 0, []
    for name, *_ in secs:
        m = re.compile(r'(?<!\w)' + re.escape(name) + r'(?!\w)').search(text, pos)
        if not m:
            return [f'the section {name!r} is not reported in its place']
        at.append(m.start())
        pos = m.end()
    for k, (name, sid, idata, rdata, pay) in enumerate(secs):
        part = text[at[k]:at[k + 1] if k + 1 < len(at) else len(text)]
        out += lacks(part, [sid, formats.HSIZE + len(pay)] + list(idata) + list(rdata), f'section {name}:')
    return out


class Check(CheckBase):
    pid = 'C18'
    tiers = {'quick': 500, 'thorough': 16000}
    rule = ('Random files inspected by cfdinfo, ic3brief and vtkbrief, conversions with --info and vtkpack: the printed report against the source '
            'mesh, then again under six seeded fault plans, after other operations of the same process, while another process writes the '
            'file, and on what a killed writer left.')

    def gen(self, r, i, tier):
        mode = r.choice(['faults'] * 5 + ['history'] * 2 + ['writing'] * 3)
        sc = {'mode': mode, 'plans': []}
        if mode == 'writing':
            w = ops.rand_write(r, big=r.random() < 0.2, fmts=('ic3v2', 'ic3v3', 'ic3v3', 'vtu'))
            w['pre'] = ''
            sc.update(act=w, how='vtkbrief' if w['fmt'] == 'vtu' else r.choice(['ic3brief', 'ic3brief', 'cfdinfo']),
                      inter=[{'n': r.choice([1, 2]), 'reads': r.randrange(1, 4), 'sticky': r.choice([0.0, 0.5, 0.9]),
                              'sched': r.choice(['random', 'pct'])} for _ in range(2)],
                      crashes=[{'kind': r.choice(['crash', 'torn', 'torn']), 'u': round(r.random() ** r.choice([1, 0.25]), 6),
                                'arg': round(r.choice([r.random(), 0.999]), 4)} for _ in range(5)])
            return sc
        a = self.rand(r)
        sc['act'] = a
        if mode == 'history':
            acts = []
            for k in range(r.randrange(1, 4)):
                b = c10.rand_bad(r) if r.random() < 0.3 else self.rand(r) if r.random() < 0.4 else ops.rand_act(r)
                d = f'd{k}/'
                b['pre'] = d
                if b['t'] == 'cli':
                    b['in'] = d + f'c{k}' + os.path.splitext(b['in'])[1]
                    if b['args'].get('outpath'):
                        b['args']['outpath'] = d + 'out'
                elif 'out' in b and b.get('via') != 'cli':
                    b['out'] = d + os.path.basename(b['out'])
                acts.append(b)
            sc['acts'] = acts
            return sc
        hard = HARD_R + ['eioclose'] + (HARD_W if a['t'] in ('cli', 'pack') else [])
        for k in range(6):
            x = r.random()
            if x < 0.15:
                p = {'plan': [], 'persist': {'kind': 'eio', 'u': round(r.random(), 6)}}
            elif x < 0.35:
                p = {'plan': plan_soft(r)}
            else:
                p = {'plan': plan_hard(r, hard, 1 if x < 0.8 else 2) + (plan_soft(r) if x > 0.9 else [])}
            sc['plans'].append(p)
        return sc

    def rand(self, r):
        t = r.choice(['info'] * 5 + ['brief'] * 4 + ['vtkbrief'] * 2 + ['cli', 'pack'])
        big = r.random() < 0.15
        if t == 'cli':
            a = ops.rand_conversion(r, big=big)
            a['args']['info'] = True
        elif t == 'pack':
            a = ops.rand_pack(r, via='cli')
        else:
            a = ops.rand_act(r, (t,), big=big)
        a['pre'] = ''
        return a

    def execute(self, sc, ctx):
        a = sc['act']
        if sc['mode'] == 'writing':
            return self.writing(sc, ctx, a)
        root = ctx.root()
        ops.prepare_act(a, root)
        out, res = ctx.solo('dry', root, lambda: report(lambda: ops.run_act(a)))
        what = self.name(a)
        v, ref = ctx.healthy(out, what)
        ctx.expect(check_report(a, root, ref), 'report', what)
        if sc['mode'] == 'history':
            root = ctx.root()
            for b in [a] + sc['acts']:
                c10.prepare(b, root)

            def run():
                keep = {}
                for b in sc['acts']:
                    c10.attempt(b, keep)
                return report(lambda: ops.run_act(a))

            out, _ = ctx.solo('history', root, run)
            hist = ' and '.join(b['t'] for b in sc['acts'])
            self.compare(ctx, ref, ctx.healthy(out, f'{what} after {hist}')[1], f'{what} after {hist}')
            return
        for k, p in enumerate(sc['plans']):
            root = ctx.root()
            ops.prepare_act(a, root)
            faults = ctx.place(res.log, p['plan'])
            pers = persistent_of(ctx, res.log, p['persist']) if p.get('persist') else None
            out, fr = ctx.solo(f'p{k}', root, lambda: report(lambda: ops.run_act(a)), faults, persistent=pers)
            w = what + ' under ' + ','.join(sorted({f['kind'] + '@' + f['at'] for f in fr.faults}))
            if not hard_used(fr):
                ctx.healthy(out, w)
            elif out.status == 'signal' and (a['t'] in ('vtkbrief', 'pack') or a['src']['f'] == 'cgns'):
                ctx.note('native_crash_under_fault')
                continue
            elif out.status not in ('ok', 'exc'):
                ctx.violate('died', f'{w}: the process ends with {out.brief()} instead of raising')
            if out.status == 'exc':
                ctx.note('refused_and_raised')
                continue
            self.compare(ctx, ref, out.value[1], w)
            ctx.note('same_report')

    def writing(self, sc, ctx, a):
        o = ops.write_outs(a)[0]
        how = sc['how']

        def inspect():
            return ops.run_cli(how, ['--fmt', 'IC3', o] if how == 'cfdinfo' else [o])

        def write():
            ops.run_write(a, {})
            return True

        root = ctx.root()
        out, res = ctx.solo('dry', root, write)
        what = f'{how} of a file written as {a["fmt"]}'
        ctx.healthy(out, f'writing {a["fmt"]}')
        out, _ = ctx.solo('ref', root, lambda: report(inspect))
        ref = ctx.healthy(out, what)[1]
        if how == 'ic3brief':
            b = {'t': 'brief', 'src': {'f': 'ic3'}, 'pre': ''}
            os.rename(os.path.join(root, o), os.path.join(root, ops.in_name(b)))
            ctx.expect(check_report(dict(b, src=dict(copy.deepcopy(b['src']), mesh=a['mesh'], opt={})), root, ref), 'report', what)
        for k, it in enumerate(sc['inter']):
            root = ctx.root()
            cl = [write] + [lambda: reports(inspect, it['reads'])] * it['n']
            fr = ctx.phase(f'i{k}', root, cl, sticky=it['sticky'], mode=it['sched'], steps=2 * len(res.log))
            ctx.healthy(fr.outcomes[0], f'writing {a["fmt"]} while it is inspected')
            for q in fr.outcomes[1:]:
                if q.status == 'signal' and how == 'vtkbrief':
                    ctx.note('native_crash_of_reader')
                    continue
                for st, text in ctx.healthy(q, f'{what} while it is written'):
                    ctx.note('concurrent_raised' if st == 'exc' else 'concurrent_same')
                    if st == 'ok':
                        self.compare(ctx, ref, text, f'{what} while it is written')
        for k, c in enumerate(sc['crashes']):
            root = ctx.root()
            faults = ctx.place(res.log, [c], flt=crosses if c['kind'] == 'torn' else None)
            if not faults:
                continue
            out, fr = ctx.solo(f'c{k}', root, write, faults)
            if out.status != 'crashed':
                continue
            out, _ = ctx.solo(f'r{k}', root, lambda: report(inspect))
            if out.status == 'ok':
                self.compare(ctx, ref, out.value[1], f'{what} left by a killed writer')
                ctx.note('complete')
            elif out.status == 'exc' or (out.status == 'signal' and how == 'vtkbrief'):
                ctx.note('rejected')
            else:
                ctx.violate('died', f'{what} left by a killed writer: {out.brief()}')

    def compare(self, ctx, ref, text, what):
        if ref == text:
            return
        a, b = ref.splitlines(), text.splitlines()
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.violate('differs', f'{what} reports something else, line {k + 1}: {(b[k:k + 1] or ["(end)"])[0][:120]!r} instead of '
                               f'{(a[k:k + 1] or ["(end)"])[0][:120]!r}')

    def name(self, a):
        return {'info': 'cfdinfo', 'brief': 'ic3brief', 'vtkbrief': 'vtkbrief', 'cli': 'a conversion with --info', 'pack': 'vtkpack'}[a['t']] \
            + (' of ' + a['src']['f'] if a.get('src') else '')
