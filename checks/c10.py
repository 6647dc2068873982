"""C10: results do not depend on what the process did before."""
import copy
import os

from harness import formats, node, ops, oracle, refmesh
from harness.base import CheckBase, HARD_R, HARD_W, native_hit, plan_hard
from sim.core import mark, rng_for

HARD = sorted(set(HARD_W + HARD_R)) + ['eioclose']
MULTI = ('ic3v2', 'ic3v3', 'v4', 'vtu')


# ---- one mesh object written several times
def rand_multi(r):
    kinds = ('hexa', 'prism', 'tetra', 'pyra', 'hexpri', 'hexpyr', 'mix')
    src = None
    if r.random() < 0.5:
        src = ops.rand_source(r, ('ic3', 'v4', 'gmsh22', 'gmsh41', 'cgns'), two_d=False)
        if src['f'] == 'ic3':
            src['opt']['version'] = 2
            src['mesh'].pop('ndof', None)
            for d in src['mesh'].get('celldata', []) + src['mesh'].get('nodedata', []):
                d.pop('int', None)
        spec = src['mesh']
        if src['f'] == 'v4':                    # flattened there, which the other formats can not hold
            spec['celldata'] = [d for d in spec.get('celldata', []) if d['rank'] < 2]
    else:
        spec = refmesh.v4_data(r, refmesh.rand_spec(r, kinds=kinds, ints=False))
    fmts = [r.choice(MULTI) for _ in range(r.randrange(2, 6))]
    if src and src['f'] == 'ic3':         # its statistics weights are not those of a v4 file
        fmts = [f if f != 'v4' else 'ic3v3' for f in fmts]
    if src and src['f'] in ('ic3', 'v4'):       # face based: not available as VTK
        fmts = [f if f != 'vtu' else 'ic3v2' for f in fmts]
    if r.random() < 0.5:        # transformed between two writes, or written again by the same writer
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            fmts.insert(r.randrange(1, len(fmts) + 1), 'again' if x < 0.3 else
                        {'scale': [r.choice([0.5, 1, 2, 3]) for _ in range(3)]} if x < 0.6 else
                        {'morph': r.choice([0.25, 0.5, -0.125])} if x < 0.8 else {'step': r.randrange(1, 1000)})
        fmts.append(r.choice([f for f in fmts if isinstance(f, str) and f != 'again']))
    if r.random() < 0.5:        # a part of its data removed, another mesh exported by the same reader (or made of the same arrays)
        for _ in range(r.choice([1, 1, 2])):
            fmts.insert(r.randrange(0, len(fmts)), {'pop': r.choice(['cell', 'cell', 'node']), 'n': r.randrange(8)})
        if r.random() < 0.8:
            fmts += ['fresh', r.choice([f for f in fmts if f in MULTI])]
    return {'t': 'multi', 'src': src, 'mesh': spec, 'fmts': fmts, 'pre': ''}


def written(a):
    """(rank, format) of the files a multiple write makes"""
    out, last = [], None
    for k, f in enumerate(a['fmts']):
        if isinstance(f, dict) or f == 'fresh':
            last = None
        elif f != 'again' or last:
            last = f if f != 'again' else last
            out.append((k, last, f == 'again'))
    return out


def multi_meshes(a):
    """what makes meshes of one source"""
    if a['src'] is None:
        ref = refmesh.build(a['mesh'])
        return lambda: node.make_mesh(ref)
    name = a['pre'] + 'in' + ops.EXT[a['src']['f']]
    sol = ops.solpath(name) if a['src']['f'] == 'v4' and a['src']['opt'].get('sol') else None
    rd = node.open_reader(ops.FMT[a['src']['f']], name, False, sol)
    rd.read_data()
    return rd.export_mesh


def multi_name(a, k, f):
    return a['pre'] + f'w{k}' + ops.EXT[f]


def run_multi(a, only=None):
    make = multi_meshes(a)
    m, w, out = make(), None, []
    todo = {k: (f, again) for k, f, again in written(a)}
    for k, f in enumerate(a['fmts']):
        if isinstance(f, dict):
            if 'scale' in f:
                m.scale(f['scale'])
            elif 'morph' in f:
                m.morph(lambda x, y, z: (x + f['morph'] * y, y + f['morph'] * z, z))
            elif 'pop' in f:
                names = sorted((m._celldata if f['pop'] == 'cell' else m._nodedata).keys())
                if names:
                    getattr(m, f'pop_{f["pop"]}data')(names[f['n'] % len(names)])
            else:
                m.update_params({'step': f['step']})
        elif f == 'fresh':      # nothing done to the first one is seen
            m = make() if only is None else multi_meshes(a)()
        elif k in todo and (only is None or k == only):
            if only is not None or not todo[k][1]:
                w = node.writer_for(todo[k][0], m)
            node.do_write(w, multi_name(a, k, todo[k][0]))
            out.append(multi_name(a, k, todo[k][0]))
    return out


# ---- inputs that can not be read
def rand_bad(r):
    how = r.choice(['cut', 'missing', 'ext', 'args', 'garbage'])
    return {'t': 'bad', 'how': how, 'src': ops.rand_source(r, ('gmsh22', 'gmsh41', 'cgns', 'ic3', 'v4', 'vtu')), 'pre': '',
            'cut': round(r.uniform(0.05, 0.9), 3)}


def prepare(a, root):
    if a['t'] == 'multi':
        os.makedirs(os.path.join(root, a['pre']), exist_ok=True)
        if a['src']:
            ops.write_source(a['src'], os.path.join(root, a['pre'] + 'in' + ops.EXT[a['src']['f']]))
        return
    if a['t'] == 'bad':
        os.makedirs(os.path.join(root, a['pre']), exist_ok=True)
        p = os.path.join(root, a['pre'] + 'in' + ops.EXT[a['src']['f']])
        ops.write_source(a['src'], p)
        if a['how'] == 'missing':
            os.unlink(p)
        elif a['how'] in ('cut', 'garbage'):
            n = os.path.getsize(p)
            with open(p, 'r+b') as f:
                f.truncate(int(n * a['cut']))
                if a['how'] == 'garbage':
                    f.write(b'\0' * (n - int(n * a['cut'])))
        return
    ops.prepare_act(a, root)


def run_bad(a):
    name = a['pre'] + 'in' + ops.EXT[a['src']['f']]
    if a['how'] == 'args':
        return ops.run_cli('cfdwrite_ic3v3', ['--scale', '1', 'x', name])
    if a['how'] == 'ext':
        return ops.run_cli('cfdinfo', [a['pre'] + 'in.unknown'])
    return ops.read(a['src'], name)


def run(a, st):
    return run_multi(a) if a['t'] == 'multi' else run_bad(a) if a['t'] == 'bad' else ops.run_act(a, st)


def decode(a, root, value):
    """independent, comparable content of the outputs"""
    if a['t'] == 'multi':
        return [decode_file(f, os.path.join(root, p)) for (_, f, _), p in zip(written(a), value)]
    if a['t'] == 'write':
        p = [os.path.join(root, o) for o in value]
        return [formats.decode_v4(p[0], p[1] if len(p) > 1 else None)] if a['fmt'] == 'v4' else [decode_file(a['fmt'], p[0])]
    out = [o for o in (ops.outputs_of(a, value) if a['t'] != 'bad' else []) if not o.endswith('.xmf')]
    return [decode_file({'.ic3': 'ic3', '.vtu': 'vtu', '.h5': 'packed'}[os.path.splitext(o)[1]], os.path.join(root, o)) for o in out]


def decode_file(f, p):
    if f == 'v4':
        return formats.decode_v4(p, None)
    if f == 'packed':
        return formats.decode_packed(p)
    with open(p, 'rb') as fh:
        raw = fh.read()
    return formats.decode_vtu(raw) if f == 'vtu' else formats.decode_ic3(raw)


def attempt(a, st):
    try:
        return ('ok', run(a, st))
    except (Exception, SystemExit) as e:  # noqa: BLE001
        r = ('exc', type(e).__name__, str(e)[:300])
        e = None
        return r


def tree(d):
    return [os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs] if os.path.isdir(d) else []


def twin(r, a):
    """the same operation on files of the same names and nearly the same size with another content, None if it reads no file"""
    b = copy.deepcopy(a)
    if a['t'] in ('probes', 'plot'):
        b['seed'] += 1
        return b
    s = b['src']['mesh'] if b.get('src') else b['mesh'] if a['t'] in ('pack', 'vtklist', 'zavg') else None
    if s is None or a['t'] in ('write', 'cube', 'multi', 'bad'):
        return None
    how = r.choice(['seed', 'names', 'len', 'len'])
    if how == 'names' and not (s.get('merge') or s.get('drop') or s.get('perio') or s.get('names')):
        s['names'] = {'imin': 'imax', 'imax': 'imin'}
    elif how == 'len':
        s['len'] = [3.0 * x for x in s.get('len', (1.0, 1.0, 1.0))]
    else:
        s['seed'] += 1
    for p in b.get('snaps', []):
        p['seed'] += 1
    return b


def history(acts):
    """all operations in one process; what they returned and what the kept meshes hold at the end"""
    out, sts, canons = [], {}, {}
    for k, a in enumerate(acts):
        if a.get('twin'):       # its files are replaced (same dates), which is not its own work
            for f in tree(f'alt{k}'):
                os.replace(os.path.join(f'alt{k}', f), f)
        mark(2 * k)
        st = sts[k] = sts[a['like']] if a.get('keep') and a['like'] in sts else {}
        v = attempt(a, st)
        mark(2 * k + 1)
        out.append(v)
        for s in ('mesh', 'm'):
            if s in st and v[0] == 'ok' and (k, s) not in canons:
                canons[(k, s)] = st[s], node.canon(st[s])
    late = [(k, s, oracle.same(c, node.canon(m))) for (k, s), (m, c) in canons.items()]
    return out, [x for x in late if x[2]]


def survivable(e):
    """HDF5 itself is left in an undefined state (native memory) by writes and closes it could not do: C09 looks at those"""
    return not (e[3].endswith(('.h5', '.cgns')) and e[2] in ('write', 'trunc', 'close', 'sync'))


class Check(CheckBase):
    pid = 'C10'
    tiers = {'quick': 320, 'thorough': 10000}
    rule = ('Histories of 3-7 random operations (reads, writes, one mesh in several formats, conversions, packs, dumps, probes, bad '
            'inputs) in one process, without and with failing ones, each compared with the same operation alone in a fresh process.')

    def min_len(self, key):
        return 1 if key in ('acts', 'snaps') else 0

    def gen(self, r, i, tier):
        acts = []
        for k in range(r.randrange(3, 8)):
            x = r.random()
            if acts and x < 0.25:
                acts.append({'like': r.choice(acts)['pre'], 'keep': r.random() < 0.5, 'pre': f'd{k}/', 'twin': r.random() < 0.5})
                continue
            if x < 0.37:
                a = rand_multi(r)
            elif x < 0.46:
                a = rand_bad(r)
            else:
                a = ops.rand_act(r, ('cli',) * 4 + ('read',) * 4 + ('write', 'write', 'pack', 'cube', 'probes', 'plot', 'info', 'brief', 'vtkbrief',
                                                                   'vtkdump', 'vtklist', 'zavg'))
            d = f'd{k}/'
            a['pre'] = d
            if a['t'] == 'cli':
                a['in'] = d + f'c{k}' + os.path.splitext(a['in'])[1]
                if a['args'].get('outpath'):
                    a['args']['outpath'] = d + 'out'
            elif 'out' in a and a.get('via') != 'cli':
                a['out'] = d + os.path.basename(a['out'])
                a['overwrite'] = False
            acts.append(a)
        sc = {'acts': acts, 'plans': []}
        for k in range(2):
            sc['plans'].append([{'at': round(r.random(), 4), 'fault': plan_hard(r, HARD)} for _ in range(r.randrange(1, 4))])
        return sc

    @staticmethod
    def resolve(acts):
        """repeated operations in full; those that write named files do it elsewhere

        'twin': on files which have been replaced meanwhile; what is repeated later is then this one
        """
        out, last = [], {}
        for a in acts:
            if 'like' in a:
                j = next((j for j, b in enumerate(out) if b['id'] == a['like']), None)
                if j is None:
                    continue
                j = out[j].get('like', j)
                k = last.get(j, j)
                b = copy.deepcopy(out[k])
                b.pop('twin', None)
                b.update(id=a['pre'], like=j, same=k, keep=a['keep'] and b['t'] == 'read')
                t = twin(rng_for('twin', a['pre'], b['t']), b) if a.get('twin') else None
                if t:
                    b = dict(t, twin=True)
                    b.pop('same')
                    last[j] = len(out)
                elif b['t'] in ('write', 'cube', 'multi'):
                    b['pre'] = a['pre']
                if b['t'] == 'zavg':         # it writes the file it is told to
                    b['out'] = os.path.join(os.path.dirname(b['out']), f'avg{len(out)}.vtu')
            else:
                b = dict(a, id=a['pre'])
            out.append(b)
        return out

    def execute(self, sc, ctx):
        acts = self.resolve(sc['acts'])
        solo, solodec = [], []
        for k, a in enumerate(acts):
            if 'same' in a:
                solo.append(solo[a['same']])
                solodec.append(solodec[a['same']])
                continue
            root = ctx.root()
            prepare(a, root)
            out, _ = ctx.solo(f'solo{k}', root, lambda a=a: attempt(a, {}))
            v = ctx.healthy(out, a['t'])
            if v[0] != 'ok':
                if a['t'] != 'bad':
                    ctx.violate('healthy', f'{a["t"]} fails alone: {v[1]}: {v[2]}')
            elif a['t'] not in ('multi', 'bad'):
                ctx.expect(ops.check_act(a, root, v[1]), 'content', a['t'])
            solo.append(v)
            dec = decode(a, root, v[1]) if v[0] == 'ok' else None
            if a['t'] == 'multi':
                self.multi(ctx, a, k, dec)
            solodec.append(dec)
        root = self.world(acts, ctx)
        out, res = ctx.solo('!all', root, lambda: history(acts))
        self.judge(acts, ctx, root, out, solo, solodec, set())
        for n, plan in enumerate(sc['plans']):
            log, faults = res.log, []
            for q, p in enumerate(sorted(plan, key=lambda p: p['at'])):
                k = 2 * min(len(acts) - 1, int(p['at'] * len(acts)))
                if any(f['ep'] == k + 1 for f in faults):
                    continue
                marks = [e[1] for e in log if e[2] == 'yield']
                if k + 1 >= len(marks):
                    break
                f = ctx.place([e for e in log if marks[k] < e[1] < marks[k + 1]], p['fault'], flt=survivable)
                if not f:
                    continue
                faults += [dict(x, ep=k + 1) for x in f]
                root = self.world(acts, ctx)
                out, fr = ctx.solo(f'f{n}.{q}', root, lambda: history(acts), faults)
                if out.status == 'signal' and native_hit(fr):
                    f = fr.faults[-1]
                    ctx.note('native_crash_after_' + f['kind'] + '@' + f['at'] + os.path.splitext(f['path'])[1])
                    break
                self.judge(acts, ctx, root, out, solo, solodec, {(x['ep'] - 1) // 2 for x in fr.faults})
                log = fr.log

    @staticmethod
    def world(acts, ctx):
        """all files, those of a twin aside; all of the same date"""
        root = ctx.root()
        for k, a in enumerate(acts):
            if 'same' in a and a['t'] not in ('write', 'cube', 'multi'):
                continue
            prepare(a, os.path.join(root, f'alt{k}') if a.get('twin') else root)
        for f in tree(root):
            os.utime(os.path.join(root, f), (1.7e9, 1.7e9))
        return root

    def multi(self, ctx, a, k, dec):
        """each format as if it were the only one"""
        for n, (q, f, _) in enumerate(written(a)):
            root = ctx.root()
            prepare(a, root)
            out, _ = ctx.solo(f'multi{k}.{q}', root, lambda: run_multi(a, q))
            ctx.healthy(out, f'writing {f}')
            alone = decode_file(f, os.path.join(root, multi_name(a, q, f)))
            d = oracle.same(alone, dec[n])
            if d:
                ctx.violate('multi', f'a mesh written as {a["fmts"][:q + 1]}: the {f} file is not that of the mesh written once: {d}')

    def judge(self, acts, ctx, root, out, solo, solodec, faulty):
        if out.status != 'ok':
            ctx.violate('died', f'a history ends with {out.brief()} {(out.tb or "")[-500:]}')
        vals, late = out.value
        done = []
        for k, (a, v) in enumerate(zip(acts, vals)):
            w = ('twin ' if a.get('twin') else '') + f'{a["t"]}' + (f' {a["src"]["f"]}' if a.get('src') else '') + (f' ({a["how"]})' if 'how' in a else '')
            what = f'{w} after [{", ".join(done)}]'
            done.append(w + (' failed' if v[0] != 'ok' else ''))
            if k in faulty and v[0] != 'ok':
                ctx.note('failed_operation')
                continue
            e = solo[k]
            if v[0] != e[0]:
                ctx.violate('history', f'{what}: {" ".join(map(str, v))[:400] if v[0] != "ok" else "returns"}, but alone in a fresh process it '
                                       f'{"returns" if e[0] == "ok" else "raises " + e[1]}')
            if v[0] != 'ok':
                if v[1] != e[1]:
                    ctx.violate('history', f'{what} raises {v[1]}: {v[2]}; alone it raises {e[1]}: {e[2]}')
                continue
            if solodec[k]:
                try:
                    dec = decode(a, root, v[1])
                except Exception as x:  # noqa: BLE001
                    ctx.violate('history', f'{what}: its output cannot be decoded: {type(x).__name__}: {x}')
                d = oracle.same(solodec[k], dec)
            else:
                d = oracle.same(e[1], v[1])
            if d:
                ctx.violate('history', f'{what} gives something else than alone in a fresh process: {d}')
            ctx.note('operations_compared')
        for k, s, d in late:
            ctx.violate('retained', f'the mesh of {acts[k]["t"]} ({k}) was changed by later operations [{", ".join(done)}]: {d}')
