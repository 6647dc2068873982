"""What all checks share."""
import copy

from sim.core import BENIGN, h64, rng_for

HARD_W = ['enospc', 'eio', 'edquot', 'emfile', 'erofs', 'enospc', 'eio', 'estale', 'enolck']
HARD_R = ['eio', 'emfile', 'eacces', 'enomem', 'eio', 'estale', 'enolck']
SOFT = ['eintr', 'short', 'slow']

REAL = ['cfdtools from /repo (all modules touched)', 'CPython file objects', 'numpy', 'h5py and the HDF5 library',
        'pyvista and VTK readers/writers (native code)', 'kernel tmpfs as the durable medium']
STUB = ['scheduler (seeded, replaces the kernel scheduler at every I/O call)',
        'libc I/O results (errors, short transfers, crashes, torn writes)', 'clock_gettime/time/nanosleep (simulated clock)']


class CheckBase:
    pid = None
    level = 'exploration'
    tiers = {'quick': 200, 'thorough': 4000}
    rule = ''
    real = REAL
    stub = STUB
    assumptions = [
        'I/O is observed and decided at the libc boundary (open/read/write/truncate/close/rename/unlink/mkdir/stat/lock and variants); '
        'memory-mapped files and raw system calls would bypass it',
        'what a crashed process handed to the operating system survives the crash (process crash, not power loss)',
    ]
    shrink_lists = ('fmts', 'plan', 'plans', 'ops', 'actions', 'celldata', 'nodedata', 'snaps', 'clients', 'steps', 'acts', 'runs', 'crashes', 'inter', 'threads')

    def scenario(self, seed, i, tier):
        sc = self.gen(rng_for(seed, self.pid, i), i, tier)
        sc['seed'] = h64(seed, self.pid, i) % (1 << 62)
        return sc

    def gen(self, r, i, tier):
        raise NotImplementedError

    def execute(self, sc, ctx):
        raise NotImplementedError

    # ---- smaller scenarios for the minimiser
    def shrink(self, sc):
        for path, node in list(_walk(sc, ())):
            if isinstance(node, list) and path and path[-1] in self.shrink_lists and len(node) > self.min_len(path[-1]):
                for k in range(len(node)):
                    c = copy.deepcopy(sc)
                    del _at(c, path)[k]
                    yield c
            if isinstance(node, dict) and 'kind' in node and 'n' in node:
                for key, small in (('celldata', []), ('nodedata', []), ('params', {}), ('perio', None), ('merge', None),
                                   ('names', None), ('drop', None), ('split', None), ('zshuf', None), ('arr', None), ('npart', None), ('pert', 0.0), ('perm', 'none'),
                                   ('rot', False), ('len', [1.0, 1.0, 1.0]), ('ndof', 1)):
                    if node.get(key) not in (None, small):
                        c = copy.deepcopy(sc)
                        d = _at(c, path)
                        if small is None:
                            d.pop(key)
                        else:
                            d[key] = copy.deepcopy(small)
                        yield c
                for k in range(3):
                    for small in (2, node['n'][k] // 8, node['n'][k] // 2):
                        if 2 <= small < node['n'][k]:
                            c = copy.deepcopy(sc)
                            _at(c, path)['n'][k] = small
                            yield c

    def min_len(self, key):
        return 0


def _walk(x, path):
    yield path, x
    if isinstance(x, dict):
        for k in x:
            yield from _walk(x[k], path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from _walk(v, path + (k,))


def _at(x, path):
    for k in path:
        x = x[k]
    return x


def plan_hard(r, kinds, n=1):
    return [{'kind': r.choice(kinds), 'u': round(r.random(), 6), 'arg': round(r.uniform(0.05, 0.95), 3)} for _ in range(n)]


def plan_soft(r, n=None):
    n = n or r.randrange(1, 8)
    return [{'kind': r.choice(SOFT), 'u': round(r.random(), 6), 'arg': round(r.uniform(0.05, 0.95), 3)} for _ in range(n)]


def hard_used(res, client=None):
    return [f for f in res.faults if f['kind'] not in BENIGN and (client is None or f['client'] == client)]


def native_hit(fr):
    """did HDF5 or VTK (which may not survive it) meet a refused call?"""
    def native(f):
        ext = f['path'].rsplit('.', 1)[-1]
        return ext in ('h5', 'cgns') or ext == 'vtu' and f['at'] != 'write'
    return any(native(f) for f in hard_used(fr))


def persistent_of(ctx, log, p, client=0):
    """{'kind','u'} -> the disk stays broken from there on"""
    el = ctx.eligible(log, p['kind'], client)
    if not el:
        return None
    return {'from': el[min(len(el) - 1, int(p['u'] * len(el)))], 'kind': p['kind'], 'client': client}
