"""Deterministic simulator core.

One *run* is a set of client processes ("nodes") executing real cfdtools code over one
simulated disk.  Every I/O call a node makes on that disk stops at the libc seam
(simio.c) and is answered here; nothing moves unless this loop grants it, one call at
a time, so a run is a pure function of (scenario, schedule, faults).
"""
import ctypes
import errno
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import time
import traceback

OPS = {1: 'open', 2: 'read', 3: 'write', 4: 'trunc', 5: 'sync', 6: 'close', 7: 'rename', 8: 'unlink',
       9: 'mkdir', 10: 'stat', 11: 'lock', 12: 'sleep', 13: 'yield', 14: 'list'}
REQ = struct.Struct('=iiqqqII200s')
REP = struct.Struct('=iiqqqq')
A_PROCEED, A_FAIL, A_SHORT, A_CRASH, A_TORN, A_SIGINT, A_SIGTERM = range(7)
O_ACCMODE, O_CREAT, O_EXCL, O_TRUNC = 3, 0o100, 0o200, 0o1000

PAGE = 4096
STALL_S = 240          # wall-clock guard on the harness itself, never a verdict
CPU_S = 25             # CPU budget of one node: more is reported as non-termination

_shim = None


def shim():
    global _shim
    if _shim is None:
        lib = ctypes.CDLL(None)
        lib.simio_present  # AttributeError when the shim is not preloaded
        lib.simio_attach.argtypes = [ctypes.c_int, ctypes.c_char_p]
        lib.simio_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64, ctypes.c_int64]
        lib.simio_yield.argtypes = [ctypes.c_int64]
        lib.simio_nops.restype = ctypes.c_int64
        _shim = lib
    return _shim


class HarnessError(Exception):
    """the simulator itself could not do its job: no verdict"""


def mark(n=0):
    """a point of the history, inside a node"""
    shim().simio_yield(n)


def h64(*parts):
    d = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'little')


def rng_for(*parts):
    return random.Random(h64(*parts))


# ------------------------------------------------------------------ fault vocabulary
# a fault is a dict: {'client': c, 'op': k, 'kind': name, 'arg': n}
FAULT_ACTION = {
    'enospc': (A_FAIL, errno.ENOSPC), 'eio': (A_FAIL, errno.EIO), 'edquot': (A_FAIL, errno.EDQUOT),
    'emfile': (A_FAIL, errno.EMFILE), 'eacces': (A_FAIL, errno.EACCES), 'enoent': (A_FAIL, errno.ENOENT),
    'erofs': (A_FAIL, errno.EROFS), 'enomem': (A_FAIL, errno.ENOMEM), 'eintr': (A_FAIL, errno.EINTR),
    'short': (A_SHORT, None), 'crash': (A_CRASH, 0), 'torn': (A_TORN, None), 'sigint': (A_SIGINT, 0),
    'eexist': (A_FAIL, errno.EEXIST), 'eioclose': (A_FAIL, errno.EIO), 'estale': (A_FAIL, errno.ESTALE),
    'enolck': (A_FAIL, errno.ENOLCK),
}
BENIGN = {'eintr', 'short', 'slow', 'jump'}


def wants(kind, op, req):
    """can fault `kind` happen at this operation?"""
    if kind in ('enospc', 'edquot'):
        return op in ('write', 'trunc') or (op == 'open' and req['flags'] & O_CREAT) or (op == 'mkdir')
    if kind == 'eio':
        return op in ('read', 'write', 'trunc', 'open', 'sync', 'stat', 'rename', 'unlink', 'mkdir')
    if kind == 'estale':
        return op in ('read', 'write', 'open', 'stat')
    if kind == 'enolck':
        return op == 'lock'
    if kind == 'eioclose':
        return op == 'close'
    if kind in ('emfile', 'enomem'):
        return op == 'open'
    if kind == 'eacces':
        return op in ('open', 'stat', 'mkdir', 'rename', 'unlink')
    if kind == 'erofs':
        return op == 'open' and req['flags'] & O_ACCMODE
    if kind == 'eintr':
        return op in ('read', 'write')
    if kind == 'short':
        return op in ('read', 'write') and req['len'] > 1
    if kind == 'torn':
        return op == 'write' and req['len'] > 1
    if kind in ('crash', 'sigint', 'slow', 'jump'):
        return True
    return False


def critical(req):
    return req['op'] in ('rename', 'unlink') or (req['op'] == 'open' and req['flags'] & O_CREAT)


class Policy:
    """decides who moves next and what goes wrong; everything it decides is recorded"""

    def __init__(self, seed=0, schedule=None, faults=(), sticky=0.0, persistent=None, mode='random', steps=400):
        self.seed = seed
        self.rng = random.Random(h64('policy', seed))
        self.replay = schedule
        self.faults = {(f['client'], f['op']): f for f in faults}
        self.sticky = sticky            # probability of letting the same client continue
        self.persistent = persistent    # {'from': k, 'kind': .., 'client': c}: disk stays broken from op k on
        self.chosen = []                # recorded schedule (only where there was a choice)
        self.used = []                  # faults that took effect
        self.last = None
        self.pos = 0
        self.epoch = {}                 # marks passed, per client
        # 'pct': random priorities, changed at a few random steps (finds every bug of small depth with known probability)
        # 'rush': a client about to create, rename or remove waits until all are, then they go in random order
        self.mode = mode
        self.step = 0
        self.prio = {}
        self.change = {self.rng.randrange(max(1, steps)) for _ in range(self.rng.randrange(1, 4))} if mode == 'pct' else ()
        self.go = set()

    def choose(self, ids, pending):
        if self.mode == 'pct':
            for c in ids:
                self.prio.setdefault(c, 1 + self.rng.random())
            c = max(ids, key=lambda q: self.prio[q])
            if self.step in self.change:
                self.prio[c] = -self.step
                c = max(ids, key=lambda q: self.prio[q])
            return c
        if self.mode == 'rush':
            hot = [c for c in ids if critical(pending[c])]
            self.go &= set(hot)
            cold = [c for c in ids if c not in hot]
            if not cold and not self.go:
                self.go = set(hot)
            free = cold + sorted(self.go)
            if self.last in free and self.rng.random() < self.sticky:
                return self.last
            c = self.rng.choice(free)
            self.go.discard(c)
            return c
        if self.last in ids and self.rng.random() < self.sticky:
            return self.last
        return self.rng.choice(ids)

    def pick(self, ids, pending):
        self.step += 1
        if len(ids) == 1:
            self.last = ids[0]
            return ids[0]
        if self.replay is not None:
            c = None
            if self.pos < len(self.replay):
                c = self.replay[self.pos]
            self.pos += 1
            if c not in ids:
                c = self.last if self.last in ids else ids[0]
        else:
            c = self.choose(ids, pending)
        self.chosen.append(c)
        self.last = c
        return c

    def fault(self, client, idx, op, req):
        if op == 'yield':
            self.epoch[client] = self.epoch.get(client, 0) + 1
        f = self.faults.get((client, idx))
        if f is not None and f.get('ep', self.epoch.get(client, 0)) != self.epoch.get(client, 0):
            f = None                      # the fault belongs to another attempt
        if op == 'yield' and self.persistent is not None and idx > self.persistent['from']:
            self.persistent = None        # the disk works again
        if f is None and self.persistent is not None:
            p = self.persistent
            if idx >= p['from'] and p.get('client', client) == client and wants(p['kind'], op, req):
                if not (p.get('writes_only') and op not in ('write', 'trunc')):
                    f = {'client': client, 'op': idx, 'kind': p['kind'], 'arg': 0}
        if f is None:
            return None
        kind = f['kind']
        if kind in ('slow', 'jump'):
            self.used.append({'client': client, 'op': idx, 'kind': kind, 'arg': f.get('arg', 0), 'at': op,
                              'path': req['path']})
            return (A_PROCEED, 0)
        if not wants(kind, op, req):
            return None
        act, arg = FAULT_ACTION[kind]
        if arg is None:
            n = req['len']
            arg = max(1, min(n - 1, int(f.get('arg', 0.5) * n) if f.get('arg', 0.5) <= 1 else int(f['arg'])))
            if f.get('page'):             # a killed process stops its write between two pages
                first = -(req['off'] + 1) % PAGE + 1
                cuts = range(first, n, PAGE)
                if not cuts:
                    return None
                arg = cuts[min(len(cuts) - 1, int(f.get('arg', 0.5) * len(cuts)))]
        u = {'client': client, 'op': idx, 'kind': kind, 'arg': f.get('arg', 0), 'at': op, 'path': req['path']}
        u.update({k: f[k] for k in ('ep', 'page') if k in f})
        self.used.append(u)
        return (act, arg)

    def latency(self, client, idx, op):
        """simulated nanoseconds this operation takes"""
        h = h64(self.seed, 'lat', client, idx)
        base = 2_000 + h % 400_000
        f = self.faults.get((client, idx))
        if f is not None and f['kind'] == 'slow':
            base += int(f.get('arg', 1) * 1e9)
        return base


    def jump(self, client, idx):
        """simulated nanoseconds the wall clock is set forward or back"""
        f = self.faults.get((client, idx))
        return int(f['arg'] * 1e9) if f is not None and f['kind'] == 'jump' else 0


class Outcome:
    __slots__ = ('status', 'value', 'etype', 'emsg', 'tb', 'code', 'stderr')

    def __init__(self, status, value=None, etype=None, emsg=None, tb=None, code=None, stderr=''):
        self.status, self.value, self.etype, self.emsg, self.tb, self.code = status, value, etype, emsg, tb, code
        self.stderr = stderr

    @property
    def ok(self):
        return self.status == 'ok'

    def brief(self):
        if self.status == 'ok':
            return 'ok'
        if self.status == 'exc':
            return f'{self.etype}: {str(self.emsg)[:160]}'
        return f'{self.status}({self.code})'


class RunResult:
    def __init__(self):
        self.outcomes = []
        self.log = []          # (client, idx, op, path, off, len, crc, action, arg, flags)
        self.schedule = []
        self.faults = []
        self.sim_ns = 0
        self.alternatives = 0

    def digest(self):
        return hashlib.blake2b(repr(self.log).encode(), digest_size=8).hexdigest()

    def sched_digest(self):
        return hashlib.blake2b(repr([(e[0], e[2], e[3]) for e in self.log]).encode(), digest_size=8).hexdigest()


def _child(fn, sock, root, memfd, cfg):
    code = 70
    try:
        os.chdir(os.path.join(root, cfg.get('cwd', '.')))
        devnull = os.open('/dev/null', os.O_RDWR)
        os.dup2(devnull, 0)
        errf = os.memfd_create('err') if cfg.get('capture') else devnull
        os.dup2(errf, 1)
        os.dup2(errf, 2)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CPU, (cfg.get('cpu', CPU_S), cfg.get('cpu', CPU_S) + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cfg.get('as_bytes'):
            with open('/proc/self/statm') as f:
                vm = int(f.read().split()[0]) * 4096
            lim = vm + cfg['as_bytes']
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        s = shim()
        s.simio_clock(1, cfg.get('mono', 1_000_000_000), cfg.get('real', 1_700_000_000_000_000_000), cfg.get('tick', 50))
        s.simio_attach(sock, root.encode())
        try:
            v = fn()
            out = ('ok', v)
        except BaseException as e:  # noqa: BLE001
            s.simio_detach()
            tb = traceback.format_exc(limit=-12)
            out = ('exc', type(e).__name__, str(e)[:2000], tb[-3000:])
        s.simio_detach()
        s.simio_clock(0, 0, 0, 0)
        try:
            data = pickle.dumps(out, protocol=4)
        except Exception as e:  # noqa: BLE001
            data = pickle.dumps(('exc', 'PickleError', repr(e), traceback.format_exc()))
        mv = memoryview(data)
        while mv:
            n = os.write(memfd, mv)
            mv = mv[n:]
        code = 0
    except BaseException:  # noqa: BLE001
        try:
            d = traceback.format_exc().encode()
            os.write(memfd, pickle.dumps(('harness', d.decode())))
        except BaseException:  # noqa: BLE001
            pass
        code = 71
    finally:
        os._exit(code)


class Simulator:
    def __init__(self, root):
        self.root = root

    def run(self, clients, policy, cfgs=None, max_ops=400_000):
        """clients: list of callables executed in forked nodes"""
        res = RunResult()
        n = len(clients)
        cfgs = cfgs or [{} for _ in range(n)]
        socks, pids, memfds = [], [], []
        gc_was = gc.isenabled()
        gc.disable()
        try:
            for i, fn in enumerate(clients):
                a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
                m = os.memfd_create('res')
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        a.close()
                        for s in socks:
                            s.close()
                        fd = b.detach()
                        os.set_inheritable(fd, False)
                        gc.enable()
                        _child(fn, fd, self.root, m, cfgs[i])
                    finally:
                        os._exit(72)
                b.close()
                a.settimeout(STALL_S)
                socks.append(a)
                pids.append(pid)
                memfds.append(m)
            pending = {}
            live = set(range(n))
            idx = [0] * n
            mono = cfgs[0].get('mono', 1_000_000_000)
            mono0 = mono
            total = 0
            while True:
                for c in sorted(live):
                    if c in pending:
                        continue
                    try:
                        data = socks[c].recv(4096)
                    except (TimeoutError, socket.timeout):
                        raise HarnessError(f'node {c} stalled for {STALL_S} s of wall time')
                    except ConnectionResetError:
                        data = b''
                    if not data:
                        live.discard(c)
                        continue
                    op, fd, off, ln, flags, crc, _, path = REQ.unpack(data)
                    pending[c] = {'op': OPS.get(op, str(op)), 'fd': fd, 'off': off, 'len': ln, 'flags': flags,
                                  'crc': crc, 'path': path.split(b'\0', 1)[0].decode('utf8', 'replace')}
                if not pending:
                    break
                ids = sorted(pending)
                if len(ids) > 1:
                    res.alternatives += 1
                c = policy.pick(ids, pending)
                req = pending.pop(c)
                f = policy.fault(c, idx[c], req['op'], req)
                act, arg = f if f is not None else (A_PROCEED, 0)
                lat = policy.latency(c, idx[c], req['op'])
                mono += lat
                jump = policy.jump(c, idx[c])
                res.log.append((c, idx[c], req['op'], req['path'], req['off'], req['len'], req['crc'], act, arg,
                                req['flags']))
                idx[c] += 1
                total += 1
                if total > max_ops:
                    for p in pids:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                    res.log.append((c, -1, 'opbudget', '', 0, 0, 0, 0, 0, 0))
                    break
                try:
                    socks[c].send(REP.pack(act, 0, arg, mono, lat, jump))
                except (BrokenPipeError, ConnectionResetError):
                    live.discard(c)
            for c in range(n):
                t0 = time.monotonic()
                while True:
                    pid, st = os.waitpid(pids[c], os.WNOHANG)
                    if pid:
                        break
                    if time.monotonic() - t0 > STALL_S:
                        raise HarnessError(f'node {c} did not exit')
                    time.sleep(0.0005)
                pids[c] = None
                res.outcomes.append(self._outcome(st, memfds[c]))
            res.sim_ns = mono - mono0
            res.schedule = policy.chosen
            res.faults = policy.used
            return res
        finally:
            for p in pids:
                if p:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
            for s in socks:
                s.close()
            for m in memfds:
                os.close(m)
            if gc_was:
                gc.enable()

    @staticmethod
    def _outcome(st, memfd):
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            name = 'cpu' if sig in (signal.SIGXCPU,) else 'signal'
            return Outcome(name, code=sig)
        code = os.WEXITSTATUS(st)
        if code == 137:
            return Outcome('crashed', code=137)
        os.lseek(memfd, 0, 0)
        size = os.fstat(memfd).st_size
        data = b''
        while len(data) < size:
            b = os.read(memfd, size - len(data))
            if not b:
                break
            data += b
        if code == 0 and data:
            out = pickle.loads(data)
            if out[0] == 'ok':
                return Outcome('ok', value=out[1])
            return Outcome('exc', etype=out[1], emsg=out[2], tb=out[3])
        if data:
            try:
                raise HarnessError('node bootstrap failed: ' + pickle.loads(data)[1])
            except (pickle.UnpicklingError, EOFError):
                pass
        return Outcome('exit', code=code)


# ------------------------------------------------------------------ scratch disks
_base = None


def scratch_base():
    global _base
    if _base is None:
        d = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _base = tempfile.mkdtemp(prefix='cfdsim-', dir=d)
    return _base


def fresh_root(tag='r'):
    return tempfile.mkdtemp(prefix=f'{tag}-', dir=scratch_base())


def drop_root(path):
    if path.startswith(scratch_base() + '/'):
        shutil.rmtree(path, ignore_errors=True)


def drop_all():
    global _base
    if _base and os.path.basename(_base).startswith('cfdsim-'):
        shutil.rmtree(_base, ignore_errors=True)
        _base = None


def snapshot(root):
    """{relative path: sha} of every regular file of the simulated disk"""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, root)] = hashlib.blake2b(fh.read(), digest_size=12).hexdigest()
            except OSError:
                out[os.path.relpath(p, root)] = 'unreadable'
    return out
