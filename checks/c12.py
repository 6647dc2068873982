"""C12: timers add up elapsed time, and no result depends on the clock."""
import logging
import os
import re
import time

from checks import c10, c07
from harness import node, ops, oracle
from harness.base import CheckBase
from sim.core import shim

MONO, REAL = 1_000_000_000, 1_700_000_000_000_000_000


# ---- a timer and its reference model
def rand_script(r, files):
    out, n = [], r.randrange(5, 40)
    for _ in range(n):
        x = r.random()
        if x < 0.3:
            out.append(['sleep', r.choice([0.0, 1e-6, 0.25, r.random() * 10, 3600.0])])
        elif x < 0.38:
            out.append(['wall', r.choice([-1e9, -3600, -1, 1, 3600, 1e8])])
        elif x < 0.46:
            out.append(['io', r.randrange(files), r.choice(['read', 'write'])])
        else:
            t = r.randrange(2)
            op = r.choice(['start', 'start', 'pause', 'pause', 'stop', 'reset', 'with', 'with', 'withexc', 'withpause'])
            if op == 'stop':
                out.append([op, t, r.choice([None, None, 1, 1000, 0])])
            elif op.startswith('with'):
                out.append([op, t, r.choice([0.0, 0.5, r.random() * 100])])
            else:
                out.append([op, t])
    return out


class Reports(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.INFO)
        self.seconds = []

    def emit(self, rec):
        m = re.search(r'wtime: ([-+0-9.einfa]+)s', rec.getMessage())
        if m:
            self.seconds.append(float(m.group(1)))


def play(script):
    """in a node: two real timers, and what they must show at every step"""
    api = node.P.api
    rep = Reports()
    lg = logging.getLogger('cfdtools')
    lg.setLevel(logging.INFO)
    lg.addHandler(rep)
    T = [api.Timer(), api.Timer(task='a task', nelem=7)]
    run, acc = [None, None], [0, 0]
    bad = []

    def now():
        return time.monotonic_ns()

    def same(got, ns, what):
        if not abs(got - ns * 1e-9) <= 1e-9 + 1e-12 * abs(ns * 1e-9):
            bad.append(f'{what}: {got} s instead of {ns * 1e-9} s')

    def expect(fn, raises, what):
        try:
            fn()
            if raises:
                bad.append(f'{what} does not raise')
        except api.TimerError as e:
            if not raises:
                bad.append(f'{what} raises TimerError: {e}')

    def reported(ns, what):
        if not rep.seconds:
            bad.append(f'{what} reports nothing')
        elif abs(rep.seconds[-1] - ns * 1e-9) > 6e-5 + 1e-12 * ns * 1e-9:
            bad.append(f'{what} reports {rep.seconds[-1]} s instead of {ns * 1e-9} s')
        rep.seconds.clear()

    for n, s in enumerate(script):
        op = s[0]
        what = f'step {n} {s}'
        if op == 'sleep':
            time.sleep(s[1])
            continue
        if op == 'wall':
            shim().simio_clock(1, now(), time.time_ns() + int(s[1] * 1e9), 0)
            continue
        if op == 'io':
            with open(f'f{s[1]}', 'rb' if s[2] == 'read' else 'wb') as f:
                f.read() if s[2] == 'read' else f.write(b'x' * 100)
            continue
        k = s[1]
        t = T[k]
        if op == 'start':
            expect(t.start, run[k] is not None, what)
            if run[k] is None:
                run[k] = now()
        elif op == 'pause':
            expect(t.pause, run[k] is None, what)
            if run[k] is not None:
                acc[k] += now() - run[k]
                run[k] = None
        elif op == 'stop':
            was = run[k]
            expect((lambda: t.stop(s[2])) if s[2] is not None else t.stop, was is None, what)
            if was is not None:
                reported(acc[k] + now() - was, what)
                run[k], acc[k] = None, 0
        elif op == 'reset':
            t.reset()
            run[k], acc[k] = None, 0
        else:
            busy = run[k] is not None
            t0 = now()
            try:
                with t:
                    time.sleep(s[2])
                    if op == 'withpause':
                        t.pause()
                        time.sleep(5.0)
                        t.start()
                    if op == 'withexc':
                        raise KeyError('mine')
                if op == 'withexc':
                    bad.append(f'{what}: the exception of the block was swallowed')
                if busy:
                    bad.append(f'{what} does not raise although the timer runs')
            except KeyError:
                if op != 'withexc':
                    raise
            except api.TimerError as e:
                if not busy:
                    bad.append(f'{what} raises TimerError: {e}')
            if not busy:
                reported(acc[k] + now() - t0 - (5_000_000_000 if op == 'withpause' else 0), what)
                run[k], acc[k] = None, 0
        if run[k] is None:
            same(t.elapsed, acc[k], what)
        if rep.seconds:
            bad.append(f'{what} reports {rep.seconds} s unasked')
            rep.seconds.clear()
        if bad:
            break
    lg.removeHandler(rep)
    return bad


class Check(CheckBase):
    pid = 'C12'
    tiers = {'quick': 1200, 'thorough': 30000}
    rule = ('Random scripts on two timers over a simulated clock (advances, wall-clock jumps, slow I/O) against a reference model; '
            'and random operations run again with other clock origins, frozen or racing clocks, wall-clock jumps and slow disks.')
    shrink_lists = CheckBase.shrink_lists + ('script',)

    def gen(self, r, i, tier):
        if r.random() < 0.5:
            return {'script': rand_script(r, 2), 'slow': [[round(r.random(), 4), r.choice([0.01, 1.0, 30.0])] for _ in range(3)],
                    'mono': r.choice([0, MONO, 10 ** 15]), 'real': r.choice([0, REAL, 2 ** 32 * 10 ** 9])}
        a = c10.rand_multi(r) if r.random() < 0.15 else ops.rand_act(r, pre=r.choice(['', 'd/']))
        runs = []
        for k in range(3):
            runs.append({'mono': r.choice([0, MONO, 10 ** 15]), 'real': r.choice([0, 1, REAL, 2 ** 31 * 10 ** 9 + 5, 2 ** 32 * 10 ** 9]),
                         'tick': r.choice([0, 0, 50, 10 ** 6, 10 ** 9, 10 ** 12]),
                         'plan': [{'kind': r.choice(['slow', 'jump', 'jump']), 'u': round(r.random(), 6),
                                   'arg': r.choice([0.5, 60.0, 3600.0, 86400.0])} for _ in range(r.randrange(0, 6))]})
            for p in runs[-1]['plan']:
                if p['kind'] == 'jump' and r.random() < 0.6:
                    p['arg'] *= r.choice([-1, -1000])
        return {'act': a, 'runs': runs}

    def execute(self, sc, ctx):
        if 'script' in sc:
            root = ctx.root()
            for k in range(2):
                with open(os.path.join(root, f'f{k}'), 'wb') as f:
                    f.write(b'abc')
            cfg = {'mono': sc['mono'], 'real': sc['real'], 'tick': 0}
            out, res = ctx.solo('!dry', root, lambda: play(sc['script']), cfg=cfg)
            ctx.expect(ctx.healthy(out, 'a timer script'), 'timer')
            if res.log:
                fl = ctx.place(res.log, [{'kind': 'slow', 'u': u, 'arg': x} for u, x in sc['slow']])
                out, res = ctx.solo('slow', root, lambda: play(sc['script']), fl, cfg=cfg)
                ctx.expect(ctx.healthy(out, 'a timer script on a slow disk'), 'timer')
            ctx.note('timer_steps', len(sc['script']))
            return
        a = sc['act']
        root = ctx.root()
        c10.prepare(a, root)
        out, res = ctx.solo('dry', root, lambda: c10.run(a, {}))
        good = ctx.healthy(out, a['t'])
        if a['t'] != 'multi':
            ctx.expect(ops.check_act(a, root, good), 'content', a['t'])
        tree = c07.tree(root)
        for k, run in enumerate(sc['runs']):
            root = ctx.root()
            c10.prepare(a, root)
            fl = ctx.place(res.log, run['plan'])
            out, fr = ctx.solo(f'!c{k}', root, lambda: c10.run(a, {}), fl, cfg={q: run[q] for q in ('mono', 'real', 'tick')})
            what = f'{a["t"]} with clock {run["mono"]}/{run["real"]}/{run["tick"]} and {len(fr.faults)} delays or jumps'
            v = ctx.healthy(out, what)
            d = oracle.same(good, v)
            if d:
                ctx.violate('clock', f'{what} returns something else: {d}')
            t2 = c07.tree(root)
            if set(t2) != set(tree):
                ctx.violate('clock', f'{what}: files {sorted(set(t2) ^ set(tree))[:4]} appear or not')
            for f, c in tree.items():
                if t2[f] != c:
                    ctx.violate('clock', f'{what}: {f} is not the same file')
            ctx.note('operations_compared')
