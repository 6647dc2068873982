"""Cooperative threads: one runs at a time, and a seeded choice at every line of package code says which.

Real `threading` threads execute the real code; a trace function stops the running one at each line of
the files under the given prefixes and may hand the baton to another.  Locks of the package come from
harness.simlock and hand over instead of blocking.  The switches that happened are recorded as
(number of the yield point, thread), and given back they are followed exactly.
"""
import _thread
import random
import sys
import threading

from h5py._objects import phil as _phil

from harness import simlock


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, prefixes, mode, seed, switches=None, total=0):
        self.prefixes = tuple(prefixes)
        self.rng = random.Random(seed)
        self.mode = mode                  # ['rand', p] or ['pct', number of change points]
        self.given = None if switches is None else {int(k): int(t) for k, t in switches}
        self.count = 0
        self.record = []
        self.points = set()
        self.cur = None
        self.stuck = 0
        self.lines = {}
        self.seen = {}
        if mode[0] == 'pct' and switches is None:
            self.points = {self.rng.randrange(1, max(2, total)) for _ in range(mode[1])}

    def mine(self):
        return threading.get_ident() in self.idents

    def alive(self):
        return [k for k in range(self.n) if not self.done[k] and k != self.cur]

    # ---- choices
    def yield_point(self):
        self.count += 1
        c = self.count
        self.stuck = 0
        if _phil._is_owned():     # h5py keeps its global lock between the items of an iteration
            return
        if self.given is not None:
            t = self.given.get(c)
            if t is None or t == self.cur or self.done[t]:
                return
        else:
            if self.mode[0] == 'rand':
                if self.rng.random() >= self.mode[1]:
                    return
            elif c not in self.points:
                return
            al = self.alive()
            if not al:
                return
            t = self.rng.choice(al)
        self.record.append((c, t))
        self.switch(t)

    def blocked(self, lock):
        """the running thread waits for a lock another one holds"""
        self.count += 1
        self.stuck += 1
        al = self.alive()
        if not al or self.stuck > 2000:
            raise Deadlock('every thread waits for a lock')
        t = self.given.get(self.count) if self.given is not None else self.rng.choice(al)
        if t is None or t not in al:
            t = al[self.stuck % len(al)]
        self.record.append((self.count, t))
        self.switch(t)

    def switch(self, t):
        me = self.cur
        self.cur = t
        self.baton[t].release()
        self.baton[me].acquire()

    # ---- tracing
    def local(self, frame, event, arg):
        if event == 'line':
            self.yield_point()
        return self.local

    def tracer(self, frame, event, arg):
        co = frame.f_code
        hit = self.seen.get(co)
        if hit is None:
            hit = self.seen[co] = co.co_filename.startswith(self.prefixes)
        return self.local if hit else None

    # ---- running
    def body(self, k, fn):
        self.idents.add(threading.get_ident())
        self.baton[k].acquire()
        sys.settrace(self.tracer)
        try:
            self.out[k] = ('ok', fn())
        except BaseException as e:  # noqa: BLE001
            self.out[k] = ('exc', type(e).__name__, str(e)[:400])
            e = None
        finally:
            sys.settrace(None)
            self.done[k] = True
            al = self.alive()
            if al:
                c = self.count = self.count + 1
                t = self.given.get(c) if self.given is not None else self.rng.choice(al)
                if t not in al:
                    t = al[0]
                if len(al) > 1:
                    self.record.append((c, t))
                self.cur = t
                self.baton[t].release()
            else:
                self.end.release()

    def run(self, fns):
        # the interpreter never takes the lock from the running thread (and its deadlines are on the simulated clock)
        sys.setswitchinterval(1e9)
        self.n = len(fns)
        self.done = [False] * self.n
        self.out = [None] * self.n
        self.idents = set()
        self.baton = [_thread.allocate_lock() for _ in fns]
        self.end = _thread.allocate_lock()
        self.end.acquire()
        for b in self.baton:
            b.acquire()
        ths = [threading.Thread(target=self.body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in ths:
            t.start()
        simlock.current = self
        self.cur = 0
        try:
            self.baton[0].release()
            self.end.acquire()
        finally:
            simlock.current = None
        for t in ths:
            t.join()
        return self.out, self.count, self.record
