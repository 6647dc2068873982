"""Runs a check: seeded scenarios on parallel lanes, minimisation, replay, evidence.

A scenario is a JSON value made from (VERIF_SEED, property, index) alone.  Executing it runs one
or more simulated phases; every schedule and fault decision of a phase is recorded under its
label, so that (scenario, trace) replays exactly.
"""
import collections
import copy
import hashlib
import importlib
import json
import mmap
import os
import pickle
import re
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from sim import core
from sim.core import Policy, Simulator, h64, rng_for, wants

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                # finding: property=<id> class=<cls> match=<text of the failing case>
                f = dict(x.split('=', 1) for x in line[9:].split(' ', 2))
                out.append(f)
    return out


def scrub(msg):
    """an error message without addresses and scratch folders"""
    return re.sub(r'0x[0-9a-fA-F]+', '0x', re.sub(r'/[^ "\']*cfdsim-[^/ ]*/[a-z]+-[^/ "\']*', '<root>', str(msg)))


class Stats:
    def __init__(self):
        self.scen = 0
        self.runs = 0
        self.ops = 0
        self.sim_ns = 0
        self.faults = collections.Counter()
        self.fault_sites = set()
        self.digests = set()
        self.scheds = set()
        self.switches = 0
        self.outcomes = collections.Counter()
        self.nontrivial = 0
        self.counts = collections.Counter()
        self.samples = []
        self.known = collections.Counter()
        self.errors = []
        self.mismatch = []
        self.last = None

    def merge(self, o):
        self.scen += o.scen
        self.runs += o.runs
        self.ops += o.ops
        self.sim_ns += o.sim_ns
        self.faults += o.faults
        self.fault_sites |= o.fault_sites
        self.digests |= o.digests
        self.scheds |= o.scheds
        self.switches += o.switches
        self.outcomes += o.outcomes
        self.nontrivial += o.nontrivial
        self.counts += o.counts
        self.samples += o.samples
        self.known += o.known
        self.errors += o.errors
        self.mismatch += o.mismatch


class Ctx:
    """what a check uses to execute one scenario"""

    def __init__(self, check, sc, stats, override=None, known=()):
        self.check, self.sc, self.stats = check, sc, stats
        self.override = override
        self.known = known
        self.trace = {}
        self.roots = []
        self.dig = hashlib.blake2b(digest_size=12)
        self.hist = []

    # -------- scratch disks
    def root(self, tag='r'):
        r = core.fresh_root(tag)
        self.roots.append(r)
        return r

    def done(self):
        for r in self.roots:
            core.drop_root(r)
        self.roots = []

    # -------- phases
    def phase(self, label, root, clients, faults=(), cfgs=None, sticky=0.0, persistent=None, schedule=None, mode='random', steps=400):
        assert label not in self.trace, label
        seed = h64(self.sc.get('seed', 0), label)
        faults = list(faults)
        if self.override is not None:
            o = self.override.get(label, {})
            faults, schedule, persistent = o.get('faults', []), o.get('schedule', []), None
        pol = Policy(seed, schedule=schedule, faults=faults, sticky=sticky, persistent=persistent, mode=mode, steps=steps)
        res = Simulator(root).run(clients, pol, cfgs)
        ent = {}
        if res.faults:
            ent['faults'] = [{k: f[k] for k in ('client', 'op', 'kind', 'arg', 'ep', 'page') if k in f} for f in res.faults]
        if res.schedule and res.alternatives:
            ent['schedule'] = list(res.schedule)
        self.trace[label] = ent
        st = self.stats
        st.runs += 1
        st.ops += len(res.log)
        st.sim_ns += res.sim_ns
        d = res.digest()
        self.dig.update(d.encode())
        for f in res.faults:
            st.faults[f['kind']] += 1
            st.fault_sites.add((f['at'], os.path.splitext(f['path'])[1], f['kind']))
        self.hist.append((label, d, [(o.status, o.etype, scrub(o.emsg)) for o in res.outcomes]))
        for o in res.outcomes:
            st.outcomes[o.status if o.status != 'exc' else 'exc:' + str(o.etype)] += 1
            self.dig.update(f'{o.status} {o.etype} {scrub(o.emsg)}'.encode())
        if res.faults or res.alternatives or label.startswith('!'):
            if d not in st.digests:
                st.nontrivial += 1
                st.digests.add(d)
        if res.alternatives:
            st.counts['schedule:' + mode] += 1
            st.switches += 1
            st.scheds.add(res.sched_digest())
        return res

    def solo(self, label, root, fn, faults=(), cfg=None, persistent=None):
        r = self.phase(label, root, [fn], faults, cfgs=[cfg or {}], persistent=persistent)
        return r.outcomes[0], r

    def note(self, name, n=1):
        self.stats.counts[name] += n

    def injected(self, kind, site):
        """a fault put on the stored bytes themselves"""
        self.stats.faults[kind] += 1
        self.stats.fault_sites.add(('stored', site, kind))

    def interleaved(self, record, count):
        """a schedule of threads inside one node"""
        st = self.stats
        self.dig.update(repr((record, count)).encode())
        if record:
            st.switches += 1
            st.scheds.add(hashlib.blake2b(repr((self.sc.get('seed'), record)).encode(), digest_size=8).hexdigest())
            self.note('thread_switches', len(record))

    # -------- verdicts
    def violate(self, cls, msg):
        raise Violation(cls, msg)

    def expect(self, problems, cls, what=''):
        if problems:
            m = '; '.join(str(p) for p in list(problems)[:4])
            raise Violation(cls, f'{what}: {m}' if what else m)

    def healthy(self, out, what):
        """an operation that met no hard fault must succeed"""
        if out.status != 'ok':
            raise Violation('healthy', f'{what} fails on a healthy disk: {out.brief()} {(out.tb or "")[-700:]}')
        return out.value

    # -------- fault placement
    @staticmethod
    def eligible(log, kind, client=0, flt=None):
        out = []
        for e in log:
            if e[0] != client or e[1] < 0:
                continue
            req = {'flags': e[9], 'len': e[5], 'path': e[3]}
            if wants(kind, e[2], req) and (flt is None or flt(e)):
                out.append(e[1])
        return out

    def place(self, log, plan, client=0, flt=None):
        """plan: list of {'kind','u',['arg']} -> explicit faults on the operations of a recorded run"""
        out, seen = [], set()
        for p in plan:
            el = self.eligible(log, p['kind'], client, flt)
            if not el:
                continue
            k = el[min(len(el) - 1, int(p['u'] * len(el)))]
            if (client, k) in seen:
                continue
            seen.add((client, k))
            out.append({'client': client, 'op': k, 'kind': p['kind'], 'arg': p.get('arg', 0.5)})
        return out


def execute(check, sc, stats, override=None, known=()):
    """-> (violation or None, trace, digest)"""
    ctx = Ctx(check, sc, stats, override, known)
    stats.last = ctx
    v = None
    try:
        check.execute(sc, ctx)
    except Violation as e:
        v = e
        for k in known:
            if k['property'] == check.pid and k['class'] == e.cls and k['match'] in e.msg:
                stats.known[k['match']] += 1
                v = None
                break
    finally:
        ctx.done()
    return v, ctx.trace, ctx.dig.hexdigest()


# ------------------------------------------------------------------ lanes
def lane_main(check, tier, seed, lane, lanes, total, deadline, best, known, outpath):
    st = Stats()
    viol = None
    last_i = -1
    # each lane has its own disks, removed by the parent whatever happens
    core._base = tempfile.mkdtemp(prefix='cfdsim-', dir=os.path.dirname(outpath))
    try:
        i = lane
        while i < total:
            b = struct.unpack('q', best[:8])[0]
            if i > b:
                break
            if time.monotonic() > deadline:
                st.counts['stopped_by_time_cap'] += 1
                break
            sc = check.scenario(seed, i, tier)
            st.scen += 1
            try:
                v, trace, dig = execute(check, sc, st, None, known)
            except Exception as e1:   # noqa: BLE001  harness trouble: try once more, then record
                try:
                    v, trace, dig = execute(check, sc, st, None, known)
                except Exception:  # noqa: BLE001
                    st.errors.append({'index': i, 'scenario': sc, 'error': traceback.format_exc()[-3000:]})
                    if len(st.errors) >= 3:
                        break
                    i += lanes
                    continue
            last_i = i
            if v is None and i < 3 * lanes and i // lanes == 1:
                # determinism: the same scenario again must give the same history
                s2 = Stats()
                h1 = st.last.hist
                v2, _, dig2 = execute(check, sc, s2, None, known)
                st.counts['determinism_checked'] += 1
                if dig2 != dig:
                    st.counts['determinism_mismatch'] += 1
                    st.mismatch += [{'index': i, 'phase': repr(a)[:600], 'again': repr(b)[:600]}
                                    for a, b in zip(h1, s2.last.hist) if a != b][:2]
            if v is None and len(st.samples) < 1:
                st.samples.append({'index': i, 'scenario': sc, 'trace': trace, 'verdict': 'held', 'digest': dig})
            if v is not None:
                viol = {'index': i, 'scenario': sc, 'trace': trace, 'class': v.cls, 'message': v.msg, 'digest': dig}
                b = struct.unpack('q', best[:8])[0]
                if i < b:
                    best[:8] = struct.pack('q', i)
                break
            i += lanes
    except BaseException:  # noqa: BLE001
        st.errors.append({'index': last_i, 'error': traceback.format_exc()[-3000:]})
    finally:
        core.drop_all()
        st.last = None
        with open(outpath + '.tmp', 'wb') as f:
            pickle.dump((st, viol), f)
        os.rename(outpath + '.tmp', outpath)
        os._exit(0)


def run_lanes(check, tier, seed, total, lanes, cap, known):
    work = os.path.join('/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp', f'cfdlanes-{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    best = mmap.mmap(-1, 8)
    best[:8] = struct.pack('q', 1 << 60)
    deadline = time.monotonic() + cap
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(lanes):
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            lane_main(check, tier, seed, k, lanes, total, deadline, best, known, os.path.join(work, str(k)))
            os._exit(3)
        pids.append(pid)
    st, viols, dead = Stats(), [], 0
    for k, pid in enumerate(pids):
        os.waitpid(pid, 0)
        p = os.path.join(work, str(k))
        if not os.path.exists(p):
            dead += 1
            continue
        with open(p, 'rb') as f:
            s, v = pickle.load(f)
        st.merge(s)
        if v:
            viols.append(v)
    shutil.rmtree(work, ignore_errors=True)
    # disks of lanes that were killed
    return st, sorted(viols, key=lambda v: v['index']), dead


# ------------------------------------------------------------------ minimisation
def minimise(check, v, known, budget=75.0):
    t0 = time.monotonic()
    st = Stats()
    cls = v['class']
    cur = {k: v[k] for k in ('scenario', 'trace', 'message', 'digest')}
    tries = 0

    def attempt(sc, override):
        nonlocal tries
        tries += 1
        try:
            e, tr, dig = execute(check, sc, st, override, known)
        except Exception:  # noqa: BLE001
            return None
        if e is None or e.cls != cls:
            return None
        return {'scenario': sc, 'trace': tr, 'message': e.msg, 'digest': dig}

    base = attempt(cur['scenario'], cur['trace'])
    if base is None:
        return None, tries
    cur = base

    def time_left():
        return time.monotonic() - t0 < budget

    def smaller_trace():
        nonlocal cur
        changed = True
        while changed and time_left():
            changed = False
            for lab in list(cur['trace']):
                fl = cur['trace'].get(lab, {}).get('faults') or []
                for k in range(len(fl)):
                    tr = copy.deepcopy(cur['trace'])
                    del tr[lab]['faults'][k]
                    r = attempt(cur['scenario'], tr) if time_left() else None
                    if r and sum(len(x.get('faults', ())) for x in r['trace'].values()) < sum(
                            len(x.get('faults', ())) for x in cur['trace'].values()):
                        cur, changed = r, True
                        break
                if changed:
                    break
        for lab in list(cur['trace']):
            size = max(1, len(cur['trace'].get(lab, {}).get('switches') or ()) // 2)
            while time_left():
                sw = cur['trace'].get(lab, {}).get('switches') or []
                if not sw:
                    break
                k, hit = 0, False
                while k < len(sw) and time_left():
                    tr = copy.deepcopy(cur['trace'])
                    tr[lab]['switches'] = sw[:k] + sw[k + size:]
                    r = attempt(cur['scenario'], tr)
                    n = len((r or {'trace': {}})['trace'].get(lab, {}).get('switches') or sw)
                    if r and n < len(sw):
                        cur, hit = r, True
                        sw = cur['trace'][lab].get('switches') or []
                    else:
                        k += size
                if size == 1 and not hit:
                    break
                size = max(1, size // 2)
        for lab in list(cur['trace']):
            sch = cur['trace'].get(lab, {}).get('schedule')
            if not sch:
                continue
            # shortest random prefix, then keep each client running as long as possible
            lo, hi = 0, len(sch)
            while lo < hi and time_left():
                mid = (lo + hi) // 2
                tr = copy.deepcopy(cur['trace'])
                tr[lab]['schedule'] = sch[:mid]
                r = attempt(cur['scenario'], tr)
                if r:
                    hi = mid
                    best = r
                    cur = best
                else:
                    lo = mid + 1
            sch = cur['trace'].get(lab, {}).get('schedule') or []
            k = 1
            while k < len(sch) and time_left() and tries < 400:
                if sch[k] != sch[k - 1]:
                    tr = copy.deepcopy(cur['trace'])
                    s2 = list(sch)
                    s2[k] = s2[k - 1]
                    tr[lab]['schedule'] = s2
                    r = attempt(cur['scenario'], tr)
                    if r:
                        cur = r
                        sch = cur['trace'].get(lab, {}).get('schedule') or []
                k += 1

    changed = True
    while changed and time_left():
        changed = False
        for cand in check.shrink(copy.deepcopy(cur['scenario'])):
            if not time_left():
                break
            r = attempt(cand, None)
            if r:
                cur, changed = r, True
                break
    smaller_trace()
    cur['class'] = cls
    return cur, tries


# ------------------------------------------------------------------ entry points
def load_check(pid):
    return importlib.import_module('checks.' + pid.lower()).Check()


def evidence(check, tier, seed, st, total, wall, viol, extra):
    cov = {
        'evaluations': st.scen,
        'distinct_nontrivial': st.nontrivial,
        'rule': check.rule + ' Non-trivial: a simulated run in which at least one fault took effect or the scheduler had a '
                             'choice; distinct by digest of its complete operation log (client, operation, path, offset, '
                             'size, content checksum, action).',
        'samples': st.samples[:3] or [{'note': 'no scenario completed'}],
        'scenarios_planned': total,
        'simulated_runs': st.runs,
        'simulated_runs_per_hour': int(st.runs / wall * 3600) if wall else 0,
        'seeds_per_hour': int(st.scen / wall * 3600) if wall else 0,
        'simulated_operations': st.ops,
        'simulated_seconds': round(st.sim_ns / 1e9, 3),
        'faults_injected': dict(sorted(st.faults.items())),
        'fault_sites': {'count': len(st.fault_sites), 'measure': 'distinct (operation, file kind, fault kind)',
                        'list': sorted('/'.join(x) for x in st.fault_sites)[:80]},
        'distinct_interleavings': {'count': len(st.scheds), 'runs_with_choice': st.switches,
                                   'measure': 'distinct order of (client, operation, path) in runs where the scheduler had a choice'},
        'node_outcomes': dict(sorted(st.outcomes.items())),
        'counters': dict(sorted(st.counts.items())),
        'components': {'real': check.real, 'stub': check.stub},
        'known_findings_seen': dict(st.known),
        'harness_errors': len(st.errors),
        'determinism_mismatches': st.mismatch,
    }
    cov.update(extra)
    ev = {'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
          'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f'.{check.pid}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.rename(tmp, os.path.join(HERE, 'evidence', f'{check.pid}.json'))


def boot():
    from harness import node
    node.bootstrap()
    root = core.fresh_root('boot')
    try:
        node.prewarm(root)
    finally:
        core.drop_root(root)
    import gc
    gc.collect()
    gc.freeze()


def main_check(pid, tier, seed, lanes=None, total=None, cap=None, quiet=False):
    t0 = time.monotonic()
    check = load_check(pid)
    known = [k for k in load_known() if k['property'] == pid]
    try:
        boot()
    except Exception:  # noqa: BLE001
        print('the package cannot be loaded:', traceback.format_exc()[-2000:])
        return 2
    lanes = lanes or min(8, os.cpu_count() or 1)
    total = total or check.tiers[tier]
    cap = cap or (600 if tier == 'quick' else 3 * 3600)
    st, viols, dead = run_lanes(check, tier, seed, total, lanes, cap, known)
    v = viols[0] if viols else None
    rc = 0
    extra = {'lanes': lanes}
    if v:
        m, tries = minimise(check, v, known)
        extra['minimiser_runs'] = tries
        if m is None:
            # not reproduced in this process: keep the original, a fresh process may still reproduce it
            m = v
            extra['minimiser_note'] = 'not reproduced in the parent process'
        d = os.path.join(HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}-{tier}-{seed}-{v["index"]}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'index': v['index'], 'class': v['class'],
                       'message': m['message'], 'scenario': m['scenario'], 'trace': m['trace'], 'digest': m['digest'],
                       'original': {'scenario': v['scenario'], 'trace': v['trace'], 'message': v['message']}}, f, indent=1, default=str)
        extra['replay'] = path
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  seed={seed} index={v["index"]} class={v["class"]}')
        print('  ' + m['message'][:1500].replace('\n', '\n  '))
        nf = sum(len(x.get('faults', ())) for x in m['trace'].values())
        ns = sum(len(x.get('schedule', ())) for x in m['trace'].values())
        print(f'  minimised to {nf} faults and {ns} scheduling decisions in {tries} re-executions')
        rc = 1
    for k, n in sorted(st.known.items()):
        print(f'KNOWN-FINDING: property={pid} {k} ({n} times)')
    if st.errors:
        print(f'harness errors: {len(st.errors)}')
        for e in st.errors[:2]:
            print(json.dumps(e, default=str)[:3500])
        rc = rc or 2
    if dead:
        print(f'{dead} lanes died')
        rc = rc or 2
    wall = time.monotonic() - t0
    evidence(check, tier, seed, st, total, wall, v, extra)
    core.drop_all()
    if not quiet:
        print(f'{pid} {tier}: {st.scen}/{total} scenarios, {st.runs} simulated runs, {sum(st.faults.values())} faults, '
              f'{len(st.scheds)} interleavings, {st.sim_ns / 1e9:.1f} simulated s, {wall:.1f} s'
              + (f", determinism {st.counts['determinism_checked'] - st.counts['determinism_mismatch']}/{st.counts['determinism_checked']}"))
    return rc


def main_replay(path):
    with open(path) as f:
        rp = json.load(f)
    check = load_check(rp['property'])
    boot()
    st = Stats()
    v, trace, dig = execute(check, rp['scenario'], st, rp['trace'], ())
    core.drop_all()
    if v is None:
        print(f'replay: no violation (property {rp["property"]} held)')
        return 0
    print(f'VIOLATION property={rp["property"]} replay={path}')
    print(f'  class={v.cls} {"same" if v.cls == rp["class"] else "DIFFERENT"} class, '
          f'{"same" if dig == rp["digest"] else "DIFFERENT"} history digest {dig}')
    print('  ' + v.msg[:3000])
    return 1


def main(argv):
    if argv and argv[0] == 'replay':
        return main_replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    opts = dict(a.split('=', 1) for a in argv[2:])
    seed = int(opts.get('seed', os.environ.get('VERIF_SEED', '1')))
    return main_check(pid, tier, seed, lanes=int(opts['lanes']) if 'lanes' in opts else None,
                      total=int(opts['total']) if 'total' in opts else None,
                      cap=float(opts['cap']) if 'cap' in opts else None)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = 2
    try:
        rc = main(sys.argv[1:])
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    finally:
        core.drop_all()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
