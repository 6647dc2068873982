"""Makes and validates the planted bugs of /verif/seeded.

    plant.py make ID...      patch.diff, demo.sh, demo.py, meta.json from the definition in tools/bugs/*.py
    plant.py valid ID...     demo on the unchanged tree, then build, tests and demo with the patch
    plant.py trial ID... [-- CHECK...]   demo and checks of a definition, on a scratch copy
    plant.py catch ID... [-- CHECK...]   runs checks (default: the one of its property) with the patch

make and valid work on /repo itself and always undo the patch; catch works on a scratch copy.
"""
import glob, json, os, re, runpy, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
S = V + '/seeded'
DEMO = '''#!/bin/bash
# exit 0: behaves; exit 1: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$d/mpl OMP_NUM_THREADS=1 PYTHONPYCACHEPREFIX=$d/pyc
cd "$d" && /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def bugs():
    out = {}
    for f in sorted(glob.glob(HERE + '/bugs/*.py')):
        out.update({b['id']: b for b in runpy.run_path(f)['BUGS']})
    return out


def clean():
    r = sh('git -C /repo checkout -- . && git -C /repo status --short')
    assert not r.stdout.strip(), r.stdout


def make(b):
    clean()
    d = f'{S}/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b['edits']:
            p = '/repo/cfdtools/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
    finally:
        clean()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)


def apply(i):
    clean()
    r = sh(f'git -C /repo apply {S}/{i}/patch.diff')
    assert r.returncode == 0, r.stderr


def demo(i):
    r = sh(f'bash {S}/{i}/demo.sh', cwd='/repo', timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


def valid(i):
    clean()
    rc0, out0 = demo(i)
    try:
        apply(i)
        b = sh('bash /opt/vp/build.sh').returncode
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/plant.json'))
        names = base.get('stable') or base.get('passed') or base
        passed = set(res.get('passed', []))
        missing = [n for n in names if n not in passed]
        rc1, out1 = demo(i)
    finally:
        clean()
    ok = rc0 == 0 and b == 0 and not missing and rc1 != 0
    print(f'{i}: {"VALID" if ok else "INVALID"} demo {rc0}->{rc1} build {b} missing {missing[:3]}')
    if rc0 or not rc1 or not ok:
        print('   unchanged:', out0, '\n   patched:', out1)
    return ok


def catch(i, checks):
    """on a scratch copy of the sources, so that /repo stays as it is"""
    prop = json.load(open(f'{S}/{i}/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='plant-', dir='/dev/shm')
    try:
        sh(f'git -C /repo archive HEAD cfdtools | tar -x -C {d}')
        r = sh(f'cd {d} && git init -q . && git apply --include="cfdtools/*" {S}/{i}/patch.diff')
        assert r.returncode == 0, r.stderr
        for c in checks or [prop]:
            t = time.time()
            r = sh(f'cd {V} && VERIF_REPO={d} VERIF_SEED=1 VERIF_TIER=quick bash run.sh {c} quick')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f'{i}: {c} rc={r.returncode} {time.time() - t:.0f}s {"CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "NO ANSWER"} {" ".join(v)[:200]}', flush=True)
            if r.returncode:
                print('    ' + '\n    '.join((r.stdout + r.stderr).strip().splitlines()[-6:])[:1200], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trial(b, checks):
    """a definition on a scratch copy: demo without and with the edits, then the checks"""
    d = tempfile.mkdtemp(prefix='plant-', dir='/dev/shm')
    try:
        sh(f'git -C /repo archive HEAD cfdtools | tar -x -C {d}')
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        r0 = sh(f'bash {d}/demo.sh', cwd=d, timeout=300)
        for f, old, new in b['edits']:
            p = f'{d}/cfdtools/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        r1 = sh(f'bash {d}/demo.sh', cwd=d, timeout=300)
        print(f'{b["id"]}: demo {r0.returncode}->{r1.returncode}', flush=True)
        if r0.returncode or not r1.returncode:
            print('   unchanged:', (r0.stdout + r0.stderr).strip()[-600:])
        print('   patched:', (r1.stdout + r1.stderr).strip()[-300:])
        for c in checks or [b['property']]:
            t = time.time()
            r = sh(f'cd {V} && VERIF_REPO={d} VERIF_SEED=1 VERIF_TIER=quick bash run.sh {c} quick')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f'{b["id"]}: {c} rc={r.returncode} {time.time() - t:.0f}s {"CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "NO ANSWER"}', flush=True)
            if r.returncode:
                print('    ' + '\n    '.join((r.stdout + r.stderr).strip().splitlines()[-5:])[:900], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    mode, args = sys.argv[1], sys.argv[2:]
    checks = []
    if '--' in args:
        k = args.index('--')
        args, checks = args[:k], args[k + 1:]
    B = bugs()
    ids = [i for a in args for i in (sorted(B) if a == 'all' else [x for x in sorted(set(B) | set(os.listdir(S))) if re.fullmatch(a, x)])]
    for i in ids:
        if mode == 'make':
            make(B[i])
        elif mode == 'trial':
            trial(B[i], checks)
        elif mode == 'valid':
            valid(i)
        else:
            catch(i, checks)
