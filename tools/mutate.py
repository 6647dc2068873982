"""Automated planted changes: which mutants of the package survive its tests, and which of those the checks see.

    mutate.py gen  DIR [seed n]      mutants -> DIR/all.json, those which pass the stable tests -> DIR/alive.json
    mutate.py hunt DIR [part parts]       checks (reduced tiers) against DIR/alive.json -> DIR/result.jsonl
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['_cli.py', 'api.py', 'data.py', 'cgns/cgns.py', 'gmsh/reader.py', 'gmsh/_gmsh.py', 'hdf5/_hdf5.py', 'ic3/_ic3.py', 'ic3/reader_legacy.py',
         'ic3/readerV4.py', 'ic3/writerV2.py', 'ic3/writerV3.py', 'ic3/writerV4.py', 'meshbase/_connectivity.py', 'meshbase/_elements.py',
         'meshbase/_mesh.py', 'meshbase/simple.py', 'probes/data.py', 'probes/plot.py', 'vtk/_vtk.py', 'vtk/_vtkList.py']
CHECKS = {'_cli.py': 'C05 C07 C04 C15 C10 C12 C13 C08 C09', 'api.py': 'C07 C12 C05 C11 C10', 'data.py': 'C04 C01 C02 C10 C13 C09 C08',
          'cgns/cgns.py': 'C05 C13 C14 C08 C10', 'gmsh/reader.py': 'C05 C14 C10 C11 C08', 'gmsh/_gmsh.py': 'C05 C14', 'hdf5/_hdf5.py': 'C04 C13 C08 C09 C06 C10',
          'ic3/_ic3.py': 'C01 C14 C08 C06 C09 C10', 'ic3/reader_legacy.py': 'C01 C14 C08 C05 C06 C09 C10 C13', 'ic3/readerV4.py': 'C02 C08 C09 C14 C10 C13 C06',
          'ic3/writerV2.py': 'C01 C02 C05 C10 C09 C06 C13', 'ic3/writerV3.py': 'C01 C05 C10', 'ic3/writerV4.py': 'C02 C10 C09 C13 C06', 'meshbase/_connectivity.py': 'C01 C02 C05 C10 C03',
          'meshbase/_elements.py': 'C01 C05 C10 C11 C03', 'meshbase/_mesh.py': 'C01 C05 C10 C02 C09', 'meshbase/simple.py': 'C05 C07', 'probes/data.py': 'C15 C08 C14',
          'probes/plot.py': 'C15', 'vtk/_vtk.py': 'C03 C04 C08 C10 C06 C13 C14 C11', 'vtk/_vtkList.py': 'C04 C08 C10 C09 C14 C12'}
TOTAL = {'C10': 60, 'C15': 300, 'C07': 60}
SKIP = re.compile(r'spectr|^_?plot|_repr|covar|volumes|dist_matrix|^compute_(?!U|M|A|inv|ent)')
ONLY = os.environ.get('MUT_ONLY')        # only functions with such names, and what they print
MORE = {'_cli.py': 'C18', 'vtk/_vtk.py': 'C16 C18', 'vtk/_vtkList.py': 'C18', 'ic3/_ic3.py': 'C18', 'meshbase/_mesh.py': 'C18', 'gmsh/reader.py': 'C18',
        'cgns/cgns.py': 'C18', 'ic3/reader_legacy.py': 'C18', 'ic3/readerV4.py': 'C18', 'meshbase/_connectivity.py': 'C18', 'hdf5/_hdf5.py': 'C18', 'api.py': 'C18', 'data.py': 'C18'}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def edits(src):
    """(start, end, text, what) of single changes"""
    tree = ast.parse(src)
    off = [0]
    for l in src.encode().splitlines(keepends=True):
        off.append(off[-1] + len(l))
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    raw = src.encode()

    def rep(n, text, what):
        s, e = pos(n)
        if raw[s:e].decode() != text:
            out.append((s, e, text, f'{what} l.{n.lineno}'))

    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
           ast.Is: 'is not', ast.IsNot: 'is'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+', ast.Pow: '*'}

    def visit(n, fun):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fun = n.name
            if SKIP.search(fun):
                return
        t = lambda x: ast.get_source_segment(src, x)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        out0 = len(out)
        if not ONLY and isinstance(n, ast.Call) and t(n.func).startswith(('log.', 'logging.', 'print')):
            return
        if not ONLY and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and t(n.value.func).startswith(('log.', 'logging.', 'print')):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f'{t(n.left)} {CMP[type(n.ops[0])]} {t(n.comparators[0])}', 'compare')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', ''), str)):
            rep(n, f'({t(n.left)} {BIN[type(n.op)]} {t(n.right)})', 'arith')
            rep(n, f'({t(n.left)})', 'arith-left')
        if isinstance(n, ast.BoolOp):
            rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({t(v)})' for v in n.values) + ')', 'bool')
            for v in n.values:
                rep(n, t(v), 'bool-one')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, t(n.operand), 'unary')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), 'const+1')
            if n.value > 0:
                rep(n, str(n.value - 1), 'const-1')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), 'flip')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, 'False', 'cond')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'cond')
        if isinstance(n, (ast.Assert, ast.Raise, ast.Break, ast.Continue, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass', 'drop')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, 'pass', 'drop')
        if isinstance(n, ast.AugAssign):
            rep(n, f'{t(n.target)} = {t(n.value)}', 'aug')
        if isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                rep(n, f'{t(n.func)}({t(n.args[1])}, {t(n.args[0])})', 'swap')
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    # drop the keyword with the comma before it (or after)
                    a = s
                    while a > 0 and raw[a - 1:a] in (b' ', b'\n'):
                        a -= 1
                    if raw[a - 1:a] == b',':
                        out.append((a - 1, e, '', f'nokey {k.arg} l.{n.lineno}'))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                rep(n, t(n.func.value), 'nocopy')
            if t(n.func) in ('sorted', 'list', 'set', 'abs', 'np.array', 'np.abs', 'reversed') and len(n.args) == 1 and not n.keywords:
                rep(n, t(n.args[0]), 'nocall')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, t(n.value), 'noslice')
        if isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'ret')
        if isinstance(n, ast.For):
            rep(n.iter, f'list({t(n.iter)})[1:]', 'for1')
            rep(n.iter, f'list({t(n.iter)})[:-1]', 'for-1')
        if ONLY and not re.search(ONLY, fun):
            del out[out0:]
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and c in n.decorator_list:
                continue
            visit(c, fun)
    visit(tree, '')
    return out


def scratch():
    d = tempfile.mkdtemp(prefix='mut-', dir='/dev/shm')
    assert sh(f'git -C /repo archive HEAD | tar -x -C {d}').returncode == 0
    return d


def test(m, d):
    p = f'{d}/cfdtools/{m["file"]}'
    keep = open(p).read()
    try:
        open(p, 'w').write(m['text'])
        r = sh(f'cd {d} && rm -rf tests/build && PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 timeout 60 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --no-cov --timeout=30 tests')
        return r.returncode == 0
    finally:
        open(p, 'w').write(keep)


def gen(D, seed=1, n=1200):
    os.makedirs(D, exist_ok=True)
    r = random.Random(seed)
    alls = []
    for f in FILES:
        src = open('/repo/cfdtools/' + f).read()
        raw = src.encode()
        for s, e, text, what in edits(src):
            new = (raw[:s] + text.encode() + raw[e:]).decode()
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                continue
            alls.append({'file': f, 'what': what, 'from': raw[s:e].decode()[:200], 'to': text[:200], 'text': new})
    print(len(alls), 'mutants', flush=True)
    r.shuffle(alls)
    alls = alls[:n]
    import queue
    q = queue.Queue()
    for _ in range(6):
        q.put(scratch())

    def one(m):
        d = q.get()
        try:
            return test(m, d)
        finally:
            q.put(d)
    with ThreadPoolExecutor(6) as ex:
        ok = list(ex.map(one, alls))
    while not q.empty():
        shutil.rmtree(q.get())
    alive = [m for m, k in zip(alls, ok) if k]
    json.dump(alive, open(D + '/alive.json', 'w'))
    print(len(alive), 'of', len(alls), 'pass the tests')


def hunt(D, part=0, parts=1):
    alive = json.load(open(D + '/alive.json'))
    done = set()
    if os.path.exists(D + '/result.jsonl'):
        done = {json.loads(l)['k'] for l in open(D + '/result.jsonl')}
    d = scratch()
    try:
        for k, m in enumerate(alive):
            if k in done or k % parts != part:
                continue
            p = f'{d}/cfdtools/{m["file"]}'
            keep = open(p).read()
            open(p, 'w').write(m['text'])
            t = time.time()
            arg = ' '.join(f'{c}={TOTAL.get(c, 100)}' for c in (MORE if ONLY else CHECKS)[m['file']].split())
            x = sh(f'cd {V} && source ./env.sh && VERIF_REPO={d} $PY tools/hunt_one.py {arg}', executable='/bin/bash')
            l = [l for l in x.stdout.splitlines() if l.startswith('RESULT ')]
            got = json.loads(l[-1][7:])[0] if l else ['none', x.returncode, 0, x.stderr[-300:]]
            open(p, 'w').write(keep)
            with open(D + '/result.jsonl', 'a') as f:
                f.write(json.dumps(dict(k=k, file=m['file'], what=m['what'], frm=m['from'], to=m['to'], got=got, t=round(time.time() - t))) + '\n')
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    {'gen': gen, 'hunt': hunt}[sys.argv[1]](sys.argv[2], *map(int, sys.argv[3:]))
