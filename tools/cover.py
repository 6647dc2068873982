"""lines of the package executed by no check:  cover.py OUT.json [CHECK[=TOTAL]...]   (run with the environment of env.sh)"""
import glob
import json
import mmap
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import engine  # noqa: E402

R = os.environ.get('VERIF_REPO', '/repo') + '/cfdtools/'
FILES = sorted(glob.glob(R + '**/*.py', recursive=True))
INDEX = {f: k for k, f in enumerate(FILES)}
MAP = mmap.mmap(-1, len(FILES) * 4096)          # shared by every forked node


def line(code, n):
    k = INDEX.get(code.co_filename)
    if k is not None:
        MAP[k * 4096 + n] = 1
    return sys.monitoring.DISABLE


def lines_of(code, out):
    out.update(n for _, _, n in code.co_lines() if n)
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            lines_of(c, out)


mon = sys.monitoring
mon.use_tool_id(4, 'cover')
mon.register_callback(4, mon.events.LINE, line)
mon.set_events(4, mon.events.LINE)
out = sys.argv[1]
for a in sys.argv[2:]:
    pid, _, n = a.partition('=')
    engine.main_check(pid, 'quick', int(os.environ.get('SEED', 1)), total=int(n) if n else None)
res = {}
for f, k in INDEX.items():
    want = set()
    lines_of(compile(open(f).read(), f, 'exec'), want)
    res[f[len(R):]] = [sorted(n for n in want if not MAP[k * 4096 + n]), len(want)]
json.dump(res, open(out, 'w'))
