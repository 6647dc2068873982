"""several checks in one process, without minimisation (for mutate.py): hunt_one.py C01=60 C05=60 ..."""
import json, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import engine  # noqa: E402
from sim import core  # noqa: E402

pairs = [a.split('=') for a in sys.argv[1:]]
checks = [(engine.load_check(p), int(n)) for p, n in pairs]
got = None
t0 = time.time()
try:
    engine.boot()
    for c, n in checks:
        st, viols, dead = engine.run_lanes(c, 'quick', 1, n, 4, 300, [])
        if viols:
            got = [c.pid, viols[0]['class'], viols[0]['index'], viols[0]['message'][:400]]
        elif st.errors or dead:
            got = [c.pid, 'harness', dead, json.dumps(st.errors[:1], default=str)[-400:]]
        if got:
            break
except Exception as e:
    got = ['boot', type(e).__name__, 0, str(e)[:300]]
print('RESULT ' + json.dumps([got, round(time.time() - t0)]))
sys.stdout.flush()
core.drop_all()
os._exit(0)
