"""
Which lines of the package do the generators' calls reach?
    LANG=C.UTF-8 TZ=UTC /opt/venv/bin/python tools/coverage.py [calls] [seed]
One process, no scheduling; for finding gaps in sim/gen.py only.
"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import boot                                        # noqa: E402
boot.install()
boot.keep_code()
boot.load()
from sim import gen, sched                                  # noqa: E402
from sim.canon import canon                                 # noqa: E402
from sim.lang import Env, evaluate                          # noqa: E402
from sim.world import W                                     # noqa: E402

n = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
W.zone = 'Asia/Tehran'
W.places = {p: (1.5, 2.5) for p in gen.PLACENAMES} if hasattr(
    gen, 'PLACENAMES') else {'Haifa': (32.8, 35.0)}
mon, hit = sys.monitoring, {}
mon.use_tool_id(1, 'coverage')


def line(code, no):
    hit.setdefault(code, set()).add(no)
    return mon.DISABLE


mon.register_callback(1, mon.events.LINE, line)
codes = [c for c in sched.package_codes() if '/tests/' not in c.co_filename]

for c in codes:
    mon.set_local_events(1, c, mon.events.LINE)

raised = {}

for i in range(n):
    ops = gen.sequence(rng, 5, include=('calc', 'locale', 'local', 'usertz',
                                        'val', 'parse', 'fmt', 'bc', 'gc',
                                        'clock', 'config', 'bad', 'variant'))
    for op in ops:
        try:
            canon(evaluate(op.expr, Env()))
        except BaseException as e:
            raised.setdefault(op.name, []).append(f'{type(e).__name__}: {e}')

for c in sorted(codes, key=lambda c: (c.co_filename, c.co_firstlineno)):
    lines = {no for _, _, no in c.co_lines() if no} - {c.co_firstlineno}
    miss = sorted(lines - hit.get(c, set()))
    if miss:
        print(f"{os.path.basename(c.co_filename)}:{c.co_qualname}: "
              f"{len(miss)}/{len(lines)}: "
              f"{'never called' if c not in hit else miss}")

print({k: len(v) for k, v in raised.items()})
