"""C06: now() and today() report one single reading of the clock."""
import sys

from sim import engine, gen
from sim.lang import label, show
from sim.world import W
from .common import ThreadCheck, digest, short, strategy

STEPS = [0.0, 1e-6, 1e-5, 0.001, 0.25, 0.9, 1.0, 2.5, 30.0, 61.0, 3600.0,
         43200.0, 86400.0, 86399.5, 31557600.0, 1e9]


class Check(ThreadCheck):
    ID = 'C06'
    RUNS = {'quick': 800, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: a seeded clock ticks and jumps '
                 'at every reading and at source lines inside the calls; '
                 'every answer is compared with the readings of its call')
    RULE = ('1-3 threads of now() and today() calls in both forms and with '
            'zones; the clock moves after every reading and every few lines, '
            'by microseconds to years in both directions; every answer must '
            'be the conversion of one reading taken in that call; '
            'non-trivial: the clock moved; distinct = distinct sequences of '
            'readings and context switches')
    MEASURE = 'distinct clock trajectories with schedules'
    ASSUMES = ['the conversion itself (fromtimestamp) is judged by C07 and '
               'C08, here it is the reference']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48)}
        shared, kinds = [], {}

        for i in range(2):
            kinds.setdefault('tz', []).append(len(shared))
            shared.append(gen.Draw(rng).tz())

        sc['shared'] = shared

        if rng.random() < 0.7:
            lat, lon, _ = gen.Draw(rng).place()
            sc['config'] = {'a': [float(lat), float(lon)]}

        sc['zone'] = rng.choice(gen.ZONES)
        x = rng.random()
        sc['wall'] = (round(rng.uniform(0, 2e9), 3) if x < 0.6 else
                      rng.choice((0.0, -0.5, 1e9, 1.7e9, 86399.999))
                      if x < 0.7 else round(rng.uniform(-5e10, 3e10), 2))
        big = rng.random() < 0.6
        sc['ticks'] = [rng.choice(STEPS if big else STEPS[:9]) *
                       rng.choice((1, 1, 1, -1)) for _ in range(
                           rng.choice((1, 2, 3, 5)))]

        if rng.random() < 0.5:
            sc['lines'] = [rng.choice((1, 3, 10, 100, 1000)),
                           rng.choice(STEPS[1:14]) * rng.choice((1, 1, -1))]

        tasks, n = [], 0

        for t in range(rng.choice((1, 1, 2, 3))):
            ops = []
            for _ in range(rng.choice((2, 3, 5, 8))):
                k = rng.choice(('now', 'now', 'nowtz', 'today', 'dtoday'))
                sh = {'short': rng.random() < 0.5}
                if k == 'now':
                    x = gen.F('datetime.now', **sh)
                elif k == 'nowtz':
                    x = gen.F('datetime.now', {'s': rng.randrange(
                        len(shared))}, **sh)
                elif k == 'today':
                    x = gen.F('date.today', **sh)
                else:
                    x = gen.F('datetime.today', **sh)
                if rng.random() < 0.15:     # of a class the user derived
                    c, m = x['f'].split('.')
                    x['f'] = gen.OWN[c] + '.' + m
                if rng.random() < 0.3 and k != 'nowtz':
                    x.pop('k', None)
                ops.append({'id': n, 'x': x})
                n += 1
            tasks.append(ops)

        sc['tasks'] = tasks
        strategy(rng, sc, self.traced)

        if sc.get('lines'):
            sc.pop('focus', None)

        return sc

    def traced(self, sc, op):
        return engine.solo(op['x'], self.base(sc), sc.get('config'),
                           focus=sc.get('focus'))

    def base(self, sc):
        return {'wall': sc['wall'], 'zone': sc['zone'],
                'shared': sc['shared']}

    def run_hooks(self, sc):
        ticks = sc['ticks']
        n = [0]

        def move(dt):
            # stay within the supported years
            w = W.wall + dt

            if -5.9e10 < w < 3.1e10:
                W.wall = w
                W.count('clock-back' if dt < 0 else 'clock-jump'
                        if dt > 1 else 'clock-tick')

        def policy(world):
            move(ticks[n[0] % len(ticks)])
            n[0] += 1

        hook = None

        if sc.get('lines'):
            every, dt = sc['lines']
            c = [0]

            def hook(task):
                c[0] += 1
                if c[0] % every == 0:
                    move(dt)

        def before(sc, op, h):
            # armed late: the configuration is made with a steady clock
            W.clock_policy = policy

        return {'line_hook': hook, 'before_op': before}

    def judge(self, sc, res, r):
        for h in res['history']:
            got = h.get('out')

            if got is None or got[0] == 'steps':
                continue

            reads = [v for t, o, v in res['readings'] if o == h['id']]
            x = h['x']
            ref = {'f': x['f'].split('.')[0] + '.fromtimestamp'}
            wants = []
            r.count('answers')
            r.count('readings', len(reads))

            for v in dict.fromkeys(reads):
                a = [{'F': repr(v)}] + list(x['a'])
                y = {**ref, 'a': a}
                if x.get('k'):
                    y['k'] = x['k']
                want = engine.solo(y, {**self.base(sc), 'wall': sc['wall']},
                                   sc.get('config'), traced=False)['out']
                wants.append([v, want])
                if want == got:
                    break
            else:
                r.bad('not-one-reading', label(x),
                      f"{show(x)} gave {short(got)}; the clock was read as "
                      f"{[v for v, w in wants]} which convert to "
                      f"{short([w for v, w in wants], 900)}")
                return

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = any(r.fired.get(k) for k in (
            'clock-back', 'clock-jump', 'clock-tick'))
        r.shape = r.digest
        return r

    def describe(self, sc, log):
        return [f"configuration {sc.get('config')}, zone {sc['zone']}, clock "
                f"starts at {sc['wall']}, moves by {sc['ticks']} at readings"
                f", lines {sc.get('lines')}"] + super().describe(sc, log)
