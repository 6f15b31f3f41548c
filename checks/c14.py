"""C14: every call ends, and the package works again when faults stop."""
from sim import engine, gen
from sim.lang import label, show
from sim.world import W
from . import c05, c09
from .c06 import STEPS
from .common import ThreadCheck, digest, short, strategy

EXCS = ('KeyboardInterrupt', 'MemoryError', 'SimTimeout')
LIMIT = 1000000         # line events; the longest call alone has about 60000
INCLUDE = [('calc', 'locale', 'local', 'usertz'), ('bc',), ('bc', 'gc'),
           ('val',), ('parse', 'fmt'), ('parse',), ('local', 'clock'),
           ('usertz', 'val'), ('clock',), ('bad', 'calc'), ('calc',),
           ('extreme', 'bad')]
PROBES = [gen.F('datetime.strptime', '0181-03-04', '%Y-%m-%d'),
          gen.F('datetime.now'), gen.F('date.today'),
          gen.F('set_local_coordinates', 35.682376, 51.288701),
          {'f': 'set_local_coordinates', 'a': [], 'k': {'locale': 'Haifa'}},
          gen.F('set_local_coordinates'),
          gen.F('datetime.fromtimestamp', 1700000000.25),
          gen.M(gen.F('datetime', 181, 3, 4, None, None, 5, 6), 'timestamp',
                cls='datetime'),
          gen.M(gen.F('datetime', 181, 3, 4, None, None, 5, 6), '__hash__',
                cls='datetime'),
          gen.M(gen.F('datetime', 181, 3, 4, None, None, 5, 6, 7, 8,
                      gen.F('TZWithCoords', 35.6, 51.2, 3.5)), 'astimezone',
                {'c': 'UTC'}, cls='datetime'),
          gen.M(gen.F('datetime', 181, 19, 4), 'strftime', '%c %j %U',
                cls='datetime'),
          gen.M(gen.F('BahaiCalendar'), 'badi_date_from_jd', 2460000.25,
                cls='BahaiCalendar'),
          {'op': 'add', 'a': [gen.F('date', 181, 19, 4),
                              gen.F('timedelta', 40)], 'cls': 'date'},
          {'dc': gen.F('datetime', 181, 0, 4)},
          {'pk': gen.F('datetime', 1, 10, 10, 3, 4, 5), 'p': 4}]


def prepare(sc):
    c09.prepare(sc)
    c05.prepare(sc)


engine.PREPARE['c14'] = prepare


class Check(ThreadCheck):
    ID = 'C14'
    RUNS = {'quick': 400, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: all faults at once (preemption, '
                 'aborts, interrupting handlers, failing network, zones and '
                 'user zones, clock, locale and zone changes); every call '
                 'must end, and calls after the faults must succeed')
    RULE = ('1-4 threads of any public calls with every kind of fault mixed; '
            'each call must return or raise within a bounded number of its '
            'own steps and of virtual seconds, without deadlock, and 2-4 '
            'calls per thread after the faults must succeed; non-trivial: '
            'some fault was injected; distinct = distinct schedules with '
            'their faults')
    MEASURE = 'distinct sequences of context switches with faults'
    ASSUMES = [f'bound: {LIMIT} lines of the package per call (the longest '
               'call needs about 60000 alone) and 5 virtual seconds per '
               'overlapping lookup of a place',
               'loops in C code, geopy or the standard library are not '
               'counted']

    def gen(self, rng, index):
        zones = rng.choice([c09.ZONES] + c09.FAMILIES)
        sc = {'seed': rng.getrandbits(48), 'prepare': 'c14',
              'places': c05.PLACES, 'net': {}, 'tzf': {}, 'faults': [],
              'calls': [], 'loc': rng.choice(c09.LOCALES),
              'tz': rng.choice(zones), 'zone': rng.choice(gen.ZONES)}
        shared, kinds = gen.shared_objects(rng, rng.randint(0, 4))
        sc['shared'] = shared
        sc['wall'] = round(rng.choice((rng.uniform(0, 2e9),
                                       rng.uniform(-5e10, 3e10))), 3)

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        writers = c05.Check()
        writers.zones = gen.ZONES
        c9 = c09.Check()
        c9.zones = zones
        include = rng.choice(INCLUDE)
        pconf = rng.choice((0, 0.2, 0.5, 0.9))
        penv = rng.choice((0, 0, 0.2, 0.4))
        few = rng.sample(c09.FORMATS, 3)
        pext = rng.choice((0, 0.1, 0.5))
        pool, tasks, n = [], [], 0

        for t in range(rng.choice((1, 2, 2, 3, 4))):
            ops = []

            for _ in range(rng.choice((1, 2, 3, 4))):
                x = rng.random()

                if x < pconf:
                    op = writers.writer(rng, sc, n, 0.6, rng.random() < 0.5)
                elif x < pconf + penv * (1 - pconf):
                    op = {'id': n, 'x': rng.choice((
                        c9.change, lambda r, s: c9.parse(r, few),
                        lambda r, s: writers.setzone(r, 0)['x']))(rng, sc)}
                elif rng.random() < pext:
                    op = {'id': n, 'x': gen.make('extreme', rng).expr}
                else:
                    o = gen.sequence(rng, 1, include, ('heavy', 'config'),
                                     kinds, pool, near=0.6)[0]
                    op = {'id': n, 'x': o.expr}

                ops.append(op)
                n += 1

            tasks.append(ops)

        first = n

        for ops in tasks:
            for x in rng.sample(PROBES, rng.choice((1, 2, 3))):
                ops.append({'id': n, 'x': x, 'probe': True})
                n += 1

        sc['tasks'] = tasks

        if rng.random() < 0.6:          # the clock is not steady
            sc['ticks'] = [rng.choice(STEPS) * rng.choice((1, 1, -1))
                           for _ in range(rng.choice((1, 2, 3)))]
            sc['lines'] = [rng.choice((10, 100, 1000, 10000)),
                           rng.choice(STEPS[1:14]) * rng.choice((1, 1, -1))]

        strategy(rng, sc, self.traced)
        sc.pop('focus', None)           # every loop is watched
        flat = [(t, op) for t, ops in enumerate(tasks) for op in ops
                if not op.get('probe')]

        if rng.random() < 0.6:
            for t, op in rng.sample(flat, min(len(flat), rng.randint(1, 3))):
                sc['faults'].append({
                    'task': t, 'op': op['id'], 'ev': self.where(rng, sc, op),
                    'exc': rng.choice(EXCS)})

        if rng.random() < 0.4:
            for i in range(rng.randint(1, 3)):
                t, op = rng.choice(flat)
                x = rng.choice(flat)[1]['x'] if rng.random() < 0.5 else \
                    rng.choice(PROBES)
                sc['calls'].append({
                    'task': t, 'op': op['id'], 'ev': self.where(rng, sc, op),
                    'id': 2000 + i, 'x': x, 'locking': 'strptime' in str(x)})

        if sc['faults'] or sc['calls']:
            sc.pop('mode', None)

        for ops in tasks:
            for op in ops:
                op['limit'] = LIMIT * (8 if sc.get('mode') else 1)

        return sc

    def where(self, rng, sc, op):
        info = self.traced(sc, op)
        x = rng.random()

        if info['lock'] and x < 0.5:
            return rng.choice(info['lock']) + rng.choice((0, 0, 1))
        if info['hot'] and x < 0.75:
            return rng.choice(info['hot']) + rng.choice((0, 1, 1, 2))
        return engine.any_point(rng, info)

    def traced(self, sc, op):
        if op['x'].get('f', '').startswith('env.'):
            return {'out': None, 'nev': 1, 'hot': [], 'lock': []}

        one = {'wall': sc.get('wall'), 'zone': sc.get('zone'),
               'shared': sc['shared'], 'places': c05.PLACES}
        net = sc['net'].get(str(op['id']))
        return engine.solo(op['x'], one, sc.get('config'), extra={
            'prepare': 'c14', 'net': {'0': net} if net else {}})

    def run_hooks(self, sc):
        n, c = [0], [0]

        def move(dt):
            w = W.wall + dt

            if -5.9e10 < w < 3.1e10:
                W.wall = w
                W.count('clock-back' if dt < 0 else 'clock-jump'
                        if dt > 1 else 'clock-tick')

        def policy(world):
            ticks = sc['ticks']
            move(ticks[n[0] % len(ticks)])
            n[0] += 1

        def hook(task):
            c[0] += 1
            every, dt = sc['lines']
            if c[0] % every == 0:
                move(dt)

        def before(sc, op, h):
            if sc.get('ticks'):
                W.clock_policy = policy

        return {'prepare': prepare, 'before_op': before,
                'line_hook': hook if sc.get('lines') else None}

    def judge(self, sc, res, r):
        ops = {op['id']: op for o in sc['tasks'] for op in o}
        inside = {}

        for c in res['interrupts']:
            if 'locale' in c['x'].get('k', {}):
                inside[c['during']] = inside.get(c['during'], 0) + 1

        def slow(h):
            return 'locale' in h['x'].get('k', {})

        for h in res['history']:
            if 'out' not in h or h['out'][0] == 'steps':
                continue

            over = [o for o in res['history'] if o is not h and
                    o['inv'] < h['ret'] and
                    o.get('ret', 1 << 60) > h['inv']]
            took = h['mono1'] - h['mono0']
            n = (slow(h) + sum(map(slow, over)) + sum(
                inside.get(o['id'], 0) for o in over + [h]))

            if took > c05.WAIT * (n + 1):
                r.bad('takes-too-long', label(h['x']),
                      f"{show(h['x'])} took {took:.1f} virtual seconds, {n} "
                      f"lookups overlap")

            if not ops[h['id']].get('probe'):
                continue

            r.count('calls-after-faults')

            if h['out'][0] == '!' and not (
                    'strptime' in str(h['x']) and any(
                        o['x'].get('f', '').startswith('env.')
                        for o in over)):
                r.bad('fails-after-faults', label(h['x']),
                      f"{show(h['x'])} gave {short(h['out'])} after faults "
                      f"{res['injected']}")

        if not res['deadlock'] and res['left']:
            r.bad('lock-left', '', 'a lock is still held after all threads '
                  f"have ended; aborted: {res['injected']}")

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = any(k != 'virtual-sleep' for k in r.fired)
        r.shape = digest(r.shape, r.fired)
        return r

    def describe(self, sc, log):
        out = [f"configuration {sc.get('config')}, zone {sc.get('zone')}, "
               f"locale {sc.get('loc')}, TZ {sc.get('tz')}, clock "
               f"{sc.get('wall')} moving by {sc.get('ticks')}, lines "
               f"{sc.get('lines')}"]
        for i, f in sc['net'].items():
            out.append(f'network for op {i}: {f}')
        for i, f in sc['tzf'].items():
            out.append(f'tz database for op {i}: {f}')
        return out + super().describe(sc, log) + [
            f"thread {c['task']}, op {c['op']}, event {c['ev']}: a handler "
            f"calls {show(c['x'])}" for c in sc['calls']]
