"""C13: a call made in the middle of another call disturbs neither."""
import copy

from sim import engine, gen
from sim.lang import label, show
from .c01 import HEAVY_ONLY
from .common import ThreadCheck, digest, short, strategy

INCLUDE = [('calc', 'locale', 'local'), ('bc',), ('bc', 'gc'), ('val',),
           ('parse', 'fmt'), ('parse',), ('local',), ('calc',), ('fmt',),
           ('val', 'bc', 'local'), ('variant', 'parse')]


def parses(x):
    return 'strptime' in str(x)


def plain(x):
    """The same expression, its user time zones making no calls."""
    if isinstance(x, dict):
        if x.get('f') == 'UserTZ':
            return {**x, 'k': {k: v for k, v in x.get('k', {}).items()
                               if k != 'call'}}
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


class Check(ThreadCheck):
    ID = 'C13'
    RUNS = {'quick': 600, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: handlers interrupt calls at '
                 'seeded points and make calls of their own on the same '
                 'thread, user time zones do so too; all answers compared '
                 'with each call alone')
    RULE = ('1-2 threads; calls are interrupted at seeded lines (next to '
            'writes of shared state or anywhere) by a handler which makes '
            'another call on the same thread, or ask a user time zone which '
            'makes calls; both must answer as alone; non-trivial: at least '
            'one such call was made; distinct = distinct sequences of '
            'interruptions and context switches')
    MEASURE = 'distinct sequences of interruptions and context switches'
    ASSUMES = ['a handler runs between two lines or byte codes, to its end',
               'a handler does not parse while the call it interrupts is a '
               'strptime() which holds its lock (as with the standard '
               'library)',
               'the reference is the same call on the same tree as the only '
               'call of a fresh process']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48), 'calls': []}

        if index % 60 == 31 and self.env_index % 4 == 2:
            return self.heavy(rng, sc)

        if index % 3 == 0:
            return self.zone_scenario(rng, sc)

        if index % 3 == 1:
            sc['shared'], tasks = gen.duel(rng, rng.choice((2, 2, 3)))
            xs = [x for o in tasks for x in o]
            n = rng.randint(1, max(1, len(xs) // 2))
            outer, inner = [xs[:n]], xs[n:] or xs
        else:
            shared, kinds = gen.shared_objects(rng, rng.randint(0, 4))
            sc['shared'] = shared
            include = rng.choice(INCLUDE)
            ops = gen.sequence(rng, rng.choice((2, 3, 5, 8)), include,
                               ('config', 'heavy', 'usertz'), kinds, [],
                               near=rng.choice((0.5, 0.9)))
            xs = [o.expr for o in ops]
            n = rng.randint(1, max(1, len(xs) - 1))
            outer, inner = [xs[:n]], xs[n:] or xs

            if len(outer[0]) > 1 and rng.random() < 0.3:
                outer = [xs[:n // 2], xs[n // 2:n]]

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        self.tasks(rng, sc, outer)
        self.interrupt(rng, sc, inner)
        return sc

    def tasks(self, rng, sc, outer):
        n = 0
        sc['tasks'] = []

        for xs in outer:
            sc['tasks'].append([{'id': n + i, 'x': x, 'tpl': ''}
                                for i, x in enumerate(xs)])
            n += len(xs)

        flat = [op for ops in sc['tasks'] for op in ops]
        sc['final'] = [dict(op) for op in rng.sample(flat,
                                                     min(3, len(flat)))]
        strategy(rng, sc, self.traced)

    def interrupt(self, rng, sc, inner):
        n = 0

        for t, ops in enumerate(sc['tasks']):
            for op in ops:
                info = self.traced(sc, op)

                for _ in range(rng.choice((0, 1, 1, 2, 3))):
                    x = rng.choice(inner) if rng.random() < 0.8 else op['x']
                    used = sorted(engine.used_shared(op['x']))

                    if used and rng.random() < 0.4:
                        x = {'fp': {'s': rng.choice(used)}}

                    y = rng.random()

                    if info['hot'] and y < 0.5:
                        ev = rng.choice(info['hot']) + rng.choice((0, 0, 1))
                    elif info.get('warm') and y < 0.75:
                        ev = rng.choice(info['warm']) + rng.choice((0, 0, 1))
                    else:
                        ev = engine.any_point(rng, info)

                    sc['calls'].append({
                        'task': t, 'op': op['id'], 'ev': ev, 'id': 1000 + n,
                        'x': x, 'locking': parses(x)})
                    n += 1

        if len(sc['tasks']) == 1 and sc.get('mode') == 'opcode':
            sc.pop('mode')
            strat = sc['strategy']
            sc['strategy'] = {**strat, 'kind': 'hot', 'hotp': 0.0}

    def zone_scenario(self, rng, sc):
        """Values whose time zone makes calls when it is asked."""
        d = gen.Draw(rng)
        kinds = {}
        inc = rng.choice(INCLUDE)
        ops = gen.sequence(rng, rng.choice((1, 2, 4)), inc,
                           ('config', 'heavy', 'usertz', 'locale'), kinds, [],
                           near=0.7)
        inner = [o.expr for o in ops]
        shared = []

        for i in range(rng.choice((1, 2))):
            tz = gen.F('UserTZ', rng.randint(-700, 700), 'USR', None,
                       call={'raw': inner})
            y, m, day = d.ymd(str(i))
            h, mi, s, us = d.hmsu(str(i))
            shared.append(gen.F('datetime', y, m, day, None, None, h % 24, mi,
                                s, us, tz))

        shared += inner[:2] if inner and 'bad' not in ops[0].tags else []
        sc['shared'] = shared

        if rng.random() < 0.5:
            for k in rng.sample(('isoformat', '__str__', 'date', 'timetz',
                                 'weekday', 'utcoffset', '__repr__',
                                 'toordinal'), 2):
                inner.append(gen.M({'s': 0}, k, cls='datetime'))

        nz = len([x for x in shared if 'UserTZ' in str(x)])
        xs = []

        for _ in range(rng.choice((1, 2, 3))):
            k = rng.randrange(nz)
            x = gen.query(rng, 'datetime', k, rng.randrange(nz))

            if 'pk' in x:
                x = gen.M({'s': k}, 'isoformat', cls='datetime')
            elif rng.random() < 0.3:
                x = rng.choice((
                    gen.M({'s': k}, 'astimezone', {'c': 'UTC'},
                          cls='datetime'),
                    gen.M({'s': k}, 'strftime', '%Y-%m-%d %z %Z %c',
                          cls='datetime'),
                    {'op': 'sub', 'a': [{'s': k}, gen.Draw(rng).datetime(
                        aware=True)], 'cls': 'datetime'}))
            xs.append(x)

        self.tasks(rng, sc, [xs])

        for op in sc['tasks'][0]:       # the calls of the zone count, too
            op['limit'] *= 8
        return sc

    def heavy(self, rng, sc):
        """The table of year starts is made again, and interrupted."""
        sc['shared'], kinds = gen.shared_objects(rng, 2)
        sc['only'] = HEAVY_ONLY
        sc['strategy'] = {'kind': 'hot', 'hotp': 0.0}
        sc['tasks'] = [[{'id': 0, 'x': gen.F('init_leap_cache'),
                         'tpl': ''}]]
        ops = gen.sequence(rng, 8, ('bc', 'val'), ('config', 'heavy'), kinds)
        sc['final'] = [{'id': 500 + i, 'x': o.expr} for i, o in
                       enumerate(ops[:2])]
        n = engine.solo(gen.F('init_leap_cache'), {'shared': []}, None,
                        only=HEAVY_ONLY)['nev']
        sc['calls'] = [{'task': 0, 'op': 0, 'ev': rng.randint(1, n),
                        'id': 1000 + i, 'x': o.expr, 'locking': False}
                       for i, o in enumerate(ops)]
        return sc

    def traced(self, sc, op):
        return self.ref(sc, op['x'], True)

    def ref(self, sc, x, traced=False):
        if x == gen.F('init_leap_cache'):
            return {'out': ['=', None]}

        return engine.solo(plain(x), {'wall': sc.get('wall'),
                                      'shared': plain(sc['shared'])},
                           sc.get('config'), traced=traced,
                           focus=sc.get('focus'))

    def run_hooks(self, sc):
        def finish(sc, shared):
            from sim.canon import canon
            from sim.lang import Env, evaluate
            return [engine.outcome_of(
                lambda: canon(evaluate(op['x'], Env(shared))))
                for op in sc.get('final', ())]
        return {'finish': finish}

    def judge(self, sc, res, r):
        def judge(kind, x, got, during=''):
            if got is None or got[0] == 'steps':
                return

            want = self.ref(sc, x)['out']

            if got != want:
                r.bad(kind, label(x), f"{show(x)}{during} gave {short(got)}, "
                      f"alone it gives {short(want)}")

        names = {op['id']: op['x'] for ops in sc['tasks'] for op in ops}
        made = [c for c in res['interrupts'] if c['out'] is not None]

        for c in made:
            judge('inner-answer', c['x'], c['out'],
                  f" made while {show(names[c['during']])} was running")

        for x, out in res['nested']:
            judge('inner-answer', x, out, ' made by a user time zone')

        for h in res['history']:
            judge('outer-answer', h['x'], h.get('out'), ' interrupted by ' +
                  '; '.join([show(c['x']) for c in made
                             if c['during'] == h['id']] or ['its time zone']))

        r.count('inner-calls', len(made) + len(res['nested']))

        if res['deadlock']:
            return

        if res['left']:
            r.bad('lock-left', '', 'a lock is still held')

        for op, got in zip(sc['final'], res['finish'] or ()):
            judge('later-answer', op['x'], got, ' later')

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = r.stats.get('inner-calls', 0) > 0
        r.shape = digest(r.shape, sc['calls'], [
            op['x'] for ops in sc['tasks'] for op in ops])
        return r

    def describe(self, sc, log):
        return super().describe(sc, log) + [
            f"thread {c['task']}, op {c['op']}, event {c['ev']}: a handler "
            f"calls {show(c['x'])}" for c in sc['calls']]
