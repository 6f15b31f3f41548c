"""C09: parsing is right while locale and time zone change under it."""
from sim import engine, gen
from sim.lang import ENVOPS, label, show
from sim.world import W
from .c05 import Check as C05
from .common import ThreadCheck, digest, short, strategy

LOCALES = ['C', 'C.UTF-8', 'en_US.UTF-8', 'POSIX']
ZONES = ['UTC', 'America/New_York', 'Europe/Paris', 'Asia/Tehran',
         'Australia/Sydney', 'Pacific/Auckland', 'GMT0', 'ABC5XYZ']
# Zones which share names or offsets.
FAMILIES = [['America/New_York', 'America/Panama', 'EST5', 'EST5EDT',
             'America/Jamaica'],
            ['Europe/Paris', 'Africa/Tunis', 'Europe/Berlin', 'CET-1'],
            ['Australia/Sydney', 'Australia/Brisbane', 'AEST-10AEDT'],
            ['UTC', 'GMT0', 'Europe/London', 'Europe/Lisbon'],
            ['ABC5XYZ', 'XYZ5ABC', 'ABC5', 'ABC6XYZ']]
NAMES = ['UTC', 'gmt', 'EST', 'EDT', 'CET', 'CEST', '+0330', 'AEDT', 'AEST',
         'NZDT', 'ABC', 'xyz', 'Utc']
FORMATS = gen.SAFE_FORMATS + [
    '%c', '%x', '%X', '%A %d %B %Y', '%a %b %d %Y', '%d.%m.%Y %I:%M %p',
    '%p %I %Y', '%Y-%j', '%G-W%V-%u', '%Y %U %w', '%y/%m/%d', '%Y-%m-%d %H%z',
    '%b %Y', '%Y-%m-%d%%', '%a', '%H h', '(%Y) [%m] {%d}', '%Y+%m*%d?',
    '%m-%Y-%d', '%d-%Y-%m', '%Y %m %d', '%Y %d %m', '%M:%H', '%H:%M',
    '%S:%M', '%y%m%d', '%d%m%y', '%m%d%y']


def prepare(sc):
    if sc.get('loc'):
        ENVOPS.setlocale(sc['loc'])
    if sc.get('tz'):
        ENVOPS.settz(sc['tz'])


engine.PREPARE['c09'] = prepare


class Check(ThreadCheck):
    ID = 'C09'
    RUNS = {'quick': 800, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: parsers race with locale and TZ '
                 'changes and cache eviction under seeded preemption and '
                 'injected exceptions; register check against undisturbed '
                 'parses')
    RULE = ('1-3 parsing threads and 0-1 threads changing LC_TIME and TZ, '
            'preempted mostly inside the parser; every result must be that of '
            'an undisturbed process in a locale and zone in force during the '
            'call, or an exception if something changed or was injected; '
            'non-trivial: a change, an injected exception or a preemption '
            'happened; distinct = distinct schedules and calls')
    MEASURE = 'distinct schedules with their calls'
    ASSUMES = ['installed locales: C, POSIX, C.UTF-8, en_US.UTF-8',
               'an exception is injected between lines, outside of handlers '
               'and with headers', 'a TZ change is os.environ and tzset '
               'together, as one step']
    zones = ZONES
    base_possible = staticmethod(C05.possible)

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48), 'prepare': 'c09',
              'loc': rng.choice(LOCALES), 'tz': rng.choice(ZONES),
              'shared': [], 'faults': []}
        self.zones = ZONES

        if rng.random() < 0.4:
            self.zones = rng.choice(FAMILIES)
            sc['tz'] = rng.choice(self.zones)

        if rng.random() < 0.8:
            sc['files'] = ['_strptime.py']

        few = rng.sample(FORMATS, rng.choice((1, 2, 4, 8)))
        tasks, n = [], 0
        pool = []

        for t in range(rng.choice((1, 2, 2, 3))):
            ops = []

            for _ in range(rng.choice((2, 3, 5, 8))):
                if pool and rng.random() < 0.35:
                    x = rng.choice(pool)
                else:
                    x = self.parse(rng, few)
                    pool.append(x)
                ops.append({'id': n, 'x': x})
                n += 1

            tasks.append(ops)

        if rng.random() < 0.75:
            ops = []
            for _ in range(rng.choice((1, 2, 3, 5))):
                ops.append({'id': n, 'x': self.change(rng, sc)})
                n += 1
            tasks.insert(rng.randrange(len(tasks) + 1), ops)

        if rng.random() < 0.3:          # changes made by a parser itself
            ops = rng.choice(tasks)
            ops.insert(rng.randrange(len(ops) + 1),
                       {'id': n, 'x': self.change(rng, sc)})
            n += 1

        sc['tasks'] = tasks
        sc['focus'] = rng.random() < 0.75

        if rng.random() < 0.3:
            t = rng.randrange(len(tasks))
            op = rng.choice(tasks[t])

            if 'strptime' in op['x'].get('f', ''):
                info = self.traced(sc, op)
                x = rng.random()
                evs = info['lock'] if x < 0.5 else info['hot'] if x < 0.8 \
                    else ()
                ev = rng.choice(evs) + rng.choice((0, 1)) if evs else \
                    engine.any_point(rng, info)
                sc['faults'] = [{'task': t, 'op': op['id'], 'ev': ev,
                                 'exc': rng.choice(('KeyboardInterrupt',
                                                    'MemoryError',
                                                    'SimTimeout'))}]

        sc['final'] = [{'id': 900 + i, 'x': rng.choice(pool)}
                       for i in range(2)]
        strategy(rng, sc, self.traced)

        if sc['strategy']['kind'] == 'gap' and not sc.get('files'):
            sc['strategy']['gap'] = rng.choice((300, 3000, 30000))

        if sc['faults']:
            sc.pop('mode', None)
        return sc

    def change(self, rng, sc):
        if rng.random() < 0.5:
            return gen.F('env.setlocale', rng.choice(LOCALES))
        return gen.F('env.settz', rng.choice(self.zones))

    def parse(self, rng, few):
        d = gen.Draw(rng)
        x = rng.random()

        if x < (0.2 if self.zones is ZONES else 0.6):
            name = rng.choice(NAMES)
            y, m, day = d.ymd()
            f = rng.choice(('%Y-%m-%d %z %Z', '%Z %z %Y-%m-%d',
                            '%Y-%m-%d %Z'))
            t = (f.replace('%Y', f'{abs(y):04d}').replace('%m', f'{m:02d}')
                 .replace('%d', f'{day:02d}').replace('%Z', name)
                 .replace('%z', rng.choice(('+0330', '-05:00', 'Z'))))
            return gen.F('datetime.strptime', t, f)

        if x < 0.35 and self.zones is ZONES:
            n = rng.randint(0, 12)
            f = f'{"abcdefghijklm"[n]}{n} %Y-%m-%d'
            return gen.F('datetime.strptime', gen.text_for(d, f), f)

        if 0.35 < x < 0.40 and self.zones is ZONES:
            return gen.F('datetime.strptime', '0181-01-01',
                         rng.choice(gen.BAD_FORMATS))

        f = rng.choice(few)
        v = d.datetime(aware=False, long=False)
        text = engine.solo(gen.M(v, 'strftime', f), {}, None,
                           traced=False)['out']
        text = text[1] if text[0] == '=' and isinstance(text[1], str) \
            else '0181-01-01'

        if rng.random() < 0.25:         # text of one format, other format
            f = rng.choice(few)

        return gen.F('datetime.strptime', text, f)

    def traced(self, sc, op):
        return engine.solo(op['x'], {}, None, extra={
            'prepare': 'c09', 'loc': sc['loc'], 'tz': sc['tz'],
            'files': sc.get('files')}, focus=sc.get('focus')) if 'strptime' in op['x']['f'] else {
                'nev': 1, 'hot': [], 'lock': []}

    def ref(self, x, loc, tz):
        return engine.solo(x, {}, None, traced=False, extra={
            'prepare': 'c09', 'loc': loc, 'tz': tz})['out']

    def run_hooks(self, sc):
        def finish(sc, shared):
            import locale
            import time
            from sim.canon import canon
            from sim.lang import Env, evaluate
            return [engine.outcome_of(
                lambda: canon(evaluate(op['x'], Env(shared))))
                for op in sc.get('final', ())]
        return {'finish': finish, 'prepare': prepare}

    def judge(self, sc, res, r):
        hist = sorted((h for h in res['history'] if 'out' in h),
                      key=lambda h: h['inv'])
        hit = {o for t, o, ev, exc in res['injected']}
        writes = {}

        for kind, first in (('env.setlocale', sc['loc']),
                            ('env.settz', sc['tz'])):
            writes[kind] = [{'inv': -2, 'ret': -1, 'v': first}] + [
                {'inv': h['inv'], 'ret': h['ret'], 'v': h['x']['a'][0]}
                for h in hist if h['x']['f'] == kind]

        for h in hist:
            if h['x']['f'].startswith('env.') or h['out'][0] == 'steps' or \
               h['id'] in hit:
                continue

            r.count('parses')
            locs = [w['v'] for w in self.base_possible(
                writes['env.setlocale'], h['inv'], h['ret'])]
            tzs = [w['v'] for w in self.base_possible(
                writes['env.settz'], h['inv'], h['ret'])]
            self.check(h['x'], h['out'], locs, tzs, r)

            if r.violations:
                return

        if res['deadlock']:
            return

        big = 1 << 60

        for op, got in zip(sc['final'], res['finish']):
            locs = [w['v'] for w in self.base_possible(
                writes['env.setlocale'], big, big)]
            tzs = [w['v'] for w in self.base_possible(
                writes['env.settz'], big, big)]
            self.check(op['x'], got, locs, tzs, r,
                       raises=len(locs) + len(tzs) > 2 and False)

    def check(self, x, got, locs, tzs, r, raises=True):
        changed = len(locs) + len(tzs) > 2

        if got[0] == '!' and changed and raises:
            r.count('raised-during-change')
            return

        wants = []

        for loc in dict.fromkeys(locs):
            for tz in dict.fromkeys(tzs):
                want = self.ref(x, loc, tz)

                if want == got:
                    return

                wants.append((loc, tz, want))

        r.bad('wrong-parse', 'datetime.strptime',
              f"{show(x)} gave {short(got)}; undisturbed it gives "
              f"{short(wants, 900)}")

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = r.nontrivial or bool(r.fired)
        r.shape = digest(r.shape, [[op['x'] for op in ops]
                                   for ops in sc['tasks']])
        return r

    def describe(self, sc, log):
        return [f"LC_TIME {sc['loc']}, TZ {sc['tz']}"] + super().describe(
            sc, log)
