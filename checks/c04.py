"""C04: live values and published constants never change."""
import sys

from sim import engine, gen
from sim.canon import canon, fingerprint
from sim.lang import Env, evaluate, label, show
from . import c09
from .c09 import Check as C09
from .common import ThreadCheck, digest, short, strategy

CONSTANTS = ['UTC', 'BADI', 'MONTHNAMES', 'MONTHNAMES_ABV', 'DAYNAMES',
             'DAYNAMES_ABV', 'MINYEAR', 'MAXYEAR', 'BADI_COORD', 'GMT_COORD',
             'BADI_IANA', 'date.min', 'date.max', 'time.min', 'time.max',
             'datetime.min', 'datetime.max', 'date.resolution',
             'time.resolution', 'datetime.resolution', 'timezone.utc',
             'timezone.badi', 'timezone.min', 'timezone.max']
PACKAGE = ['UTC', 'BADI', 'MONTHNAMES', 'MONTHNAMES_ABV', 'DAYNAMES',
           'DAYNAMES_ABV', 'MINYEAR', 'MAXYEAR', 'BADI_COORD', 'GMT_COORD',
           'BADI_IANA', '__version__']
INCLUDE = [('val', 'locale', 'lists'), ('val',), ('val', 'config', 'local'),
           ('lists', 'bc'), ('val', 'usertz', 'bad'), ('val', 'fmt', 'parse'),
           ('calc', 'local', 'config', 'usertz', 'bad', 'lists', 'locale'),
           ('parse', 'locale', 'fmt'),
           ('lists',), ('val', 'lists', 'config', 'local', 'clock')]


def constants():
    import badidatetime
    d = sys.modules['badidatetime.datetime']
    out = {}

    for name in CONSTANTS:
        obj = d

        try:
            for p in name.split('.'):
                obj = getattr(obj, p)
            out['datetime.' + name] = fingerprint(obj)
        except AttributeError:
            out['datetime.' + name] = 'missing'

    for name in PACKAGE:
        obj = getattr(badidatetime, name, None)
        out['package ' + name] = fingerprint(obj)

    for c in (badidatetime.BahaiCalendar, badidatetime.GregorianCalendar):
        for n in sorted(dir(c)):
            v = getattr(c, n)

            if not n.startswith('_') and not callable(v):
                out[f'{c.__name__}.{n}'] = canon(v)

    tables = getattr(d, '_td_utils', None)

    for n in sorted(dir(tables)):
        if 'NAMES' in n and not n.startswith('_'):
            out['names ' + n] = canon(getattr(tables, n))

    return out


class Check(ThreadCheck):
    ID = 'C04'
    RUNS = {'quick': 600, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: a population of live values is '
                 're-inspected after every call under seeded interleavings, '
                 'failures and configuration changes')
    RULE = ('4-9 values, lists and all published constants; 1-3 threads of '
            'calls that use them; after each call some values and at the end '
            'all are compared with the same value freshly made in another '
            'process; results of calls are compared with themselves at the '
            'moment they were returned; non-trivial: at least one later call; '
            'distinct = distinct call sequences and schedules')
    MEASURE = 'distinct schedules with their calls'
    ASSUMES = ['a value is what its public accessors, text, hash and order '
               'report (private fields are not compared)']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48)}
        shared, kinds = gen.shared_objects(rng, rng.randint(3, 7))

        for kind in ('list-short', 'list-long', 'list-greg'):
            if rng.random() < 0.5:
                d = gen.Draw(rng)
                y, m, day = d.ymd()
                n = rng.choice((0, 2, 3, 3, 4))
                t = d.hmsu()[:n]

                if n and rng.random() < 0.3:
                    t = t[:rng.randrange(n)] + (0,) * rng.randint(1, 3)
                    t = t[:4]
                kinds[kind] = [len(shared)]
                shared.append(gen.L(*{
                    'list-short': (y, m, day), 'list-greg': d.gdate(),
                    'list-long': (*gen.long_of(y), m, day)}[kind], *t))

        if rng.random() < 0.5:
            kinds.setdefault('tz', []).append(len(shared))
            shared.append({'c': rng.choice(('LOCAL', 'UTC', 'BADI'))})

        if rng.random() < 0.5:
            kinds.setdefault('datetime', []).append(len(shared))
            shared.append(gen.F('datetime.fromtimestamp',
                                gen.Draw(rng).ts()))

        sc['shared'] = shared
        sc['places'] = gen.PLACENAMES

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        include = rng.choice(INCLUDE)
        pool, tasks, n = [], [], 0

        for t in range(rng.choice((1, 2, 2, 3))):
            ops = gen.sequence(rng, rng.choice((2, 4, 6, 8)), include,
                               ('heavy',), kinds, pool, near=0.6)
            tasks.append([{'id': n + i, 'x': o.expr, 'tpl': o.name,
                           'look': sorted(rng.sample(
                               range(len(shared)),
                               min(len(shared), 2 - (i > 2))))}
                          for i, o in enumerate(ops)])
            n += len(ops)

        if rng.random() < 0.25:
            n = self.environment(rng, sc, tasks, n)

        sc['tasks'] = tasks

        if rng.random() < 0.15:
            t = rng.randrange(len(tasks))
            op = rng.choice(tasks[t])
            sc['faults'] = [{'task': t, 'op': op['id'],
                             'ev': rng.choice((5, 20, 60, 200, 900)),
                             'exc': rng.choice(('KeyboardInterrupt',
                                                'MemoryError'))}]
        elif index % 5:
            # calls follow each other, threads alternate between calls
            sc['notrace'] = True
            sc['strategy'] = {'kind': 'none', 'opp': 0.3}
            return sc

        strategy(rng, sc, self.traced)

        if sc.get('faults'):
            sc.pop('mode', None)
        return sc

    def environment(self, rng, sc, tasks, n):
        """The locale or the system's zone changes between parses."""
        c9 = C09()
        c9.zones = rng.choice([c09.ZONES] + c09.FAMILIES)
        sc.update(prepare='c09', loc='C', tz=rng.choice(c9.zones))
        few = rng.sample(c09.FORMATS, 2)
        ops = rng.choice(tasks)

        for _ in range(rng.choice((2, 3, 4))):
            at = rng.randrange(len(ops) + 1)
            ops[at:at] = [{'id': n, 'x': c9.change(rng, sc), 'tpl': 'env'},
                          {'id': n + 1, 'x': c9.parse(rng, few),
                           'tpl': 'env'}]
            n += 2
        return n

    def traced(self, sc, op):
        if op['x'].get('f', '').startswith('env.'):
            return {'nev': 1, 'hot': [], 'lock': []}
        return engine.solo(op['x'], {'shared': sc['shared']},
                           sc.get('config'), traced=True,
                           focus=sc.get('focus'))

    def fp(self, sc, i):
        return engine.solo({'fp': {'s': i}}, {'shared': sc['shared']},
                           sc.get('config'), traced=False)['out']

    def run_hooks(self, sc):
        looks = []
        live = []

        def after_op(sc, op, h, v, shared):
            for i in op.get('look', ()):
                looks.append((h['id'], i, engine.outcome_of(
                    lambda: canon(evaluate({'fp': {'s': i}}, Env(shared))))))

            if v is not None and len(live) < 40:
                live.append((h['id'], v, canon(v)))

        def finish(sc, shared):
            out = []

            for i in range(len(shared)):
                out.append(engine.outcome_of(
                    lambda: canon(evaluate({'fp': {'s': i}}, Env(shared)))))

            again = []

            for oid, v, c in live:
                now = canon(v)
                if now != c:
                    again.append((oid, c, now))

            return {'looks': looks, 'final': out, 'live': again,
                    'consts': constants(), 'nlive': len(live)}

        return {'after_op': after_op, 'finish': finish,
                'prepare': c09.prepare if sc.get('prepare') else None}

    def judge(self, sc, res, r):
        ops = {op['id']: op for o in sc['tasks'] for op in o}
        r.fired['configuration-change'] = sum(
            1 for h in res['history'] if h['x'].get('f') ==
            'set_local_coordinates' and h.get('out', '?')[0] == '=')

        r.fired['failing-call'] = sum(
            1 for h in res['history'] if h.get('out', '?')[0] == '!')

        if res['deadlock']:
            return

        fin = res['finish']

        for oid, i, got in fin['looks']:
            want = self.fp(sc, i)
            r.count('inspections')

            if got != want:
                r.bad('value-changed', label(sc['shared'][i]),
                      f"{show(sc['shared'][i])} (shared[{i}]) is not what it "
                      f"was after {show(ops[oid]['x'])}: "
                      f"{diff(want, got)}")
                return

        for i, got in enumerate(fin['final']):
            want = self.fp(sc, i)
            r.count('inspections')

            if got != want:
                r.bad('value-changed', label(sc['shared'][i]),
                      f"{show(sc['shared'][i])} (shared[{i}]) is not what it "
                      f"was at the end: {diff(want, got)}")
                return

        for oid, was, now in fin['live']:
            r.bad('result-changed', label(ops[oid]['x']),
                  f"the result of {show(ops[oid]['x'])} was {short(was)} and "
                  f"became {short(now)}")
            return

        r.count('live-results', fin['nlive'])
        want = self.constants_ref(sc)

        for name in want:
            r.count('constants-compared')
            if fin['consts'].get(name) != want[name]:
                r.bad('constant-changed', name, f"{name} is not what it was: "
                      f"{diff(want[name], fin['consts'].get(name))}")
                return

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = r.stats.get('inspections', 0) > 0
        r.shape = digest(r.shape, [[op['x'] for op in ops]
                                   for ops in sc['tasks']])
        return r

    _consts = {}

    def constants_ref(self, sc):
        if not Check._consts:
            Check._consts.update(engine.in_child(constants))
        return Check._consts


def diff(a, b, path=''):
    """The first difference between two canonical forms."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + f'[{i}]')
    return f'{short(a, 200)} became {short(b, 200)} (at {path})'
