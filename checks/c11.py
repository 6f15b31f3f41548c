"""C11: every process gives the same answers whatever it starts in."""
import copy
import json
import os
import random
import re
import sys
import time
import zoneinfo

from check import ENVS
from sim import boot, engine, gen, hot
from sim.canon import canon
from sim.lang import Env, evaluate, label, show
from sim.world import W
from .common import Result, digest, short, shrink_list

LANGS = ['C', 'C.UTF-8', 'en_US.UTF-8', 'POSIX', '', None]
TZS = ['UTC', 'GMT', 'Etc/GMT+12', 'Etc/GMT-14', 'Pacific/Apia',
       'Asia/Pyongyang', 'America/Caracas', 'Africa/Casablanca',
       'Antarctica/Troll', 'Pacific/Chatham', 'Asia/Tehran', 'Europe/Dublin',
       'Europe/Berlin', 'Africa/Lagos', 'Asia/Tokyo', 'America/Los_Angeles',
       'Australia/Sydney', 'Africa/Nairobi', 'Asia/Kathmandu',
       'Australia/Lord_Howe', 'America/St_Johns', 'Australia/Adelaide',
       'Africa/Monrovia']
WALLS = [0.0, -1.5, 1e9, 1700000000.25, 951782400.5, 1710936000.0,
         1735689599.875, 4102444800.75, 2**31 - 0.5, -2208988800.0]
FAULTS = ['ZoneInfoNotFoundError', 'OSError', 'UnicodeDecodeError',
          'PermissionError', 'ValueError', 'MemoryError',
          'KeyboardInterrupt', 'LookupError']

# directives whose meaning depends on the language of the process
LANGUAGE = re.compile(r'%[-:]?[xXpr]')
TOOL = 3                            # of sys.monitoring


def fault(name):
    if name == 'ZoneInfoNotFoundError':
        return zoneinfo.ZoneInfoNotFoundError('no time zone found')
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad')
    return {'OSError': OSError, 'PermissionError': PermissionError,
            'ValueError': ValueError, 'MemoryError': MemoryError,
            'KeyboardInterrupt': KeyboardInterrupt,
            'LookupError': LookupError}[name]('simulated')


class Table:
    """
    Sees the class BahaiCalendar when its module has been executed: either
    notes what the rest of the load adds to it, or adds the same at once.

    Building the leap table is nearly all of the 5 s a load takes. A start
    with the ready table is cheap; what it shows counts only if the same start
    without it shows it too.
    """
    NAME = 'badidatetime.badi_calendar'

    def __init__(self, ready=None):
        self.ready = ready
        self.cls = None
        sys.meta_path.insert(0, self)

    def find_spec(self, name, path=None, target=None):
        if name != self.NAME:
            return None

        from importlib.machinery import PathFinder
        spec = PathFinder.find_spec(name, path, target)
        run = spec.loader.exec_module

        def exec_module(module):
            run(module)
            self.cls = getattr(module, 'BahaiCalendar', None)

            if self.ready:
                for k, v in self.ready.items():
                    setattr(self.cls, k, v)
            else:
                self.was = dict(vars(self.cls))

        spec.loader.exec_module = exec_module
        return spec

    def added(self):
        return {k: v for k, v in vars(self.cls).items()
                if v is not self.was.get(k, self) and
                type(v) in (int, float, dict, list, tuple)}


def table():
    import base64
    import pickle
    t = Table()
    boot.load()
    return base64.b64encode(pickle.dumps(t.added())).decode()


class Check:
    ID = 'C11'
    _table = None
    NOLOAD = True
    RUNS = {'quick': 300, 'thorough': 200000}
    TECHNIQUE = ('deterministic simulation: the same calls in simulated '
                 'processes that start cold in seeded environments, with '
                 'time zone lookup faults during the start; answers compared '
                 'between the processes')
    RULE = ('2-5 processes in different environments (LANG, TZ, hash seed, '
            'clock, local coordinates), some loading the package cold, after '
            'loads that failed or were aborted by an exception, make the '
            'same 15-60 configuration independent calls; non-trivial: '
            'always; distinct = distinct calls and environments')
    MEASURE = 'distinct call lists with their environments'
    STUB = ['clocks: virtual time', 'tzlocal.get_localzone: real lookup with '
            'simulated faults', 'geopy network adapter: simulated']
    ASSUMES = ['LANG is unset or an installed locale: C, POSIX, C.UTF-8, '
               'en_US.UTF-8', 'TZ names a zone of the installed tz database']

    def start(self, rng, cold, quick=False):
        if rng.random() < 0.65:
            tz = rng.choice(TZS)
        else:
            tz = rng.choice(sorted(zoneinfo.available_timezones()))
        s = {'cold': cold, 'env': rng.randrange(8),
             'lang': rng.choice(LANGS), 'tz': tz,
             'wall': rng.choice(WALLS) if rng.random() < 0.7 else
             round(rng.uniform(-2e9, 6e9), 3)}

        if tz in ('localtime', 'Factory', 'posixrules') or \
           tz.startswith(('posix', 'right')):
            s['tz'] = 'UTC'

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            s['config'] = {'a': [lat, lon]}

        if not cold:                    # as its environment is
            s['lang'] = s['tz'] = None
            return s

        if quick:
            s['ready'] = True

        if rng.random() < 0.3:
            s['faults'] = [rng.choice(FAULTS)
                           for _ in range(rng.choice((1, 1, 2)))]
        elif rng.random() < 0.6 and not quick:
            s['abort'] = [round(rng.random(), 6), rng.choice(
                ('KeyboardInterrupt', 'MemoryError')), rng.choice(
                ('line', 'new', 'hot', 'hot'))]
        return s

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48)}
        p = 0.7 if index % 6 == 0 else 0.7 if index % 2 else 0.0
        quick = index % 2 == 1
        first = self.start(rng, rng.random() < p and not quick)
        first['env'] = self.env_index
        sc['starts'] = [first] + [self.start(rng, rng.random() < p, quick)
                                  for _ in range(rng.choice((1, 1, 2, 3)))]

        if index == 0:                  # plain: every environment can start
            e = ENVS[self.env_index]
            sc['starts'][0] = {'cold': True, 'env': self.env_index,
                               'lang': e['LANG'], 'tz': e['TZ'],
                               'wall': float(e['VERIF_WALL'])}

        ops = gen.sequence(rng, rng.choice((30, 60, 120)), rng.choice(
            (('calc',), ('calc',), ('bc',), ('gc',), ('val',), ('parse',),
             ('parse',), ('fmt',))), ('heavy', 'local', 'locale', 'usertz', 'config',
                          'clock'), near=rng.choice((0.2, 0.6)))
        # the hash is the one thing that may differ
        sc['ops'] = [o.expr for o in ops if o.expr.get('m') != '__hash__' and
                     o.expr.get('op') != 'hash' and
                     not LANGUAGE.search(json.dumps(o.expr))]
        return sc

    # ------------------------------------------------- one cold process
    def cold(self, sc, s):
        engine.setup_world(sc)
        W.wall = s['wall']

        if not s['cold']:
            return self.calls(sc, s, {'warm-process': 1})

        for k, v in (('LANG', s['lang']), ('TZ', s['tz'])):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

        time.tzset()
        notes = {}
        bad = []

        if s.get('ready'):
            import base64
            import pickle
            Table(pickle.loads(base64.b64decode(Check._table)))
            notes['table-ready'] = 1

        pending = list(s.get('faults', ()))

        # loads that fail
        for name in pending:
            W.tz_fault = lambda: fault(name)
            calls = W.tz_calls

            try:
                boot.load()
            except BaseException as e:
                notes['load-failed'] = notes.get('load-failed', 0) + 1
                if type(e).__name__ != name:
                    notes['other-exception'] = 1
            else:
                if W.tz_calls > calls:
                    bad.append(('load-hides-failure', 'import badidatetime',
                                f'the package loaded although the time zone '
                                f'lookup raised {name}'))
                else:
                    notes['lookup-not-made'] = 1
            W.tz_fault = None

        if s.get('abort') and 'badidatetime' not in sys.modules:
            self.aborted_load(s, notes)

        try:
            boot.load()
        except BaseException as e:
            import traceback
            bad.append(('load-fails', 'import badidatetime',
                        f'loading failed: {traceback.format_exc()[-1500:]}'))
            return {'bad': bad, 'outs': [], 'notes': notes,
                    'fired': dict(W.fired)}

        r = self.calls(sc, s, notes)
        r['bad'] = bad
        return r

    def calls(self, sc, s, notes):
        engine.configure(s.get('config'))
        outs = []
        env = Env()

        for x in sc['ops']:
            out = engine.outcome_of(lambda: evaluate(x, env))
            outs.append(['=', canon(out[1])] if out[0] == '=' else out)

        return {'bad': [], 'outs': outs, 'notes': notes,
                'fired': dict(W.fired)}

    def aborted_load(self, s, notes):
        """An exception arrives between two lines of the loading package."""
        frac, name, how = s['abort']
        target = int(10 ** (frac * 5.5))
        draw = random.Random(frac)
        chance = {'line': 0, 'new': 1 / 700, 'hot': 1 / 12}[how]
        mon = sys.monitoring
        n = 0
        now = where = None

        def line(code, at):
            nonlocal n, now, where

            if not code.co_filename.startswith(boot.PKG):
                return mon.DISABLE

            n += 1

            if now and where in (None, code) or \
               n == target and how == 'line':
                mon.set_events(TOOL, 0)
                notes['load-aborted'] = 1
                raise fault(name)

            if how == 'line':
                return None

            if now:                     # waits for a line of where
                return mon.DISABLE

            # First visit of a line: abort before the next one?
            if how == 'new' or at in hot.analyse(code.co_filename)[0]:
                if not now and draw.random() < chance:
                    now = True
                    where = code if draw.random() < 0.6 else None
                    mon.restart_events()
                    return None

            return mon.DISABLE

        mon.use_tool_id(TOOL, 'abort')
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)

        try:
            boot.load()
        except (KeyboardInterrupt, MemoryError):
            pass
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)

    # ------------------------------------------------------------ driving
    def step(self, sc, i, have, fired, again=False):
        s = sc['starts'][i]

        if not i and not s['cold'] and not again:
            r = Result()                # go on in a loaded process
            r.replay = {'scenario': sc, 'log': []}
            d = r.data()
            d['next'] = self.job(sc, 0, [], fired)
            return r

        if s.get('ready') and Check._table is None:
            Check._table = engine.in_child(table)

        d = engine.in_child(self.cold, sc, s)

        if s.get('ready') and (d['bad'] or i and d['outs'] != have[0]):
            s = {k: v for k, v in s.items() if k != 'ready'}
            sc = {**sc, 'starts': sc['starts'][:i] + [s] +
                  sc['starts'][i + 1:]}
            d = engine.in_child(self.cold, sc, s)

        have = have + [d['outs']]
        r = Result()

        for k, v in {**d['fired'], **{
                'load-' + k if not k.startswith('load') else k: v
                for k, v in d['notes'].items()}}.items():
            fired[k] = fired.get(k, 0) + v

        for kind, op, detail in d['bad']:
            r.bad(kind, op, f'{detail}; process {s}')

        if not r.violations and i:
            for x, a, b in zip(sc['ops'], have[0], have[i]):
                if a != b:
                    r.bad('differs-between-processes', label(x),
                          f'{show(x)} gave {short(a)} in {self.where(sc, 0)} '
                          f'and {short(b)} in {self.where(sc, i)}')
                    break

        r.count('operations', len(sc['ops']) * (i + 1))
        r.count('processes', i + 1)
        r.count('cold-starts', sum(x['cold'] for x in sc['starts'][:i + 1]))
        r.fired = fired
        r.digest = digest(have, fired)
        r.shape = digest(sc['ops'], sc['starts'])
        r.nontrivial = True
        r.replay = {'scenario': sc, 'log': []}
        r.sample = {'processes': [self.where(sc, k) for k in
                                  range(len(sc['starts']))],
                    'calls': [show(x) for x in sc['ops'][:6]]}
        d = r.data()

        if not r.violations and i + 1 < len(sc['starts']):
            d['next'] = self.job(sc, i + 1, have[:1], fired)
        return r

    def job(self, sc, i, have, fired):
        s = sc['starts'][i]
        return {'check': self.ID, 'tier': self.tier, 'cmd': 'go',
                'noload': s['cold'], 'env': s['env'], 'scenario': sc, 'i': i,
                'have': have, 'fired': fired}

    @staticmethod
    def where(sc, i):
        s = sc['starts'][i]
        if not s['cold']:
            e = ENVS[s['env']]
            return (f"process {i} (LANG={e['LANG']} TZ={e['TZ']} hash seed "
                    f"{s['env']} clock {s['wall']} coordinates "
                    f"{s.get('config')})")
        return (f"process {i} (cold{', table ready' if s.get('ready') else ''}, LANG={s['lang']} TZ={s['tz']} hash seed "
                f"{s['env']} clock {s['wall']} coordinates "
                f"{s.get('config')} failed loads {s.get('faults')} "
                f"abort {s.get('abort')})")

    def execute(self, sc, log=None):
        return self.step(sc, 0, [], {})

    def cmd_go(self, job):
        i = job['i']
        have = job['have'] + [None] * (i - 1)
        return self.step(job['scenario'], i, have, job['fired'],
                         True).data()

    def shrink(self, sc, log, violates, budget):
        def variants(sc):
            for i in range(1, len(sc['starts'])):
                if len(sc['starts']) > 2:
                    c = copy.deepcopy(sc)
                    del c['starts'][i]
                    yield c
            n = len(sc['ops'])
            size = n // 2
            while size:
                for i in range(0, n, size):
                    c = copy.deepcopy(sc)
                    del c['ops'][i:i + size]
                    yield c
                size //= 2
            for i, s in enumerate(sc['starts']):
                for k in ('ready', 'config', 'faults', 'abort'):
                    if s.get(k):
                        c = copy.deepcopy(sc)
                        del c['starts'][i][k]
                        yield c
                if not s['cold']:
                    continue
                for k, v in (('lang', 'C.UTF-8'), ('tz', 'UTC'),
                             ('wall', 1700000000.25)):
                    if s[k] != v:
                        c = copy.deepcopy(sc)
                        c['starts'][i][k] = v
                        yield c
        return shrink_list(sc, log, violates, budget, variants)

    def describe(self, sc, log):
        return [self.where(sc, i) for i in range(len(sc['starts']))] + [
            f'call {i}: {show(x)}' for i, x in enumerate(sc['ops'])]
