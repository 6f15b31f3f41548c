"""C05: a change of the local coordinates is all or nothing."""
import datetime as std
import sys
from zoneinfo import ZoneInfo

from sim import engine, gen
from sim.canon import canon
from sim.lang import label, show
from sim.world import W
from .common import ThreadCheck, digest, short, strategy

PLACES = {'Haifa': (32.815, 34.995), 'Raleigh NC': (35.5894, -78.7792),
          '27603': (35.61, -78.66), 'Sydney': (-33.8688, 151.2093),
          'Ushuaia, Argentina': (-54.8019, -68.303),
          'Tokyo': (35.6895, 139.6917), 'São Paulo': (-23.5505, -46.6333),
          'Springfield, Illinois': (39.8017, -89.6437),
          'Springfield, Oregon': (44.0462, -123.022),
          'springfield, oregon': (-44.0, 123.0)}
# Zones whose offsets are nearly, or sometimes, the same.
FAMILIES = [['Asia/Tehran', 'Europe/Moscow', 'Asia/Baghdad'],
            ['Asia/Kolkata', 'Asia/Kathmandu', 'Asia/Karachi'],
            ['Australia/Lord_Howe', 'Australia/Sydney', 'Australia/Brisbane'],
            ['America/St_Johns', 'America/Halifax', 'America/Sao_Paulo'],
            ['Australia/Adelaide', 'Asia/Tokyo', 'Australia/Darwin'],
            ['Europe/London', 'UTC', 'Africa/Lagos'],
            ['Pacific/Chatham', 'Pacific/Auckland', 'Pacific/Tongatapu']]
NET = ['unreachable', 'reset', 'http500', 'http429', 'http403', 'empty',
       'torn', 'badlat', 'html']
TZEXC = ['LookupError', 'OSError', 'ValueError', 'KeyError']
WAIT = 5.0          # virtual seconds a failing change may take by itself


def offset(zone, wall):
    return ZoneInfo(zone).utcoffset(
        std.datetime.fromtimestamp(wall, ZoneInfo(zone))).total_seconds()


def prepare(sc):
    def fault():
        s = W.sched
        op = s.current_ids()[1] if s is not None else -1
        name = sc.get('tzf', {}).get(str(op))
        return {'LookupError': LookupError, 'OSError': OSError,
                'ValueError': ValueError, 'KeyError': KeyError,
                None: lambda m: None}[name]('no time zone data')

    def net(world, query):
        s = W.sched
        op = s.current_ids()[1] if s is not None else -1
        kind, latency = sc.get('net', {}).get(str(op), ('ok', 0.05))
        return kind, latency, None

    W.tz_fault = fault
    W.net_policy = net


engine.PREPARE['c05'] = prepare


class Check(ThreadCheck):
    ID = 'C05'
    RUNS = {'quick': 600, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: racing writers and readers of '
                 'the configuration over a simulated network, system zone '
                 'and tz database with faults; register check of every read')
    RULE = ('1-3 writers (coordinates, place names, default) and 1-3 readers '
            'with seeded preemption, network and tz faults and changes of the '
            'system zone; every read must equal the answer under one '
            'configuration that may have been in force during the call; '
            'non-trivial: at least one change of configuration and one read '
            'ran; distinct = distinct schedules with fault outcomes')
    MEASURE = 'distinct sequences of context switches with outcomes'
    ASSUMES = ['reads are judged as a regular register with overlapping '
               'writers; the order of two overlapping changes is free',
               'the reference for a configuration is a fresh process '
               'configured once with it']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48), 'places': PLACES,
              'prepare': 'c05', 'net': {}, 'tzf': {}}
        sc['wall'] = round(rng.choice((
            rng.uniform(0, 2e9), rng.uniform(1.6e9, 1.75e9),
            1710055799.0 + rng.choice((-2, 0, 0.5)),     # US DST start
            1698541200.0 + rng.choice((-1, 0.2, 3)))), 3)
        self.zones = gen.ZONES[:8]
        pzone = 0.08

        if rng.random() < 0.4:
            self.zones = rng.choice(FAMILIES)
            pzone = 0.3

        sc['zone'] = rng.choice(self.zones)

        if rng.random() < 0.6:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        n = 0
        tasks = []
        nfault = rng.choice((0, 0.2, 0.5, 0.8))
        slow = rng.random() < 0.4
        ts = [gen.Draw(rng).ts() for _ in range(2)]
        nv = [gen.Draw(rng).datetime(aware=False) for _ in range(2)]

        if rng.random() < 0.3:      # next to the ends of the range
            nv[0] = gen.F('datetime', *rng.choice((
                (1161, 19, 18), (1161, 19, 19), (1161, 0, 3), (-1842, 1, 1),
                (-1842, 1, 2))), None, None, rng.choice((0, 3, 12, 22)), 30)

        if rng.random() < 0.3:
            nv[1] = gen.Draw(rng).datetime(aware=True)


        for t in range(rng.choice((1, 1, 2, 2, 3))):
            ops = []

            for _ in range(rng.choice((1, 2, 3))):
                if rng.random() < pzone:
                    ops.append(self.setzone(rng, n))
                    n += 1

                ops.append(self.writer(rng, sc, n, nfault, slow))
                n += 1

                if rng.random() < 0.3:
                    ops.append(self.reader(rng, n, ts, nv))
                    n += 1

            tasks.append(ops)

        for t in range(rng.choice((0, 1, 1, 2, 3)) if len(tasks) > 1 else
                       rng.choice((1, 1, 2, 3))):
            ops = []

            for _ in range(rng.choice((2, 3, 4, 6))):
                if rng.random() < pzone:
                    ops.append(self.setzone(rng, n))
                else:
                    ops.append(self.reader(rng, n, ts, nv))
                n += 1

            tasks.append(ops)

        sc['tasks'] = tasks
        sc['final'] = [self.reader(rng, 900 + i, ts, nv) for i in range(3)]
        strategy(rng, sc, self.traced)
        return sc

    def setzone(self, rng, n):
        return {'id': n, 'x': gen.F('env.setzone', rng.choice(self.zones))}

    def writer(self, rng, sc, n, nfault, slow):
        x = rng.random()

        if rng.random() < nfault * 0.5:
            sc['tzf'][str(n)] = rng.choice(TZEXC)

        if x < 0.45:
            lat, lon, _ = gen.Draw(rng).place()
            return {'id': n, 'x': gen.F('set_local_coordinates', float(lat),
                                        float(lon))}
        if x < 0.92:
            name = rng.choice(list(PLACES) + ['Nowhere'])

            if name == '27603' and rng.random() < 0.5:
                name = 27603

            kind = rng.choice(NET) if rng.random() < nfault else 'ok'
            lat = round(rng.choice((0.0, 0.01, rng.uniform(0, 0.9),
                                    rng.uniform(1.1, 120) if slow else 0.3)),
                        3)
            sc['net'][str(n)] = [kind, lat]
            return {'id': n, 'x': {'f': 'set_local_coordinates', 'a': [],
                                   'k': {'locale': name}}}
        return {'id': n, 'x': gen.F('set_local_coordinates')}

    def reader(self, rng, n, ts, nv):
        k = rng.choice(('fts', 'fts', 'dts', 'stamp', 'stamp', 'astz',
                        'astzu', 'now', 'today', 'pub'))
        sh = {'short': False} if rng.random() < 0.3 else {}
        x = {'fts': lambda: gen.F('datetime.fromtimestamp', rng.choice(ts),
                                  **sh),
             'dts': lambda: gen.F('date.fromtimestamp', rng.choice(ts), **sh),
             'stamp': lambda: gen.M(rng.choice(nv), 'timestamp',
                                    cls='datetime'),
             'astz': lambda: gen.M(rng.choice(nv), 'astimezone',
                                   cls='datetime'),
             'astzu': lambda: gen.M(rng.choice(nv), 'astimezone',
                                    {'c': 'UTC'}, cls='datetime'),
             'now': lambda: gen.F('datetime.now', **sh),
             'today': lambda: gen.F('date.today', **sh),
             'pub': lambda: {'c': 'LOCAL_COORD'}}[k]()
        return {'id': n, 'x': x, 'read': True}

    # --------------------------------------------------------- reference
    def traced(self, sc, op):
        one = {'wall': sc.get('wall'), 'zone': sc.get('zone'),
               'places': PLACES}
        net = sc['net'].get(str(op['id']))
        extra = {'prepare': 'c05', 'net': {'0': net} if net else {}}
        return engine.solo(op['x'], one, sc.get('config'), extra=extra,
                           focus=sc.get('focus'))

    def ref(self, x, conf, wall):
        """conf: None (Tehran) or (lat, lon, offset seconds)"""
        sc = {'wall': wall}

        if conf is None:
            return engine.solo(x, sc, {'a': []}, traced=False)['out']

        lat, lon, off = conf
        return engine.solo(x, {**sc, 'zone': off}, {'a': [lat, lon]},
                           traced=False)['out']

    def run_hooks(self, sc):
        def finish(sc, shared):
            import badidatetime as b
            d = sys.modules['badidatetime.datetime']
            from sim.canon import canon
            from sim.lang import Env, evaluate
            outs = []

            for op in sc.get('final', ()):
                k = len(W.readings)
                o = engine.outcome_of(
                    lambda: canon(evaluate(op['x'], Env(shared))))
                outs.append((o, [v for _, _, v in W.readings[k:]]))

            return {'outs': outs, 'pub': [
                canon(b.LOCAL_COORD), canon(d.LOCAL_COORD), canon(b.LOCAL),
                canon(d.LOCAL), canon(d.timezone.local),
                canon(b.timezone.local),
                d.LOCAL.utcoffset(None).total_seconds(),
                float(d.LOCAL_COORD[2]) * 3600]}
        return {'finish': finish, 'prepare': prepare}

    # ------------------------------------------------------------- judge
    def confs(self, sc, h, zones):
        """The configurations the change h may have put in force."""
        x = h['x']
        k = x.get('k', {})

        if 'locale' in k:
            at = PLACES.get(str(k['locale']))
            kind, lat = sc['net'].get(str(h['id']), ('ok', 0.05))

            if kind != 'ok' or at is None or lat >= 1000:
                return []
        elif x['a']:
            at = tuple(x['a'])
        else:
            return [None]

        return [(*at, o) for o in sorted({
            offset(z, w) for z in zones for w in (h['wall0'], h['wall1'])})]

    @staticmethod
    def possible(writes, inv, ret):
        """Regular register: writes which may be seen in [inv, ret]."""
        out = []

        for w in writes:
            if w['inv'] > ret:
                continue
            if any(v['inv'] > w['ret'] and v['ret'] < inv for v in writes):
                continue
            out.append(w)
        return out

    def judge(self, sc, res, r):
        big = 1 << 60
        hist = sorted(res['history'], key=lambda h: h['inv'])
        done = [h for h in hist if 'out' in h]
        zones = [{'inv': -2, 'ret': -1, 'z': sc['zone']}] + [
            {'inv': h['inv'], 'ret': h['ret'], 'z': h['x']['a'][0]}
            for h in done if h['x'].get('f') == 'env.setzone']
        ini = sc.get('config')
        writes = [{'inv': -2, 'ret': -1, 'confs': [
            (*ini['a'], offset(sc['zone'], sc['wall'])) if ini else None]}]
        setters = [h for h in done
                   if h['x'].get('f') == 'set_local_coordinates']
        outcomes = []

        for h in setters:
            zs = [z['z'] for z in self.possible(zones, h['inv'], h['ret'])]
            good = h['out'][0] == '='
            outcomes.append((h['id'], good))
            r.count('changes' if good else 'failed-changes')

            if good:
                cs = self.confs(sc, h, zs)

                if not cs:
                    r.bad('false-success', label(h['x']),
                          f"{show(h['x'])} reported success although the "
                          f"place could not be looked up: "
                          f"{sc['net'].get(str(h['id']))}")
                    return

                writes.append({'inv': h['inv'], 'ret': h['ret'],
                               'confs': cs})
            else:
                if h['out'][0] == '!' and not self.may_fail(sc, h):
                    r.bad('change-fails', label(h['x']),
                          f"{show(h['x'])} raised {short(h['out'])} although "
                          "nothing was wrong")
                    return

            others = sum(1 for o in setters if o is not h and
                         o['inv'] < h['ret'] and o['ret'] > h['inv'])
            took = h['mono1'] - h['mono0']
            r.fired['change-wait-ms'] = max(
                r.fired.get('change-wait-ms', 0), round(took * 1000))

            if took > WAIT * (1 + others):
                r.bad('no-time-out', label(h['x']),
                      f"{show(h['x'])} took {took:.1f} virtual seconds, "
                      f"{others} other changes overlap; network "
                      f"{sc['net'].get(str(h['id']))}")
                return

        for h in done:
            if h['x'].get('f') in ('env.setzone', 'set_local_coordinates'):
                continue

            if h['out'][0] == 'steps':
                continue

            r.count('reads')
            walls = [v for t, o, v in res['readings'] if o == h['id']]
            self.read(sc, h['x'], h['out'], self.possible(
                writes, h['inv'], h['ret']), walls, r, 'read')

            if r.violations:
                return

        r.shape_extra = outcomes

        if res['deadlock']:
            return

        fin = res['finish']
        last = self.possible(writes, big, big)
        coord = fin['pub'][0]
        confs = [c for w in last for c in w['confs']]
        want = {short(self.ref({'c': 'LOCAL_COORD'}, c, sc['wall'])[1]): c
                for c in confs}

        if short(coord) not in want:
            r.bad('wrong-configuration', 'LOCAL_COORD',
                  f"after all changes LOCAL_COORD is {short(coord)}, the last "
                  f"successful change set {list(want)}")
            return

        p = fin['pub']
        c = want[short(coord)]

        # what was asked for, not only what a fresh process makes of it
        if c is not None and coord[1][:2] != canon(
                (float(c[0]), float(c[1])))[1]:
            r.bad('wrong-configuration', 'LOCAL_COORD',
                  f"after all changes LOCAL_COORD is {short(coord)}, the last "
                  f"successful change asked for {c}")
            return

        if p[0] != p[1] or p[2] != p[3] or p[3] != p[4] or p[4] != p[5] \
           or abs(p[6] - p[7]) > 1e-3:
            r.bad('torn-configuration', 'LOCAL',
                  f"published names disagree: {short(p, 700)}")
            return

        conf = want[short(coord)]

        for op, (got, walls) in zip(sc['final'], fin['outs']):
            r.count('reads')
            if op['x'] == {'c': 'LOCAL_COORD'}:
                continue
            self.read(sc, op['x'], got if got[0] == '!' else got,
                      [{'confs': [conf]}], walls, r, 'later')
            if r.violations:
                return

    def may_fail(self, sc, h):
        """Is there a reason for the change to fail?"""
        i = str(h['id'])

        if i in sc['tzf']:
            return True

        k = h['x'].get('k', {})

        if 'locale' in k:
            kind, lat = sc['net'].get(i, ('ok', 0.05))
            return (kind != 'ok' or str(k['locale']) not in PLACES or
                    lat >= 0.99)
        return False

    def read(self, sc, x, got, writes, walls, r, kind):
        if x.get('f', '').endswith(('.now', '.today')):
            walls = walls or [sc['wall']]
        else:
            walls = [sc['wall']]

        cands = []

        for w in writes:
            for c in w['confs']:
                for wall in walls:
                    want = self.ref(x, c, wall)
                    if want == got:
                        return
                    cands.append((c, want))

        r.bad('mixed-answer' if kind == 'read' else 'wrong-answer-later',
              label(x), f"{show(x)} gave {short(got)}; in force were "
              f"{short([c for c, w in cands])} which give "
              f"{short([w for c, w in cands], 900)}")

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = r.stats.get('reads', 0) > 0 and (
            r.stats.get('changes', 0) + r.stats.get('failed-changes', 0) > 0)
        r.shape = digest(r.shape, r.__dict__.pop('shape_extra', None))
        r.fired.pop('change-wait-ms', None)
        return r

    def describe(self, sc, log):
        out = [f"initial configuration {sc.get('config')}, zone "
               f"{sc.get('zone')}, clock {sc.get('wall')}"]
        for i, f in sc['net'].items():
            if any(str(op['id']) == i for o in sc['tasks'] for op in o):
                out.append(f'network for op {i}: {f}')
        for i, f in sc['tzf'].items():
            if any(str(op['id']) == i for o in sc['tasks'] for op in o):
                out.append(f'tz database for op {i}: {f}')
        return out + super().describe(sc, log)
