"""C08: a local time stamp survives the round trip."""
import sys

from sim import engine, gen, sun
from sim.canon import canon
from sim.world import W
from .common import Result, digest, shrink_list
from .c07 import (day_of, tol, any_offset, century_time, in_gap, MIN_T,
                  MAX_T)

EPS = 0.005             # "a few milliseconds"
GUARD, GUARD_OLD = 400.0, 2900.0


class Check:
    ID = 'C08'
    RUNS = {'quick': 250, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: clock readings along seeded '
                 'clock walks are converted to local datetimes and back, '
                 'repeatedly, while the location changes')
    RULE = ('a run is 2-5 locations with 8-30 clock readings each; every '
            'reading is converted (now() or fromtimestamp()) in short and '
            'long form and back with timestamp(), up to 4 times; '
            'non-trivial: at least one round trip away from sunset; '
            'distinct = distinct walks')
    MEASURE = 'distinct walks of the clock'
    ASSUMES = ['readings within 400 s of sunset (computed by NOAA formulas; '
               '2900 s before 1752, when the package uses Julian dates) are '
               'excluded as the statement says; in the ten days of the '
               'Gregorian reform of 1582, for which the package documents '
               'that it has no sunset, it may raise',
               'values are used with the location they were made for']

    def gen(self, rng, index):
        legs = []

        for _ in range(rng.choice((2, 3, 5))):
            lat, lon, off = rng.choice(gen.PLACES)

            if rng.random() < 0.7:
                lat = round(rng.uniform(-60, 60), 5)
                lon = round(rng.uniform(-179.9, 179.9), 5)
                off = any_offset(rng, lon)

            if rng.random() < 0.1:
                off = round(rng.uniform(-12, 14), 2)

            t = rng.uniform(-3.976e9, 4.2e9) if rng.random() < 0.55 else \
                rng.uniform(MIN_T, MAX_T)

            if rng.random() < 0.08:
                t = century_time(rng)

            if rng.random() < 0.15:
                t = float(rng.choice((0, 1, -1, 86400, -86400, 10 ** 9,
                                      1.7e9, -2208988800)))

            readings = []

            for _ in range(rng.choice((8, 15, 30))):
                readings.append([round(t, rng.choice((0, 3, 6))),
                                 rng.choice(('now', 'fts')),
                                 rng.random() < 0.35,
                                 rng.choice((1, 1, 1, 2, 4))])
                t += rng.choice((0.001, 0.5, 1, 59.999, 3600, 86400, 5e5,
                                 rng.uniform(0, 2e5), 3.2e7, -7200, -1e6))
                t = min(max(t, MIN_T), MAX_T)

            legs.append({'lat': lat, 'lon': lon, 'off': off,
                         'readings': readings})

        return {'legs': legs, 'tasks': []}

    def child(self, sc):
        import badidatetime
        dt = sys.modules['badidatetime.datetime'].datetime
        engine.setup_world({})
        out = []

        for w in sc['legs']:
            W.zone = w['off'] * 3600
            W.wall = w['readings'][0][0] if w['readings'] else 0.0
            badidatetime.set_local_coordinates(float(w['lat']),
                                               float(w['lon']))
            leg = []

            for t, how, long, n in w['readings']:
                W.wall = t
                x, chain = t, []

                try:
                    for i in range(n):
                        if how == 'now' and i == 0:
                            v = dt.now(short=not long)
                        else:
                            v = dt.fromtimestamp(x, short=not long)
                        x = v.timestamp()
                        chain.append(x)
                    leg.append(['=', chain, str(v)])
                except Exception as e:
                    leg.append(['!', canon(e)])

            out.append(leg)

        return out

    def execute(self, sc, log=None):
        r = Result()
        out = engine.in_child(self.child, sc)
        ts = [x[0] for w in sc['legs'] for x in w['readings']]
        trips = 0

        for w, leg in zip(sc['legs'], out):
            for (t, how, long, n), o in zip(w['readings'], leg):
                r.count('operations')
                near = day_of(t, w['lat'], w['lon'])[1]
                guard = GUARD if tol(t) < 1000 else GUARD_OLD
                where = (f"place {w['lat']}, {w['lon']}, offset {w['off']} h,"
                         f" reading {t} ({how}, {'long' if long else 'short'}"
                         ' form)')

                if o[0] == '!' and in_gap(t):
                    r.count('reform-gap')
                    continue

                if o[0] == '!':
                    r.bad('raises', 'timestamp', f'{where}: raised {o[1]}')
                    break

                if near < guard:
                    r.count('near-sunset')
                    continue

                trips += len(o[1])

                for i, x in enumerate(o[1]):
                    if not abs(x - t) <= EPS:
                        r.bad('round-trip', 'timestamp',
                              f"{where}: {o[2]} converts back to {x!r} after "
                              f"{i + 1} round trip(s), off by {x - t:.6f} s")
                        break

            if r.violations:
                break

        r.count('round-trips', trips)
        r.fired['place-change'] = len(sc['legs'])
        r.fired['clock-back'] = sum(
            1 for a, b in zip(ts, ts[1:]) if b < a)
        r.fired['clock-jump'] = sum(
            1 for a, b in zip(ts, ts[1:]) if b > a + 3600)
        r.sim_seconds = sum(max(0, b - a) for w in sc['legs'] for a, b in zip(
            [x[0] for x in w['readings']],
            [x[0] for x in w['readings']][1:]))
        r.digest = digest(out)
        r.shape = digest(sc['legs'])
        r.nontrivial = trips > 0
        r.replay = {'scenario': sc, 'log': log or []}
        r.sample = {'legs': [{**w, 'readings': w['readings'][:4]}
                             for w in sc['legs']], 'result': out[0][:2]}
        return r

    def shrink(self, sc, log, violates, budget):
        def variants(sc):
            import copy
            for i in range(len(sc['legs'])):
                if len(sc['legs']) > 1:
                    c = copy.deepcopy(sc)
                    del c['legs'][i]
                    yield c
            for i, w in enumerate(sc['legs']):
                n = len(w['readings'])
                size = n // 2
                while size >= 1:
                    for j in range(0, n, size):
                        c = copy.deepcopy(sc)
                        del c['legs'][i]['readings'][j:j + size]
                        yield c
                    size //= 2
        return shrink_list(sc, log, violates, budget, variants)

    def describe(self, sc, log):
        return [f"place {w['lat']}, {w['lon']} offset {w['off']} h: readings "
                f"(time, how, long form, round trips) {w['readings']}"
                for w in sc['legs']]
