"""C07: the date advances one Badí' day at a time, at local sunset."""
import datetime
import sys
from math import floor

from sim import engine, gen, sun
from sim.canon import canon
from sim.world import W
from .common import Result, digest

EPOCH_DAY = 719163      # ordinal of the Badí' day that began on 1969-12-31/
#                         1970-01-01; the same for every place
REFORM = -6857222400.0  # 1752-09-14: the Gregorian calendar of the package
TOL = 300.0             # "a few minutes"
TOL_OLD = 2700.0        # before the reform the package's sun is up to 12 days
#                         late, which is up to half an hour at 60 degrees
MIN_T, MAX_T = -6.2125e10, 3.2608e10
GAP = -12220243200.0, -12219076800.0    # 1582-10-04 to 1582-10-17.5: the
#                         package documents that it has no sunset for the ten
#                         days of the Gregorian reform, there it raises
FIRST_YEAR, LAST_YEAR = -1842, 1160
# Years whose ordinals and weekdays are one day ahead (see known-findings.json)
AHEAD = (-1796, -1792, -1788)
CENSUS = {'quick': 24, 'thorough': 16}  # years per run


EDGE = (-1, -0.1, -0.02, -0.01, -0.005, -2e-3, -1e-3, -5e-4, -2e-4, -1e-4,
        -6e-5, -4e-5, -2e-5, -1e-5, -4e-6, -1e-6, 0, 1e-6, 1e-5, 1e-4, 1e-3,
        0.01, 0.1, 1)           # seconds around a change of month


def in_gap(t):
    return GAP[0] <= t <= GAP[1]


def any_offset(rng, lon):
    """The offset of a time zone in which such a longitude could be."""
    x = rng.random()

    if x < 0.8:
        return round(lon / 15 * 2) / 2 + rng.choice(
            (0, 0, 0, 1, -1, 0.25, 2, -2))
    if x < 0.9:         # the other side of the date line
        o = round(lon / 15 * 2) / 2
        o += 24 if o < -9 else -24 if o > 11 else 0
        return min(max(o, -12), 14)
    return round(rng.uniform(-12, 14) * 4) / 4


def century_time(rng):
    """A time near 29 February of a year that divides by 100."""
    y = rng.randrange(1, 30)
    d = datetime.datetime(y * 100, 2, 28, tzinfo=datetime.timezone.utc)
    return (d - UNIX).total_seconds() + rng.uniform(-3, 4) * 86400


UNIX = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def tol(t):
    return TOL if t > REFORM + 2e6 else TOL_OLD


def day_of(t, lat, lon):
    """-> (number of the solar day t is in, seconds to nearest sunset,
           seconds since the last sunset)"""
    d0 = floor(t / 86400 + lon / 360.0)
    n, last = None, None
    near = 1e9

    for d in range(d0 - 2, d0 + 3):
        s = sun.sunset_of(d, lat, lon)
        near = min(near, abs(s - t))
        if s <= t:
            n, last = d, s

    return n + EPOCH_DAY, near, t - last


def successors(y, m, d):
    if m == 0:
        if d == 4:
            return [(y, 0, 5), (y, 19, 1)]
        if d == 5:
            return [(y, 19, 1)]
        return [(y, 0, d + 1)]
    if d < 19:
        return [(y, m, d + 1)]
    if m == 18:
        return [(y, 0, 1)]
    if m == 19:
        return [(y + 1, 1, 1)]
    return [(y, m + 1, 1)]


class Check:
    ID = 'C07'
    RUNS = {'quick': 170, 'thorough': 100000}
    BUDGET = {'quick': 100, 'thorough': 780}
    TECHNIQUE = ('deterministic simulation: the simulated clock is walked '
                 'through sunsets, month and year ends at seeded places; a '
                 'reference calendar stepping one day per independently '
                 'computed sunset is the model')
    RULE = ('a run is 1-3 walks at a place: 12-70 clock steps (seconds around '
            'sunset, hours, days, leaps of years), or 24 instants closing in '
            'on the change of 1-3 months to the last bit of the clock; each '
            'step asks today() and now() in both forms; the first runs look '
            'at noon of the first and last days and Ayyám-i-Há of all 3003 '
            'years (thorough: of every day); non-trivial: at least one '
            'change of day was observed; distinct = distinct walks')
    MEASURE = 'distinct walks of the clock'
    ASSUMES = ['sunset oracle: NOAA formulas (no code of the package), '
               f'within {TOL:.0f} s; for instants before 1752, which the '
               'package dates with the Julian calendar, within '
               f'{TOL_OLD:.0f} s', 'latitudes up to 60 degrees; the configured'
               ' offset is within about 2.5 hours of the solar time']

    def gen(self, rng, index):
        w = self.census(rng, index)

        if w is not None:
            return {'walks': [w], 'tasks': []}

        walks = []

        for _ in range(rng.choice((1, 1, 2, 3))):
            lat = round(rng.uniform(-60, 60), 4)
            lon = round(rng.uniform(-179.9, 179.9), 4)

            if rng.random() < 0.3:
                lat, lon, _z = rng.choice(gen.PLACES)

            off = any_offset(rng, lon)
            x = rng.random()

            if x < 0.55:
                t = rng.uniform(-3.976e9, 4.2e9)
            elif x < 0.65:
                t = century_time(rng)
            else:
                t = rng.uniform(MIN_T, 3.05e10)

            if rng.random() < 0.35:
                walks.append({'lat': lat, 'lon': lon, 'off': off,
                              't': round(t, 3), 'steps': [],
                              'edges': rng.choice((1, 2, 3))})
                continue

            kind = rng.choice(('sunset', 'sunset', 'days', 'hours', 'mixed',
                               'yearend', 'yearend', 'ayyam', 'years'))

            if kind in ('yearend', 'ayyam'):
                # near 20 March, or 25 February, of some year
                y = floor(t / 31556952)
                t = y * 31556952 + (rng.uniform(66, 82) if kind == 'yearend'
                                    else rng.uniform(50, 62)) * 86400

            s = sun.sunset_near(t, lat, lon)

            if rng.random() < 0.5:
                t = s - rng.uniform(0, 900)

            steps = []
            now = t

            for _ in range(rng.choice((12, 25, 40, 70))):
                k = kind

                if k in ('mixed', 'yearend', 'ayyam'):
                    k = rng.choice(('sunset', 'days', 'days', 'hours'))
                if k == 'mixed' and rng.random() < 0.1:
                    k = 'years'

                if k == 'sunset':
                    s = sun.sunset_near(now, lat, lon)
                    if now < s + 400 and s - now < 900:
                        dt = rng.choice((0.5, 1, 7, 20, 60, 100, 300))
                    else:
                        nxt = s if s > now else s + 86400
                        dt = max(1, nxt - now - rng.choice(
                            (700, 400, 310, 60, 5, 1)))
                elif k == 'days':
                    dt = 86400 + rng.choice((0, 0, 0, 60, -60, 600))
                elif k == 'hours':
                    dt = rng.uniform(60, 30000)
                else:
                    dt = rng.choice((365.2422, 19 * 365.2422, 30, 361, 1000,
                                     36524)) * 86400 + rng.uniform(0, 86400)

                if now + dt > MAX_T:
                    break

                steps.append(round(dt, 3))
                now += dt

            walks.append({'lat': lat, 'lon': lon, 'off': off,
                          't': round(t, 3), 'steps': steps})

        return {'walks': walks, 'tasks': []}

    def census(self, rng, index):
        """The first runs of every environment share out all the years."""
        size = CENSUS[self.tier]
        slices = -(-(LAST_YEAR - FIRST_YEAR + 1) // size)
        every = 2 if self.tier == 'thorough' else 1
        k, rest = divmod(index, every)
        k = k * 8 + self.env_index

        if rest or k >= slices:
            return None

        # Not in order, so that a short exploration has looked everywhere.
        k = k * 61 % slices if slices % 61 else k
        y = FIRST_YEAR + k * size
        lat = round(rng.uniform(-55, 55), 3)
        lon = round(rng.uniform(-179.5, 179.5), 3)
        return {'lat': lat, 'lon': lon, 'off': any_offset(rng, lon),
                't': 0.0, 'steps': [], 'census': [
                    y, min(y + size, LAST_YEAR + 1)],
                'every-day': self.tier == 'thorough'}

    def child(self, sc):
        import badidatetime
        mod = sys.modules['badidatetime.datetime']
        engine.setup_world({})
        out = []

        for w in sc['walks']:
            W.zone = w['off'] * 3600
            W.wall = w['t']
            badidatetime.set_local_coordinates(float(w['lat']),
                                               float(w['lon']))

            if w.get('census'):
                out.append(self.walk_years(w, mod))
            elif w.get('edges'):
                out.append(self.walk_edges(w, mod))
            else:
                out.append(self.walk(w, mod))

        return out

    def walk_years(self, w, mod):
        """One look at noon of every day, or of the days that matter."""
        y0, y1 = w['census']
        # Noon of a day about 20 days before the first of these years.
        n = (y0 + 1843) * 365.2422 + 59 - EPOCH_DAY
        W.wall = floor(n) * 86400 + 43200 - w['lon'] * 240.0
        obs = []
        seen = False

        while True:
            try:
                a = mod.date.today()
                y, m, d = a.b_date
                o = [W.wall, y, m, d, a.toordinal(), a.weekday()]
            except Exception as e:
                obs.append([W.wall, canon(e)])
                if len(obs) > 60 and all(len(o) == 2 for o in obs[-40:]):
                    return obs
                W.wall += 86400
                continue

            obs.append(o)

            if y >= y1 or len(obs) > 420 * (y1 - y0):
                return obs

            seen = seen or y >= y0

            if not seen or w['every-day'] or m in (0, 19) or m == 18 and \
                    d == 19 or (m, d) == (1, 1):
                k = 1
            else:
                k = (18 - m) * 19 + 19 - d
            if m == 19 and 2 <= d <= 17 and seen and not w['every-day']:
                k = 18 - d
            if (m, d) == (1, 2) and not w['every-day'] and seen:
                k = 340

            W.wall += k * 86400

    def walk_edges(self, w, mod):
        """Look closely at the changes from one month to the next."""
        date = mod.date
        out = []

        for _ in range(w['edges']):
            try:
                for _ in range(40):
                    y, m, d = date.today().b_date
                    if d == 19 or m == 0 and d >= 4:
                        break
                    W.wall += 86400 * ((4 if m == 0 else 19) - d)
                else:
                    break

                now = tuple(date.today().b_date)
                lo, hi = W.wall, W.wall + 93600.0

                while True:
                    mid = lo + (hi - lo) / 2
                    if not lo < mid < hi:
                        break
                    W.wall = mid
                    if tuple(date.today().b_date) == now:
                        lo = mid
                    else:
                        hi = mid
            except Exception as e:
                out.append({'t': W.wall, 'raised': canon(e)})
                W.wall += 86400 * 3
                continue

            at = [hi + x for x in EDGE]
            out += self.walk({**w, 'at': at}, mod)
            W.wall += 86400 * 2

        return out

    def walk(self, w, mod):
        date, datetime = mod.date, mod.datetime
        prev = None
        obs = []

        for dt in w.get('at') or [0] + w['steps']:
            W.wall = dt if 'at' in w else round(W.wall + dt, 3)

            try:
                a = date.today()
                b = date.today(short=False)
                n = datetime.now()
                m = datetime.now(short=False)
                o = {'t': W.wall, 'd': list(a.b_date), 'o': a.toordinal(),
                     'l': list(b.b_date), 'lo': b.toordinal(),
                     'w': [a.weekday(), b.weekday(), n.weekday(),
                           a.isoweekday()],
                     'n': list(n.b_date), 'no': n.toordinal(),
                     'm': list(m.b_date),
                     'tod': [n.hour * 3600 + n.minute * 60 + n.second +
                             n.microsecond / 1e6,
                             m.hour * 3600 + m.minute * 60 + m.second +
                             m.microsecond / 1e6]}

                if a.year in AHEAD:
                    o['ahead'] = (mod.date(a.year, 1, 1).toordinal() - 2 ==
                                  mod.date(a.year - 1, 19, 19).toordinal())

                if prev is not None:
                    pa, pb, pn, pm, po = prev
                    k = o['o'] - po
                    o['cmp'] = [pa < a, pa <= a, pa == a, pa > a, pa >= a,
                                pa != a]
                    o['lcmp'] = [pb < b, pb <= b, pb == b, pb > b,
                                 pb >= b, pb != b]
                    o['ncmp'] = [pn < n, pn == n, pn > n]
                    o['mcmp'] = [pm < m, pm == m, pm > m]
                    o['diff'] = (a - pa).days
                    o['plus'] = list((pa + mod.timedelta(k)).b_date)
                    o['minus'] = list((a - mod.timedelta(k)).b_date)
                    o['hash'] = (hash(a) == hash(pa)) or a != pa
                prev = a, b, n, m, o['o']
            except Exception as e:
                o = {'t': W.wall, 'raised': canon(e)}
                prev = None

            obs.append(o)

        return obs

    def execute(self, sc, log=None):
        r = Result()
        out = engine.in_child(self.child, sc)
        rolls = 0
        sim = 0.0

        for w, obs in zip(sc['walks'], out):
            first = prev = None

            if w.get('census'):
                rolls += self.judge_years(w, obs, r)
                sim += obs[-1][0] - obs[0][0]
                continue

            for o in obs:
                r.count('operations', 4)

                if 'raised' in o and in_gap(o['t']):
                    r.count('reform-gap')
                    prev = None
                    continue

                o = self.ahead(w, o, r)
                msg = self.step(w, prev if 'cmp' in o else None, o)

                if msg is not None:
                    r.bad(msg[0], msg[1], f"place {w['lat']}, {w['lon']}, "
                          f"offset {w['off']} h, clock {o['t']}: {msg[2]}")
                    break

                if prev is not None and prev['o'] != o['o']:
                    rolls += 1
                prev = o
                first = first or o

            if first is not None and prev is not None:
                sim += prev['t'] - first['t']

            if r.violations:
                break

        r.count('changes-of-day', rolls)
        for w, obs in zip(sc['walks'], out):
            ts = [o[0] if isinstance(o, list) else o['t'] for o in obs]
            jumps = sum(1 for x, y in zip(ts, ts[1:]) if y > x + 86400 * 2)
            r.count('clock-jump', jumps)
            r.count('clock-tick', max(0, len(ts) - 1 - jumps))
            r.count('years-of-census', w['census'][1] - w['census'][0]
                    if w.get('census') else 0)
            r.count('edges', w.get('edges', 0))

        for k in ('clock-jump', 'clock-tick'):
            r.fired[k] = r.stats.pop(k)

        r.fired['place-change'] = len(sc['walks'])
        r.sim_seconds = sim
        r.digest = digest(out)
        r.shape = digest(sc['walks'])
        r.nontrivial = rolls > 0
        r.replay = {'scenario': sc, 'log': log or []}
        r.sample = {'walks': [{**w, 'steps': w['steps'][:10]}
                              for w in sc['walks']],
                    'observed': out[0][:2]}
        return r

    def ahead(self, w, o, r):
        """
        Known finding: in three years all ordinals and weekdays are one day
        ahead.  Report it, and take the day off to check everything else.
        """
        if not o.get('ahead'):
            return o

        y = o['d'][0]

        r.bad('ordinal-ahead', 'toordinal', f'every day of the year {y} has '
              'the ordinal and the weekday of the day after it')
        o = {**o, 'adjusted': True}

        for k in ('o', 'lo', 'no'):
            o[k] -= 1

        o['w'] = [(x - 1) % 7 for x in o['w'][:3]] + [
            (o['w'][3] - 2) % 7 + 1]
        return o

    def judge_years(self, w, obs, r):
        prev = None
        rolls = 0
        where = f"place {w['lat']}, {w['lon']}, offset {w['off']} h, clock "

        for o in obs:
            r.count('operations', 2)

            if len(o) == 2:
                if in_gap(o[0]):
                    r.count('reform-gap')
                    prev = None
                    continue
                r.bad('raises', 'date.today', f'{where}{o[0]}: raised {o[1]}')
                break

            t, y, m, d, n, wd = o
            want, near, since = day_of(t, w['lat'], w['lon'])

            if y in AHEAD and n == want + 1:
                r.bad('ordinal-ahead', 'toordinal', 'every day of the year '
                      f'{y} has the ordinal and the weekday of the day after '
                      'it')
                n, wd = n - 1, (wd - 1) % 7

            date = [y, m, d]
            msg = None

            if not (0 <= m <= 19 and 1 <= d <= (5 if m == 0 else 19)):
                msg = 'no-such-day', 'date.today', f'date {date}'
            elif n != want:
                msg = ('wrong-day', 'date.today', f'date {date}, ordinal {n};'
                       f' {want} sunsets have been counted, the last '
                       f'{since:.0f} s ago')
            elif wd != (n + 1) % 7:
                msg = ('weekday', 'weekday', f'{date} ordinal {n}: weekday '
                       f'{wd}, expected {(n + 1) % 7}')
            elif prev is not None:
                k = n - prev[1]
                y0, m0, d0 = prev[0]
                x = (m0 - 1) * 19 + d0 - 1 + k

                if k == 1:
                    ok = (y, m, d) in successors(y0, m0, d0)
                elif 1 <= m0 <= 18:
                    ok = (y, m, d) == (y0, x // 19 + 1, x % 19 + 1)
                else:
                    ok = (y, m, d) == (y0, m0, d0 + k)

                if not ok:
                    msg = ('not-next-day', 'date.today', f'{prev[0]} was '
                           f'followed by {date} after {k} day(s)')
                rolls += 1

            if msg is not None:
                r.bad(msg[0], msg[1], f'{where}{t}: {msg[2]}')
                break

            prev = date, n

        return rolls

    def step(self, w, prev, o):
        if 'raised' in o:
            return 'raises', 'now', f"raised {o['raised']}"

        t = o['t']
        T = tol(t)
        n, near, since = day_of(t, w['lat'], w['lon'])
        y, m, d = o['d']

        if not (0 <= m <= 19 and 1 <= d <= (5 if m == 0 else 19)):
            return 'no-such-day', 'date.today', f"date {o['d']}"

        if abs(o['o'] - n) > (1 if near <= T else 0):
            return ('wrong-day', 'date.today', f"date {o['d']}, ordinal "
                    f"{o['o']}; {n} sunsets have been counted, the last "
                    f"{since:.0f} s ago")

        if near <= T and o['o'] not in (n, n + (1 if since > 43200 else -1)):
            return ('wrong-day', 'date.today', f"date {o['d']}, ordinal "
                    f"{o['o']} instead of {n}")

        if o['lo'] != o['o'] or o['no'] != o['o']:
            return ('forms-differ', 'toordinal', f"ordinals short {o['o']}, "
                    f"long {o['lo']}, datetime {o['no']}")

        if o['n'] != o['d'] or o['m'] != o['l']:
            return ('forms-differ', 'datetime.now', f"today {o['d']} {o['l']}"
                    f", now {o['n']} {o['m']}")

        k, v, yy = o['l'][:3]

        if ((k - 1) * 361 + (v - 1) * 19 + yy, *o['l'][3:]) != (y, m, d) or \
           not (1 <= v <= 19 and 1 <= yy <= 19):
            return 'forms-differ', 'date.today', f"{o['l']} is not {o['d']}"

        wd = (o['o'] + 1) % 7

        if o['w'][:3] != [wd] * 3 or o['w'][3] != wd + 1:
            return ('weekday', 'weekday', f"{o['d']} ordinal {o['o']}: "
                    f"weekdays {o['w']}, expected {wd}")

        if near > T:
            for tod in o['tod']:
                if abs(tod - since) > T:
                    return ('time-of-day', 'datetime.now', f"{tod:.1f} s into"
                            f" the day, sunset was {since:.1f} s ago")

        if prev is None:
            return None

        k = o['o'] - prev['o']
        dt = t - prev['t']

        if k < 0 and dt >= 0:
            return ('goes-back', 'date.today', f"{prev['d']} was followed by "
                    f"{o['d']}")

        if k == 0 and o['d'] != prev['d']:
            return ('two-dates-one-day', 'date.today', f"{prev['d']} and "
                    f"{o['d']} have ordinal {o['o']}")

        if k == 1 and (y, m, d) not in successors(*prev['d']):
            return ('not-next-day', 'date.today', f"{prev['d']} was followed "
                    f"by {o['d']}")

        want = [k > 0, k >= 0, k == 0, k < 0, k <= 0, k != 0]

        if o['cmp'] != want or o['lcmp'] != want or not o['hash']:
            return ('order', 'compare', f"{prev['d']} and {o['d']}: <, <=, =="
                    f", >, >=, != give {o['cmp']} and {o['lcmp']} (long), "
                    f"expected {want}")

        known = o.get('adjusted') or prev.get('adjusted')

        if not known and (o['diff'] != k or o['plus'] != o['d'] or
                          o['minus'] != prev['d']):
            return ('arithmetic', 'date', f"{o['d']} - {prev['d']} gave "
                    f"{o['diff']} days, adding {k} days gave {o['plus']}, "
                    f"subtracting gave {o['minus']}")

        if k == 0:
            pn = day_of(prev['t'], w['lat'], w['lon'])

            if near > T and pn[1] > T:
                for a, b in zip(prev['tod'], o['tod']):
                    if abs((b - a) - dt) > 0.02:
                        return ('time-of-day', 'datetime.now', f"the clock "
                                f"advanced {dt} s, the time of day {b - a}")

                if dt > 0.02 and (o['ncmp'] != [True, False, False] or
                                  o['mcmp'] != [True, False, False]):
                    return ('order', 'compare', 'now() is not later than '
                            f"{dt} s before: {o['ncmp']} {o['mcmp']}")
        elif o['ncmp'] != [True, False, False] or \
                o['mcmp'] != [True, False, False]:
            return ('order', 'compare', f"now() of {o['d']} is not later than"
                    f" that of {prev['d']}: {o['ncmp']} {o['mcmp']}")

        return None

    def shrink(self, sc, log, violates, budget):
        """Keep the failing walk, move its start towards the failure."""
        from .common import shrink_list
        return shrink_list(sc, log, violates, budget, self.variants)

    def variants(self, sc):
        import copy

        if len(sc['walks']) > 1:
            for i in range(len(sc['walks'])):
                c = copy.deepcopy(sc)
                del c['walks'][i]
                yield c

        for i, w in enumerate(sc['walks']):
            if w.get('census'):
                y0, y1 = w['census']
                for a, b in ((y0, (y0 + y1) // 2), ((y0 + y1) // 2, y1)):
                    if y1 - y0 > 1:
                        c = copy.deepcopy(sc)
                        c['walks'][i]['census'] = [a, b]
                        yield c

            if w.get('edges', 0) > 1:
                c = copy.deepcopy(sc)
                c['walks'][i]['edges'] -= 1
                yield c

            n = len(w['steps'])
            for size in sorted({n // 2, n // 4, n // 8, 1}, reverse=True):
                if size < 1:
                    continue
                c = copy.deepcopy(sc)          # cut the end
                c['walks'][i]['steps'] = w['steps'][:n - size]
                yield c
                c = copy.deepcopy(sc)          # start later
                c['walks'][i]['t'] = round(
                    w['t'] + sum(w['steps'][:size]), 3)
                c['walks'][i]['steps'] = w['steps'][size:]
                yield c

    def describe(self, sc, log):
        return [f"place {w['lat']}, {w['lon']} offset {w['off']} h: " + (
            f"noon of days in the years {w['census']}" if w.get('census') else
            f"clock set to instants around the next {w['edges']} change(s) of"
            f" month after {w['t']}" if w.get('edges') else
            f"clock starts at {w['t']}, advances by {w['steps']}")
                for w in sc['walks']]
