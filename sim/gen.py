"""
Generates operations (see lang.py) from a seeded random.Random.

A template draws labelled values, so that a *neighbour* of an operation (the
same call with one value changed) can be generated: calls whose arguments
nearly coincide are what confuses an imprecise cache or a shared buffer.
"""
import json
import random
import re

PLACES = [(35.682376, 51.285817, 3.5), (51.477928, -0.001545, 0.0),
          (40.7128, -74.006, -5.0), (-33.8688, 151.2093, 10.0),
          (35.5894, -78.7792, -5.0), (-22.9068, -43.1729, -3.0),
          (55.7558, 37.6173, 3.0), (1.3521, 103.8198, 8.0),
          (-36.8485, 174.7633, 12.0), (21.3069, -157.8583, -10.0),
          (28.6139, 77.209, 5.5), (59.9139, 10.7522, 1.0),
          (-54.8019, -68.303, -3.0), (32.815, 34.995, 2.0),
          (0.0, 32.5825, 3.0), (51.4779, 0.0, 0.0)]
ZONES = ['UTC', 'America/New_York', 'Asia/Tehran', 'Europe/Paris',
         'Australia/Lord_Howe', 'Asia/Kathmandu', 'Pacific/Kiritimati',
         'America/St_Johns', 'Africa/Monrovia']
MINY, MAXY = -1841, 1161
# Place names, several of which an imprecise memory could confuse.
PLACENAMES = {'Springfield, Illinois': (39.8017, -89.6437),
              'Springfield, Oregon': (44.0462, -123.022),
              'springfield': (37.2153, -93.2983),
              'Springfield': (42.1015, -72.5898),
              'Akka, Israel': (32.9271, 35.0838), 'Akka': (32.92, 35.07),
              '27603': (35.7, -78.66), '2760': (50.8, 4.2),
              ' Akka': (0.5, 100.25), 'Suva': (-18.1248, 178.4501),
              'Ōsaka': (34.6937, 135.5023), 'Osaka': (-34.7, -135.5)}
# Values which operations of different kinds may have in common.
COMMON = ('year', 'month', 'day', 'hour', 'minute', 'second', 'us', 'place',
          'ts', 'jd', 'gy', 'gm', 'gd', 'hasplace', 'nt', 'fmt', 'tz',
          'tzh', 'tzmi', 'tzplace', 'tzz', 'short', 'trim', 'long')


def T(*a):
    return {'t': list(a)}


def L(*a):
    return {'l': list(a)}


def F(f, *a, **k):
    x = {'f': f, 'a': list(a)}
    if k:
        x['k'] = k
    return x


def M(o, m, *a, cls='', **k):
    x = {'o': o, 'm': m, 'a': list(a)}
    if k:
        x['k'] = k
    if cls:
        x['cls'] = cls
    return x


def near_text(r, s):
    """Another text that a careless comparison would take for s."""
    k = r.choice(('cut', 'tail', 'case', 'space', 'swap', 'dup', 'head',
                  'escape'))
    i = r.randint(0, len(s))

    if k == 'cut':
        return s[:i]
    if k == 'head':
        return s[i:]
    if k == 'escape':
        return re.sub(r'([^\w\s%])', r'\\\1', s)
    if k == 'tail':
        return s + r.choice(('%%', ' ', '%', '%d', '.', 'x', ', Oregon', '%H'))
    if k == 'case':
        return r.choice((s.upper(), s.lower(), s.title(), s.swapcase()))
    if k == 'space':
        return s[:i] + r.choice((' ', '  ', '\t')) + s[i:]
    if k == 'swap' and len(s) > 3:
        ds = [j for j in range(len(s) - 1) if s[j] == '%']

        if len(ds) > 1:
            a, b = sorted(r.sample(ds, 2))
            return (s[:a + 1] + s[b + 1] + s[a + 2:b + 1] + s[a + 1] +
                    s[b + 2:])
    return s + ' ' + s


class Draw:

    def __init__(self, rng, base=None, redraw=(), shared=None):
        self.rng = rng
        self.base = base or {}
        self.redraw = redraw
        self.vals = {}
        self.shared = shared or {}

    def __call__(self, label, gen):
        if label in self.base and label not in self.redraw:
            v = self.base[label]
        elif (label in self.base and isinstance(self.base[label], float) and
              self.rng.random() < 0.5):
            v = self.base[label] + self.rng.choice(
                (1e-6, 0.001, 0.25, 1.0, -1.0, 1 / 24, 365.0, -0.5))
        elif (label in self.base and type(self.base[label]) is int and
              self.rng.random() < 0.4 and abs(self.base[label]) < 1000):
            v = self.base[label] + self.rng.choice((1, -1))
        elif (label in self.base and type(self.base[label]) is list and
              self.rng.random() < 0.7):
            v = list(self.base[label])      # a place: change one coordinate
            i = self.rng.randrange(len(v))
            v[i] = self.rng.choice((v[i] + 1, -v[i], v[i] + 0.001,
                                    gen(self.rng)[i]))
        elif (label in ('fmt', 'placename') and label in self.base and
              self.rng.random() < 0.5):
            v = near_text(self.rng, self.base[label])
        else:
            v = gen(self.rng)

        self.vals[label] = v
        return v

    def one(self, label, *choices):
        return self(label, lambda r: r.choice(choices))

    # ------------------------------------------------------------ values
    def year(self, label='year'):
        def g(r):
            x = r.random()
            if x < 0.4:
                return r.randint(150, 200)
            if x < 0.55:
                return r.choice((MINY, MINY + 1, -361, -19, -2, -1, 0, 1, 2,
                                 19, 20, 361, 362, 1083, MAXY - 1, MAXY))
            return r.randint(MINY, MAXY)
        return self(label, g)

    def month(self, label='month'):
        return self(label, lambda r: r.choice(
            (0, 19, 18, 1)) if r.random() < 0.35 else r.randint(0, 19))

    def day(self, month, label='day'):
        d = self(label, lambda r: r.choice(
            (1, 4, 5, 19)) if r.random() < 0.3 else r.randint(1, 19))
        return (d - 1) % 5 + 1 if month == 0 else d

    def ymd(self, p=''):
        y = self.year(p + 'year')
        m = self.month(p + 'month')
        return y, m, self.day(m, p + 'day')

    def hmsu(self, p=''):
        return (self(p + 'hour', lambda r: r.choice((0, 23, 24, 12))
                     if r.random() < 0.2 else r.randint(0, 23)),
                self(p + 'minute', lambda r: r.choice((0, 59))
                     if r.random() < 0.3 else r.randint(0, 59)),
                self(p + 'second', lambda r: r.choice((0, 59))
                     if r.random() < 0.3 else r.randint(0, 59)),
                self(p + 'us', lambda r: r.choice((0, 1, 500000, 999999))
                     if r.random() < 0.4 else r.randint(0, 999999)))

    def place(self, p=''):
        return self(p + 'place', lambda r: list(r.choice(PLACES))
                    if r.random() < 0.6 else
                    [round(r.uniform(-60, 60), 4),
                     round(r.uniform(-179.9, 179.9), 4),
                     r.choice((-11.0, -3.5, 0.0, 0, 1.0, 3.5, 5.75, 9.0,
                               13.0))])

    def ts(self, label='ts'):
        def g(r):
            x = r.random()
            if x < 0.4:
                return round(r.uniform(0, 2.2e9), 3)
            if x < 0.5:
                return r.choice((0, 0.0, -1.0, 86400.0, 1e9, 1700000000))
            return round(r.uniform(-6e10, 3.2e10), 2)
        return self(label, g)

    def jd(self, label='jd'):
        def g(r):
            x = r.random()
            if x < 0.4:
                return round(r.uniform(2440000, 2470000), 5)
            if x < 0.5:
                return r.choice((2394646.0, 2451545, 2299160.5, 2299161.5))
            return round(r.uniform(1723000, 2818000), 5)
        return self(label, g)

    def gdate(self, p='g'):
        y = self(p + 'y', lambda r: r.randint(1800, 2100)
                 if r.random() < 0.6 else r.randint(4, 3000))
        m = self(p + 'm', lambda r: r.randint(1, 12))
        d = self(p + 'd', lambda r: r.randint(1, 28)
                 if r.random() < 0.9 else 29)
        return y, m, d

    def flag(self, label):
        return self(label, lambda r: r.random() < 0.5)

    # ----------------------------------------------------------- objects
    def bc(self):
        return self.obj('BahaiCalendar', lambda: F('BahaiCalendar'))

    def gc(self):
        return self.obj('GregorianCalendar', lambda: F('GregorianCalendar'))

    def obj(self, kind, make):
        """A shared object of that kind if the scenario has one."""
        have = self.shared.get(kind, ())

        if have:
            i = self('obj' + kind, lambda r: r.choice(list(have) + [-1])
                     if r.random() < 0.4 else r.choice(list(have)))
            if i in have:
                return {'s': i}
        return make()

    def cls(self, name, p=''):
        """The class of that name, or a user's subclass of it."""
        if self(p + 'own', lambda r: r.random() < 0.1):
            return OWN[name]
        return name

    def date(self, p=''):
        def make():
            y, m, d = self.ymd(p)
            c = self.cls('date', p)
            if self(p + 'long', lambda r: r.random() < 0.2):
                return F(c, *long_of(y), m, d)
            return F(c, y, m, d)
        return self.obj('date', make)

    def tz(self, p=''):
        def make():
            k = self.one(p + 'tzk', 'offset', 'coords', 'UTC', 'BADI', 'named',
                         'zi')
            if k == 'offset':
                if self(p + 'here', lambda r: r.random() < 0.3):
                    h, mi = self.one(p + 'env', *ENV_OFFSETS)
                    return F('timezone', F('timedelta', hours=h, minutes=mi))
                return F(self.cls('timezone', p), self.td(p + 'tz', 23))
            if k == 'named':
                zero = self(p + 'tz0', lambda r: r.random() < 0.25)
                return F(self.cls('timezone', p), F('timedelta', 0) if zero
                         else self.td(p + 'tz', 23),
                         self.one(p + 'tzn', 'EST', 'Home', 'X', '', 'é ü'))
            if k == 'coords':
                lat, lon, z = self.place(p + 'tz')
                key = self(p + 'tzkey', lambda r: r.choice(
                    (None, None, '', 'Home/Here', 'zone', 'zone')))
                if key == 'zone':
                    key = self.one(p + 'tzz', *ZONES)
                kw = {} if key is None else {'key': key}
                return F('TZWithCoords', lat, lon,
                         None if self(p + 'nozone',
                                      lambda r: r.random() < 0.1) else z, **kw)
            if k == 'zi':
                lat, lon, z = self.place(p + 'tz')
                return F('TZWithCoords.fromzoneinfo',
                         F('ZoneInfo', self.one(p + 'tzz', *ZONES)),
                         lat, lon, z)
            return {'c': k}
        return self.obj('tz', make)

    def td(self, p='', maxh=None):
        if maxh is not None:
            return F('timedelta', hours=self(
                p + 'h', lambda r: r.randint(-maxh, maxh) if r.random() < 0.5
                else r.choice((0, 1, 1, 2, 3, 5, 8, 10, -5, -3, -8))),
                minutes=self(p + 'mi', lambda r: r.choice((0, 0, 30, 45))))
        return F('timedelta', days=self(p + 'days', lambda r: r.choice(
            (0, 1, -1, 19, 361, 365, 366)) if r.random() < 0.5
            else r.randint(-40000, 40000)),
            seconds=self(p + 'secs', lambda r: r.choice((0, 0, 1, 43200))
                         if r.random() < 0.6 else r.randint(-86400, 86400)))

    def time(self, p=''):
        def make():
            h, mi, s, us = self.hmsu(p)
            tz = self.tz(p) if self(p + 'aware', lambda r: r.random() < 0.4) \
                else None
            k = {'fold': 1} if self(p + 'fold', lambda r: r.random() < 0.3) \
                else {}
            return F(self.cls('time', p), h, mi, s, us, tz, **k)
        return self.obj('time', make)

    def datetime(self, p='', aware=None, long=None):
        def make():
            y, m, d = self.ymd(p)
            h, mi, s, us = self.hmsu(p)
            aw = self(p + 'aware', lambda r: r.random() < 0.4) \
                if aware is None else aware
            tz = self.tz(p) if aw else None
            k = {'fold': 1} if self(p + 'fold', lambda r: r.random() < 0.3) \
                else {}
            c = self.cls('datetime', p)
            if (self(p + 'long', lambda r: r.random() < 0.2)
                    if long is None else long):
                return F(c, *long_of(y), m, d, h, mi, s, us, tz, **k)
            return F(c, y, m, d, None, None, h, mi, s, us, tz, **k)
        if aware is None and long is None:
            return self.obj('datetime', make)
        return make()


def long_of(y):
    """Kull-i-Shay, Vahid and year of a short year."""
    k = -(-y // 361)
    r = y - (k - 1) * 361
    if y == 0 or r == 361:
        v, yy = 19, 19
        if y == 0:
            k = 0
    else:
        v = (r - 1) // 19 + 1
        yy = (r - 1) % 19 + 1
    return k, v, yy


FORMATS = ['%Y-%m-%d', '%Y/%m/%d %H:%M:%S', '%d %B %Y', '%a %b %d %Y',
           '%A %d %B %Y', '%Y%m%d', '%y-%m-%d', '%Y-%j', '%Y-%m-%d %H:%M:%S.%f',
           '%d.%m.%Y %I:%M %p', '%H:%M:%S', '%Y-%m-%d %H:%M %z',
           '%G-W%V-%u', '%Y %U %w', '%:K %:V %Y %m %d', '%-d/%-m/%-y %-H:%-M:%-S',
           '%d%n%m%n%Y %f', '%G %V %u %j', '%H:%M:%S.%f %:z', '%Y-%m', '%B %Y', '%K-%v-%Y-%m-%d',
           '%Y-%m-%d%%', 'day %d of %m in %Y', '%m/%d/%Y', '%H%M', '%-d %-m %Y']
SAFE_FORMATS = ['%Y-%m-%d', '%Y/%m/%d %H:%M:%S', '%d %B %Y', '%Y%m%d',
                '%Y-%m-%d %H:%M:%S.%f', '%H:%M:%S', '%d.%m.%Y',
                '%m/%d/%Y', '%B %d, %Y', '%Y-%m-%dT%H:%M',
                '%Y|%m|%d', '%d-%m-%Y %H', '%Y.%m.%d %M:%S']
BAD_FORMATS = ['%', '%Q', '%Y-%!', '%E']
# the machines' own offsets (check.ENVS and others)
ENV_OFFSETS = [[0, 0], [1, 0], [2, 0], [-5, 0], [-4, 0], [3, 30], [10, 30],
               [11, 0], [5, 45], [-3, -30], [-2, -30], [14, 0], [13, 0],
               [9, 0], [-8, 0], [3, 0]]
OUT_FORMATS = FORMATS + ['%c', '%x', '%X', '%C', '%e', '%n%t%h', '%Z', '%s',
                         '%D', '%r', '%T', '%R', '%F', '%k %l', '%W']

OWN = {'date': 'MyDate', 'datetime': 'MyDatetime', 'time': 'MyTime',
       'timezone': 'MyZone'}

# ---------------------------------------------------------------- templates
TEMPLATES = {}          # name -> (function, tags)


def tpl(*tags):
    def deco(f):
        TEMPLATES[f.__name__] = (f, set(tags))
        return f
    return deco


def _loc(d):
    if not d('hasplace', lambda r: r.random() < 0.75):
        return []

    # a place that is given by half, too
    return list(d.place())[:d('nplace', lambda r: r.choice((3, 3, 3, 3, 2)))]


@tpl('calc', 'bc')
def jd_from_badi_date(d):
    y, m, day = d.ymd()
    t = d.hmsu()[:d.one('nt', 0, 0, 3, 4, 1)]
    return M(d.bc(), 'jd_from_badi_date', T(y, m, day, *t), *_loc(d),
             cls='BahaiCalendar')


@tpl('calc', 'bc')
def badi_date_from_jd(d):
    k = d.one('k', 'us', 'fraction', 'rtd', '', '')
    kw = {k: True} if k else {}
    return M(d.bc(), 'badi_date_from_jd', d.jd(), *_loc(d),
             cls='BahaiCalendar', short=d.flag('short'), trim=d.flag('trim'),
             **kw)


@tpl('calc', 'bc')
def utc_sunset(d):
    return M(d.bc(), 'utc_sunset', T(*d.ymd()), *_loc(d), cls='BahaiCalendar')


@tpl('calc', 'bc')
def naw_ruz_g_date(d):
    return M(d.bc(), 'naw_ruz_g_date', d.year(), *_loc(d), hms=d.flag('hms'),
             cls='BahaiCalendar')


@tpl('calc', 'bc')
def first_day_of_ridvan_g_date(d):
    return M(d.bc(), 'first_day_of_ridvan_g_date', d.year(), *_loc(d),
             hms=d.flag('hms'), cls='BahaiCalendar')


@tpl('calc', 'bc')
def short_date_from_long_date(d):
    y, m, day = d.ymd()
    return M(d.bc(), 'short_date_from_long_date',
             T(*long_of(y), m, day, *d.hmsu()[:d.one('nt', 0, 3, 4)]),
             trim=d.flag('trim'), cls='BahaiCalendar')


@tpl('calc', 'bc')
def long_date_from_short_date(d):
    y, m, day = d.ymd()
    return M(d.bc(), 'long_date_from_short_date',
             T(y, m, day, *d.hmsu()[:d.one('nt', 0, 3, 4)]),
             trim=d.flag('trim'), cls='BahaiCalendar')


@tpl('calc', 'bc')
def date_from_kvymdhms(d):
    y, m, day = d.ymd()
    return M(d.bc(), 'date_from_kvymdhms',
             T(*long_of(y), m, day, *d.hmsu()[:d.one('nt', 0, 3, 4)]),
             short=d.flag('short'), cls='BahaiCalendar')


@tpl('calc', 'bc')
def kvymdhms_from_b_date(d):
    y, m, day = d.ymd()
    frac = d('frac', lambda r: round(r.random(), 6) if r.random() < 0.6 else 0)
    return M(d.bc(), 'kvymdhms_from_b_date', T(*long_of(y), m, day + frac),
             us=d.flag('us'), short=d.flag('short'), trim=d.flag('trim'),
             cls='BahaiCalendar')


@tpl('calc', 'bc')
def badi_date_from_gregorian_date(d):
    g = d.gdate() + d.hmsu('gt')[:d.one('nt', 0, 2, 3)]
    return M(d.bc(), 'badi_date_from_gregorian_date', T(*g), *_loc(d),
             us=d.flag('us'), short=d.flag('short'), trim=d.flag('trim'),
             cls='BahaiCalendar')


@tpl('calc', 'bc')
def gregorian_date_from_badi_date(d):
    y, m, day = d.ymd()
    t = d.hmsu()[:d.one('nt', 0, 0, 3)]
    return M(d.bc(), 'gregorian_date_from_badi_date', T(y, m, day, *t),
             *_loc(d), us=d.flag('us'), cls='BahaiCalendar')


@tpl('calc', 'bc')
def badi_date_from_timestamp(d):
    return M(d.bc(), 'badi_date_from_timestamp', d.ts(), *_loc(d),
             us=d.flag('us'), short=d.flag('short'), trim=d.flag('trim'),
             cls='BahaiCalendar')


@tpl('calc', 'bc')
def timestamp_from_badi_date(d):
    y, m, day = d.ymd()
    return M(d.bc(), 'timestamp_from_badi_date', T(y, m, day, *d.hmsu()),
             *_loc(d), cls='BahaiCalendar')


@tpl('calc', 'bc')
def midday(d):
    y, m, day = d.ymd()
    s = d.flag('short')
    return M(d.bc(), 'midday', T(*((y, m, day) if s else
                                   (*long_of(y), m, day))),
             hms=d.flag('hms'), _short=s, cls='BahaiCalendar')


def _tc(d):
    return d('tc', lambda r: round(r.uniform(-20, 11), 8))


def _jdll(d):
    lat, lon, _ = d.place()
    return (d.jd(), lat, lon)


# The calculations underneath, which the public calls share.
SUN = {
    '_delta_t': lambda d: ((d.jd(),), {'seconds': d.flag('sec')}),
    '_sun_transit': lambda d: (_jdll(d)[::2], {}),
    '_sun_rising': lambda d: (_jdll(d), {}),
    '_sun_setting': lambda d: (_jdll(d), {}),
    '_day_length': lambda d: (_jdll(d), {'decimal': d.flag('dec')}),
    '_utc_to_badi_time': lambda d: (_jdll(d), {}),
    '_apparent_solar_longitude': lambda d: ((d.jd(), d.flag('deg')), {}),
    '_apparent_solar_latitude': lambda d: ((d.jd(), d.flag('deg')), {}),
    '_find_moment_of_equinoxes_or_solstices': lambda d: (
        (d.jd(), d.one('lam', 0, 90, 180, 270, 0)), {'zone': d.one(
            'z', 0, 3.5, -5)}),
    '_meeus_from_exact': lambda d: ((d.jd(),), {}),
    '_exact_from_meeus': lambda d: ((d.jd(),), {}),
    '_aberration': lambda d: ((_tc(d) / 10, d.flag('fixed')), {}),
    '_radius_vector': lambda d: ((_tc(d) / 10, d.flag('deg')), {}),
    '_heliocentric_ecliptical_longitude': lambda d: (
        (_tc(d) / 10, d.flag('deg')), {}),
    '_heliocentric_ecliptical_latitude': lambda d: (
        (_tc(d) / 10, d.flag('deg')), {}),
    '_nutation_longitude': lambda d: ((_tc(d),), {'degrees': d.flag('deg')}),
    '_nutation_obliquity': lambda d: ((_tc(d),), {'degrees': d.flag('deg')}),
    '_true_obliquity_of_ecliptic': lambda d: ((_tc(d),), {}),
    '_sun_apparent_longitude': lambda d: ((_tc(d),), {}),
    '_sun_apparent_right_ascension': lambda d: ((_tc(d),), {}),
    '_sun_apparent_declination': lambda d: ((_tc(d),), {}),
    '_mean_sidereal_time_greenwich': lambda d: ((_tc(d),), {}),
    '_apparent_sidereal_time_greenwich': lambda d: ((_tc(d),), {}),
    '_is_leap_year': lambda d: ((d.year(),), {}),
    '_badi_year_from_rd': lambda d: ((d.jd(),), {}),
    '_hms_from_decimal_day': lambda d: (
        (d('dec', lambda r: round(r.random(), 6)),), {'us': d.flag('us')}),
    '_decimal_day_from_hms': lambda d: (d.hmsu(), {}),
    '_dhms_from_seconds': lambda d: ((d('secs', lambda r: round(r.uniform(
        0, 172800), 3)), d.one('z', 0, 3.5, -5), d.flag('us')), {}),
    '_seconds_from_dhms': lambda d: ((d.one('days', 0, 1),) + d.hmsu(), {}),
    '_tz_dhms_from_decimal': lambda d: (
        (d('dec', lambda r: round(r.random(), 6)),), {}),
    '_decimal_from_dms': lambda d: (
        d.hmsu()[:3] + (d.one('dir', 'N', 'S', 'e', 'W', 'x'),), {}),
    '_dms_from_decimal': lambda d: ((d.place()[0], d.one(
        'dir', 'lat', 'longitude', 'x')), {}),
    '_hms_from_degrees': lambda d: ((d('dec', lambda r: round(r.uniform(
        0, 360), 4)),), {}),
    '_truncate_decimal': lambda d: ((d.jd(), d.one('n', 1, 3, 6)), {}),
    '_local_zone_correction': lambda d: ((d.jd(),), {
        'zone' if d.flag('byzone') else 'lon': d.one('z', 0, 3.5, -5.0, 120),
        'mod_jd': d.flag('mod'), 'inverse': d.flag('inv')}),
    '_trim_hms': lambda d: ((T(*d.hmsu()),), {}),
}


@tpl('calc', 'sun')
def sun(d):
    m = d.one('m', *SUN)
    a, kw = SUN[m](d)
    return M(d.bc(), m, *a, cls='BahaiCalendar', **kw)


@tpl('calc', 'gc')
def jd_from_gregorian_date(d):
    g = d.gdate() + d.hmsu('gt')[:d.one('nt', 0, 2, 3)]
    return M(d.gc(), 'jd_from_gregorian_date', T(*g), exact=d.flag('exact'),
             alt=d.flag('alt'), cls='GregorianCalendar')


@tpl('calc', 'gc')
def gregorian_date_from_jd(d):
    return M(d.gc(), 'gregorian_date_from_jd', d.jd(), hms=d.flag('hms'),
             us=d.flag('us'), exact=d.flag('exact'), alt=d.flag('alt'),
             cls='GregorianCalendar')


@tpl('calc', 'gc')
def posix_timestamp(d):
    return M(d.gc(), 'posix_timestamp', d.ts(), zone=d.one(
        'z', 0, 3.5, -5, 0.0), us=d.flag('us'), cls='GregorianCalendar')


@tpl('calc', 'gc')
def gregorian_year_from_jd(d):
    return M(d.gc(), 'gregorian_year_from_jd', d.jd(),
             cls='GregorianCalendar')


@tpl('calc', 'gc')
def date_from_ymdhms(d):
    return M(d.gc(), 'date_from_ymdhms', T(*d.gdate(), *d.hmsu('gt')[:3]),
             cls='GregorianCalendar')


@tpl('calc', 'gc')
def ymdhms_from_date(d):
    y, m, day = d.gdate()
    frac = d('frac', lambda r: round(r.random(), 6))
    return M(d.gc(), 'ymdhms_from_date', T(y, m, day + frac),
             us=d.flag('us'), cls='GregorianCalendar')


@tpl('calc', 'val')
def make_date(d):
    return d.date()


@tpl('calc', 'val')
def make_datetime(d):
    return d.datetime()


@tpl('calc', 'val')
def make_time(d):
    return d.time()


@tpl('calc', 'val')
def make_tz(d):
    return d.tz()


@tpl('calc', 'val')
def date_query(d):
    m = d.one('m', 'toordinal', 'weekday', 'isoweekday', 'isocalendar',
              'isoformat', 'ctime', 'timetuple', '__repr__', '__str__',
              '__hash__')
    return M(d.date(), m, cls='date')


@tpl('calc', 'val')
def datetime_query(d):
    m = d.one('m', 'toordinal', 'weekday', 'isoweekday', 'isocalendar',
              'isoformat', 'ctime', 'timetuple', 'utctimetuple', 'date',
              'time', 'timetz', 'utcoffset', 'tzname', 'dst', '__repr__',
              '__str__', '__hash__')
    return M(d.datetime(), m, cls='datetime')


@tpl('calc', 'val')
def time_query(d):
    m = d.one('m', 'isoformat', 'utcoffset', 'tzname', 'dst', '__repr__',
              '__str__', '__hash__', 'badioffset')
    return M(d.time(), m, cls='time')


@tpl('calc', 'val')
def tz_query(d):
    m = d.one('m', 'utcoffset', 'tzname', 'tzname', 'dst', 'badioffset', 'str',
              'repr', 'hash')
    if m in ('str', 'repr', 'hash'):
        return {'op': m, 'a': [d.tz()], 'cls': 'timezone'}
    arg = d.datetime('x') if d('hasdt', lambda r: r.random() < 0.5) else None
    return M(d.tz(), m, arg, cls='timezone')


@tpl('calc', 'val')
def date_arith(d):
    o = d.one('o', 'add', 'sub', 'radd', 'iadd', 'isub')
    return {'op': o, 'a': [d.date(), d.td()], 'cls': 'date'}


@tpl('calc', 'val')
def date_diff(d):
    return {'op': 'sub', 'a': [d.date('a'), d.date('b')], 'cls': 'date'}


@tpl('calc', 'val')
def datetime_arith(d):
    o = d.one('o', 'add', 'sub', 'radd', 'iadd', 'isub')
    return {'op': o, 'a': [d.datetime(), d.td()], 'cls': 'datetime'}


@tpl('calc', 'val')
def datetime_diff(d):
    return {'op': 'sub', 'a': [d.datetime('a'), d.datetime('b')],
            'cls': 'datetime'}


@tpl('calc', 'val')
def compare(d):
    o = d.one('o', 'lt', 'le', 'eq', 'ne', 'gt', 'ge')
    k = d.one('k', 'date', 'datetime', 'time')
    f = getattr(d, k)
    return {'op': o, 'a': [f('a'), f('b')], 'cls': k}


@tpl('calc', 'val')
def foreign(d):
    """An operator between a value and something else."""
    k = d.one('k', 'date', 'datetime', 'time', 'tz')
    o = d.one('o', 'eq', 'ne', 'lt', 'ge', 'sub', 'iadd')
    y = d.one('y', None, 1, 'x', T(181, 1, 1), F('timedelta', 1),
              F('date', 181, 1, 1))
    return {'op': o, 'a': [getattr(d, k)(), y], 'cls': k}


@tpl('calc', 'val')
def replace_fields(d):
    k = d.one('k', 'date', 'datetime', 'time')
    kw = {}

    if k != 'time':
        for n, g in (('year', lambda r: r.randint(1, 19)),
                     ('month', lambda r: r.randint(0, 19)),
                     ('day', lambda r: r.randint(1, 19))):
            if d('has' + n, lambda r: r.random() < 0.4):
                kw[n] = d('new' + n, g)
    if k != 'date':
        for n, hi in (('hour', 23), ('minute', 59), ('microsecond', 999999)):
            if d('has' + n, lambda r: r.random() < 0.3):
                kw[n] = d('new' + n, lambda r: r.randint(0, hi))
    return M(getattr(d, k)(), 'replace', cls=k, **kw)


@tpl('calc', 'val')
def fromordinal(d):
    c = d.one('c', 'date', 'datetime')
    return F(d.cls(c) + '.fromordinal', d('n', lambda r: r.randint(-600000, 424000)
                                   if r.random() < .5 else
                                   r.randint(60000, 70000)),
             **({'short': d.flag('short')} if c == 'date' else {}))


@tpl('calc', 'val')
def fromisocalendar(d):
    return F(d.cls('date') + '.fromisocalendar', d.year(), d('w', lambda r: r.randint(
        1, 52)), d('wd', lambda r: r.randint(1, 7)), short=d.flag('short'))


@tpl('calc', 'val')
def fromisoformat(d):
    c = d.one('c', 'date', 'datetime', 'time')
    y, m, day = d.ymd()
    h, mi, s, us = d.hmsu()
    ds = f"{'-' if y < 0 else ''}{abs(y):04d}-{m:02d}-{day:02d}"
    ts = f'T{h:02d}:{mi:02d}:{s:02d}'
    ts += f'.{us:06d}' if us and d.flag('withus') else ''
    tz = d.one('tzs', '', '', 'Z', '+03:30', '-05:00', 'B')
    return F(d.cls(c) + '.fromisoformat', {'date': ds, 'datetime': ds + ts + tz,
                                    'time': ts + tz}[c])


@tpl('calc', 'val')
def combine(d):
    x = d.date() if d('plain', lambda r: r.random() < 0.7) else d.datetime()
    kw = {'tzinfo': d.tz('c')} if d('ctz', lambda r: r.random() < 0.3) else {}
    return F(d.cls('datetime') + '.combine', x, d.time('t'), **kw)


ISO_DATES = ('{n}{y:04d}-{m:02d}-{d:02d}', '{n}{y:04d}{m:02d}{d:02d}',
             '{n}{y:04d}-{m:02d}', '{n}{y:04d}-W{w:02d}-{wd}',
             '{n}{y:04d}W{w:02d}{wd}', '{n}{y:04d}W{w:02d}', '{n}{y:04d}-W{w:02d}',
             '{n}{y:04d}-{j:03d}', '{n}{y:04d}{j:03d}')
ISO_TIMES = ('{h:02d}', '{h:02d}{mi:02d}', '{h:02d}:{mi:02d}',
             '{h:02d}{mi:02d}{s:02d}', '{h:02d}:{mi:02d}:{s:02d}',
             '{h:02d}:{mi:02d}:{s:02d}.{us:06d}', '{h:02d}{mi:02d}{s:02d}.{ms:03d}',
             '{h:02d}.{ms:03d}', '{h:02d}:{mi:02d}.{ms:03d}',
             '{h:02d}{mi:02d}.{ms:03d}')
ISO_ZONES = ('', '', '', 'Z', 'B', '+03:30', '-05:00', '+0330', '-05',
             '+03:30:15', '-00:00:01', '+03:30:15.000250', '-1130')


@tpl('calc', 'val')
def iso_text(d):
    """Every form of ISO text the package knows."""
    c = d.one('c', 'date', 'datetime', 'time', 'datetime')
    y, m, day = d.ymd()
    h, mi, s, us = d.hmsu()
    v = {'n': '-' if y < 0 else '', 'y': abs(y), 'm': m, 'd': day, 'h': h % 24,
         'mi': mi, 's': s, 'us': us, 'ms': us // 1000,
         'w': d('w', lambda r: r.randint(1, 53)),
         'wd': d('wd', lambda r: r.randint(1, 7)),
         'j': d('j', lambda r: r.choice((r.randint(1, 366),
                                     r.randint(340, 366))))}
    ds = d.one('isod', *ISO_DATES).format(**v)
    ts = d.one('sep', 'T', 'T', ' ') + d.one('isot', *ISO_TIMES).format(**v)
    tz = d.one('isoz', *ISO_ZONES)
    return F(d.cls(c) + '.fromisoformat',
             {'date': ds, 'datetime': ds + ts + tz, 'time': ts}[c],
             **({'short': d.flag('short')} if c == 'date' else {}))


@tpl('calc', 'val')
def aware_stamp(d):
    """Time stamps of values whose place is known."""
    if d.one('k', 'to', 'from') == 'to':
        return M(d.datetime('a', aware=True), 'timestamp', cls='datetime')

    z = d.one('z', 'UTC', 'BADI', 'place', 'place')
    lat, lon, o = d.place()
    z = F('TZWithCoords', lat, lon, o) if z == 'place' else {'c': z}
    return F(d.cls('datetime') + '.fromtimestamp', d.ts(), z,
             short=d.flag('short'))


@tpl('calc', 'val', 'parse')
def iso_ordinal(d):
    """ISO text with a day of the year or a week, near the year's end."""
    y = d('isoy', lambda r: r.randint(170, 190)
          if r.random() < 0.7 else r.randint(1, 2900))
    j = d('j', lambda r: r.randint(340, 367) if r.random() < 0.7
          else r.randint(1, 340))
    w = d('w', lambda r: r.choice((1, 50, 51, 52, 53)))
    c = d.one('c', 'datetime', 'date')
    text = d.one('isoj', '{y:04d}-{j:03d}', '{y:04d}{j:03d}',
                 '{y:04d}-{j:03d}', '{y:04d}-W{w:02d}-{wd}').format(
        y=y, j=j, w=w, wd=d('wd', lambda r: r.randint(1, 7)))
    return F(d.cls(c) + '.fromisoformat',
             text + ('T12:30:15' if c == 'datetime' else ''))


@tpl('calc', 'val')
def iso_output(d):
    k = d.one('k', 'datetime', 'time', 'datetime')
    kw = {'timespec': d.one('ts_', 'auto', 'hours', 'minutes', 'seconds',
                            'milliseconds', 'microseconds', 'Hours', 'days')}
    if k == 'datetime' and d('hassep', lambda r: r.random() < 0.5):
        kw['sep'] = d.one('osep', 'T', ' ', '|', '')
    return M(getattr(d, k)(), 'isoformat', cls=k, **kw)


@tpl('calc', 'val', 'twin')
def same_instant(d):
    """Values that are equal and yet not the same: other zones, folds, forms."""
    y, m, day = d.ymd()
    h, mi, s, us = d.hmsu()
    h = 4 + h % 12
    k = d.one('shift', -3, -1, 0, 1, 2, 5, 7)
    z = F(d.one('zc', 'timezone', 'timezone', 'MyZone'),
          F('timedelta', hours=k), *(['Z' + 'abc'[k % 3]] if d(
              'znamed', lambda r: r.random() < 0.3) else []))
    if d('zcoords', lambda r: r.random() < 0.2):
        z = F('TZWithCoords', 10.0 + k, 20.0, float(k))
    kw = {'fold': 1} if d('fold', lambda r: r.random() < 0.3) else {}
    if d('time', lambda r: r.random() < 0.25):
        x, c = F(d.cls('time'), h + k, mi, s, us, z, **kw), 'time'
    else:
        ymd = long_of(y) + (m, day) if d(
            'long', lambda r: r.random() < 0.2) else (y, m, day, None, None)
        x, c = F(d.cls('datetime'), *ymd, h + k, mi, s, us, z, **kw), \
            'datetime'
    q = d.one('q', *QUERIES[c], 'strftime', 'astimezone', 'replace', 'self')
    if q == 'self':
        return x
    if q == 'replace':
        return M(x, q, cls=c, minute=d.one('nm', 0, 30))
    if q == 'strftime':
        return M(x, q, d.one('fmt', '%H:%M %z', '%Y-%m-%d %H %Z', '%c', '%s'),
                 cls=c)
    if q == 'astimezone':
        return M(x, q, {'c': 'UTC'}, cls=c) if c == 'datetime' else x
    if q == 'timestamp':
        return M(x, 'isoformat', cls=c)
    return M(x, q, cls=c)


@tpl('calc', 'val')
def iso_week(d):
    """The week date of a date and what can be asked of it."""
    k = d.one('k', 'date', 'datetime')
    x = M(getattr(d, k)(), 'isocalendar', cls=k)
    q = d.one('q', 'year', 'week', 'weekday', 'repr', 'hash', 'pk', 'eq', 'lt')
    if q in ('repr', 'hash'):
        return {'op': q, 'a': [x], 'cls': 'isocalendar'}
    if q == 'pk':
        return {'pk': x, 'p': d('p', lambda r: r.randint(0, 5))}
    if q in ('eq', 'lt'):
        return {'op': q, 'a': [x, M(d.date('b'), 'isocalendar', cls='date')],
                'cls': 'isocalendar'}
    return {'o': x, 'g': q}


@tpl('calc', 'val')
def fractions(d):
    """Times and datetimes of which the last given field has a fraction."""
    k = d.one('k', 'time', 'datetime', 'long')
    n = d.one('n', 1, 2, 3)
    f = d('frac', lambda r: r.choice((0.5, 0.25, 0.999999, 0.1, 0.0)) if
          r.random() < 0.5 else round(r.random(), r.choice((2, 6, 9))))
    h, mi, s, us = d.hmsu()
    t = [h % 24, mi, s][:min(3, max(1, n))]
    t[-1] += f

    if d('bothfr', lambda r: r.random() < 0.1):
        t[0] += 0.5
    if k == 'time':
        return F('time', *t)
    y, m, day = d.ymd()
    if k == 'long':
        return F('datetime', *long_of(y), m, day, *t)
    return F('datetime', y, m, day, None, None, *t)


@tpl('calc', 'val')
def mixed_compare(d):
    """Values of two kinds, and the same day in both forms."""
    o = d.one('o', 'lt', 'le', 'eq', 'ne', 'gt', 'ge', 'sub')
    a = d.one('ka', 'date', 'datetime', 'time')
    b = d.one('kb', 'date', 'datetime', 'time', 'forms')
    if b != 'forms':
        return {'op': o, 'a': [getattr(d, a)('a'), getattr(d, b)('b')],
                'cls': a}
    y, m, day = d.ymd()
    x = [F('date', y, m, day), F('date', *long_of(y), m, day)]
    return {'op': o, 'a': x if d.flag('turn') else x[::-1], 'cls': 'date'}


@tpl('calc', 'val')
def replace_long(d):
    """replace() on long values and with a zone."""
    k = d.one('k', 'date', 'datetime', 'time')
    kw = {}

    if k != 'time':
        y, m, day = d.ymd()
        have = (d.hmsu()[:3] if k == 'datetime' else ())
        x = F(d.cls(k), *long_of(y), m, day, *have)
        for n, lo, hi in (('kull_i_shay', -4, 3), ('vahid', 1, 19),
                          ('year', 1, 19), ('month', 0, 19), ('day', 1, 19)):
            if d('has' + n, lambda r: r.random() < 0.3):
                kw[n] = d('new' + n, lambda r: r.randint(lo, hi))
    else:
        x = d.time()
    if k != 'date':
        for n, hi in (('hour', 24), ('second', 59), ('fold', 1)):
            if d('has' + n, lambda r: r.random() < 0.3):
                kw[n] = d('new' + n, lambda r: r.randint(0, hi))
        if d('hastz', lambda r: r.random() < 0.4):
            kw['tzinfo'] = d.tz('z') if d.flag('tzsome') else None
    return M(x, 'replace', cls=k, **kw)


@tpl('calc', 'val')
def small_zone(d):
    """Offsets with seconds and microseconds, near the limits too."""
    td = F('timedelta', hours=d.one('h', 0, 0, 3, -5, 23, -23),
           minutes=d.one('mi', 0, 30, 59), seconds=d.one('s', 0, 1, 15, 59),
           microseconds=d.one('us', 0, 1, 250, 999999))
    z = F(d.cls('timezone'), td)
    q = d.one('q', 'str', 'repr', 'hash', 'tzname', 'isoformat', 'strftime',
              'self', 'eq')
    if q in ('str', 'repr', 'hash'):
        return {'op': q, 'a': [z], 'cls': 'timezone'}
    if q == 'eq':
        return {'op': q, 'a': [z, d.tz('o')], 'cls': 'timezone'}
    if q == 'tzname':
        return M(z, 'tzname', None, cls='timezone')
    if q == 'self':
        return z
    y, m, day = d.ymd()
    x = F('datetime', y, m, day, None, None, 1, 2, 3, 4, z) \
        if d.flag('dt') else F('time', 1, 2, 3, 4, z)
    return M(x, q, *(['%H %z %:z %Z'] if q == 'strftime' else ()),
             cls='datetime')


@tpl('calc', 'val')
def from_state(d):
    """What pickle calls, with states that are and are not whole."""
    k = d.one('k', 'date', 'datetime', 'time')
    st = M(getattr(d, k)(), '_getstate', cls=k)
    q = d.one('q', 'state', 'again', 'cut', 'reduce')
    if q == 'state':
        return st
    if q == 'again':
        return F(d.one('k2', k, 'date', 'datetime', 'time'),
                 M(st, '__getitem__', 0))
    if q == 'cut':
        return F(k, {'raw': d.one('raw', 'x', '', 'abcd')})
    return M(getattr(d, k)(), '__reduce_ex__', d.one('p', 2, 3, 4), cls=k)


@tpl('calc', 'val')
def pickled(d):
    k = d.one('k', 'date', 'datetime', 'time', 'tz')
    w = d.one('w', 'pk', 'pk', 'cp', 'dc')
    x = getattr(d, k)()
    return {'pk': x, 'p': d('p', lambda r: r.randint(0, 5))} if w == 'pk' \
        else {w: x}


@tpl('calc', 'val')
def to_zone(d):
    return M(d.datetime('a', aware=True), 'astimezone', d.tz('z'),
             cls='datetime')


@tpl('calc', 'val', 'fmt')
def numeric_format(d):
    k = d.one('k', 'date', 'datetime', 'time')
    f = d.one('fmt', '%Y-%m-%d', '%H:%M:%S', '%f', '%j', '%d/%m/%y', '%U',
              '%u %w', '%G-%V', '%B %A', '%b %a', '%C', '%Y')
    return M(getattr(d, k)(), 'strftime', f, cls=k)


@tpl('locale', 'val', 'fmt')
def any_format(d):
    k = d.one('k', 'date', 'datetime', 'time')
    f = d('fmt', lambda r: r.choice(OUT_FORMATS))
    if d('fm', lambda r: r.random() < 0.2):
        return {'op': 'format', 'a': [getattr(d, k)(), f], 'cls': k}
    return M(getattr(d, k)(), 'strftime', f, cls=k)


def text_for(d, fmt, p='s'):
    """A text for a numeric format, made without the package."""
    y, m, day = d.ymd(p)
    y = abs(y) % 1100 + 1
    h, mi, s, us = d.hmsu(p)
    h %= 24
    names = ['Ayyám-i-Há', 'Bahá', 'Jalál', 'Jamál', "‘Aẓamat", 'Núr',
             'Raḥmat', 'Kalimát', 'Kamál', "Asmá’", "‘Izzat", 'Mashíyyat',
             "‘Ilm", 'Qudrat', 'Qawl', 'Masá’il', 'Sharaf', 'Sulṭán', 'Mulk',
             "‘Alá’"]
    rep = {'%Y': f'{y:04d}', '%m': f'{m:02d}', '%d': f'{day:02d}',
           '%H': f'{h:02d}', '%M': f'{mi:02d}', '%S': f'{s:02d}',
           '%f': f'{us:06d}', '%B': names[m % 20], '%y': f'{y % 100:02d}',
           '%I': f'{(h - 1) % 12 + 1:02d}', '%j': f'{y % 366 + 1:03d}'}
    for k, v in rep.items():
        fmt = fmt.replace(k, v)
    return fmt


@tpl('calc', 'parse')
def parse_numeric(d):
    f = d('fmt', lambda r: r.choice(SAFE_FORMATS))
    t = text_for(d, f)
    if d('spoil', lambda r: r.random() < 0.1):
        t += 'x'
    return F(d.cls('datetime') + '.strptime', t, f)


@tpl('calc', 'parse')
def parse_mixed(d):
    """Several directives in any order, perhaps two for one field."""
    n = d.one('n', 2, 3, 4, 5)
    sep = d.one('sep', ' ', '-', ':', '|')
    fmt, text = [], []

    for i in range(n):
        x = d.one(f'x{i}', '%Y', '%y', '%m', '%d', '%H', '%I', '%M', '%S',
                  '%f', '%j', '%B', '%Y', '%m', '%d')
        fmt.append(x)
        text.append(text_for(d, x, f's{i}'))

    return F(d.cls('datetime') + '.strptime', sep.join(text), sep.join(fmt))


@tpl('calc', 'parse')
def parse_novel(d):
    """Formats of which there are arbitrarily many (cache eviction)."""
    n = d('n', lambda r: r.randint(0, 12))
    f = f'{"abcdefghijklm"[n % 13]}{n} %Y-%m-%d'
    return F(d.cls('datetime') + '.strptime', text_for(d, f), f)


@tpl('locale', 'parse')
def parse_formatted(d):
    f = d('fmt', lambda r: r.choice(FORMATS))
    return F(d.cls('datetime') + '.strptime', M(d.datetime(), 'strftime', f), f)


@tpl('calc', 'parse', 'bad')
def parse_bad(d):
    f = d('fmt', lambda r: r.choice(SAFE_FORMATS + ['']))
    t = text_for(d, f)
    f += d('tail', lambda r: r.choice(('', '%%', ' ', ' %%'))) + d.one(
        'bad', *BAD_FORMATS)
    return F(d.cls('datetime') + '.strptime', t, f)


@tpl('calc', 'parse', 'variant')
def parse_variant(d):
    """Formats that a careless cache key takes for one another."""
    f = d('fmt', lambda r: r.choice(SAFE_FORMATS))
    v = d.one('variant', 'plain', 'plain', 'bad', 'bad', 'escape', 'escape',
              'cut', 'case', 'space', 'text')
    t = f

    if v == 'bad':
        f += d.one('bad', '%%', '%%%', '%%%Q', '%', ' %%%')
    elif v == 'escape':
        f = re.sub(r'([^\w\s%])', r'\\\1', f)
        t = d.one('raw', t, f)
    elif v == 'cut':
        f = f[:d.one('cut', 2, 3, 5, 6, 8)]
    elif v == 'case':
        f = f.swapcase()
    elif v == 'space':
        f = d.one('ws', ' ', '\t').join(f.partition(' ')[::2])
    elif v == 'text':
        f = f.replace('%d', '1')
    return F(d.cls('datetime') + '.strptime', text_for(d, t), f)


@tpl('calc', 'bad')
def bad_date(d):
    k = d.one('k', 'date', 'datetime', 'jd', 'g', 'iso', 'str', 'time',
              'kv', 'td')
    if k == 'date':
        return F('date', d.year(), d.one('m', 20, -1, 0), d.one('dd', 0, 20,
                                                               6))
    if k == 'datetime':
        return F('datetime', d.year(), 1, 1, None, None, d.one('h', 25, -1),
                 0, 0)
    if k == 'jd':
        return M(d.bc(), 'badi_date_from_jd', d.one('j', 0.0, 9e6, 1.5e6),
                 cls='BahaiCalendar')
    if k == 'g':
        return M(d.bc(), 'badi_date_from_gregorian_date', T(2024, d.one(
            'm', 0, 13), 32), cls='BahaiCalendar')
    if k == 'iso':
        return F('date.fromisoformat', d.one('i', '', 'x', '0181-20-01',
                                             '0181-01', '0181W99'))
    if k == 'str':
        return F('date', d.one('y', 'abc', None, 1.5), 1, 1)
    if k == 'time':
        return F('time', d.one('h', 25, -1, 'x'), 0, 0)
    if k == 'kv':
        return M(d.bc(), 'kvymdhms_from_b_date', T(1, 20, 1, 1, 1),
                 cls='BahaiCalendar')
    return {'op': 'add', 'a': [d.date(), 'x'], 'cls': 'date'}


HUGE = [{'F': 'nan'}, {'F': 'inf'}, {'F': '-inf'}, 1e300, -1e300, 10 ** 30,
        -10 ** 30, 1e18, -1e18, {'F': '5e-324'}, {'F': '-0.0'}, 2 ** 63, 1e9,
        -1e9, 1e12, True, 10 ** 400, 1e15]


@tpl('extreme')
def extreme(d):
    """Numbers no one has in mind; the call must still end."""
    x = d('huge', lambda r: r.choice(HUGE))
    k = d.one('k', 'bc1', 'gc1', 'short', 'place', 'greg', 'make', 'time',
              'datetime', 'long', 'zone', 'delta', 'replace', 'sun')
    i = d('i', lambda r: r.randint(0, 5))
    if k == 'bc1':
        return M(d.bc(), d.one('m', 'badi_date_from_jd', 'naw_ruz_g_date',
                               'badi_date_from_timestamp',
                               'first_day_of_ridvan_g_date'), x,
                 cls='BahaiCalendar')
    if k == 'gc1':
        return M(d.gc(), d.one('m', 'gregorian_date_from_jd',
                               'posix_timestamp', 'gregorian_year_from_jd'),
                 x, cls='GregorianCalendar')
    if k in ('short', 'place'):
        a, loc = [181, 1, 1, 0, 0, 0], [35.5, 51.4, 3.5]
        if k == 'short':
            a[i % 6] = x
        else:
            loc[i % 3] = x
        return M(d.bc(), d.one(
            'm', 'jd_from_badi_date', 'utc_sunset', 'timestamp_from_badi_date',
            'gregorian_date_from_badi_date'), T(*a),
            *(loc if k == 'place' else ()), cls='BahaiCalendar')
    if k == 'greg':
        a = [2024, 1, 1]
        a[i % 3] = x
        if d.flag('b'):
            return M(d.bc(), 'badi_date_from_gregorian_date', T(*a),
                     cls='BahaiCalendar')
        return M(d.gc(), 'jd_from_gregorian_date', T(*a),
                 cls='GregorianCalendar')
    if k == 'make':
        n = d.one('m', 'date.fromordinal', 'date.fromisocalendar',
                  'datetime.fromordinal')
        if n == 'date.fromisocalendar':
            a = [181, 1, 1]
            a[i % 3] = x
            return F(n, *a)
        return F(n, x)
    if k == 'time':
        a = [1, 1, 1, 1]
        a[i % 4] = x
        return F('time', *a)
    if k == 'datetime':
        a = [181, 1, 1, None, None, 1, 1, 1, 1]
        a[(0, 1, 2, 5, 6, 7)[i % 6]] = x
        return F('datetime', *a)
    if k == 'long':
        a = [1, 10, 10, 1, 1]
        a[i % 5] = x
        return M(F('date', *a), 'toordinal', cls='date')
    if k == 'zone':
        a = [35.5, 51.4, 3.5]
        a[i % 3] = x
        return F('TZWithCoords', *a)
    if k == 'delta':
        return {'op': d.one('op', 'add', 'sub', 'iadd'), 'cls': 'date',
                'a': [d.date(), F('timedelta', x)]}
    if k == 'replace':
        return M(d.datetime(), 'replace', cls='datetime',
                 **{d.one('n', 'year', 'month', 'day', 'hour', 'second'): x})
    m = d.one('m', '_sun_setting', '_sun_rising', '_delta_t', '_coterminal_angle',
              '_meeus_from_exact', '_exact_from_meeus', '_hms_from_decimal_day')
    return M(d.bc(), m, x, *((35.5, 51.4) if m.startswith('_sun') else ()),
             cls='BahaiCalendar')


@tpl('calc', 'usertz')
def user_zone(d):
    fail = None

    if d('fails', lambda r: r.random() < 0.6):
        fail = {'raw': {'in': d.one('in', 'utcoffset', 'dst', 'tzname'),
                        'exc': d.one('exc', 'ValueError', 'KeyError',
                                     'ZeroDivisionError', 'MemoryError',
                                     'KeyboardInterrupt')}}
    tz = F('UserTZ', d('mins', lambda r: r.randint(-700, 700)), 'USR', fail)
    y, m, day = d.ymd()
    h, mi, s, us = d.hmsu()
    x = F('datetime', y, m, day, None, None, h % 24, mi, s, us, tz)
    k = d.one('k', 'isoformat', 'timetuple', 'utctimetuple', '__hash__',
              'strftime', 'astimezone', '__str__', 'cmp', 'sub', 'fromts')
    if k == 'strftime':
        return M(x, k, '%Y-%m-%d %z %Z', cls='datetime')
    if k == 'astimezone':
        return M(x, k, {'c': 'UTC'}, cls='datetime')
    if k == 'cmp':
        return {'op': 'lt', 'a': [x, d.datetime('o', aware=True)],
                'cls': 'datetime'}
    if k == 'sub':
        return {'op': 'sub', 'a': [x, d.datetime('o', aware=True)],
                'cls': 'datetime'}
    if k == 'fromts':
        return F(d.cls('datetime') + '.fromtimestamp', d.ts(), tz)
    return M(x, k, cls='datetime')


@tpl('local')
def fromtimestamp(d):
    c = d.one('c', 'date', 'datetime')
    tz = [d.tz()] if c == 'datetime' and d(
        'tzq', lambda r: r.random() < 0.3) else []
    return F(c + '.fromtimestamp', d.ts(), *tz, short=d.flag('short'))


@tpl('local')
def timestamp(d):
    return M(d.datetime('n', aware=False), 'timestamp', cls='datetime')


@tpl('local')
def to_local(d):
    aw = d('aw', lambda r: r.random() < 0.4)
    arg = [d.tz('z')] if d('arg', lambda r: r.random() < 0.4) else []
    return M(d.datetime('n', aware=aw), 'astimezone', *arg, cls='datetime')


@tpl('local', 'clock')
def now(d):
    c = d.one('c', 'now', 'today', 'nowtz')
    if c == 'now':
        return F(d.cls('datetime') + '.now', short=d.flag('short'))
    if c == 'nowtz':
        return F(d.cls('datetime') + '.now', d.tz(), short=d.flag('short'))
    return F(d.cls('date') + '.today', short=d.flag('short'))


@tpl('config')
def set_coords(d):
    lat, lon, _ = d.place('cfg')
    return F('set_local_coordinates', lat, lon)


@tpl('config', 'default')
def set_default(d):
    return F('set_local_coordinates')


@tpl('config', 'place')
def set_place(d):
    n = d('placename', lambda r: r.choice(list(PLACENAMES)))
    return F('set_local_coordinates', locale=n)


@tpl('heavy')
def init_leap_cache(d):
    return F('init_leap_cache')


@tpl('lists')
def list_argument(d):
    """Calls which are given a list that belongs to the caller."""
    k = d.one('k', 'short', 'short', 'long', 'greg', 'hms')
    if k == 'short':
        a = d.obj('list-short', lambda: L(
            *d.ymd(), *d.hmsu()[:d.one('nl', 0, 3, 3, 4)]))
        m = d.one('m', 'jd_from_badi_date', 'utc_sunset',
                  'long_date_from_short_date', 'timestamp_from_badi_date',
                  'gregorian_date_from_badi_date', 'midday')
        kw = {'_short': True} if m == 'midday' else {}
        return M(d.bc(), m, a, cls='BahaiCalendar', **kw)
    if k == 'long':
        def g():
            y, m, day = d.ymd()
            return L(*long_of(y), m, day, *d.hmsu()[:3])
        a = d.obj('list-long', g)
        m = d.one('m', 'short_date_from_long_date', 'date_from_kvymdhms',
                  'kvymdhms_from_b_date', 'midday')
        return M(d.bc(), m, a, cls='BahaiCalendar')
    if k == 'greg':
        a = d.obj('list-greg', lambda: L(*d.gdate(), 1, 2, 3))
        m = d.one('m', 'jd_from_gregorian_date', 'date_from_ymdhms',
                  'ymdhms_from_date')
        if d('b', lambda r: r.random() < 0.4):
            return M(d.bc(), 'badi_date_from_gregorian_date', a,
                     cls='BahaiCalendar')
        return M(d.gc(), m, a, cls='GregorianCalendar')
    a = d.obj('list-hms', lambda: L(*d.hmsu()[:3]))
    m = d.one('m', '_decimal_day_from_hms', '_sec_microsec_from_seconds')
    return F('time', {'o': a, 'm': '__getitem__', 'a': [0]})


class Op:

    __slots__ = ('name', 'vals', 'expr', 'tags')

    def __init__(self, name, vals, expr, tags):
        self.name, self.vals, self.expr, self.tags = name, vals, expr, tags


def make(name, rng, shared=None, base=None, redraw=()):
    f, tags = TEMPLATES[name]
    d = Draw(rng, base, redraw, shared)
    return Op(name, d.vals, f(d), tags)


def numbers(x, at=None):
    """Where numbers stand in an expression: [(list, index)]"""
    at = [] if at is None else at

    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('a', 't', 'l', 'k', 'o', 'pk', 'cp', 'dc'):
                numbers(v, at)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if type(v) in (int, float):
                at.append((x, i))
            else:
                numbers(v, at)
    return at


def equal_twin(op, rng):
    """The same call with another number equal to one of its numbers."""
    x = json.loads(json.dumps(op.expr))
    at = [(lst, i) for lst, i in numbers(x)
          if isinstance(lst[i], float) and lst[i].is_integer()]

    if not at or rng.random() < 0.15:
        at = [(lst, i) for lst, i in numbers(x) if isinstance(lst[i], int)
              and abs(lst[i]) < 2**53]

    if at:
        lst, i = rng.choice(at)
        v = lst[i]
        lst[i] = float(v) if isinstance(v, int) else int(v)

        if v == 0 and rng.random() < 0.4:
            lst[i] = -0.0

    return Op(op.name, op.vals, x, op.tags)


def hash_pair(op, rng, shared=None):
    """Two calls that differ in two numbers with the same hash."""
    years = [k for k, v in op.vals.items()
             if k.endswith('year') and type(v) is int]

    if years and rng.random() < 0.6:
        k = rng.choice(years)
        return [make(op.name, rng, shared, {**op.vals, k: v})
                for v in rng.sample((-1, -2), 2)]

    out = []
    at = numbers(json.loads(json.dumps(op.expr)))

    if at:
        j = rng.randrange(len(at))
        for v in rng.sample((-1, -2), 2):
            x = json.loads(json.dumps(op.expr))
            lst, i = numbers(x)[j]
            lst[i] = type(lst[i])(v)
            out.append(Op(op.name, op.vals, x, op.tags))

    return out


def neighbour(op, rng, shared=None):
    if rng.random() < 0.03:
        return equal_twin(op, rng)

    labels = list(op.vals)
    labels += 2 * [k for k in labels if k in ('fmt', 'placename', 'tail')]
    labels += 6 * [k for k in labels if k == 'shift']
    n = 1 if rng.random() < 0.7 else min(2, len(labels))
    redraw = rng.sample(labels, n) if labels else ()
    return make(op.name, rng, shared, op.vals, redraw)


def names(include, exclude=()):
    inc, ex = set(include), set(exclude)
    return [n for n, (f, t) in TEMPLATES.items() if t & inc and not t & ex]


def shared_objects(rng, n=5):
    """Objects the tasks of a scenario share -> (exprs, kind -> indices)."""
    exprs, kinds = [], {}
    d = Draw(rng)

    def add(kind, x):
        kinds.setdefault(kind, []).append(len(exprs))
        exprs.append(x)

    add('BahaiCalendar', F('BahaiCalendar'))
    add('GregorianCalendar', F('GregorianCalendar'))

    for i in range(n):
        k = rng.choice(('date', 'datetime', 'time', 'tz', 'datetime', 'date'))
        d = Draw(rng)
        add(k, getattr(d, k)())
        kinds.setdefault('_vals', []).append(d.vals)

    return exprs, kinds


def sequence(rng, n, include=('calc',), exclude=(), shared=None, pool=None,
             near=0.6):
    """n operations; many are neighbours of earlier ones."""
    out = []
    ns = names(include, exclude)

    if pool is None:
        pool = []

    have = (shared or {}).get('_vals', [])

    # swarm: each scenario uses a few templates only
    few = rng.sample(ns, min(len(ns), rng.choice((1, 2, 3, 4, 6, 10))))

    for _ in range(n):
        if pool and rng.random() < near:
            base = rng.choice(pool)

            if rng.random() < 0.02:
                pair = hash_pair(base, rng, shared)

                if pair:
                    out += pair
                    pool += pair
                    continue

            op = (base if rng.random() < 0.25
                  else neighbour(base, rng, shared))
        elif (pool or have) and rng.random() < 0.4:
            # another call with values of an earlier one
            vals = rng.choice([o.vals for o in pool] + have)
            op = make(rng.choice(few), rng, shared,
                      {k: v for k, v in vals.items() if k in COMMON})
        else:
            op = make(rng.choice(few), rng, shared)
        out.append(op)
        pool.append(op)

    return out


# ------------------------------------------------------- calls on one object
QUERIES = {
    'date': ('__hash__', '__str__', '__repr__', 'isoformat', 'ctime',
             'timetuple', 'toordinal', 'weekday', 'isoweekday', 'isocalendar'),
    'datetime': ('__hash__', '__hash__', '__str__', '__repr__', 'isoformat',
                 'ctime', 'timetuple', 'utctimetuple', 'toordinal', 'weekday',
                 'isocalendar', 'date', 'time', 'timetz', 'utcoffset',
                 'tzname', 'dst', 'timestamp'),
    'time': ('__hash__', '__hash__', '__str__', '__repr__', 'isoformat',
             'utcoffset', 'tzname', 'dst'),
    'tz': ('utcoffset', 'tzname', 'dst', 'badioffset')}


def query(rng, kind, i, j=None):
    """A call on shared object i; j: another of the same kind."""
    x, y = {'s': i}, {'s': i if j is None else j}
    cls = 'timezone' if kind == 'tz' else kind

    if kind == 'tz':
        k = rng.choice(('hash', 'str', 'repr', 'eq') + QUERIES[kind])
        if k in QUERIES[kind]:
            return M(x, k, None, cls=cls)
        return {'op': k, 'a': [x, y] if k == 'eq' else [x], 'cls': cls}

    k = rng.choice(QUERIES[kind] + ('cmp', 'strftime', 'replace', 'pk', 'add',
                                    'member', '__hash__', '__hash__', 'cmp'))
    if k == 'cmp':
        return {'op': rng.choice(('eq', 'lt', 'ge')), 'a': [x, y], 'cls': cls}
    if k == 'strftime':
        f = rng.choice(SAFE_FORMATS + ['%c', '%p %I', '%z %Z', '%A %B'])
        return M(x, 'strftime', f, cls=cls)
    if k == 'replace':
        return M(x, 'replace', **{'hour' if kind == 'time' else 'day':
                                  rng.randint(1, 4)}, cls=cls)
    if k == 'pk':
        return {'pk': x, 'p': rng.randint(0, 5)}
    if k == 'add' and kind != 'time':
        return {'op': 'add', 'a': [x, F('timedelta', rng.randint(-3, 3))],
                'cls': cls}
    if k == 'member':
        return {'op': 'hash', 'a': [x], 'cls': cls}
    return M(x, k if k in QUERIES[kind] else '__hash__', cls=cls)


def duel(rng, threads=None):
    """
    Few objects, used for the first time by several threads at once
    -> (shared objects, lists of expressions)
    """
    kind = rng.choice(('date', 'datetime', 'datetime', 'time', 'tz',
                       'datetime'))
    shared = []

    pair = kind in ('datetime', 'time') and rng.random() < 0.3

    for n in range(2 if pair else rng.choice((1, 1, 2))):
        d = Draw(rng, {'aware': pair or rng.random() < 0.7,
                       **({'long': False, 'year': 180} if pair else {})})
        shared.append(getattr(d, kind)())

    same = None
    tasks = []

    for t in range(threads or rng.choice((2, 2, 2, 3))):
        ops = []
        for n in range(rng.choice((1, 1, 2, 3))):
            if same is not None and rng.random() < 0.5:
                ops.append(same)
            else:
                i = rng.randrange(len(shared))

                if pair and rng.random() < 0.5:
                    # two zones: offsets, folds, hashes
                    ops.append({'op': rng.choice(
                        ('eq', 'eq', 'lt', 'ge', 'sub')),
                        'a': [{'s': i}, {'s': 1 - i}], 'cls': kind})
                else:
                    ops.append(query(rng, kind, i,
                                     rng.randrange(len(shared))))
            same = same or ops[-1]
        tasks.append(ops)

    return shared, tasks
