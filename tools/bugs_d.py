"""The fourth batch of planted bugs (see mkbugs.py)."""
import importlib.util
import os

spec = importlib.util.spec_from_file_location(
    'bugs_a', os.path.join(os.path.dirname(__file__), 'bugs_a.py'))
A = importlib.util.module_from_spec(spec)
spec.loader.exec_module(A)
DT, CAL, BASE, UT, SP, INI, CFG, rig = (
    A.DT, A.CAL, A.BASE, A.UT, A.SP, A.INI, A.CFG, A.rig)
BUGS = {}


def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = {'property': property, 'needs': needs, 'breaks': breaks,
                'edits': edits, 'demo': demo}


# ---------------------------------------------------------------- C01

bug('c01-memo-evict', 'C01',
    'two threads using a new year, one of which empties the full memo between '
    'the other one\'s test and its use of the entry',
    'a memo of leap years is emptied when it is full; the entry another '
    'thread has just found or stored is gone when it reads it',
    [(CAL, '''        return self._YEAR_START[year + 1] - self._YEAR_START[year] == 366
''', '''        leaps = BahaiCalendar._LEAPS

        if year not in leaps:
            if len(leaps) >= 4:
                leaps.clear()

            leaps[year] = (self._YEAR_START[year + 1] -
                           self._YEAR_START[year]) == 366

        return leaps[year]
'''), (CAL, '''    def _is_leap_year(self, year: int) -> bool:
''', '''    _LEAPS = {}

    def _is_leap_year(self, year: int) -> bool:
''')],
    '''
from badidatetime import BahaiCalendar, date
from interleave import interleave

bc = BahaiCalendar()


def first():
    for y in (1, 2, 3, 4):
        bc._is_leap_year(y)
    return date(100, 19, 2).toordinal()


def second():
    return [bc._is_leap_year(y) for y in range(200, 206)][0]


want, other = first(), second()

for n, a, b in interleave(first, second):
    assert a == want and b == other, (n, a, b)
''')

# ---------------------------------------------------------------- C02

bug('c02-memo-equal', 'C02',
    'the ISO text of a datetime asked for after the one of an equal instant '
    'in another time zone',
    'ISO texts are remembered per value, and equal values can be in '
    'different time zones',
    [(DT, '''        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
             _format_time(self._hour, self._minute, self._second,
                          self._microsecond, timespec))

        off = self.utcoffset()
''', '''        return self._iso_text(sep, timespec)

    @functools.lru_cache(maxsize=128)
    def _iso_text(self, sep: str, timespec: str) -> str:
        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
             _format_time(self._hour, self._minute, self._second,
                          self._microsecond, timespec))

        off = self.utcoffset()
'''), (DT, '''import time as _time
''', '''import functools
import time as _time
''')],
    '''
from badidatetime import datetime, timezone, timedelta

a = datetime(180, 3, 4, None, None, 12, 0, tzinfo=timezone(timedelta(hours=1)))
b = datetime(180, 3, 4, None, None, 14, 0, tzinfo=timezone(timedelta(hours=3)))
x, y = a.isoformat(), b.isoformat()
assert x.endswith('12:00:00+01:00') and y.endswith('14:00:00+03:00'), (x, y)
''')

bug('c02-midday-hash', 'C02',
    'the middays of the same day in the years -1 and -2',
    'middays are remembered per hash of the date, and -1 and -2 have the '
    'same hash',
    [(CAL, '''        jd = self.jd_from_badi_date(b_date)
        jd1 = self._meeus_from_exact(jd)
''', '''        key = hash(b_date[:3])

        if key not in self._MIDDAYS:
            self._MIDDAYS[key] = self._local_midday(b_date[:3])

        local_mid = self._MIDDAYS[key]
        return self._hms_from_decimal_day(local_mid) if hms else local_mid

    _MIDDAYS = {}

    def _local_midday(self, b_date: tuple) -> float:
        jd = self.jd_from_badi_date(b_date)
        jd1 = self._meeus_from_exact(jd)
'''), (CAL, '''        local_mid = self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
        return self._hms_from_decimal_day(local_mid) if hms else local_mid
''', '''        return self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
''')],
    '''
from badidatetime import BahaiCalendar

bc = BahaiCalendar()
days = [(m, d) for m in range(1, 20) for d in range(1, 20)]
want = [bc.midday((y, m, d), _short=True) for m, d in days for y in (-2,)]
BahaiCalendar._MIDDAYS = {}
other = [bc.midday((y, m, d), _short=True) for m, d in days for y in (-1,)]
got = [bc.midday((y, m, d), _short=True) for m, d in days for y in (-2,)]
assert got == want, sum(a != b for a, b in zip(got, want))
''')

# ---------------------------------------------------------------- C03

bug('c03-fold-flipped', 'C03',
    'a user time zone that raises (or an interrupt) while two datetimes in '
    'different zones are compared with ==',
    'the other fold is asked for by flipping the one of the value in place, '
    'an exception in between leaves it flipped',
    [(DT, '''                if myoff != self.replace(fold=not self.fold).utcoffset():
                    return 2  # arbitrary non-zero value

                if otoff != other.replace(fold=not other.fold).utcoffset():
                    return 2  # arbitrary non-zero value
''', '''                if myoff != self._other_offset():
                    return 2  # arbitrary non-zero value

                if otoff != other._other_offset():
                    return 2  # arbitrary non-zero value
'''), (DT, '''    def _cmp(self, other, allow_mixed: bool=False) -> int:
        """
        Returns an integer representation of >, ==, or < of two date instances.

        :param date other: The other date instance to compare to.
        :param bool allow_mixed: An integer representation of two date
''', '''    def _other_offset(self):
        # Much faster than a copy of the whole value.
        self._fold = int(not self._fold)
        offset = self.utcoffset()
        self._fold = int(not self._fold)
        return offset

    def _cmp(self, other, allow_mixed: bool=False) -> int:
        """
        Returns an integer representation of >, ==, or < of two date instances.

        :param date other: The other date instance to compare to.
        :param bool allow_mixed: An integer representation of two date
''')],
    '''
from badidatetime import datetime, timezone, timedelta, tzinfo


class Zone(tzinfo):
    left = 100

    def utcoffset(self, dt):
        self.left -= 1
        if not self.left:
            raise RuntimeError('no zone data')
        return timedelta(hours=1)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return 'Z'


z = Zone()
a = datetime(180, 3, 4, None, None, 12, 0, tzinfo=z)
b = datetime(180, 3, 4, None, None, 12, 0, tzinfo=timezone.utc)

for n in range(1, 5):
    z.left = n
    try:
        a == b
    except RuntimeError:
        pass
    z.left = 0
    assert a.fold == 0 and b.fold == 0, n
''')

# ---------------------------------------------------------------- C04

bug('c04-local-in-place', 'C04',
    'a datetime in the zone LOCAL, alive while the local coordinates are '
    'changed in another system time zone',
    'the zone LOCAL is updated in place, so values that use it change',
    [(INI, '''    badidt.LOCAL = badidt.timezone.local = badidt.timezone._create(
        badidt.timedelta(hours=badidt.LOCAL_COORD[2]))
''', '''    offset = badidt.timedelta(hours=badidt.LOCAL_COORD[2])

    if hasattr(badidt, 'LOCAL') and badidt.LOCAL._name is None:
        badidt.LOCAL._offset = offset  # Everyone sees the new local time.
    else:
        badidt.LOCAL = badidt.timezone._create(offset)

    badidt.timezone.local = badidt.LOCAL
''')],
    '''
import badidatetime
from zoneinfo import ZoneInfo

badidatetime.get_localzone = lambda: ZoneInfo('Asia/Tokyo')
badidatetime.set_local_coordinates(35.7, 139.7)
a = badidatetime.datetime(180, 3, 4, None, None, 12, 0,
                          tzinfo=badidatetime.LOCAL)
x = a.isoformat()
badidatetime.get_localzone = lambda: ZoneInfo('America/Denver')
badidatetime.set_local_coordinates(39.7, -105.0)
y = a.isoformat()
assert x == y, (x, y)
''')

# ---------------------------------------------------------------- C05

bug('c05-reset-first', 'C05',
    'a failed lookup of a place (or a reader during a successful one)',
    'the coordinates are reset to the default before the place is looked up',
    [(INI, '''    coords = _get_local_coordinates()

    if None in coords:
        badidt.LOCAL_COORD = badidt.BADI_COORD
    else:
        badidt.LOCAL_COORD = coords
''', '''    badidt.LOCAL_COORD = badidt.BADI_COORD
    coords = _get_local_coordinates()

    if None not in coords:
        badidt.LOCAL_COORD = coords
''')],
    '''
import sys, badidatetime

m = sys.modules['badidatetime.datetime']
badidatetime.set_local_coordinates(35.7, 139.7)
a = m.LOCAL_COORD, m.LOCAL


class Geo:
    def __init__(self, *a, **k):
        pass

    def geocode(self, *a, **k):
        raise OSError('network is unreachable')


badidatetime.Nominatim = Geo

try:
    badidatetime.set_local_coordinates(locale='Tokyo')
except OSError:
    pass

assert (m.LOCAL_COORD, m.LOCAL) == a, m.LOCAL_COORD
''')

bug('c05-same-attempt', 'C05',
    'a change that failed, then the same change again',
    'a change to the place asked for last is skipped, also when the last '
    'attempt failed or the system time zone is another one now',
    [(INI, '''    coords = _get_local_coordinates()

    if None in coords:
''', '''
    if _LOCAL_COORDS == getattr(badidt, '_wanted', None):
        return

    badidt._wanted, coords = _LOCAL_COORDS, _get_local_coordinates()

    if None in coords:
''')],
    '''
import sys, badidatetime
from zoneinfo import ZoneInfo

m = sys.modules['badidatetime.datetime']

for zone, hours in (('Asia/Tokyo', 9), ('Asia/Kolkata', 5.5)):
    badidatetime.get_localzone = lambda: ZoneInfo(zone)
    badidatetime.set_local_coordinates(35.7, 139.7)
    assert m.LOCAL_COORD == (35.7, 139.7, hours), m.LOCAL_COORD
''')

# ---------------------------------------------------------------- C06

bug('c06-same-tick', 'C06',
    'two calls within one tick of the clock, in zones with equal offsets or '
    'in different forms',
    'the answer for the last reading is used again when the clock did not '
    'advance; zones with the same offset are equal but can be elsewhere',
    [(DT, '''        return cls.fromtimestamp(_time.time(), tz, short=short)
''', '''        key = _time.time(), tz, short, LOCAL_COORD
        last = cls._LAST

        if last is None or last[0] != key:
            last = cls._LAST = key, cls.fromtimestamp(key[0], tz, short=short)

        return last[1]
'''), (DT, '''    @classmethod
    def now(cls, tz: tzinfo=None, short: bool=True):
        """
        Construct a datetime''', '''    _LAST = None

    @classmethod
    def now(cls, tz: tzinfo=None, short: bool=True):
        """
        Construct a datetime''')],
    '''
import sys
from badidatetime import datetime, TZWithCoords

m = sys.modules['badidatetime.datetime']


class Clock:
    def __getattr__(self, name):
        import time
        return getattr(time, name)

    def time(self):
        return 1700000000.0


m._time = Clock()
a = TZWithCoords(35.7, 139.7, 9.0, key='Asia/Tokyo')
b = TZWithCoords(-12.46, 130.84, 9.0, key='Australia/X')
x, y = datetime.now(a), datetime.now(b)
assert y.tzinfo is b, y.tzinfo
''')

# ---------------------------------------------------------------- C07

bug('c07-lat-clamp', 'C07',
    'a place more than 55 degrees north or south',
    'the latitude is clamped so that the hour angle always exists, long '
    'before it has to be',
    [(BASE, '''        # Normalize to [0,1]
        m0 = ((alpha - lon - ast) / 360) % 1
''', '''        lat = max(-55.0, min(55.0, lat))
        h0 = self._approx_local_hour_angle(tc, lat, offset=offset)
        # Normalize to [0,1]
        m0 = ((alpha - lon - ast) / 360) % 1
''')],
    '''
from badidatetime import BahaiCalendar

bc = BahaiCalendar()
a = bc._sun_setting(2460116.5, 55.0, 18.0)
b = bc._sun_setting(2460116.5, 59.3, 18.0)
assert (b - a) * 1440 > 15, (b - a) * 1440
''')

# ---------------------------------------------------------------- C08

# ---------------------------------------------------------------- C09

# ---------------------------------------------------------------- C10

bug('c10-hash-travels', 'C10',
    'a date that was hashed before it was stored, read by a process with '
    'another hash seed',
    'the hash code is stored with the date',
    [(DT, '''        return (self.__class__, self._getstate())


_date_class = date''', '''        return (self.__class__, self._getstate(),
                (None, {'_hashcode': self._hashcode}))


_date_class = date''')],
    '''
import os, pickle, subprocess, sys
from badidatetime import date

a = date(180, 3, 4)
hash(a)
env = dict(os.environ, PYTHONHASHSEED='4711')
r = subprocess.run([sys.executable, '-c', """
import pickle, sys
from badidatetime import date
a = pickle.loads(sys.stdin.buffer.read())
assert {a: 1}.get(date(180, 3, 4)) == 1
"""], input=pickle.dumps(a), env=env, capture_output=True)
assert r.returncode == 0, r.stderr.decode()
''')

bug('c10-utc-singleton', 'C10',
    'a stored TZWithCoords other than UTC whose offset is zero',
    'every zone that equals UTC is restored as UTC itself, so places in '
    'Greenwich time lose their coordinates',
    [(DT, '''        return (self.__class__, (self.lat, self.lon),
''', '''        if self == self.utc:  # Always the same object.
            return (getattr, (timezone, 'utc'))

        return (self.__class__, (self.lat, self.lon),
''')],
    '''
import pickle
from badidatetime import TZWithCoords, timezone

a = TZWithCoords(5.56, -0.2, 0.0, key='Africa/Accra')
b = pickle.loads(pickle.dumps(a))
assert b.coordinates == a.coordinates, b.coordinates
''')

# ---------------------------------------------------------------- C11

# ---------------------------------------------------------------- C12

bug('c12-resume', 'C12',
    'a crash or power failure while the new pyproject.toml is written, then '
    'another run',
    'a temporary file left by an interrupted run is put in place, complete '
    'or not',
    [(CFG, '''        self.edit_badidatetime_init(data)
        return self.edit_pyproject(data)
''', '''
        for path in (self.FILENAME, self.INIT_PATH):
            tmp_path = f"{path}.tmp"

            if os.path.exists(tmp_path):  # Finish an interrupted run.
                os.replace(tmp_path, path)

        self.edit_badidatetime_init(data)
        return self.edit_pyproject(data)
''')],
    rig('''
release(97)
# killed in the middle of a write
r = run("""
import builtins, os
old = builtins.open
def open_(path, *a, **k):
    f = old(path, *a, **k)
    if str(path).endswith('pyproject.toml.tmp'):
        write = f.write
        class F:
            def __enter__(self): return self
            def __exit__(self, *a): f.close()
            def __getattr__(self, n): return getattr(f, n)
            def write(self, s):
                write(s[:100]); f.flush(); os._exit(9)
        return F()
    return f
builtins.open = open_
""")
r = run()
assert r.returncode == 0, r.stderr
text = read(prj)
assert '[project]' in text and 'classifiers' in text, text
'''))

# ---------------------------------------------------------------- C13

bug('c13-sums-per-thread', 'C13',
    'a handler that uses the calendar while its thread adds up the terms of '
    'the nutation',
    'the sums are kept per thread, so a computation interrupted by another '
    'one on the same thread goes on with the sums of the other',
    [(BASE, '''        lon_sum = 0
        obl_sum = 0

        for LM, LS, F, D, OM, day, psi_sin, sin, eps_cos, cos in self._NUT:
            w = LM*lm + LS*ls + F*ff + D*dd + OM*om
            lon_sum += (psi_sin + sin * tc) * self._sin_deg(w)
            obl_sum += (eps_cos + cos * tc) * self._cos_deg(w)

        lon_sum /= 36000000
        obl_sum /= 36000000
''', '''        sums = self._SUMS
        sums.lon = 0
        sums.obl = 0

        for LM, LS, F, D, OM, day, psi_sin, sin, eps_cos, cos in self._NUT:
            w = LM*lm + LS*ls + F*ff + D*dd + OM*om
            sums.lon += (psi_sin + sin * tc) * self._sin_deg(w)
            sums.obl += (eps_cos + cos * tc) * self._cos_deg(w)

        lon_sum = sums.lon / 36000000
        obl_sum = sums.obl / 36000000
'''), (BASE, '''    def _nutation_obliquity_longitude(self, tc''',
       '''    _SUMS = threading.local()

    def _nutation_obliquity_longitude(self, tc'''),
     (BASE, '''import math
''', '''import math
import threading
''')],
    '''
from badidatetime import BahaiCalendar
from interleave import nest

bc = BahaiCalendar()
first = lambda: bc._nutation_obliquity_longitude(0.1)
second = lambda: bc._nutation_obliquity_longitude(-1.3)
want = first(), second()

for n, a, b in nest(first, second, step=7, limit=900):
    assert (a, b) == want, (n, a, b)
''')

# ---------------------------------------------------------------- C14

bug('c14-rate-limit', 'C14',
    'the system clock set back between two lookups of places',
    'lookups are kept one second apart by the system clock; when that was '
    'set back the next lookup waits until it has caught up',
    [(INI, '''        geolocator = Nominatim(user_agent='nc-bookkeeper')
        location = geolocator.geocode(_LOCAL_COORDS[2])
''', '''        # The service allows one request per second.
        wait = _LOOKUP[0] + 1 - time.time()

        if wait > 0:
            time.sleep(wait)

        _LOOKUP[0] = time.time()
        geolocator = Nominatim(user_agent='nc-bookkeeper')
        location = geolocator.geocode(_LOCAL_COORDS[2])
'''), (INI, '''_LOCAL_COORDS = ()
''', '''_LOCAL_COORDS = ()
_LOOKUP = [0]
'''), (INI, '''from geopy.geocoders import Nominatim
''', '''import time
from geopy.geocoders import Nominatim
''')],
    '''
import sys, time, badidatetime


class Place:
    latitude, longitude = 35.7, 139.7


class Geo:
    def __init__(self, *a, **k):
        pass

    def geocode(self, *a, **k):
        return Place


badidatetime.Nominatim = Geo
now, slept = [1700000000.0], []
time.time = lambda: now[0]
time.sleep = slept.append
badidatetime.set_local_coordinates(locale='Tokyo')
now[0] -= 86400
badidatetime.set_local_coordinates(locale='Tokyo')
assert sum(slept) < 60, slept
''')

# ---------------------------------------------------------------- C11

bug('c11-pivot-today', 'C11',
    'machines whose clocks are in different Badi centuries',
    'a year of two digits above 50 is put into the century of the clock',
    [(SP, '''                dot_dict.year = int(found_dict['y'])
''', '''                dot_dict.year = int(found_dict['y'])

                if dot_dict.year > 50:
                    year = datetime_date.today().year
                    dot_dict.year += year // 100 * 100
''')],
    '''
import sys, time, badidatetime
m = sys.modules['badidatetime.datetime']


class Clock:
    now = 0

    def __getattr__(self, name):
        return getattr(time, name)

    def time(self):
        return self.now


c = m._time = Clock()
c.now = 1.7e9
a = badidatetime.datetime.strptime('60 3 4', '%y %m %d')
c.now = 5e9
b = badidatetime.datetime.strptime('60 3 4', '%y %m %d')
assert a == b, (a, b)
''')

# ---------------------------------------------------------------- C09

bug('c09-key-lower', 'C09',
    'two formats that differ only in the case of a directive',
    'formats are matched without regard to case, so their compiled forms '
    'are kept without it too; %m and %M are the same one then',
    [(SP, '''            format_regex = _regex_cache.get(self.format)
''', '''            key = self.format.lower()
            format_regex = _regex_cache.get(key)
'''), (SP, '''                _regex_cache[format] = format_regex
''', '''                _regex_cache[key] = format_regex
''')],
    '''
from badidatetime import datetime

a = datetime.strptime('0180 3 4', '%Y %m %d')
b = datetime.strptime('0180 3 4', '%Y %M %d')
assert (a.month, a.minute, b.month, b.minute) == (3, 0, 1, 3), (a, b)
''')
