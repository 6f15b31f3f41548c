"""The first batch of planted bugs (see mkbugs.py)."""
DT = 'badidatetime/datetime.py'
CAL = 'badidatetime/badi_calendar.py'
BASE = 'badidatetime/base_calendar.py'
UT = 'badidatetime/_timedateutils.py'
SP = 'badidatetime/_strptime.py'
INI = 'badidatetime/__init__.py'
CFG = 'config.py'
BUGS = {}


def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = {'property': property, 'needs': needs, 'breaks': breaks,
                'edits': edits, 'demo': demo}


# ---------------------------------------------------------------- C01

bug('c01-strftime-state', 'C01',
    'two threads formatting dates, the second one between two directives of '
    'the first one\'s format',
    'strftime() keeps the struct it formats on the shared _td_utils object, '
    'so a text can mix the fields of two dates',
    [(UT, '''            ttup = struct_time(ttup, tzinfo=tzinfo)

        idx, fmtlen''', '''            ttup = struct_time(ttup, tzinfo=tzinfo)

        self._ttup = ttup
        idx, fmtlen'''),
     (UT, '''                    self, ttup, ch1, ch0 if i == 2 else '')''',
      '''                    self, self._ttup, ch1, ch0 if i == 2 else '')''')],
    '''
from badidatetime import date
from interleave import interleave

a, b = date(180, 3, 4), date(99, 17, 19)
f = '%Y/%m/%d %B %A'
want = a.strftime(f), b.strftime(f)

for n, x, y in interleave(lambda: a.strftime(f), lambda: b.strftime(f)):
    assert (x, y) == want, f'second thread at line {n}: {x!r}, {y!r}'
''')

bug('c01-midday-memo', 'C01',
    'two threads asking for AM or PM of different days, one between the two '
    'stores of the memo and the read of the result',
    'the midday of the last day is remembered in two separate attributes of '
    'the shared _td_utils object; a thread can pair its own day with '
    'another\'s midday',
    [(CAL, '''        jd = self.jd_from_badi_date(b_date)
        jd1 = self._meeus_from_exact(jd)
        ss0''', '''        key = b_date[:3]

        if self._bahai_date != key:
            self._bahai_date = key
            self._time = self._find_midday_of(b_date)

        return (self._hms_from_decimal_day(self._time) if hms
                else self._time)

    def _find_midday_of(self, b_date: tuple) -> float:
        jd = self.jd_from_badi_date(b_date[:3])
        jd1 = self._meeus_from_exact(jd)
        ss0'''),
     (CAL, '''        local_mid = self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
        return self._hms_from_decimal_day(local_mid) if hms else local_mid
''', '''        return self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
''')],
    '''
from badidatetime import BahaiCalendar
from interleave import interleave

bc = BahaiCalendar()
a, b = (180, 1, 1), (180, 14, 1)
call = lambda d: lambda: bc.midday(d, hms=True, _short=True)
want = call(a)(), call(b)()

for n, x, y in interleave(call(a), call(b), step=3, limit=3000):
    assert (x, y) == want, f'second thread at line {n}: {x!r}, {y!r}'
    z = call(b)()
    assert z == want[1], f'after a second thread at line {n}: {z!r}'
''')

bug('c01-hash-two-steps', 'C01',
    'two threads hash the same aware datetime for the first time, the second '
    'between the two stores',
    'the lazily computed hash is published before the offset has been taken '
    'into account; the second thread gets another hash for the same value',
    [(DT, '''            tzoff = t.utcoffset()

            if tzoff is None:
                self._hashcode = hash(t._getstate()[0])
            else:
                days''', '''            self._hashcode = hash(t._getstate()[0])
            tzoff = t.utcoffset()

            if tzoff is not None:
                days''')],
    '''
from badidatetime import datetime, BADI
from interleave import interleave

make = lambda: datetime(180, 3, 4, None, None, 5, 6, 7, tzinfo=BADI)
want = hash(make())
n = 1

while n < 400:
    d = make()
    for k, x, y in interleave(lambda: hash(d), lambda: hash(d)):
        assert x == y == want, f'line {n}: hashes {x} and {y}, not {want}'
        break
    # the next line
    got = None
    d = make()
    for k, x, y in interleave(lambda: hash(d), lambda: hash(d), step=n):
        got = x, y
        if k > 1:
            break
        d = make()
    else:
        if got is None:
            break
    if got is not None:
        assert got == (want, want), f'line {n}: hashes {got}, not {want}'
    d2 = make()
    n += 1
''')

bug('c01-leap-cache-in-place', 'C01',
    'init_leap_cache() running in one thread while another converts a date',
    'the table of year starts is built in place, so other threads find it '
    'half empty',
    [(CAL, '''        year_start = {}
        lon_div''', '''        year_start = BahaiCalendar._YEAR_START = {}
        lon_div''')],
    '''
import badidatetime
from badidatetime import BahaiCalendar
from interleave import interleave

bc = BahaiCalendar()
call = lambda: bc.badi_date_from_jd(2460000.5, short=True)
want = call()

for n, x, y in interleave(badidatetime.init_leap_cache, call, step=997,
                          limit=20000):
    assert y == want, f'second thread at line {n}: {y!r}, not {want!r}'
''')

# ---------------------------------------------------------------- C02

bug('c02-naw-ruz-memo', 'C02',
    'Naw-Ruz of the same year asked for two places in one time zone',
    'naw_ruz_g_date() remembers its answers by year and zone, so the second '
    'place in the zone gets the sunset of the first',
    [(CAL, '''        jd = self.jd_from_badi_date((year, 1, 1), lat, lon, zone)
        jd += self._HR(zone)
        return self._gc.gregorian_date_from_jd(jd, hms=hms, exact=True)
''', '''        key = year, zone

        if key not in self._naw_ruz:
            jd = self.jd_from_badi_date((year, 1, 1), lat, lon, zone)
            self._naw_ruz[key] = jd + self._HR(zone)

        return self._gc.gregorian_date_from_jd(self._naw_ruz[key], hms=hms,
                                               exact=True)
'''), (CAL, '''    _YEAR_START = None
''', '''    _YEAR_START = None
    _naw_ruz = {}
''')],
    '''
from badidatetime import BahaiCalendar

bc = BahaiCalendar()
paris, madrid = (48.85, 2.35, 1.0), (40.42, -3.70, 1.0)
a = bc.naw_ruz_g_date(170, *madrid, hms=True)
bc.naw_ruz_g_date(171, *paris, hms=True)
b = bc.naw_ruz_g_date(171, *madrid, hms=True)
jd = bc.jd_from_badi_date((171, 1, 1), *madrid) + 1 / 24
want = bc._gc.gregorian_date_from_jd(jd, hms=True, exact=True)
assert b == want, f'{b} after a call for Paris, {want} alone'
''')

bug('c02-geocode-memo', 'C02',
    'two place names whose first part is the same',
    'the coordinates of a place name are remembered by the part before the '
    'comma, so the second of two places called alike gets those of the first',
    [(INI, '''        geolocator = Nominatim(user_agent='nc-bookkeeper')
        location = geolocator.geocode(_LOCAL_COORDS[2])
''', '''        name = str(_LOCAL_COORDS[2]).split(',')[0].strip()
        location = _PLACES.get(name)

        if location is None:
            geolocator = Nominatim(user_agent='nc-bookkeeper')
            location = geolocator.geocode(_LOCAL_COORDS[2])
            _PLACES[name] = location

'''), (INI, '''_LOCAL_COORDS = ()
''', '''_LOCAL_COORDS = ()
_PLACES = {}
''')],
    '''
import badidatetime

class Place:
    def __init__(self, lat, lon):
        self.latitude, self.longitude = lat, lon

class Geo:
    def __init__(self, *a, **k):
        pass
    def geocode(self, name, *a, **k):
        return Place(48.8, 2.3) if 'France' in name else Place(33.6, -95.5)

badidatetime.Nominatim = Geo
badidatetime.set_local_coordinates(locale='Paris, France')
badidatetime.set_local_coordinates(locale='Paris, Texas')
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
assert m.LOCAL_COORD[:2] == (33.6, -95.5), m.LOCAL_COORD
''')

bug('c02-raise-leaves-format', 'C02',
    'a strptime() format that ends in a bad directive, then another parse '
    'with the valid part of that format',
    'a format is entered in the regex cache directive by directive, so a '
    'format that raised leaves an entry which the next call takes for '
    'its own',
    [(SP, '''                _regex_cache[format] = format_regex
''', '''                _regex_cache[self.format] = format_regex
'''),
     (SP, '''        while '%' in format:
            directive_index = format.index('%') + 1
''', '''        whole = format

        while '%' in format:
            if format.startswith('%%') and processed_format:
                _regex_cache[whole[:-len(format)]] = re_compile(
                    processed_format, IGNORECASE)

            directive_index = format.index('%') + 1
''')],
    '''
from badidatetime import datetime

want = datetime(180, 3, 4)
assert datetime.strptime('0180 3 4', '%Y %m %d') == want

try:
    datetime.strptime('0180-3-4%', '%Y.%m.%d%%')
except ValueError:
    pass

# escaped text of the format above, a different format
try:
    got = datetime.strptime('0180.3.4', '%Y\\\\.%m\\\\.%d')
except ValueError as e:
    got = 'raised'
assert got == 'raised', got
''')

# ---------------------------------------------------------------- C03

bug('c03-lock-not-released', 'C03',
    'KeyboardInterrupt while strptime() holds the cache lock',
    'the lock is released by an except clause that does not catch '
    'KeyboardInterrupt; every later strptime() waits for ever',
    [(SP, '''        with _cache_lock:
            locale_time = _TimeRE_cache.locale_time
''', '''        _cache_lock.acquire()

        try:
            locale_time = _TimeRE_cache.locale_time
'''), (SP, '''        found = format_regex.match(self.data_string)

        if not found''', '''        except Exception:
            _cache_lock.release()
            raise
        else:
            _cache_lock.release()

        found = format_regex.match(self.data_string)

        if not found''')],
    '''
from badidatetime import datetime
from interleave import abort, in_time

call = lambda: datetime.strptime('0180 3 4', '%Y %m %d')
want = call()

for n in abort(call, inside='_strptime.py', skip='_find_regex', limit=60):
    got = in_time(call, 5)
    assert got == want, f'aborted at line {n}, the next call: {got}'
''')

bug('c03-hash-placeholder', 'C03',
    'a user time zone whose utcoffset() raises while a datetime is hashed',
    'a guard value stored before the time zone is asked stays behind as the '
    'hash of the value',
    [(DT, '''        if self._hashcode == -1:
            if self.fold:
                t = self.replace(fold=0)
            else:
                t = self

            tzoff = t.utcoffset()

            if tzoff is None:''', '''        if self._hashcode == -1:
            self._hashcode = 0  # A time zone may ask for our hash.

            if self.fold:
                t = self.replace(fold=0)
            else:
                t = self

            tzoff = t.utcoffset()

            if tzoff is None:''')],
    '''
from badidatetime import datetime, tzinfo, timedelta

class Zone(tzinfo):
    ok = True
    def utcoffset(self, dt):
        if not self.ok:
            raise RuntimeError('no zone data')
        return timedelta(hours=1)
    def dst(self, dt):
        return None
    def tzname(self, dt):
        return 'Z'

z = Zone()
a = datetime(180, 3, 4, tzinfo=z)
b = datetime(180, 3, 4, tzinfo=z)
z.ok = False
try:
    hash(a)
except RuntimeError:
    pass
z.ok = True
assert hash(a) == hash(b), f'{hash(a)} != {hash(b)}'
''')

bug('c03-cache-none', 'C03',
    'an abort while strptime() rebuilds its tables after a change of locale '
    'or time zone',
    'the old tables are dropped before the new ones are complete; when that '
    'is aborted every later strptime() fails',
    [(SP, '''                _TimeRE_cache = TimeRE()
                self._clear_cache()
''', '''                self._clear_cache()
                _TimeRE_cache = None
                _TimeRE_cache = TimeRE()
''')],
    '''
import os, time
from badidatetime import datetime
from interleave import abort, answer

call = lambda: datetime.strptime('0180 3 4', '%Y %m %d')
os.environ['TZ'] = 'UTC'
time.tzset()
want = call()
zone = ['EST5EDT']

def first():
    os.environ['TZ'] = zone[0]
    time.tzset()
    call()

for n in abort(first, inside='_strptime.py', step=7, limit=200):
    got = answer(call)
    assert got == want, f'aborted at line {n}, the next call: {got}'
    zone[0] = 'EST5EDT' if zone[0] != 'EST5EDT' else 'UTC'
''')

bug('c03-fold-swapped', 'C03',
    'an abort, or a user time zone that raises, while a datetime with fold=1 '
    'is hashed',
    'the fold is cleared on the value itself while it is hashed and stays '
    'cleared when the call is aborted',
    [(DT, '''            if self.fold:
                t = self.replace(fold=0)
            else:
                t = self

            tzoff = t.utcoffset()

            if tzoff is None:
                self._hashcode = hash(t._getstate()[0])
''', '''            t, fold = self, self._fold
            self._fold = 0
            tzoff = t.utcoffset()
            self._fold = fold

            if tzoff is None:
                self._hashcode = hash(t._getstate()[0])
''')],
    '''
from badidatetime import datetime, BADI
from interleave import abort

d = datetime(180, 3, 4, None, None, 1, 2, 3, tzinfo=BADI, fold=1)

for n in abort(lambda: hash(d), inside='/datetime.py', limit=60):
    assert d.fold == 1, f'aborted at line {n}: fold is {d.fold}'
    d._hashcode = -1
''')

# ---------------------------------------------------------------- C04

bug('c04-zone-interned', 'C04',
    'two coordinate time zones with the same place, offset and key, the '
    'second made from a ZoneInfo',
    'equal coordinate zones are shared, so attaching a ZoneInfo to one '
    'changes the dst() of the other',
    [(DT, '''        name = "" if key is None else key
        self = super().__new__(cls, offset, name)
''', '''        name = "" if key is None else key
        ident = cls, lat, lon, zone, name

        if ident in cls._zones:
            return cls._zones[ident]

        self = cls._zones[ident] = super().__new__(cls, offset, name)
'''), (DT, '''    __slots__ = 'lat', 'lon', 'zone', 'key', '_name', '_coords', '_zi'
''', '''    __slots__ = 'lat', 'lon', 'zone', 'key', '_name', '_coords', '_zi'
    _zones = {}
''')],
    '''
from zoneinfo import ZoneInfo
from badidatetime import TZWithCoords, datetime

a = TZWithCoords(40.7, -74.0, -5.0, key='America/New_York')
d = datetime(180, 6, 1, tzinfo=a)

class Summer:
    key = 'America/New_York'
    def dst(self, dt):
        from datetime import timedelta
        return timedelta(hours=1)

before = a.dst(d)
TZWithCoords.fromzoneinfo(Summer(), 40.7, -74.0, -5.0)
assert a.dst(d) == before, f'dst() was {before}, now {a.dst(d)}'
''')

bug('c04-utctimetuple-in-place', 'C04',
    'utctimetuple() of a datetime whose zone has an offset, then reading the '
    'value\'s tuples or pickling it',
    'utctimetuple() shifts the tuples of the value itself',
    [(DT, '''        if offset:
            self -= offset

        date = self.b_date + (self.hour, self.minute, self.second)
''', '''        if offset:
            other = self - offset
            self.__date, self.__time = other.b_date, other.b_time

        date = self.b_date + self.b_time[:3]
''')],
    '''
from badidatetime import datetime, timezone, timedelta

d = datetime(180, 3, 4, None, None, 1, 2, 3, tzinfo=timezone(timedelta(hours=5)))
before = d.b_date, d.b_time
first = d.utctimetuple()
assert (d.b_date, d.b_time) == before, f'{before} became {d.b_date}, {d.b_time}'
assert d.utctimetuple() == first
''')

bug('c04-argument-changed', 'C04',
    'a date passed as a list',
    'kvymdhms_from_b_date() trims the time off the caller\'s own list',
    [(CAL, '''        if dlen > 5:
            hms = self._trim_hms(b_date[5:dlen])
            b_date = b_date[:5] + hms
            dlen = len(b_date)
''', '''        if dlen > 5:
            while len(b_date) > 5 and not b_date[-1]:
                if isinstance(b_date, list):
                    b_date.pop()
                else:
                    b_date = b_date[:-1]

            dlen = len(b_date)
''')],
    '''
from badidatetime import BahaiCalendar

d = [1, 10, 10, 3, 4, 5, 6, 0]
try:
    BahaiCalendar().kvymdhms_from_b_date(d)
except Exception:
    pass
assert d == [1, 10, 10, 3, 4, 5, 6, 0], d
''')

bug('c04-iadd', 'C04',
    'a datetime with two names, one of which is advanced with +=',
    '+= moves the datetime in place, so every other holder of the value sees '
    'it change',
    [(DT, '''        raise OverflowError("Result out of range.")

    __radd__ = __add__

    def __sub__(self, other) -> object:
''', '''        raise OverflowError("Result out of range.")

    __radd__ = __add__

    def __iadd__(self, other):
        new = self + other

        if new.is_short != self.is_short or new.tzinfo is not self.tzinfo:
            return new

        for name in ('_year', '_month', '_day', '_hour', '_minute',
                     '_second', '_microsecond', '_datetime__date',
                     '_datetime__time'):
            setattr(self, name, getattr(new, name))

        if not self.is_short:
            self._kull_i_shay, self._vahid = new._kull_i_shay, new._vahid

        self._hashcode = -1
        return self

    def __sub__(self, other) -> object:
''')],
    '''
from badidatetime import datetime, timedelta

a = b = datetime(180, 3, 4, None, None, 5, 6)
text = str(b)
a += timedelta(3)
assert str(b) == text, f'{text} became {b}'
''')

# ---------------------------------------------------------------- C05

bug('c05-network-error-swallowed', 'C05',
    'a place name lookup that fails on the network',
    'a failed lookup silently configures the default place',
    [(INI, '''        location = geolocator.geocode(_LOCAL_COORDS[2])
        assert location, (''', '''
        try:
            location = geolocator.geocode(_LOCAL_COORDS[2])
        except OSError:  # No network.
            return None, None, offset / 3600
        except Exception as e:
            if 'GeocoderTimedOut' in type(e).__name__:
                return None, None, offset / 3600

            raise

        assert location, (''')],
    '''
import badidatetime
from geopy.exc import GeocoderTimedOut

class Geo:
    def __init__(self, *a, **k):
        pass
    def geocode(self, name, *a, **k):
        raise GeocoderTimedOut('slow')

badidatetime.Nominatim = Geo
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
badidatetime.set_local_coordinates(48.85, 2.35)
before = m.LOCAL_COORD
try:
    badidatetime.set_local_coordinates(locale='Nowhere')
    raised = False
except Exception:
    raised = True
assert raised and m.LOCAL_COORD == before, (raised, m.LOCAL_COORD)
''')

bug('c05-two-reads', 'C05',
    'the coordinates changed by another thread between two reads in '
    'fromtimestamp()',
    'the latitude and the longitude used for one conversion come from two '
    'configurations',
    [(DT, '''        if tz is None:
            lat, lon, zone = LOCAL_COORD
        elif''', '''        if tz is None:
            lat = LOCAL_COORD[0]
            lon = LOCAL_COORD[1]
            zone = LOCAL_COORD[2]
        elif''')],
    '''
import badidatetime
from badidatetime import datetime
from interleave import interleave

t = 1700000000.0
A, B = (60.0, 170.0), (-30.0, -170.0)
want = []

for p in (A, B):
    badidatetime.set_local_coordinates(*p)
    want.append(str(datetime.fromtimestamp(t)))

n = 1
while n < 40:
    badidatetime.set_local_coordinates(*A)
    for k, x, y in interleave(lambda: datetime.fromtimestamp(t),
                              lambda: badidatetime.set_local_coordinates(*B),
                              inside='/datetime.py', step=n):
        if k == 1:
            badidatetime.set_local_coordinates(*A)
            continue
        assert str(x) in want, f'line {k}: {x}, expected one of {want}'
        break
    n += 1
''')

bug('c05-offset-memo', 'C05',
    'the operating system changes from winter to summer time between two '
    'changes of the coordinates',
    'the offset is remembered per time zone name, so a change made in summer '
    'gets the winter offset',
    [(INI, '''    dt = _dtime.now(localzone)
    offset = dt.utcoffset().total_seconds()
    dst = dt.dst().total_seconds() != 0
    return offset, dst, localzone.key
''', '''
    if localzone.key not in _ZONES:
        dt = _dtime.now(localzone)
        offset = dt.utcoffset().total_seconds()
        dst = dt.dst().total_seconds() != 0
        _ZONES[localzone.key] = offset, dst, localzone.key

    return _ZONES[localzone.key]
'''), (INI, '''_LOCAL_COORDS = ()
''', '''_LOCAL_COORDS = ()
_ZONES = {}
''')],
    '''
import badidatetime, datetime as std
from zoneinfo import ZoneInfo

class Clock(std.datetime):
    t = 1705000000
    @classmethod
    def now(cls, tz=None):
        return std.datetime.fromtimestamp(cls.t, tz)

badidatetime._dtime = Clock
badidatetime.get_localzone = lambda: ZoneInfo('America/New_York')
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
badidatetime.set_local_coordinates(40.7, -74.0)
assert m.LOCAL_COORD[2] == -5.0, m.LOCAL_COORD
Clock.t = 1720000000
badidatetime.set_local_coordinates(40.7, -74.0)
assert m.LOCAL_COORD[2] == -4.0, m.LOCAL_COORD
''')

bug('c05-zone-kept', 'C05',
    'a change of the coordinates in a zone with the same whole hour of '
    'offset',
    'the local zone is only replaced when its whole hours differ, so LOCAL '
    'and LOCAL_COORD disagree',
    [(INI, '''    badidt.LOCAL = badidt.timezone.local = badidt.timezone._create(
        badidt.timedelta(hours=badidt.LOCAL_COORD[2]))
''', '''    offset = badidt.timedelta(hours=badidt.LOCAL_COORD[2])
    old = getattr(badidt, 'LOCAL', None)

    if old is None or old._offset // badidt.timedelta(hours=1) != (
        offset // badidt.timedelta(hours=1)):
        badidt.LOCAL = badidt.timezone.local = badidt.timezone._create(
            offset)
''')],
    '''
import badidatetime, datetime as std
from zoneinfo import ZoneInfo
import sys, badidatetime
m = sys.modules['badidatetime.datetime']

for key, off in (('Asia/Karachi', 5.0), ('Asia/Kolkata', 5.5)):
    badidatetime.get_localzone = lambda: ZoneInfo(key)
    badidatetime.set_local_coordinates(25.0, 70.0)
    got = m.LOCAL.utcoffset(None).total_seconds() / 3600
    assert got == off == m.LOCAL_COORD[2], (key, got, m.LOCAL_COORD)
''')

# ---------------------------------------------------------------- C06

bug('c06-today-remembered', 'C06',
    'two calls of today() in one hour of the clock with the sunset between '
    'them',
    'today() remembers its answer for the hour of the clock',
    [(DT, '''        return cls.fromtimestamp(_time.time(), short=short)

    @classmethod
    def fromordinal''', '''        t = _time.time()
        key = cls, t // 3600, short, LOCAL_COORD

        if date._today[0] != key:
            date._today = key, cls.fromtimestamp(t, short=short)

        return date._today[1]

    _today = None, None

    @classmethod
    def fromordinal''')],
    '''
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
from badidatetime import date

class Clock:
    t = 0.0
    @classmethod
    def time(cls):
        return cls.t

m._time = Clock
h = 1700000000 // 3600 * 3600

for i in range(24 * 12):
    Clock.t = h + i * 300.0
    got, want = date.today(), date.fromtimestamp(Clock.t)
    assert got == want, f'clock {Clock.t}: today() is {got}, not {want}'
''')

bug('c06-second-reading', 'C06',
    'the clock passes a full second, or jumps, between two readings in now()',
    'now() takes the microseconds from a second reading of the clock',
    [(DT, '''        return cls.fromtimestamp(_time.time(), tz, short=short)
''', '''        now = cls.fromtimestamp(_math.floor(_time.time()), tz, short=short)
        return now + timedelta(seconds=_time.time() % 1)
''')],
    '''
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
from badidatetime import datetime, timedelta

class Clock:
    seq = []
    @classmethod
    def time(cls):
        return cls.seq.pop(0)

m._time = Clock

for seq in ([1700000000.99, 1700000001.01, 1700000001.5],):
    Clock.seq = list(seq)
    got = datetime.now()
    wants = [datetime.fromtimestamp(t) for t in seq]
    assert any(abs(got - w) < timedelta(milliseconds=5) for w in wants), \\
        f'{got} is none of {[str(w) for w in wants]}'
''')

bug('c06-never-back', 'C06',
    'the system clock is set back',
    'now() never goes back, it repeats the latest instant it ever reported',
    [(DT, '''        return cls.fromtimestamp(_time.time(), tz, short=short)
''', '''        datetime._latest = t = max(_time.time(), datetime._latest)
        return cls.fromtimestamp(t, tz, short=short)

    _latest = -1e12
''')],
    '''
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
from badidatetime import datetime

class Clock:
    t = 0.0
    @classmethod
    def time(cls):
        return cls.t

m._time = Clock

for Clock.t in (1.7e9, 1.6e9):
    got, want = datetime.now(), datetime.fromtimestamp(Clock.t)
    assert got == want, f'clock {Clock.t}: {got}, not {want}'
''')

# ---------------------------------------------------------------- C07

# ---------------------------------------------------------------- C08

bug('c08-leap-second-clamp', 'C08',
    'a reading whose second of the minute is 59',
    'seconds are clamped one too low, so a reading in the last second of a '
    'minute comes back one second early',
    [(DT, '''        date = date[:7] + (min(date[7], 59),) + date[8:]
''', '''        date = date[:7] + (min(date[7], 58),) + date[8:]
''')],
    '''
from badidatetime import datetime

for i in range(400):
    t = 1700000000.0 + i * 13.7
    d = datetime.fromtimestamp(t)
    assert abs(d.timestamp() - t) < 0.01, (t, d.timestamp())
''')

# ---------------------------------------------------------------- C09

bug('c09-tzname-first-only', 'C09',
    'a change between two time zones with the same standard name, only one '
    'of which has summer time',
    'the tables are kept when only the summer time name changed',
    [(SP, '''                time.tzname != locale_time.tzname or
                time.daylight != locale_time.daylight):''',
      '''                time.tzname[0] != locale_time.tzname[0]):''')],
    '''
import os, time
from badidatetime import datetime

for tz in ('EST5', 'EST5EDT'):
    os.environ['TZ'] = tz
    time.tzset()
    datetime.strptime('0180 3 4', '%Y %m %d')

got = datetime.strptime('0180 3 4 EDT', '%Y %m %d %Z')
assert got == datetime(180, 3, 4), got
''')

bug('c09-regex-kept', 'C09',
    'the same format with a zone name used before and after a change of the '
    'time zone',
    'compiled formats survive a change of the time zone',
    [(SP, '''                _TimeRE_cache = TimeRE()
                self._clear_cache()
''', '''                _TimeRE_cache = TimeRE()
'''), (SP, '''                _regex_cache[format] = format_regex
''', '''                _regex_cache[self.format] = format_regex
''')],
    '''
import os, time
from badidatetime import datetime

for tz, name in (('EST5EDT', 'EDT'), ('CET-1CEST', 'CEST')):
    os.environ['TZ'] = tz
    time.tzset()
    got = datetime.strptime('0180 3 4 ' + name, '%Y %m %d %Z')
    assert got == datetime(180, 3, 4), got
''')

bug('c09-compile-unlocked', 'C09',
    'the time zone changed by one thread while another compiles a format',
    'formats are compiled outside the lock and stored afterwards, so a regex '
    'made for the old time zone enters the new cache',
    [(SP, '''            format_regex = _regex_cache.get(self.format)

            if not format_regex:
                try:
                    format_regex = _TimeRE_cache.compile(self.format)
''', '''            format_regex = _regex_cache.get(self.format)
            time_re = _TimeRE_cache

        if True:
            if not format_regex:
                try:
                    format_regex = time_re.compile(self.format)
'''), (SP, '''                _regex_cache[format] = format_regex
''', '''                with _cache_lock:
                    _regex_cache[self.format] = format_regex
''')],
    '''
import os, time
from badidatetime import datetime
from interleave import interleave, answer

def zone(tz):
    os.environ['TZ'] = tz
    time.tzset()

f = '%Y %m %d %Z'
first = lambda: datetime.strptime('0180 3 4 EDT', f)
n = 0

def second():
    zone('CET-1CEST')
    return datetime.strptime('0180 3 4', '%Y %m %d')

for n in range(1, 120):
    zone('EST5EDT')
    datetime.strptime('0180', '%Y')
    it = interleave(first, second, inside='_strptime.py', step=n, wait=0.3)
    for k, x, y in it:
        if k == 1:
            zone('EST5EDT')
            datetime.strptime('0180', '%Y')
            continue
        got = answer(lambda: datetime.strptime('0180 3 4 CEST', f))
        assert got == datetime(180, 3, 4), f'line {k}: {got}'
        break
''')

# ---------------------------------------------------------------- C10

bug('c10-fold-month', 'C10',
    'a datetime with fold=1 in months 16 to 19, pickled with protocol 4 or '
    'later',
    'the month of a stored value with fold is read back modulo 16',
    [(DT, '''            self._fold = 1
            self._month = m - 128
''', '''            self._fold = 1
            self._month = m & 0x0F
''')],
    '''
import pickle
from badidatetime import datetime

d = datetime(180, 17, 4, None, None, 5, fold=1)
try:
    got = pickle.loads(pickle.dumps(d, 5))
except Exception as e:
    got = e
assert got == d and got.month == 17, repr(got)
''')

# ---------------------------------------------------------------- C11

bug('c11-groups-as-set', 'C11',
    'a format with two directives for one field (%y and %Y, %H and %I) and '
    'an unlucky hash seed',
    'the fields of a parsed text are visited in the order of a set of '
    'strings, which depends on the hash seed of the process',
    [(SP, '''        for group_key in found_dict.keys():
''', '''        for group_key in found_dict.keys() - {'c', 'x', 'X'}:
''')],
    '''
import os, subprocess, sys

prog = """
from badidatetime import datetime
print(datetime.strptime('0180 77 3 4 03 b 11', '%Y %y %m %d %H b %S'))
print(datetime.strptime('0180 77 3 07 4', '%Y %y %m %j %d'))
"""
got = set()

for seed in range(8):
    got.add(subprocess.run([sys.executable, '-c', prog], check=True, text=True,
                           env={**os.environ, 'PYTHONHASHSEED': str(seed)},
                           capture_output=True).stdout)
assert len(got) == 1, got
''')

bug('c11-load-without-zone', 'C11',
    'a machine whose time zone cannot be determined',
    'the package loads with UTC as the local zone instead of failing',
    [(INI, '''    localzone = get_localzone()
''', '''
    try:
        localzone = get_localzone()
    except Exception:
        from zoneinfo import ZoneInfo
        localzone = ZoneInfo('UTC')

''')],
    '''
import tzlocal

def bad():
    raise RuntimeError('no zone')

tzlocal.get_localzone = bad
try:
    import badidatetime
    loaded = True
except RuntimeError:
    loaded = False
assert not loaded, 'loaded without a time zone'
''')

# ---------------------------------------------------------------- C12

RIG = '''
import os, re, shutil, subprocess, sys, tempfile, textwrap

top = tempfile.mkdtemp(prefix='demo-c12-')
try:
    for n in ('config.py', 'include.mk', 'pyproject.toml'):
        shutil.copy(n, top)
    os.mkdir(os.path.join(top, 'badidatetime'))
    shutil.copy('badidatetime/__init__.py', os.path.join(top, 'badidatetime'))
    mk = os.path.join(top, 'include.mk')
    ini = os.path.join(top, 'badidatetime', '__init__.py')
    prj = os.path.join(top, 'pyproject.toml')

    def read(p):
        with open(p, encoding='utf-8') as f:
            return f.read()

    def release(n):
        s = re.sub(r'(?m)^PATCHLEVEL(\\s*)=.*$', 'PATCHLEVEL = %d' % n, read(mk))
        with open(mk, 'w', encoding='utf-8') as f:
            f.write(s)

    def run(pre=''):
        prog = textwrap.dedent(pre) + """
import sys, runpy
sys.argv = ['config.py']
runpy.run_path(%r, run_name='__main__')
""" % os.path.join(top, 'config.py')
        return subprocess.run([sys.executable, '-c', prog], cwd=top,
                              capture_output=True, text=True,
                              env={**os.environ, 'PYTHONPATH': ''})
%s
finally:
    shutil.rmtree(top)
'''


def rig(body):
    return RIG.replace('%s\nfinally', '@@@').replace(
        '@@@', '\n'.join('    ' + l if l else '' for l in
                         body.strip('\n').split('\n')) + '\nfinally')


bug('c12-no-convergence', 'C12',
    'a crash after pyproject.toml was written and before __init__.py was, '
    'then another run',
    'the project file is updated first and __init__.py only when something '
    'in it changed, so a release interrupted in between is never completed',
    [(CFG, '''        self.edit_badidatetime_init(data)
        return self.edit_pyproject(data)
''', '''        changes = self.edit_pyproject(data)

        if any(changes.values()):
            self.edit_badidatetime_init(data)

        return changes
''')],
    rig('''
release(97)
# killed when it puts the second file in place
r = run("""
import os
old, count = os.replace, [0]
def replace(a, b, **k):
    count[0] += 1
    if count[0] == 2:
        os._exit(9)
    return old(a, b, **k)
os.replace = replace
""")
r = run()
assert r.returncode == 0, r.stderr
v = re.search(r'__version__ = "(.*?)"', read(ini)).group(1)
w = re.search(r'(?m)^version = "(.*?)"', read(prj)).group(1)
assert v == w and v.endswith('.97'), (v, w)
'''))

bug('c12-false-success', 'C12',
    'a disk full or permission error during a release',
    'an I/O error is printed but the tool still exits with success',
    [(CFG, '''    changes = epp.start()
''', '''
    try:
        changes = epp.start()
    except OSError as e:
        print(f"Could not update the files, {e}", file=sys.stderr)
        changes = {}

''')],
    rig('''
release(97)
r = run("""
import os
def replace(a, b, **k):
    raise OSError(28, 'No space left on device')
os.replace = replace
""")
v = re.search(r'__version__ = "(.*?)"', read(ini)).group(1)
assert r.returncode != 0 or v.endswith('.97'), r.stdout
'''))

bug('c12-classifier-appended', 'C12',
    'a release with another development status, run twice (or completed '
    'after a crash)',
    'the new status is added to the classifiers, so running the tool again '
    'changes the file again',
    [(CFG, '''                    config[table][field][idx] = new_classifier
''', '''                    config[table][field].insert(idx + 1, new_classifier)
''')],
    rig('''
s = read(mk).replace('5 - Production/Stable', '3 - Alpha')
with open(mk, 'w', encoding='utf-8') as f:
    f.write(s)
r = run()
assert r.returncode == 0, r.stderr
first = read(prj)
r = run()
assert r.returncode == 0, r.stderr
assert read(prj) == first, 'the second run changed pyproject.toml'
'''))
