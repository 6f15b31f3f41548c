"""The third batch of planted bugs (see mkbugs.py)."""
import importlib.util
import os

spec = importlib.util.spec_from_file_location(
    'bugs_a', os.path.join(os.path.dirname(__file__), 'bugs_a.py'))
A = importlib.util.module_from_spec(spec)
spec.loader.exec_module(A)
DT, CAL, BASE, UT, SP, INI, CFG, rig = (
    A.DT, A.CAL, A.BASE, A.UT, A.SP, A.INI, A.CFG, A.rig)
BUGS = {}


def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = {'property': property, 'needs': needs, 'breaks': breaks,
                'edits': edits, 'demo': demo}


USERZONE = '''
from datetime import tzinfo, timedelta


class Zone(tzinfo):
    def __init__(self, call):
        self.call, self.got = call, []

    def utcoffset(self, dt):
        call, self.call = self.call, None
        if call is not None:
            self.got.append(call())
            self.call = call
        return timedelta(hours=2)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'ZZ'

'''

# ---------------------------------------------------------------- C13

bug('c13-formatter-per-thread', 'C13',
    'a handler that formats a date while its thread formats another one',
    'strftime() keeps the struct it formats per thread, so a text '
    'interrupted by another strftime() on the same thread mixes two dates',
    [(UT, '''            ttup = struct_time(ttup, tzinfo=tzinfo)

        idx, fmtlen''', '''            ttup = struct_time(ttup, tzinfo=tzinfo)

        self._formatting.ttup = ttup
        idx, fmtlen'''),
     (UT, '''                    self, ttup, ch1, ch0 if i == 2 else '')''',
      '''                    self, self._formatting.ttup, ch1,
                    ch0 if i == 2 else '')'''),
     (UT, '''    def __init__(self):
''', '''    _formatting = threading.local()

    def __init__(self):
'''),
     (UT, '''import locale
''', '''import locale
import threading
''')],
    '''
from badidatetime import date
from interleave import nest

a, b = date(180, 3, 4), date(99, 17, 19)
f = '%Y/%m/%d %B %A'
want = a.strftime(f), b.strftime(f)

for n, x, y in nest(lambda: a.strftime(f), lambda: b.strftime(f),
                    '_timedateutils.py'):
    assert (x, y) == want, f'handler at line {n}: {x!r}, {y!r}'
''')

bug('c13-hash-under-lock', 'C13',
    'a time zone that hashes a value when it is asked for its offset',
    'the hash is computed under a lock that is not re-entrant, also while '
    'the user\'s time zone is asked',
    [(DT, '''            tzoff = t.utcoffset()

            if tzoff is None:
''', '''            with _hash_lock:
                tzoff = t.utcoffset()

            if tzoff is None:
'''),
     (DT, '''import math as _math
''', '''import math as _math
import threading as _threading
'''),
     (DT, '''class date(BahaiCalendar):
''', '''_hash_lock = _threading.Lock()


class date(BahaiCalendar):
''')],
    '''
import faulthandler
faulthandler.dump_traceback_later(30, exit=True)
from badidatetime import datetime
''' + USERZONE + '''
other = datetime(180, 1, 1, tzinfo=Zone(None))
z = Zone(lambda: hash(other))
assert hash(datetime(180, 1, 1, tzinfo=z)) == hash(other)
''')

bug('c13-asking-flag', 'C13',
    'a time zone that itself asks a value with the same kind of zone',
    'while a zone is asked for its offset, other values of the same thread '
    'are taken for naive',
    [(DT, '''        if self.tzinfo is not None:
            offset = self.tzinfo.utcoffset(self)
            _check_offset("utcoffset", offset)
            return offset

    def tzname''', '''        if self.tzinfo is not None and not getattr(
                _asking, 'zone', None):
            _asking.zone = True

            try:
                offset = self.tzinfo.utcoffset(self)
            finally:
                _asking.zone = False

            _check_offset("utcoffset", offset)
            return offset

    def tzname'''),
     (DT, '''import math as _math
''', '''import math as _math
import threading as _threading
'''),
     (DT, '''class date(BahaiCalendar):
''', '''_asking = _threading.local()


class date(BahaiCalendar):
''')],
    '''
from badidatetime import datetime, timezone, UTC
''' + USERZONE + '''
other = datetime(180, 1, 1, None, None, 3, 4, 5, tzinfo=UTC)
z = Zone(lambda: other.isoformat())
want = other.isoformat()
datetime(180, 1, 1, tzinfo=z).isoformat()
assert z.got and set(z.got) == {want}, z.got
''')

bug('c13-midday-per-thread', 'C13',
    'a handler that asks for AM or PM of another day between the two stores '
    'of the memo',
    'the midday of the last day is remembered per thread in two steps, so '
    'an interrupted call pairs one day with the midday of the other',
    [(CAL, '''        jd = self.jd_from_badi_date(b_date)
        jd1 = self._meeus_from_exact(jd)
''', '''        last = self._last

        if getattr(last, 'day', None) == b_date[:3]:
            return self._hms_from_decimal_day(last.time) if hms else last.time

        last.day = b_date[:3]
        jd = self.jd_from_badi_date(b_date)
        jd1 = self._meeus_from_exact(jd)
'''),
     (CAL, '''        return self._hms_from_decimal_day(local_mid) if hms else local_mid
''', '''        last.time = local_mid
        return self._hms_from_decimal_day(local_mid) if hms else local_mid

    _last = threading.local()
'''),
     (CAL, '''import math
''', '''import math
import threading
''')], '''
from badidatetime import BahaiCalendar
from interleave import nest

bc = BahaiCalendar()
a, b = (180, 1, 1), (99, 9, 9)
f, g = (lambda: bc.midday(a, _short=True)), (lambda: bc.midday(b, _short=True))
other = (1, 1, 1)
want = f(), g()

for n, x, y in nest(lambda: (bc.midday(other, _short=True), f())[1], g,
                    step=997):
    got = x, y, g(), f()
    assert got == want + want[::-1], (n, got)
''')

# ---------------------------------------------------------------- C14

bug('c14-retry-slow-network', 'C14',
    'a geocoding service that stays too slow',
    'a lookup of a place that times out is tried again, without an end',
    [(INI, '''        location = geolocator.geocode(_LOCAL_COORDS[2])
''', '''        location = None

        while location is None:
            try:
                location = geolocator.geocode(_LOCAL_COORDS[2])
            except GeocoderTimedOut:
                continue

            break

'''),
     (INI, '''from geopy.geocoders import Nominatim
''', '''from geopy.exc import GeocoderTimedOut
from geopy.geocoders import Nominatim
''')],
    '''
import threading
from geopy import geocoders
from geopy.adapters import BaseSyncAdapter
from geopy.exc import GeocoderTimedOut

count = [0]


class Stop(BaseException):
    pass


class Slow(BaseSyncAdapter):
    def get_text(self, url, *, timeout, headers):
        count[0] += 1
        if count[0] > 50:
            raise Stop()
        raise GeocoderTimedOut('slow')

    get_json = get_text


geocoders.options.default_adapter_factory = Slow
import badidatetime

try:
    badidatetime.set_local_coordinates(locale='Haifa')
except GeocoderTimedOut:
    pass
except Stop:
    raise SystemExit('tried more than 50 times')
''')

bug('c14-strictly-increasing', 'C14',
    'a clock that was set back',
    'now() waits until the clock shows a later time than at the last now(), '
    'so after the clock went back it does not return',
    [(DT, '''        return cls.fromtimestamp(_time.time(), tz, short=short)

    @classmethod
    def combine''', '''        t = _time.time()

        while t < _latest[0]:
            t = _time.time()

        _latest[0] = t
        return cls.fromtimestamp(t, tz, short=short)

    @classmethod
    def combine'''),
     (DT, '''class date(BahaiCalendar):
''', '''_latest = [float('-inf')]


class date(BahaiCalendar):
''')],
    '''
import time
import badidatetime

clock = [2e9]
reads = [0]


class Stop(BaseException):
    pass


def fake():
    reads[0] += 1
    if reads[0] > 100000:
        raise Stop()
    clock[0] += 1e-6
    return clock[0]


d = badidatetime.datetime
real = time.time
time.time = fake
try:
    d.now()
    clock[0] -= 3600
    try:
        d.now()
    except Stop:
        raise SystemExit('now() waits for the clock')
finally:
    time.time = real
''')

bug('c14-two-locks', 'C14',
    'a thread that changes the coordinates while another parses with a new '
    'format, each between its two locks',
    'set_local_coordinates() empties the format cache under its own lock and '
    'strptime() compiles a new format under both locks, in the other order',
    [(INI, '''    coords = _get_local_coordinates()

    if None in coords:
''', '''    coords = _get_local_coordinates()
    strp = sys.modules.get('badidatetime._strptime')

    if strp is not None:
        with strp._cache_lock:
            strp._regex_cache.clear()

    if None in coords:
'''),
     (SP, '''                    format_regex = _TimeRE_cache.compile(self.format)
''', '''                    # no change of the configuration while compiling
                    with badidatetime._config_lock:
                        format_regex = _TimeRE_cache.compile(self.format)
'''),
     (SP, '''from ._timedateutils import _td_utils
''', '''import badidatetime
from ._timedateutils import _td_utils
''')],
    '''
import faulthandler
faulthandler.dump_traceback_later(60, exit=True)
from badidatetime import datetime, set_local_coordinates
from interleave import interleave

n = [0]


def parse():
    n[0] += 1
    return datetime.strptime(f'{n[0]} 0180-01-01', f'{n[0]} %Y-%m-%d')


parse()

for i, a, b in interleave(lambda: set_local_coordinates(1.0, 2.0), parse,
                          limit=60, wait=1.0):
    assert b != 'never finished', i

for i, a, b in interleave(parse, lambda: set_local_coordinates(1.0, 2.0),
                          inside='_strptime.py', limit=60, wait=1.0):
    assert b != 'never finished', i
''')

bug('c14-wait-for-builder', 'C14',
    'an exception that arrives while the locale tables are made again, and a '
    'later strptime()',
    'strptime() waits for whoever makes the tables; when that was aborted it '
    'waits for ever',
    [(SP, '''    def _find_regex(self):
        global _TimeRE_cache, _regex_cache

        with _cache_lock:
            locale_time''', '''    def _find_regex(self):
        global _TimeRE_cache, _regex_cache

        while _building:
            time.sleep(0.001)

        with _cache_lock:
            locale_time'''),
     (SP, '''                try:
                    format_regex = _TimeRE_cache.compile(self.format)
''', '''                try:
                    _building.append(self.format)
                    format_regex = _TimeRE_cache.compile(self.format)
                    _building.clear()
'''),
     (SP, '''                except KeyError as err:
                    bad_directive''', '''                except KeyError as err:
                    _building.clear()
                    bad_directive'''),
     (SP, '''                except IndexError:
''', '''                except IndexError:
                    _building.clear()
'''),
     (SP, '''_cache_lock = _thread_allocate_lock()
''', '''_cache_lock = _thread_allocate_lock()
_building = []
''')],
    '''
import faulthandler
faulthandler.dump_traceback_later(60, exit=True)
from badidatetime import datetime
from badidatetime import _strptime
from badidatetime.datetime import datetime

datetime.strptime('0180-01-01', '%Y-%m-%d')
real = _strptime.re_compile


def aborted(*args):
    raise KeyboardInterrupt()


_strptime.re_compile = aborted
try:
    datetime.strptime('1 0180-01-01', '1 %Y-%m-%d')
except KeyboardInterrupt:
    pass
_strptime.re_compile = real
datetime.strptime('2 0180-01-01', '2 %Y-%m-%d')
''')

# ------------------------------------------------------------ C01 - C12

bug('c01-year-start-in-hand', 'C01',
    'two threads converting Julian days of different years',
    'the estimated year is kept on the calendar while it is corrected',
    [(CAL, '''        # Correct if necessary
        if rd < self._YEAR_START[y]:
            y -= 1
        elif rd >= self._YEAR_START.get(y + 1, self._RD_END + 1):
            y += 1  # pragma: no cover

        return y
''', '''        # Correct if necessary
        self._year = y

        if rd < self._YEAR_START[y]:
            self._year -= 1
        elif rd >= self._YEAR_START.get(y + 1, self._RD_END + 1):
            self._year += 1  # pragma: no cover

        return self._year
''')],
    '''
from badidatetime import date
from interleave import interleave

a, b = date(180, 19, 19).toordinal(), date(-1000, 3, 4).toordinal()
want = str(date.fromordinal(a)), str(date.fromordinal(b))

for n, x, y in interleave(lambda: str(date.fromordinal(a)),
                          lambda: str(date.fromordinal(b)),
                          'badi_calendar.py', limit=400):
    assert (x, y) == want, (n, x, y)
''')

bug('c02-sunset-of-first-day', 'C02',
    'conversions for two places on the same meridian, one after the other',
    'the last sunset used by _utc_to_badi_time() is remembered by the day and '
    'the longitude, a place further north gets the sunset of the one before',
    [(CAL, '''        astro_ss = ss_curr if jd >= ss_curr else ss_prev
''', '''        key = math.floor(jd * 48), lon
        astro_ss = _sunsets.get(key)

        if astro_ss is None or astro_ss > jd:
            astro_ss = ss_curr if jd >= ss_curr else ss_prev
            _sunsets.clear()
            _sunsets[key] = astro_ss

'''),
     (CAL, '''class BahaiCalendar(''', '''_sunsets = {}


class BahaiCalendar(''')],
    '''
from badidatetime import BahaiCalendar

bc = BahaiCalendar()
f = bc.badi_date_from_timestamp
a = f(1.7e9, 20.0, 10.0, 1.0)
f(1.6e9, 20.0, 10.0, 1.0)
f(1.7e9, 50.0, 10.0, 1.0)
b = f(1.7e9, 20.0, 10.0, 1.0)
assert a == b, (a, b)
''')
