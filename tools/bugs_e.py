"""The fifth batch of planted bugs (see mkbugs.py)."""
import importlib.util
import os

spec = importlib.util.spec_from_file_location(
    'bugs_a', os.path.join(os.path.dirname(__file__), 'bugs_a.py'))
A = importlib.util.module_from_spec(spec)
spec.loader.exec_module(A)
DT, CAL, BASE, UT, SP, INI, CFG, rig = (
    A.DT, A.CAL, A.BASE, A.UT, A.SP, A.INI, A.CFG, A.rig)
GREG = 'badidatetime/gregorian_calendar.py'
ST = 'badidatetime/_structures.py'
BUGS = {}


def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = {'property': property, 'needs': needs, 'breaks': breaks,
                'edits': edits, 'demo': demo}


# ---------------------------------------------------------------- C01

bug('c01-month-days-shared', 'C01',
    'two threads parsing ordinal ISO dates of a common and of a leap year, '
    'one between the store of the length of Ayyam-i-Ha and the loop',
    'the table of the lengths of the months is adjusted in place for the year '
    'being parsed instead of in a copy',
    [(UT, '''            month_days = list(self._BADI_MONTH_NUM_DAYS)
''', '''            month_days = self._BADI_MONTH_NUM_DAYS
''')],
    """
from badidatetime import date
from interleave import interleave

from badidatetime import BahaiCalendar

bc = BahaiCalendar()
leap = next(y for y in range(170, 190) if bc._is_leap_year(y))
a = lambda: date.fromisoformat(f'0{leap}-347')
b = lambda: date.fromisoformat(f'0{leap + 1}-347')
assert a() == date(leap, 0, 5) and b() == date(leap + 1, 19, 1)

for first, b in ((a, b), (b, a)):
    want = first(), b()
    for n, x, y in interleave(first, b):
        assert (x, y) == want, f'second thread at line {n}: {x!r}, {y!r}'
""")

bug('c01-parse-buffer', 'C01',
    'two threads in strptime() at once, the second one while the first one '
    'is still reading the fields it found',
    'the dictionary the fields of a text are parsed into is made once and '
    'cleared for every text',
    [(SP, '''        dot_dict = DotDict(values)
        found_dict''', '''        dot_dict = _FOUND
        dot_dict.clear()
        dot_dict.update(values)
        found_dict'''),
     (SP, '''class StrpTime:
    """
    Return a 2-tuple''', '''_FOUND = DotDict({})


class StrpTime:
    """
    Return a 2-tuple''')],
    """
from badidatetime import datetime
from interleave import interleave

f = '%Y/%m/%d %H:%M'
a = lambda: datetime.strptime('0180/03/04 05:06', f)
b = lambda: datetime.strptime('0099/17/19 22:59', f)
want = a(), b()

for n, x, y in interleave(a, b, step=7):
    assert (x, y) == want, f'second thread at line {n}: {x!r}, {y!r}'
""")

bug('c01-repr-guard', 'C01',
    'two threads in repr() of the same datetime at the same time',
    'a guard against time zones whose repr() shows the datetime again is '
    'shared by all threads',
    [(DT, '''        L = [self._hour, self._minute, self._second, self._microsecond]

        for i in range(2):
            if L[-1] == 0:
                del L[-1]

        s = (f"{_get_class_module(self)}."
             f"{self.__class__.__qualname__}")
''', '''        if id(self) in datetime._showing:
            return '...'

        datetime._showing.add(id(self))

        try:
            return self._show()
        finally:
            datetime._showing.discard(id(self))

    _showing = set()

    def _show(self) -> str:
        L = [self._hour, self._minute, self._second, self._microsecond]

        for i in range(2):
            if L[-1] == 0:
                del L[-1]

        s = (f"{_get_class_module(self)}."
             f"{self.__class__.__qualname__}")
''')],
    """
from badidatetime import datetime, UTC
from interleave import interleave

d = datetime(180, 3, 4, None, None, 5, 6, tzinfo=UTC)
want = repr(d)

for n, x, y in interleave(lambda: repr(d), lambda: repr(d)):
    assert x == y == want, f'second thread at line {n}: {x!r}, {y!r}'
""")

# ---------------------------------------------------------------- C02

bug('c02-ordinal-memo', 'C02',
    'fromordinal() of a subclass of date and of date itself with the same '
    'ordinal',
    'a memo of the last dates made by fromordinal() ignores the class it was '
    'called on',
    [(DT, '''        date = _td_utils._ord2ymd(n, short=short)
        return cls(*date)
''', '''        known = _ORDINALS.get((n, short))

        if known is None:
            if len(_ORDINALS) >= 64:
                _ORDINALS.clear()

            known = cls(*_td_utils._ord2ymd(n, short=short))
            _ORDINALS[n, short] = known

        return known
'''), (DT, '''class date(BahaiCalendar):
''', '''_ORDINALS = {}


class date(BahaiCalendar):
''')],
    """
from badidatetime import date

class Day(date):
    pass

for n in (1, 700000, 735000):
    a, b = date.fromordinal(n, short=True), Day.fromordinal(n, short=True)
    assert type(a) is date and type(b) is Day, (a, b)
    a, b = Day.fromordinal(n + 5, short=True), date.fromordinal(n + 5, short=True)
    assert type(a) is Day and type(b) is date, (a, b)
""")

bug('c02-last-week-year', 'C02',
    'a date before and one after a change of year asked in that order, '
    'in years whose first weeks differ',
    'the first Jalal of the last year asked for is kept, and is found by the '
    'year of the Vahid, which the short and the long form both have',
    [(UT, '''    def _isoweek1jalal(self, year: int) -> int:
''', '''    _WEEK1 = {}

    def _isoweek1jalal(self, year: int) -> int:
        key = hash(year)

        if key not in self._WEEK1:
            self._WEEK1[key] = self._find_isoweek1jalal(year)

        return self._WEEK1[key]

    def _find_isoweek1jalal(self, year: int) -> int:
''')],
    """
from badidatetime import date

for a, b in ((-1, -2), (-2, -1)):
    pass

import subprocess, sys
code = '''
import sys
from badidatetime import date
for y in map(int, sys.argv[1:]):
    got = date(y, 10, 5).isocalendar(), date(y, 1, 1).isocalendar()
print(got)
'''
run = lambda *a: subprocess.run([sys.executable, '-c', code, *map(str, a)],
                                capture_output=True, text=True).stdout
for a, b in ((-1, -2), (-2, -1)):
    x, y = run(b), run(a, b)
    assert x == y, f'{b} after {a}: {y}, alone {x}'
""")

# ---------------------------------------------------------------- C03

bug('c03-months-in-place', 'C03',
    'a conversion of a date in a Gregorian leap year interrupted between the '
    'change of the table and its restoration',
    'the lengths of the Gregorian months are adjusted in place and put back '
    'afterwards, but not when the call is interrupted',
    [(GREG, '''    _MONTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
''', '''    _MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
'''), (GREG, '''            month_days = list(self._MONTHS)
            month_days[1] += self._is_leap_year(year, alt=alt)
            days += sum(month_days[:month-1]) + day
            jd = round(days, self._ROUNDING_PLACES)
''', '''            leap = self._is_leap_year(year, alt=alt)
            self._MONTHS[1] += leap
            days += sum(self._MONTHS[:month-1]) + day
            jd = round(days, self._ROUNDING_PLACES)
            self._MONTHS[1] -= leap
''')],
    """
from badidatetime import GregorianCalendar
from interleave import abort

gc = GregorianCalendar()
ask = lambda: [gc.jd_from_gregorian_date(d, exact=True) for d in
               ((2023, 3, 1), (2024, 5, 6), (1999, 12, 31))]
want = ask()

for n in abort(lambda: gc.jd_from_gregorian_date((2024, 3, 1), exact=True)):
    assert ask() == want, f'after an interruption at line {n}: {ask()}'
""")

bug('c03-repr-guard', 'C03',
    'a repr() interrupted anywhere, or failing in the repr() of the time '
    'zone, and another one of the same datetime afterwards',
    'the mark of the datetime being shown is not removed when its repr() '
    'fails, so that it is shown as "..." ever after',
    [(DT, '''        L = [self._hour, self._minute, self._second, self._microsecond]

        for i in range(2):
            if L[-1] == 0:
                del L[-1]

        s = (f"{_get_class_module(self)}."
             f"{self.__class__.__qualname__}")
''', '''        if getattr(self, '_showing', False):
            return '...'

        self._showing = True
        s = self._show()
        self._showing = False
        return s

    def _show(self) -> str:
        L = [self._hour, self._minute, self._second, self._microsecond]

        for i in range(2):
            if L[-1] == 0:
                del L[-1]

        s = (f"{_get_class_module(self)}."
             f"{self.__class__.__qualname__}")
''')],
    """
from badidatetime import datetime, UTC
from interleave import abort

d = datetime(180, 3, 4, None, None, 5, 6, tzinfo=UTC)
want = repr(d)

for n in abort(lambda: repr(d)):
    assert repr(d) == want, f'after an interruption at line {n}: {d!r}'
""")

# ---------------------------------------------------------------- C04

bug('c04-names-reordered', 'C04',
    'strptime() after the time zone of the process has changed, which '
    'collects the names again',
    'the names of the months are put into calendar order in place, in the '
    'published table itself',
    [(SP, '''        self.f_month = [month_names[i].lower() for i in range(20)]
''', '''        self.f_month = [month_names[i].lower() for i in range(20)]

        if _td_utils.MONTHNAMES is not self._MONTHS:
            LocaleTime._MONTHS = _td_utils.MONTHNAMES
        else:
            self._MONTHS.move_to_end(19)
            self._MONTHS.move_to_end(0)
'''), (SP, '''    def __calc_month(self):
''', '''    _MONTHS = None

    def __calc_month(self):
''')],
    """
import os, time
import badidatetime
from badidatetime import date, datetime
from badidatetime._timedateutils import _td_utils

shown = lambda: (list(badidatetime.MONTHNAMES), list(_td_utils.MONTHNAMES),
                 list(_td_utils.MONTHNAMES.values()))
want = shown()

for zone in ('UTC', 'America/New_York', 'Asia/Tehran'):
    os.environ['TZ'] = zone
    time.tzset()
    datetime.strptime('0180/03/04', '%Y/%m/%d')
    assert shown() == want, (zone, shown())
""")

# ---------------------------------------------------------------- C09

bug('c09-zone-not-checked', 'C09',
    'the process changes its time zone between two parses of a text with the '
    'name of a zone',
    'strptime() only looks at the locale and at whether there is daylight '
    'saving time before it reuses the names it has collected',
    [(SP, '''            if (_getlang() != locale_time.lang or
                time.tzname != locale_time.tzname or
                time.daylight''', '''            if (_getlang() != locale_time.lang or
                time.daylight''')],
    """
import os, time
os.environ['TZ'] = 'America/New_York'
time.tzset()
from badidatetime import datetime

f = '%Y/%m/%d %H:%M %Z'
a = datetime.strptime('0180/03/04 05:06 EST', f)
os.environ['TZ'] = 'Europe/Berlin'
time.tzset()
b = datetime.strptime('0180/03/04 05:06 CET', f)
try:
    c = datetime.strptime('0180/03/04 05:06 EST', f)
except ValueError:
    pass
else:
    assert False, 'EST is no zone of Berlin'
""")

# ---------------------------------------------------------------- C10

bug('c10-state-shared', 'C10',
    'unpickling or copying a zone without an offset of its own over, with '
    'protocol or copy, then using its offset',
    'a copy keeps the coordinates in the order (lon, lat, zone) when the '
    'zone is zero',
    [(DT, '''        self._coords = (self.lat, self.lon, zone)
''', '''        self._coords = (self.lat, self.lon, zone or None)
''')],
    """
import copy, pickle
from badidatetime import datetime, UTC, BADI, TZWithCoords

for tz in (UTC, BADI, TZWithCoords(51.5, -0.1, 0.0, key='Europe/London')):
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        t = pickle.loads(pickle.dumps(tz, p))
        assert t.coordinates == tz.coordinates, (tz, t.coordinates)
""")

# ---------------------------------------------------------------- C13

bug('c13-struct-scratch', 'C13',
    'a time zone of the user which itself asks for a time tuple while one is '
    'being made',
    'struct_time() keeps the time zone and the form it is working on on the '
    'class while it calls the time zone',
    [(ST, '''        self = object.__new__(cls)
        super().__init__(self)
        short = cls.__is_short_form(date)
''', '''        self = object.__new__(cls)
        super().__init__(self)
        cls.short = short = cls.__is_short_form(date)
'''), (ST, '''        if short:
            inst = ShortFormStruct(
                *self.__fill_in_missing(date, tzinfo, short))
        else:
            inst = LongFormStruct(
                *self.__fill_in_missing(date, tzinfo, short))

        return inst
''', '''        filled = self.__fill_in_missing(date, tzinfo, short)
        return (ShortFormStruct if cls.short else LongFormStruct)(*filled)
''')],
    """
from badidatetime import datetime, timedelta, tzinfo

class Zone(tzinfo):
    def utcoffset(self, dt):
        return timedelta(hours=2)
    def dst(self, dt):
        long = datetime(1, 10, 9, 3, 4, 5, 6)
        long.timetuple()
        return timedelta(0)
    def tzname(self, dt):
        return 'Z'

d = datetime(180, 3, 4, None, None, 5, 6, tzinfo=Zone())
t = d.timetuple()
assert t.short and t[:3] == (180, 3, 4), t
""")

# ---------------------------------------------------------------- C14

bug('c14-angle-loop', 'C14',
    'an angle so large that subtracting 360 does not change it',
    'the angle is brought into range by subtracting full turns one by one',
    [(BASE, '''        value = math.fmod(value, 360)
        return value + 360 if value < 0 else value
''', '''        while value >= 360:
            value -= 360

        while value < 0:
            value += 360

        return value
''')],
    """
from badidatetime import BahaiCalendar
from interleave import in_time

bc = BahaiCalendar()
for x in (1e3, 1e17, -1e17, 1e300):
    got = in_time(lambda: bc._coterminal_angle(x))
    assert got != 'never finished', x
""")
