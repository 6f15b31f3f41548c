"""The second batch of planted bugs (see mkbugs.py)."""
import importlib.util
import os

spec = importlib.util.spec_from_file_location(
    'bugs_a', os.path.join(os.path.dirname(__file__), 'bugs_a.py'))
A = importlib.util.module_from_spec(spec)
spec.loader.exec_module(A)
DT, CAL, BASE, UT, SP, INI, CFG, rig = (
    A.DT, A.CAL, A.BASE, A.UT, A.SP, A.INI, A.CFG, A.rig)
BUGS = {}


def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = {'property': property, 'needs': needs, 'breaks': breaks,
                'edits': edits, 'demo': demo}


# ---------------------------------------------------------------- C07

bug('c07-intercalary-by-rule', 'C07',
    'a year whose leap rule differs from the Gregorian one',
    'month 19 starts where the Gregorian rule puts it, which is wrong in '
    'some years from 173 on and in many Julian ones',
    [(UT, '''            dbm += 18 * 19 + 4 + self._is_leap_year(year)
''', '''            g = year + 1844
            dbm += 18 * 19 + 4 + (g % 4 == 0 and (g % 100 != 0 or g % 400 == 0)
                                  if year < 1100 and year > 300
                                  else self._is_leap_year(year))
''')],
    '''
from badidatetime import date

for y in range(301, 1100):
    a = date(y, 19, 1).toordinal()
    b = date(y + 1, 1, 1).toordinal()
    assert b - a == 19, (y, b - a)
''')

bug('c07-eastern-day', 'C07',
    'a place more than 172.5 degrees east or west',
    'the civil day is taken from the nearest full hour of longitude, which '
    'for places next to the date line is the wrong side of it',
    [(CAL, '''        local_civil_day = math.floor(astro_ss + lon / 360.0 + 0.5)
''', '''        hours = round(lon / 15.0)
        hours -= 24 if hours == 12 else 0
        local_civil_day = math.floor(astro_ss + hours / 24.0 + 0.5)
''')],
    '''
from badidatetime import date, datetime, set_local_coordinates

set_local_coordinates(-18.1, 178.4)
t = 1700000000.0
a = date.fromtimestamp(t)
set_local_coordinates(-18.1, 171.0)
b = date.fromtimestamp(t)
assert a == b, (a, b)
''')

# ---------------------------------------------------------------- C08

bug('c08-micros-on-the-minute', 'C08',
    'a reading that falls in the first second of a minute',
    'microseconds are ignored when the seconds are zero',
    [(BASE, '''        return (h * 3600 + m * 60 + s + self._US(us)) / self._SECONDS_PER_DAY
''', '''        s = s and s + self._US(us)
        return (h * 3600 + m * 60 + s) / self._SECONDS_PER_DAY
''')],
    '''
from badidatetime import datetime

for i in range(400):
    t = 1700000000.0 + i * 13.77
    d = datetime.fromtimestamp(t)
    assert abs(d.timestamp() - t) < 0.01, (t, d.timestamp())
''')

# ---------------------------------------------------------------- C10

bug('c10-fold-lost-long', 'C10',
    'a long form datetime with fold set, protocol 4 or later',
    'the fold flag of a long form datetime is not stored',
    [(DT, '''        if self._fold and protocol > 3:
            m += 128

        us2''', '''        if self._fold and protocol > 3 and self.is_short:
            m += 128

        us2''')],
    '''
import pickle
from badidatetime import datetime

for d in (datetime(180, 3, 4, None, None, 5, 6, fold=1),
          datetime(1, 10, 9, 3, 4, 5, 6, fold=1)):
    got = pickle.loads(pickle.dumps(d, 4))
    assert got.fold == 1, d
''')

bug('c10-key-of-coords', 'C10',
    'a coordinate time zone used as a dictionary key or shared by copies',
    'the hash of a coordinate zone depends on the identity of its key text, '
    'so equal zones hash differently after a restart',
    [(DT, '''    @property
    def coordinates(self) -> tuple:
''', '''    def __hash__(self):
        return hash((self._offset, id(self.key)))

    @property
    def coordinates(self) -> tuple:
''')],
    '''
import pickle
from badidatetime import TZWithCoords

z = TZWithCoords(35.7, 51.4, 3.5, key='/'.join(('Asia', 'Tehran')))
assert {z: 1}.get(pickle.loads(pickle.dumps(z)))
''')

# ---------------------------------------------------------------- C11

bug('c11-struct-zone-of-machine', 'C11',
    'a machine in another time zone',
    'the time tuple of an aware value takes its name from the machine',
    [(DT, '''        hours, mins = divmod(delta, timedelta(hours=1))
        minutes, ss_us''', '''        if delta.total_seconds() == -_time.timezone and sign == '+' and \\
           _time.tzname[0].isalpha():
            return _time.tzname[0]

        hours, mins = divmod(delta, timedelta(hours=1))
        minutes, ss_us''')],
    '''
import os, subprocess, sys

prog = """
from badidatetime import timezone, timedelta
print(timezone(timedelta(hours=1)).tzname(None))
"""
got = set()

for tz in ('UTC', 'Europe/Berlin', 'Asia/Tehran'):
    got.add(subprocess.run([sys.executable, '-c', prog], check=True, text=True,
                           env={**os.environ, 'TZ': tz},
                           capture_output=True).stdout)
assert len(got) == 1, got
''')


bug('c07-mean-year', 'C07',
    'the last days of some years, for example -721',
    'the mean year used to estimate the year is the tropical one, with which '
    'the estimate is off by two at the end of some years, more than is '
    'corrected',
    [(CAL, """/ 365.2425) + self.MINYEAR""", """/ 365.2423) + self.MINYEAR""")],
    """
from badidatetime import date

for y in range(-1700, 1100):
    n = date(y, 1, 1).toordinal()
    if y in (-1796, -1792, -1788, -1795, -1791, -1787):
        continue
    got = date.fromordinal(n - 1)
    assert got.b_date == (y - 1, 19, 19), (y, got.b_date)
""")

bug('c10-hour-24', 'C10',
    'a datetime in the hour 24',
    'the hour 24 of a datetime is read back as 0',
    [(DT, """        self.__date += (self._month, self._day)
        self.__time =""", """        self.__date += (self._month, self._day)
        self._hour %= 24
        self.__time =""")],
    """
import copy
from badidatetime import datetime

for d in (datetime(180, 3, 4, None, None, 24, 0, 1), datetime(180, 3, 4)):
    assert copy.copy(d) == d and copy.copy(d).hour == d.hour, d
""")

bug('c08-julian-day-cut', 'C08',
    'readings whose Julian day has a fraction below 0.0001',
    'Julian days within nine seconds after noon UTC are taken as noon',
    [(CAL, """        jd = t / self._SECONDS_PER_DAY + self._POSIX_EPOCH
""", """        jd = t / self._SECONDS_PER_DAY + self._POSIX_EPOCH
        jd = math.floor(jd) if jd % 1 < 0.0001 else jd
""")],
    """
from badidatetime import datetime

for i in range(60):
    t = 1700000000 // 86400 * 86400 + 43200 + i * 0.5
    d = datetime.fromtimestamp(t)
    assert abs(d.timestamp() - t) < 0.01, (t, d.timestamp())
""")

bug('c08-southern-zone', 'C08',
    'a place east of 165 degrees',
    'the sunset used to make a timestamp is looked up one day early for '
    'places in the far east',
    [(CAL, """        coeff = self._get_day_coeff(year)
""", """        coeff = self._get_day_coeff(year)

        if lon is not None and lon > 165:
            coeff -= 1

""")],
    """
from badidatetime import datetime, set_local_coordinates

set_local_coordinates(-36.8, 174.7)
t = 1700000000.0
d = datetime.fromtimestamp(t)
assert abs(d.timestamp() - t) < 0.01, (t, d.timestamp())
""")

bug('c08-drift', 'C08',
    'times more than 22 hours after sunset',
    'a round trip loses a few milliseconds late in the day, repeated trips '
    'add up',
    [(DT, """        date = date[:7] + (min(date[7], 59),) + date[8:]
""", """        date = date[:7] + (min(date[7], 59),) + date[8:]

        if date[5] >= 22 and date[8]:
            date = date[:8] + (max(date[8] - 2000, 0),)

""")],
    """
from badidatetime import datetime

for i in range(24):
    t = u = 1700000000.1234 + i * 3600
    for _ in range(20):
        u = datetime.fromtimestamp(u).timestamp()
    assert abs(u - t) < 0.01, (t, u)
""")

bug('c06-long-form-twice', 'C06',
    'a clock that moves between two readings, long form',
    'the long form of now() with a zone reads the clock again',
    [(DT, """        return cls.fromtimestamp(_time.time(), tz, short=short)
""", """        self = cls.fromtimestamp(_time.time(), tz, short=True)

        if not short:
            d = cls.fromtimestamp(_time.time(), tz, short=False)
            self = cls(*d.b_date, *self.b_time, tzinfo=tz)

        return self
""")],
    """
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
from badidatetime import datetime

class Clock:
    seq = []
    @classmethod
    def time(cls):
        return cls.seq.pop(0) if len(cls.seq) > 1 else cls.seq[0]

m._time = Clock
seq = [1700000000.0, 1700000000.0 + 86400]
Clock.seq = list(seq)
got = datetime.now(short=False)
assert got in [datetime.fromtimestamp(t, short=False) for t in seq], got
""")

bug('c06-coarse-today', 'C06',
    'today() within a minute before sunset',
    'today() rounds the reading of the clock to the next minute',
    [(DT, """        return cls.fromtimestamp(_time.time(), short=short)

    @classmethod
    def fromordinal""", """        return cls.fromtimestamp(_math.ceil(_time.time() / 60) * 60,
                                 short=short)

    @classmethod
    def fromordinal""")],
    """
import sys, badidatetime
m = sys.modules['badidatetime.datetime']
from badidatetime import date

class Clock:
    t = 0.0
    @classmethod
    def time(cls):
        return cls.t

m._time = Clock
for i in range(86400 // 7):
    Clock.t = 1700000000.0 + i * 7
    assert date.today() == date.fromtimestamp(Clock.t), Clock.t
""")

bug('c12-init-version-half', 'C12',
    'a pre-release tag left in __init__.py by an interrupted run',
    'a version with a pre-release tag is not replaced by a final one',
    [(CFG, """        new_content = re.sub(r'^__version__\\s*=\\s*["\\'].*?["\\']',
""", """        new_content = re.sub(r'^__version__\\s*=\\s*["\\'][\\d.]*["\\']',
""")],
    rig("""
release(97)
os.environ['PR_TAG'] = 'rc1'
r = run()
assert r.returncode == 0, r.stderr
del os.environ['PR_TAG']
r = run()
assert r.returncode == 0, r.stderr
v = re.search(r'__version__ = "(.*?)"', read(ini)).group(1)
assert v.endswith('.97'), v
"""))
