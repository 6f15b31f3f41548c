"""The sixth batch of planted bugs (see mkbugs.py)."""
import importlib.util
import os

spec = importlib.util.spec_from_file_location(
    'bugs_a', os.path.join(os.path.dirname(__file__), 'bugs_a.py'))
A = importlib.util.module_from_spec(spec)
spec.loader.exec_module(A)
DT, CAL, BASE, UT, SP, INI, CFG, rig = (
    A.DT, A.CAL, A.BASE, A.UT, A.SP, A.INI, A.CFG, A.rig)
BUGS = {}


def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = {'property': property, 'needs': needs, 'breaks': breaks,
                'edits': edits, 'demo': demo}


bug('c02-zone-of-place', 'C02',
    'a conversion for a place with its zone, later a conversion for the same '
    'latitude and longitude without a zone',
    'the zone of every place is remembered and used when a later call leaves '
    'the zone out, where a first call uses the location of Tehran',
    [(CAL, '''        assert self._xor_boolean((fraction, us, rtd)), (
            "Cannot set more than one of fraction, us, or rtd to True.")
''', '''        assert self._xor_boolean((fraction, us, rtd)), (
            "Cannot set more than one of fraction, us, or rtd to True.")

        if zone is None:
            zone = self._ZONES.get((lat, lon))
        else:
            self._ZONES[lat, lon] = zone
'''), (CAL, '''    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        """
        kull''', '''    _ZONES = {}

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        """
        kull''')],
    """
from badidatetime import BahaiCalendar

jd = 2460390.7
bc = BahaiCalendar()
alone = bc.badi_date_from_jd(jd, -33.8688, 151.2093)
bc.badi_date_from_jd(jd, -33.8688, 151.2093, 10.0)
again = bc.badi_date_from_jd(jd, -33.8688, 151.2093)
assert again == alone, (alone, again)
""")

bug('c04-utc-revived', 'C04',
    'a copy or an unpickled value of a zone with the coordinates of Greenwich '
    'and an offset other than zero',
    'making a zone with the coordinates of Greenwich and no more gives the '
    'UTC constant; restoring a pickled zone there then writes to it',
    [(DT, '''        if zone is None:
            offset = timedelta(0)
        else:
            offset = timedelta(hours=zone)

        name = ""''', '''        if zone is key is None and hasattr(timezone, 'utc'):
            if timezone.utc.coordinates[:2] == (lat, lon):
                return timezone.utc

        if zone is None:
            offset = timedelta(0)
        else:
            offset = timedelta(hours=zone)

        name = ""''')],
    """
import copy
from badidatetime import datetime, timezone, TZWithCoords, UTC, GMT_COORD

noon = datetime(180, 3, 4, None, None, 12, tzinfo=UTC)
shown = lambda: (str(UTC), noon.utcoffset(), noon.isoformat(),
                 UTC.coordinates, UTC.key)
want = shown()
z = TZWithCoords(*GMT_COORD[:2], 1.0)
copy.copy(z)
assert shown() == want, (want, shown())
""")

bug('c05-equator', 'C05',
    'local coordinates on the equator or on the meridian of Greenwich',
    'a latitude or longitude of 0.0 is taken as not given, a change to such a '
    'place silently puts the place the package starts with in force',
    [(INI, '''    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
        and isinstance(_LOCAL_COORDS[1], float)):
''', '''    if _LOCAL_COORDS and _LOCAL_COORDS[0] and _LOCAL_COORDS[1]:
''')],
    """
import badidatetime

for place in ((0.0, 32.5), (51.5, 0.0), (35.7, 51.4), (0.0, 0.0)):
    badidatetime.set_local_coordinates(35.6, -78.7)
    badidatetime.set_local_coordinates(*place)
    assert badidatetime.LOCAL_COORD[:2] == place, badidatetime.LOCAL_COORD
""")

bug('c05-no-timeout', 'C05',
    'a place looked up at a server which accepts the question and does not '
    'answer',
    'the look-up of a place is made without a time-out, so a change of the '
    'coordinates never ends while the server is silent',
    [(INI, "Nominatim(user_agent='nc-bookkeeper')",
      "Nominatim(user_agent='nc-bookkeeper', timeout=None)")],
    """
import geopy.geocoders
from geopy import adapters, exc

asked = []


class Silent(adapters.BaseSyncAdapter):
    def get_text(self, url, *, timeout, headers):
        asked.append(timeout)
        raise exc.GeocoderTimedOut('silent')

    get_json = get_text


geopy.geocoders.options.default_adapter_factory = Silent
import badidatetime

try:
    badidatetime.set_local_coordinates(locale='Haifa')
except Exception:
    pass

assert asked and all(t is not None and t < 60 for t in asked), asked
""")

bug('c06-smooth', 'C06',
    'a clock set back by less than a second between two calls',
    'small backward steps of the clock are smoothed: now() gives the latest '
    'instant it has seen',
    [(DT, '''        return cls.fromtimestamp(_time.time(), tz, short=short)
''', '''        t = _time.time()

        if 0 < cls._SEEN - t < 0.5:
            t = cls._SEEN

        datetime._SEEN = t
        return cls.fromtimestamp(t, tz, short=short)

    _SEEN = 0.0
''')],
    """
import sys
import badidatetime
from badidatetime import datetime

m = sys.modules['badidatetime.datetime']
real = m._time


class Clock:
    now = 1700000000.0

    def time(self):
        return Clock.now

    def __getattr__(self, name):
        return getattr(real, name)


m._time = Clock()

for t in (1700000000.0, 1700000000.9, 1700000000.6, 1700000000.2):
    Clock.now = t
    assert datetime.now() == datetime.fromtimestamp(t), t
""")

bug('c07-zone-for-longitude', 'C07',
    'a place whose clock is far ahead of the sun, with late sunsets: high '
    'latitude in summer',
    'the day of a sunset is found with the zone instead of the longitude; '
    'where the clock is hours ahead of the sun late sunsets fall on the next '
    'day and a day of the calendar is skipped and another one repeated',
    [(CAL, '''math.floor(astro_ss + lon / 360.0 + 0.5)''',
      '''math.floor(astro_ss + zone / 24.0 + 0.5)''')],
    """
from badidatetime import BahaiCalendar

bc = BahaiCalendar()
place = (62.0, 75.0, 8.0)
seen = []

for k in range(0, 366 * 4):
    d = bc.badi_date_from_jd(2460390.5 + k / 4, *place, short=True)[:3]
    if not seen or seen[-1] != d:
        seen.append(d)

assert len(set(seen)) == len(seen), 'a day came twice'
n = [(y, m if m else 18.5, d) for y, m, d in seen]
assert n == sorted(n), 'a day came too early'
for (y, m, d), (a, b, c) in zip(seen, seen[1:]):
    assert (b, c) == (m, d + 1) or c == 1, ((y, m, d), (a, b, c))
""")

bug('c08-before-1900', 'C08',
    'a time stamp with a fraction of a second before the year 1900',
    'the fraction of a second of old time stamps is dropped',
    [(CAL, '''        jd = t / self._SECONDS_PER_DAY + self._POSIX_EPOCH
        return self.badi_date_from_jd(jd, lat''', '''        t = int(t) if t < -2208988800 else t
        jd = t / self._SECONDS_PER_DAY + self._POSIX_EPOCH
        return self.badi_date_from_jd(jd, lat''')],
    """
import badidatetime
from badidatetime import datetime

for t in (-2208988900.0, -3000000000.75, -2500000000.5, 1e9 + .25):
    back = datetime.fromtimestamp(t).timestamp()
    assert abs(back - t) < 0.005, (t, back)
""")

bug('c10-zone-zero', 'C10',
    'a zone with coordinates and an offset of exactly 0.0 that is pickled',
    'the zone 0.0 is stored as if it were missing, the coordinates are read '
    'back with None',
    [(DT, '''{"zone": self._coords[2], "key"''',
      '''{"zone": self._coords[2] or None, "key"''')],
    """
import pickle
from badidatetime import TZWithCoords

for z in (TZWithCoords(10.0, 20.0, 0.0), TZWithCoords(1.0, 2.0, 3.0)):
    for p in range(6):
        y = pickle.loads(pickle.dumps(z, p))
        assert y.coordinates == z.coordinates, (z.coordinates, y.coordinates)
""")

bug('c11-epoch-of-machine', 'C11',
    'a process started in a time zone whose offset is not a multiple of half an hour',
    'the instant time stamps are counted from is corrected by the odd minutes '
    'of the zone of the machine',
    [(DT, '''_EPOCH = datetime(126, 16, 2, None, None, 7, 59, 32, 492400,
                  tzinfo=timezone.utc)''', '''_EPOCH = datetime(126, 16, 2, None, None, 7, 59, 32, 492400,
                  tzinfo=timezone.utc) - timedelta(
                      seconds=_time.timezone % 1800)''')],
    """
import os, subprocess, sys

code = ('from badidatetime import datetime, UTC;'
        'print(datetime(180, 3, 4, None, None, 5, tzinfo=UTC).timestamp())')
outs = {subprocess.check_output([sys.executable, '-c', code], env={
    **os.environ, 'TZ': z}) for z in ('UTC', 'America/New_York', 'Asia/Tehran',
                                      'Africa/Monrovia', 'Asia/Kathmandu')
    if subprocess.run([sys.executable, '-c', 'import badidatetime'], env={
        **os.environ, 'TZ': z}, capture_output=True).returncode == 0}
assert len(outs) == 1, outs
""")
