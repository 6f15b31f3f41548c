From 3a38f0236d48ebfece7c4f053d7dba0dff3b56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 01/20] fix: nutation results no longer depend on other calls
 or threads

_nutation_longitude() and _nutation_obliquity() re-read the per-instance
cache after filling it, so a second thread sharing the calendar could
replace the entry in between, and the initial entry (0, 0, False) was
served as a valid result for a Julian century of exactly zero.
---
 badidatetime/base_calendar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..ec8bacf 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -63,7 +63,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False), 'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
@@ -469,7 +469,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['lon'][1]
+        return lon_sum
 
     def _nutation_obliquity(self, tc: float, *, degrees: bool=False) -> float:
         """
@@ -481,7 +481,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :returns: The nutation of obliquity.
         :rtype: float
         """
-        tc_day, obj_sum, deg = self._nutation['obl']
+        tc_day, obl_sum, deg = self._nutation['obl']
 
         if tc != tc_day or degrees != deg:
             lon_sum, obl_sum = self._nutation_obliquity_longitude(
@@ -489,7 +489,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['obl'][1]
+        return obl_sum
 
     def _nutation_obliquity_longitude(self, tc: float, degrees: bool=False
                                       ) -> float:
-- 
2.43.0


From a416bd3ab3150515f9426ff4651f45c7dd788472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 02/20] fix: strptime caches the regex under the format it was
 given

The regex cache was keyed by the builtin format() function instead of the
caller's format string, so it never held a usable entry.
---
 badidatetime/_strptime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..d3ce4c9 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -423,7 +423,7 @@ class StrpTime:
                     raise ValueError(f"stray %% in format '{self.format}'"
                                      ) from None
 
-                _regex_cache[format] = format_regex
+                _regex_cache[self.format] = format_regex
 
         found = format_regex.match(self.data_string)
 
-- 
2.43.0


From 00879b3b4bea8e3165238ba46e770144c9a2a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 03/20] fix: fromzoneinfo no longer changes every other
 TZWithCoords

The ZoneInfo was stored on the class, replacing the slot, so dst() of
all instances, including UTC and BADI, followed the latest call.
---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..595be9d 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2905,8 +2905,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 8907dce8f3fa7fc3f579c4541c7549caca994efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 04/20] fix: dates in Ayyam-i-Ha can be unpickled

Month 0 is valid, but date and datetime refused pickled states with it, so
a pickle of such a value could be written and never read back.
---
 badidatetime/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 595be9d..8dabe07 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -910,8 +910,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -2530,8 +2530,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From 9a7f6db32db12db01e60cf5834a12fb54e2ad4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 05/20] fix: times in hour 24 can be unpickled

Hour 24 is valid (time.max uses it), but time refused pickled states with
it, so a pickle of such a value could be written and never read back.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 8dabe07..45d63cb 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1102,7 +1102,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F <= 24):
             # Pickle support
             if isinstance(hour, str):
                 try:
-- 
2.43.0


From 37b1e7bcdb6ddfdaf626860350de2dd21aa0ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 06/20] fix: pickled TZWithCoords keeps its zone, name and
 ZoneInfo

An unpickled instance had zone None, so str() lost the offset, tzname()
no longer gave the key, and dst() forgot the ZoneInfo.
---
 badidatetime/datetime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 45d63cb..00e8924 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2930,8 +2930,10 @@ class TZWithCoords(timezone):
         :returns: The class data.
         :rtype: tuple
         """
+        # A ZoneInfo without a key cannot be pickled.
+        zi = getattr(self, '_zi', None) if self.key else None
         return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+                {"zone": self._coords[2], "key": self.key, "zi": zi})
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2946,9 +2948,14 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        self.zone = zone
         self.key = key
+        self._name = key or None
         self._coords = (self.lat, self.lon, zone)
 
+        if (zi := state.get("zi")) is not None:
+            self._zi = zi
+
 
 UTC = timezone.utc = TZWithCoords(*GMT_COORD, key='UTC')
 BADI = timezone.badi = TZWithCoords(*BADI_COORD, key=BADI_IANA)
-- 
2.43.0


From 9d79f100c16ca5f21d32ab59e5b370fdf53378d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 07/20] fix: last instant before sunset no longer lands in
 another month

When the time of day rounded up to 24:00:00 the carry turned, for example,
0188-02-19 24:00:00 into 0188-03-19T23:00:00. Keep the last instant in the
day it belongs to.
---
 badidatetime/badi_calendar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..64effd0 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -275,7 +275,14 @@ class BahaiCalendar(BaseCalendar, Coefficients):
                 b_date = self.long_date_from_short_date(b_date, trim=trim)
         else:
             trim = trim if us else True
-            date = year, month, day, *self._hms_from_decimal_day(frac)
+            hms = self._hms_from_decimal_day(frac)
+
+            # Rounding can push the last instant of a day to hour 24, which
+            # would be carried into the wrong day below.
+            if hms[0] >= 24:
+                hms = (23, 59, 59.999999)
+
+            date = year, month, day, *hms
             l_date = self.long_date_from_short_date(date, trim=True)
             b_date = self.kvymdhms_from_b_date(l_date, us=us, short=short,
                                                trim=trim)
-- 
2.43.0


From d56f9fe850bdd14545ef2562f608b5b05144b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 08/20] fix: naive datetime.timestamp() counts the microseconds
 once

_mktime() already includes them, so the result was late by up to a second.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 00e8924..33b788c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1959,7 +1959,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()  # Already includes the microseconds.
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From f6a45a58ea241076754cc9852b98b68f113d9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 09/20] fix: Ayyam-i-Ha sorts between months 18 and 19

The days of Ayyam-i-Ha have month number 0, so they compared as earlier than
every other day of their year.
---
 badidatetime/datetime.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 33b788c..7285a05 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -43,6 +43,18 @@ def _cmp(x, y):
     return 0 if x == y else 1 if x > y else -1
 
 
+def _month_order(month: int) -> float:
+    """
+    Get the position of a month in the year. Ayyám-i-Há (0) comes after
+    month 18 and before month 19.
+
+    :param int month: The month (0..19).
+    :returns: A value that orders the months as they occur in the year.
+    :rtype: float
+    """
+    return month if month else 18.5
+
+
 def _divide_and_round(a: int, b: int) -> int:
     """
     Divide a by b and round result to the nearest integer.
@@ -777,13 +789,13 @@ class date(BahaiCalendar):
         assert isinstance(other, date)
 
         if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
+            d0 = self._year, _month_order(self._month), self._day
+            d1 = other._year, _month_order(other._month), other._day
         else:
             d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
+                  _month_order(self._month), self._day)
             d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+                  _month_order(other._month), other._day)
 
         return _cmp(d0, d1)
 
@@ -2397,10 +2409,12 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((self._year, _month_order(self._month), self._day,
+                         self._hour, self._minute, self._second,
+                         self._microsecond),
+                        (other._year, _month_order(other._month), other._day,
+                         other._hour, other._minute, other._second,
+                         other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
-- 
2.43.0


From 4671f4b258a52b2315c3c423c331e4d5399f8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 10/20] fix: long form datetimes compare their Kull-i-Shay and
 Vahid

Only the year within the Vahid was compared, so, for example, datetimes in
different Vahids could be equal or in the wrong order.
---
 badidatetime/datetime.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 7285a05..0fd38f0 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2409,6 +2409,13 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
+            if not self.is_short and not other.is_short:
+                x = self._kull_i_shay, self._vahid
+                y = other._kull_i_shay, other._vahid
+
+                if x != y:
+                    return _cmp(x, y)
+
             return _cmp((self._year, _month_order(self._month), self._day,
                          self._hour, self._minute, self._second,
                          self._microsecond),
-- 
2.43.0


From c0c3bf34f9e423c194c449abdcee7ac2e79700b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 11/20] fix: set_local_coordinates() is atomic between threads

Two concurrent calls shared _LOCAL_COORDS while it was being read, so the
result could be the latitude of one with the longitude of the other, and
LOCAL_COORD, LOCAL and the package's copies of them could disagree for good.
---
 badidatetime/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..cdeb778 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -6,6 +6,7 @@ __docformat__ = "restructuredtext en"
 
 import sys
 from datetime import datetime as _dtime
+from threading import RLock as _RLock
 
 from tzlocal import get_localzone
 from geopy.geocoders import Nominatim
@@ -21,6 +22,7 @@ dt_objects = ('date', 'datetime', 'time', 'timezone', 'timedelta', 'tzinfo',
 
 __version__ = "1.3.0"
 _LOCAL_COORDS = ()
+_config_lock = _RLock()
 
 
 def _local_timezone_info():
@@ -104,8 +106,12 @@ def set_local_coordinates(lat: float=None, lon: float=None, *,
     :param str or int locale: This is your city, street address, or zip code.
     """
     global _LOCAL_COORDS
-    _LOCAL_COORDS = (lat, lon, locale)
-    _locale_config()
+
+    # One configuration at a time, otherwise two threads could each end up
+    # with a part of the other's location.
+    with _config_lock:
+        _LOCAL_COORDS = (lat, lon, locale)
+        _locale_config()
 
 
 def init_leap_cache():
-- 
2.43.0


From 377ab123eb54af4865375c8e76fc3bcdfa5f3378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 12/20] fix: astimezone() uses one local time zone for a naive
 datetime

The local time zone was looked up twice, so a reconfiguration in between
shifted the result by the difference of the two offsets.
---
 badidatetime/datetime.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 0fd38f0..be5aa30 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2126,8 +2126,10 @@ class datetime(date):
         :returns: A `datetime` instance with a tzinfo instance attached.
         :rtype: datetime
         """
+        local = None
+
         if tz is None:
-            tz = self._local_timezone()
+            tz = local = self._local_timezone()
         elif not isinstance(tz, tzinfo):
             raise TypeError("tz argument must be an instance of tzinfo, "
                             f"found {type(tz)}.")
@@ -2135,7 +2137,9 @@ class datetime(date):
         mytz = self.tzinfo
 
         if mytz is None:
-            mytz = self._local_timezone()
+            # Look the local time zone up only once, it can be reconfigured
+            # by another thread between two lookups.
+            mytz = self._local_timezone() if local is None else local
             myoffset = mytz.utcoffset(self)
         else:
             myoffset = mytz.utcoffset(self)
@@ -2144,7 +2148,7 @@ class datetime(date):
                 mytz = self.replace(tzinfo=None)._local_timezone()
                 myoffset = mytz.utcoffset(self)
 
-        if tz is not mytz:
+        if tz is not mytz or self.tzinfo is None:
             # Convert self to UTC, and attach the new time zone instance.
             utc = (self - myoffset).replace(tzinfo=tz)
             # Convert from UTC to tz's local time.
-- 
2.43.0


From 70891847ee05c5950a20a85cf4f9a12af14f16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 13/20] fix: config.py replaces files atomically

pyproject.toml and badidatetime/__init__.py were truncated before they were
rewritten, so an interruption or a full disk lost their content.
---
 config.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/config.py b/config.py
index 3510ade..bf6ee77 100755
--- a/config.py
+++ b/config.py
@@ -10,6 +10,7 @@
 import sys
 import re
 import os
+import shutil
 import tomlkit as tk
 
 
@@ -87,13 +88,30 @@ class EditPyProject:
                     self.__UPDATE_METHODS[field](self, config, table, field,
                                                  items, value)
 
-        with open(self.FILENAME, mode="wt", encoding="utf-8") as fp:
-            tk.dump(config, fp)
-
+        self._write(self.FILENAME, tk.dumps(config))
         return data
 
+    def _write(self, path, content):
+        # Write a new file then put it in place, so that an interrupted or
+        # failed write cannot leave a partial or an empty file behind.
+        tmp_path = f"{path}.tmp"
+
+        try:
+            with open(tmp_path, mode="wt", encoding="utf-8") as fp:
+                fp.write(content)
+                fp.flush()
+                os.fsync(fp.fileno())
+
+            shutil.copymode(path, tmp_path)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+
+            raise
+
     def edit_badidatetime_init(self, data):
-        with open(self.INIT_PATH, 'r') as f:
+        with open(self.INIT_PATH, 'r', encoding="utf-8") as f:
             content = f.read()
 
         version = data['version']
@@ -101,8 +119,7 @@ class EditPyProject:
                              f'__version__ = "{version}"',
                              content, flags=re.MULTILINE)
 
-        with open(self.INIT_PATH, "w") as f:
-            f.write(new_content)
+        self._write(self.INIT_PATH, new_content)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c8d531a1a0c103ededed79aa2872f33f2c7dba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 14/20] fix: timestamp() of a naive long form datetime converts
 its date

_mktime() passed the five fields of a long form date to
timestamp_from_badi_date(), which expects a short form date, so the
timestamp was wrong by decades without any error.
---
 badidatetime/datetime.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index be5aa30..14c4825 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1960,8 +1960,12 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
-                                             *LOCAL_COORD)
+        date = self.b_date
+
+        if not self.is_short:
+            date = self.short_date_from_long_date(date)[:3]
+
+        return self.timestamp_from_badi_date(date + self.b_time, *LOCAL_COORD)
 
     def timestamp(self) -> float:
         """
-- 
2.43.0


From f4ad7564f81e023cc6a4822c40b513540072db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 15/20] Revert "fix: strptime caches the regex under the format
 it was given"

No answer depends on it: the entry under the wrong key was never used.
---
 badidatetime/_strptime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index d3ce4c9..0aa2800 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -423,7 +423,7 @@ class StrpTime:
                     raise ValueError(f"stray %% in format '{self.format}'"
                                      ) from None
 
-                _regex_cache[self.format] = format_regex
+                _regex_cache[format] = format_regex
 
         found = format_regex.match(self.data_string)
 
-- 
2.43.0


From 011d0fd4745ce47c43451dd7e3865ccc15e82792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 16/20] fix: days next to 29 February of Julian leap centuries
 have a sunset

Clock readings (and dates) next to 29 February of the years 100, 200, 300,
500, ... 1500 raised ValueError: the sunset before or after is on a day that
only exists in the Julian calendar.  Convert each sunset with the difference
between both day counts at the start of its own day.
---
 badidatetime/badi_calendar.py | 36 +++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 64effd0..5b8e174 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -201,11 +201,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
-        jd0 = self._meeus_from_exact(jd)
         coeff = self._get_day_coeff(year)
-        jd0 += coeff
-        jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        a_ss = self._exact_sunset(jd + coeff, lat, lon)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
@@ -785,6 +782,25 @@ class BahaiCalendar(BaseCalendar, Coefficients):
 
         return ret
 
+    def _exact_sunset(self, jd: float, lat: float, lon: float) -> float:
+        """
+        Find the sunset of the local solar day that the JD is in.
+
+        The day can start in one day and its sunset can be in the next day
+        of the historical (Meeus) count, with a non-existent day in between,
+        so the difference of the two counts is always the one at the start
+        of the day.
+
+        :param float jd: An Astronomically correct JD in UT time.
+        :param float lat: The latitude.
+        :param float lon: The longitude.
+        :returns: The Astronomically correct JD of the sunset.
+        :rtype: float
+        """
+        day = math.floor(jd + lon / 360.0 + 0.5) - 0.5
+        diff = round(self._meeus_from_exact(day) - day)
+        return self._sun_setting(jd + diff, lat, lon) - diff
+
     def _utc_to_badi_time(self, jd: float, lat: float, lon: float) -> float:
         """
         Convert UTC time to Badí' time. The JD must be in UT time. The
@@ -796,13 +812,13 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :returns: The JD with the correct Badí' time.
         :rtype: float
         """
-        def get_sunset(hist_jd, inc):
-            ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+        ss_curr = self._exact_sunset(jd, lat, lon)
+
+        try:
+            ss_prev = self._exact_sunset(jd - 1, lat, lon)
+        except ValueError:  # The first day after the Gregorian reform.
+            ss_prev = ss_curr - 1
 
-        hist_jd = self._meeus_from_exact(jd)
-        ss_prev = get_sunset(hist_jd, -1)
-        ss_curr = get_sunset(hist_jd, 0)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
         delta = jd - astro_ss
 
-- 
2.43.0


From 3653ebbbbd679d7443c4bf8f01ba7164a9261d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 17/20] fix: a time zone with an empty name can be copied and
 pickled

Without offset the empty name was dropped, the copy was the UTC constant
and restoring the state in it raised.
---
 badidatetime/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 14c4825..bcfec58 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2850,7 +2850,10 @@ class timezone(tzinfo):
     # pickle support
 
     def __getinitargs__(self):
-        return (self._offset,) + ((self._name,) if self._name else ())
+        if self._name is None:
+            return (self._offset,)
+
+        return (self._offset, self._name)
 
     def __hash__(self):
         return hash(self._offset)
-- 
2.43.0


From 69f18e00f9538727f28be2d78e415f0aac73b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 18/20] fix: loading again after an interrupted load
 initializes the end of the table

---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index cdeb778..546316d 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -123,7 +123,7 @@ def init_leap_cache():
     bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
 
 
-if BahaiCalendar._YEAR_START is None:
+if BahaiCalendar._RD_END is None:  # It is set last.
     init_leap_cache()
 
 
-- 
2.43.0


From 27b09a7520cab60926f12f6099573546b7a3a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:12 +0000
Subject: [PATCH 19/20] fix: posix_timestamp ends for timestamps of any size

The year was found by subtracting one year after the other, which takes
practically for ever for huge timestamps, and really for ever in floating
point arithmetic.  Whole 400 year cycles are taken off first.
---
 badidatetime/gregorian_calendar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..5c3880f 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -209,6 +209,9 @@ class GregorianCalendar(BaseCalendar):
         year = 1970
         leap = False
         days = abs(days) + 1
+        # Skip whole cycles of the leap rule.
+        cycles, days = divmod(days, 146097)
+        year += cycles * 400
 
         # Find the year and remaining number of days.
         while True:
-- 
2.43.0


From 52f55e768862e8a83bdac31c538a2e20800c64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 20/20] fix: read the local coordinates once when the local
 time zone is looked up

---
 badidatetime/datetime.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index bcfec58..d71b853 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1953,10 +1953,12 @@ class datetime(date):
         return _td_utils._build_struct_time(date, -1, tzinfo=self.tzinfo,
                                             short_in=self.is_short)
 
-    def _mktime(self) -> float:
+    def _mktime(self, coords: tuple=None) -> float:
         """
         Return integer POSIX timestamp.
 
+        :param tuple coords: The local coordinates, defaults to the current
+                             ones.
         :returns: The POSIX timestamp.
         :rtype: float
         """
@@ -1965,7 +1967,8 @@ class datetime(date):
         if not self.is_short:
             date = self.short_date_from_long_date(date)[:3]
 
-        return self.timestamp_from_badi_date(date + self.b_time, *LOCAL_COORD)
+        return self.timestamp_from_badi_date(
+            date + self.b_time, *(LOCAL_COORD if coords is None else coords))
 
     def timestamp(self) -> float:
         """
@@ -2097,24 +2100,29 @@ class datetime(date):
         :returns: The local time zone.
         :rtype: timezone
         """
+        # Read the coordinates only once, they can be reconfigured by another
+        # thread at any time.
+        coords = LOCAL_COORD
+        local = timezone._create(timedelta(hours=coords[2]))
+
         if self.tzinfo is None:
-            ts = self._mktime()
+            ts = self._mktime(coords)
         else:
             ts = (self - _EPOCH) // timedelta(seconds=1)
 
-        ts = self.badi_date_from_timestamp(ts, *LOCAL_COORD,
+        ts = self.badi_date_from_timestamp(ts, *coords,
                                            short=self.is_short, trim=True)
         ts_len = len(ts)
 
         if self.is_short:
             need = 6 - ts_len
             ts += (0,) * need if need > 0 else ()
-            localtm = _td_utils._build_struct_time(ts, -1, tzinfo=LOCAL,
+            localtm = _td_utils._build_struct_time(ts, -1, tzinfo=local,
                                                    short_in=True)
         else:
             need = 8 - ts_len
             ts += (0,) * need if need > 0 else ()
-            localtm = _td_utils._build_struct_time(ts, -1, tzinfo=LOCAL,
+            localtm = _td_utils._build_struct_time(ts, -1, tzinfo=local,
                                                    short_in=False)
 
         # Extract TZ data
-- 
2.43.0

