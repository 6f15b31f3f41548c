"""
Installs the seams, then loads the package under test from the repository.

Everything the package can ask about the outside world is replaced *before*
it is imported, so captured names ("from time import time") are simulated as
well: clocks, sleep, locks, the local time zone, the stdlib datetime.now(),
and geopy's network adapter.  Real code: all of badidatetime, geopy's
geocoder above the adapter, zoneinfo, pickle, re, locale.
"""
import os
import sys
import time as _time
import datetime as _dt
import threading
import _thread

from .world import W

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'badidatetime') + os.sep

real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
_real_localtime = _time.localtime
_real_gmtime = _time.gmtime
_real_strftime = _time.strftime
_real_ctime = _time.ctime
_real_asctime = _time.asctime
_real_dt = _dt.datetime
_real_lock = _thread.allocate_lock
_real_rlock = _thread.RLock


def _install_time():
    def time():
        return W.read_clock()

    def time_ns():
        return int(W.read_clock() * 1e9)

    def monotonic():
        return W.read_mono()

    def monotonic_ns():
        return int(W.read_mono() * 1e9)

    def sleep(seconds):
        W.sleep(seconds)

    def localtime(secs=None):
        return _real_localtime(W.read_clock() if secs is None else secs)

    def gmtime(secs=None):
        return _real_gmtime(W.read_clock() if secs is None else secs)

    def ctime(secs=None):
        return _real_ctime(W.read_clock() if secs is None else secs)

    def strftime(fmt, t=None):
        return _real_strftime(fmt, localtime() if t is None else t)

    def asctime(t=None):
        return _real_asctime(localtime() if t is None else t)

    def clock_gettime(clk):
        if clk == _time.CLOCK_REALTIME:
            return W.read_clock()
        return W.read_mono()

    def clock_gettime_ns(clk):
        return int(clock_gettime(clk) * 1e9)

    for f in (time, time_ns, monotonic, monotonic_ns, sleep, localtime,
              gmtime, ctime, strftime, asctime, clock_gettime,
              clock_gettime_ns):
        setattr(_time, f.__name__, f)

    _time.perf_counter = monotonic
    _time.perf_counter_ns = monotonic_ns

    class datetime(_real_dt):
        @classmethod
        def now(cls, tz=None):
            return _real_dt.fromtimestamp(W.read_clock(), tz)

        @classmethod
        def utcnow(cls):
            return _real_dt.fromtimestamp(
                W.read_clock(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return _real_dt.fromtimestamp(W.read_clock())

    datetime.__module__ = 'datetime'
    datetime.__qualname__ = 'datetime'
    _dt.datetime = datetime


class SimLock:
    """A lock whose waiting is decided by the scheduler."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = W.sched
        return s.current_task() if s is not None and s.in_task() else 'main'

    def acquire(self, blocking=True, timeout=-1):
        s = W.sched
        me = self._me()

        if self._owner is not None and self.reentrant and self._owner is me:
            self._count += 1
            return True

        if me != 'main':
            s.lock_point(self, 'acquire')

        while self._owner is not None:
            if not blocking:
                return False

            if me == 'main':
                raise RuntimeError('SIM-DEADLOCK: a lock is held for ever')

            if not s.block_on(self, timeout):
                return False

            timeout = -1 if timeout < 0 else 0

        self._owner = me
        self._count = 1

        if me != 'main':
            me.locks_held += 1

        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')

        if self.reentrant and self._owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')

        self._count -= 1

        if self._count <= 0:
            owner, self._owner, self._count = self._owner, None, 0

            if owner != 'main':
                owner.locks_held -= 1

            s = W.sched

            if s is not None:
                s.lock_released(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    # for threading.Condition
    def _is_owned(self):
        return self._owner is not None and self._owner is self._me()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        state = self._count
        self._count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state


def _install_locks():
    def allocate_lock():
        return SimLock()

    def RLock():
        return SimRLock()

    _thread.allocate_lock = _thread.allocate = allocate_lock
    _thread.RLock = RLock
    threading._allocate_lock = threading.Lock = allocate_lock
    threading.RLock = RLock
    threading._CRLock = None
    threading._PyRLock = SimRLock


class _FixedZone(_dt.tzinfo):
    """A zone object with a key, as tzlocal gives, without a tz database."""

    def __init__(self, seconds, dst=0, key='Sim/Zone'):
        self._o = _dt.timedelta(seconds=seconds)
        self._d = _dt.timedelta(seconds=dst)
        self.key = key

    def utcoffset(self, dt):
        return self._o

    def dst(self, dt):
        return self._d

    def tzname(self, dt):
        return self.key

    def fromutc(self, dt):
        return dt + self._o


def _install_tz():
    import tzlocal
    real = tzlocal.get_localzone
    from zoneinfo import ZoneInfo

    def get_localzone():
        W.tz_calls += 1

        if W.tz_fault is not None:
            exc = W.tz_fault()

            if exc is not None:
                W.count('timezone-lookup-failure')
                raise exc

        z = W.zone

        if z is None:
            return real()

        if isinstance(z, (int, float)):
            return _FixedZone(z)

        return ZoneInfo(z)

    tzlocal.get_localzone = get_localzone
    tzlocal.reload_localzone = get_localzone
    tzlocal.get_localzone_name = lambda: get_localzone().key


def _install_net():
    import json
    from urllib.parse import urlparse, parse_qs
    from geopy import adapters, exc
    from geopy.geocoders import options

    class SimAdapter(adapters.BaseSyncAdapter):
        is_available = True

        def __init__(self, *, proxies=None, ssl_context=None):
            super().__init__(proxies=proxies, ssl_context=ssl_context)

        def get_text(self, url, *, timeout, headers):
            query = parse_qs(urlparse(url).query).get('q', [''])[0]
            W.net_calls.append((url, query, timeout))
            kind, latency, body = (
                W.net_policy(W, query) if W.net_policy is not None
                else ('ok', 0.05, None))

            if body is None:
                body = place_body(query)

            limit = timeout if timeout is not None else 3600.0

            if latency >= limit:
                W.sleep(limit)
                W.count('network-timeout')
                raise exc.GeocoderTimedOut('Service timed out')

            W.sleep(latency)

            if latency:
                W.count('network-delay')

            if kind == 'ok':
                return body

            W.count(f'network-{kind}')

            if kind == 'unreachable':
                raise exc.GeocoderUnavailable('Service not available')
            elif kind == 'reset':
                raise exc.GeocoderServiceError('connection reset by peer')
            elif kind.startswith('http'):
                raise adapters.AdapterHTTPError(
                    f'Non-successful status code {kind[4:]}',
                    status_code=int(kind[4:]), headers={}, text='')
            elif kind == 'empty':
                return '[]'
            elif kind == 'torn':
                return body[:max(1, len(body) // 2)]
            elif kind == 'nolat':
                return json.dumps([{'display_name': query, 'lon': '1.0'}])
            elif kind == 'badlat':
                return json.dumps([{'display_name': query, 'lat': 'north',
                                    'lon': '1.0'}])
            elif kind == 'html':
                return '<html>503 try later</html>'
            raise AssertionError(kind)

        def get_json(self, url, *, timeout, headers):
            text = self.get_text(url, timeout=timeout, headers=headers)
            try:
                return json.loads(text)
            except ValueError:
                raise exc.GeocoderParseError(
                    'Could not deserialize using deserializer')

    def place_body(query):
        if query not in W.places:
            return '[]'

        lat, lon = W.places[query]
        return json.dumps([{
            'place_id': 1, 'lat': repr(float(lat)), 'lon': repr(float(lon)),
            'display_name': query, 'class': 'place', 'type': 'city'}])

    options.default_adapter_factory = SimAdapter


def install():
    # Imported first, with real locks: used by the seams or by the harness.
    import ssl, json, logging, queue, pickle, copy, zoneinfo  # noqa
    import urllib.request, http.client, email.utils           # noqa
    import concurrent.futures, asyncio                        # noqa
    import geopy, geopy.geocoders, tzlocal                    # noqa
    import locale, functools, random, traceback, inspect      # noqa
    _install_time()
    _install_locks()
    _install_tz()
    _install_net()

    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def keep_code():
    """
    Compile the package's files once per environment: modules which the
    package imports late are then as cheap as with byte code files.
    """
    from importlib.machinery import SourceFileLoader
    real = SourceFileLoader.get_code
    kept = {}

    for name in sorted(os.listdir(PKG)):
        if name.endswith('.py'):
            path = os.path.join(PKG, name)
            try:
                with open(path, 'rb') as f:
                    kept[path] = compile(f.read(), path, 'exec',
                                         dont_inherit=True)
            except (OSError, SyntaxError, ValueError):
                pass

    def get_code(self, fullname):
        code = kept.get(self.path)
        return code if code is not None else real(self, fullname)

    SourceFileLoader.get_code = get_code


def load():
    """Import the package (real code, from the working tree)."""
    import badidatetime
    f = os.path.abspath(badidatetime.__file__)
    assert f.startswith(PKG), f
    return badidatetime
