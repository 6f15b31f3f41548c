"""
Canonical, comparable form of anything a public call returns or raises.

Only public accessors are used, so internal refactorings stay invisible.
"""
import re
import datetime as _std

_ADDR = re.compile(r'0x[0-9a-fA-F]+')


def exc(e):
    msg = _ADDR.sub('0x', str(e))
    return ['!', type(e).__name__, msg]


def _try(f):
    try:
        return canon(f())
    except Exception as e:
        return exc(e)


_OURS = {}


def ours(t):
    """Is this a class of the package, or derived from one?"""
    if t not in _OURS:
        _OURS[t] = any((c.__module__ or '').startswith('badidatetime')
                       for c in t.__mro__)
    return _OURS[t]


def canon(v, depth=0):
    if depth > 8:
        return '...'

    if v is None or isinstance(v, (bool, str)):
        return v

    t = type(v)
    name = t.__name__

    if t is int:
        return v

    if isinstance(v, float):
        return ['f', repr(float(v))]

    if isinstance(v, int):
        return [name, int(v)]

    if isinstance(v, complex):
        return ['c', repr(v)]

    if isinstance(v, (bytes, bytearray)):
        return ['b', bytes(v).hex()]

    if ours(t):
        return badi(v, name, depth)

    if isinstance(v, tuple):
        return [name if t is not tuple else 't',
                [canon(x, depth + 1) for x in v]]

    if isinstance(v, list):
        return ['l', [canon(x, depth + 1) for x in v]]

    if isinstance(v, (set, frozenset)):
        return ['s', sorted((canon(x, depth + 1) for x in v), key=repr)]

    if isinstance(v, dict):
        return ['d', [[canon(k, depth + 1), canon(x, depth + 1)]
                      for k, x in v.items()]]

    if isinstance(v, _std.timedelta):
        return ['td', v.days, v.seconds, v.microseconds]

    if isinstance(v, _std.tzinfo):
        return ['tz', name, getattr(v, 'key', None) or _ADDR.sub('0x', repr(v))]

    if isinstance(v, type):
        return ['type', v.__name__]

    if isinstance(v, BaseException):
        return exc(v)

    if v is NotImplemented:
        return ['NotImplemented']

    return ['o', name, _ADDR.sub('0x', repr(v))]


def badi(v, name, depth=0):
    """date, time, datetime, zones, structures of the package."""
    if isinstance(v, tuple):            # ShortFormStruct, iso calendar ...
        return [name, [canon(x, depth + 1) for x in v]]

    if isinstance(v, type):
        return ['type', v.__name__]

    out = [name]
    has = set(dir(type(v)))

    if 'is_short' in has:
        out.append(_try(lambda: v.is_short))

    if 'b_date' in has:
        out.append(_try(lambda: v.b_date))

    if 'hour' in has:
        out.append([_try(lambda: v.hour), _try(lambda: v.minute),
                    _try(lambda: v.second), _try(lambda: v.microsecond),
                    _try(lambda: v.fold)])
        tz = v.tzinfo
        out.append(None if tz is None else canon(tz, depth + 1))
    elif 'utcoffset' in has and 'tzname' in has:
        out.append(_try(lambda: v.utcoffset(None)))
        out.append(_try(lambda: v.tzname(None)))
        out.append(_try(lambda: v.dst(None)))

        if 'coordinates' in has:
            out.append(_try(lambda: v.coordinates))
            out.append(_try(lambda: (v.lat, v.lon, v.zone, v.key)))

        out.append(_try(lambda: str(v)))
    elif 'b_date' not in has:
        out.append(_ADDR.sub('0x', repr(v)) if type(v).__repr__ is not
                   object.__repr__ else '')

    return out


def fingerprint(v):
    """Everything public about a value that must never change (C04)."""
    import badidatetime as b
    out = [canon(v)]

    for f in (repr, str, hash):
        if f is hash and type(v).__hash__ is object.__hash__:
            continue

        x = _try(lambda: f(v))
        out.append(_ADDR.sub('0x', x) if isinstance(x, str) else x)

    has = set(dir(type(v)))

    if not ours(type(v)):
        return out

    for m in ('isoformat', 'toordinal', 'weekday', 'isoweekday',
              'isocalendar', 'kull_i_shay', 'vahid', 'year', 'month', 'day',
              'timetuple', 'ctime', 'utcoffset', 'tzname', 'dst',
              'badioffset', 'date', 'time', 'timetz', 'utctimetuple',
              'b_date', 'b_time', 'hour', 'minute', 'second', 'microsecond',
              'fold', 'lat', 'lon', 'zone', 'key', 'is_short'):
        if m not in has:
            continue

        if not callable(getattr(type(v), m, None)):
            out.append([m, _try(lambda: getattr(v, m))])
        elif m in ('utcoffset', 'tzname', 'dst', 'badioffset') and \
                'b_date' not in has and 'hour' not in has:
            out.append([m, _try(lambda: getattr(v, m)(None))])
            out.append([m, _try(lambda: getattr(v, m)(
                b.datetime(180, 6, 1, tzinfo=v)))])
        else:
            out.append([m, _try(lambda: getattr(v, m)())])

    return out
