"""
The little language of operations: JSON in, library calls out.

  scalar                      itself
  {"t": [...]}, {"l": [...]}  tuple, list
  {"F": "repr"}               float (exact, also nan and inf)
  {"s": i}                    shared object number i of the scenario
  {"c": "name"}               public constant of the package
  {"f": path, "a": [], "k": {}}   call a function, class or class method
  {"o": expr, "m": name, "a": [], "k": {}}  call a method
  {"o": expr, "g": name}      read an attribute
  {"op": "lt", "a": [x, y]}   operator
  {"pk": expr, "p": protocol} pickle.loads(pickle.dumps(...))
  {"cp": expr}, {"dc": expr}  copy, deepcopy
"""
import copy
import operator
import pickle
import sys
import threading

from .canon import fingerprint

OPS = {k: getattr(operator, k) for k in
       ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'add', 'sub', 'mul', 'floordiv',
        'mod', 'neg', 'iadd', 'isub', 'imul')}
OPS['hash'] = hash
OPS['str'] = str
OPS['repr'] = repr
OPS['bool'] = bool
OPS['format'] = format
OPS['radd'] = lambda a, b: b + a


class UserTZBase:
    pass


def _user_tz():
    """A user supplied tzinfo, defined on first use (needs the package)."""
    global UserTZ

    if 'UserTZ' in globals():
        return UserTZ

    from datetime import tzinfo, timedelta

    class UserTZ(tzinfo):
        """offset in minutes; fail: exception name; call: calls to make"""

        def __init__(self, minutes=0, name='USR', fail=None, call=None):
            self.minutes, self.name = minutes, name
            self.fail, self.call = fail, call

        def _hit(self, what):
            if self.fail is not None and self.fail.get('in') == what:
                raise {'ValueError': ValueError, 'KeyError': KeyError,
                       'ZeroDivisionError': ZeroDivisionError,
                       'MemoryError': MemoryError,
                       'KeyboardInterrupt': KeyboardInterrupt,
                       'RuntimeError': RuntimeError}[self.fail['exc']](
                           'from a user time zone')

            if self.call:
                self._call(what)

        def _call(self, what):
            """A zone that itself uses the package."""
            from .canon import canon
            from .engine import outcome_of
            from .world import W
            me = (threading.get_ident(), self.minutes)

            if me in W.busy:
                return

            W.busy.add(me)

            try:
                n = W.nested_n = W.nested_n + 1
                x = self.call[n % len(self.call)]
                out = outcome_of(lambda: canon(evaluate(x, Env(W.shared))))
                W.nested.append([x, out])
                W.count('call-from-zone')
            finally:
                W.busy.discard(me)

        def utcoffset(self, dt):
            self._hit('utcoffset')
            return timedelta(minutes=self.minutes)

        def dst(self, dt):
            self._hit('dst')
            return timedelta(0)

        def tzname(self, dt):
            self._hit('tzname')
            return self.name

        def __repr__(self):
            return f'UserTZ({self.minutes}, {self.name!r})'

        def __reduce__(self):
            return (_make_user_tz, (self.minutes, self.name))

        def __deepcopy__(self, memo):
            return self

    globals()['UserTZ'] = UserTZ
    return UserTZ


def _make_user_tz(minutes, name):
    return _user_tz()(minutes, name)


# Classes a user derives from those of the package, made on first use.
OWN = {'MyDate': 'date', 'MyDatetime': 'datetime', 'MyTime': 'time',
       'MyZone': 'timezone'}


def __getattr__(name):
    if name not in OWN:
        raise AttributeError(name)

    base = getattr(_mod('badidatetime.datetime'), OWN[name])
    cls = type(base)(name, (base,), {'__slots__': (), '__module__': __name__})
    return globals().setdefault(name, cls)


def _mod(name):
    return sys.modules[name]


class Failed:
    """A shared object that could not be built: raises when used."""

    def __init__(self, exc):
        self.exc = exc

    def again(self):
        try:
            return type(self.exc)(*self.exc.args)
        except Exception:
            return self.exc


class Env:
    """shared objects; config setter"""

    def __init__(self, shared=None):
        self.shared = [] if shared is None else shared


def root(path):
    """'BahaiCalendar', 'date.fromordinal', 'set_local_coordinates', ..."""
    b = _mod('badidatetime')
    d = _mod('badidatetime.datetime')
    parts = path.split('.')
    first = parts[0]

    if first == 'timedelta':
        import datetime
        obj = datetime.timedelta
    elif first == 'UserTZ':
        obj = _user_tz()
    elif first == 'ZoneInfo':
        import zoneinfo
        obj = zoneinfo.ZoneInfo
    elif first in ('date', 'time', 'datetime', 'timezone', 'TZWithCoords'):
        obj = getattr(d, first)
    elif first in OWN:
        obj = globals().get(first) or __getattr__(first)
    elif first in ('pickle', 'copy', 'env'):
        obj = {'pickle': pickle, 'copy': copy, 'env': ENVOPS}[first]
    else:
        obj = getattr(b, first)

    for p in parts[1:]:
        obj = getattr(obj, p)

    return obj


class ENVOPS:
    """Things another part of the process does to the environment."""

    @staticmethod
    def settz(name):
        import os
        import time
        from .world import W
        os.environ['TZ'] = name
        time.tzset()
        W.count('TZ-change')

    @staticmethod
    def setlocale(name):
        import locale
        from .world import W
        locale.setlocale(locale.LC_TIME, name)
        W.count('locale-change')

    @staticmethod
    def setzone(name):
        from .world import W
        W.zone = name
        W.count('system-zone-change')

    @staticmethod
    def jump(dt):
        from .world import W
        W.wall += dt
        W.count('clock-jump')


def evaluate(x, env):
    if not isinstance(x, dict):
        return x

    if 't' in x:
        return tuple([evaluate(v, env) for v in x['t']])
    if 'l' in x:
        return [evaluate(v, env) for v in x['l']]
    if 'F' in x:
        return float(x['F'])
    if 's' in x:
        v = env.shared[x['s']]
        if type(v) is Failed:
            raise v.again()
        return v
    if 'c' in x:
        obj = _mod('badidatetime.datetime')
        for p in x['c'].split('.'):
            obj = getattr(obj, p)
        return obj
    if 'pk' in x:
        return pickle.loads(pickle.dumps(evaluate(x['pk'], env), x['p']))
    if 'cp' in x:
        return copy.copy(evaluate(x['cp'], env))
    if 'dc' in x:
        return copy.deepcopy(evaluate(x['dc'], env))
    if 'fp' in x:
        return fingerprint(evaluate(x['fp'], env))
    if 'raw' in x:                     # a literal JSON dict
        return x['raw']

    if 'g' in x:
        return getattr(evaluate(x['o'], env), x['g'])

    args = [evaluate(v, env) for v in x.get('a', ())]
    kw = {k: evaluate(v, env) for k, v in x.get('k', {}).items()}

    if 'op' in x:
        return OPS[x['op']](*args)
    if 'm' in x:
        return getattr(evaluate(x['o'], env), x['m'])(*args, **kw)
    return root(x['f'])(*args, **kw)


def label(x):
    """Short name of an operation, for reports and violation classes."""
    if not isinstance(x, dict):
        return 'const'
    if 'm' in x:
        return x.get('cls', '') + '.' + x['m']
    if 'f' in x:
        return x['f']
    if 'op' in x:
        return 'op:' + x['op'] + (':' + x['cls'] if 'cls' in x else '')
    if 'pk' in x:
        return 'pickle'
    if 'cp' in x or 'dc' in x:
        return 'copy'
    if 'g' in x:
        return 'get:' + x['g']
    return 'value'


def show(x):
    """Python-like text of an operation."""
    if not isinstance(x, dict):
        return repr(x)
    if 't' in x:
        return '(' + ', '.join(show(v) for v in x['t']) + ')'
    if 'l' in x:
        return '[' + ', '.join(show(v) for v in x['l']) + ']'
    if 'F' in x:
        return x['F']
    if 's' in x:
        return f"shared[{x['s']}]"
    if 'c' in x:
        return x['c']
    if 'fp' in x:
        return f"everything of {show(x['fp'])}"
    if 'pk' in x:
        return f"unpickle(pickle({show(x['pk'])}, {x['p']}))"
    if 'cp' in x:
        return f"copy({show(x['cp'])})"
    if 'dc' in x:
        return f"deepcopy({show(x['dc'])})"
    if 'raw' in x:
        return repr(x['raw'])
    if 'g' in x:
        return f"{show(x['o'])}.{x['g']}"
    a = [show(v) for v in x.get('a', ())] + [
        f'{k}={show(v)}' for k, v in x.get('k', {}).items()]
    a = ', '.join(a)
    if 'op' in x:
        return f"{x['op']}({a})"
    if 'm' in x:
        return f"{show(x['o'])}.{x['m']}({a})"
    return f"{x['f']}({a})"
