"""
Seeded scheduler for real Python threads.

Every thread runs only while it holds the baton.  sys.monitoring gives a
scheduling point at each line (optionally each byte code) of the package under
test, locks and sleeps give further ones.  All decisions come from one seeded
generator, or, in a replay, from the recorded decision list; nothing depends
on the operating system's scheduling.

A decision is recorded as (task, op, event-in-op) -> target task, where the
event is counted inside the operation, so that a recorded schedule stays
meaningful when other operations are dropped during minimisation.
"""
import gc
import sys
import types
import _thread

from .boot import PKG, _real_lock
from . import hot as hotlib
from .world import W

SKIP_DIRS = (PKG + 'tests',)
MAX_SWITCHES = 4000
MAX_NAPS = 1500         # sleeps, requests and waits with a time-out per call
RUN, BLOCKED, SLEEP, DONE = 'run', 'blocked', 'sleep', 'done'


TOOL = 4                            # a free number of sys.monitoring
mon = sys.monitoring
_codes = []


def package_codes():
    """All code objects of the package which are loaded."""
    if not _codes:
        seen = {}

        for f in gc.get_objects():
            if (isinstance(f, types.FunctionType) and
                f.__code__.co_filename.startswith(PKG)):
                for c in nested(f.__code__):
                    seen[id(c)] = c

        _codes.extend(seen.values())

    return _codes


def nested(code):
    out = [code]

    for c in out:
        out += [k for k in c.co_consts if isinstance(k, types.CodeType)]

    return out


class SimTimeout(Exception):
    """A time-out exception as injected by a user's watchdog."""


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'SimTimeout': SimTimeout}


class StepLimit(BaseException):
    """An operation used many times the steps it needs alone."""


class Abandon(BaseException):
    """The run is over (deadlock): unwind this thread."""


class Task:

    def __init__(self, tid, ops):
        self.tid = tid
        self.ops = ops              # list of (op id, callable, limit)
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = RUN
        self.op = -1
        self.ev = 0                 # events in this op
        self.next_ev = 1 << 60
        self.on = False             # inside an operation under test
        self.locks_held = 0
        self.naps = 0
        self.waiting = None
        self.wake_at = None
        self.timed_out = False
        self.inject = None          # (event, exception name)
        self.limit = 1 << 60
        self.calls = []             # calls of handlers still to come
        self.after_hot = None       # code whose last line was a hot one


SITE_EVENTS = 6


def note(sites, site, ev):
    """Keep some events of every place, so that no loop outweighs the rest."""
    got = sites.setdefault(site, [0])
    got[0] += 1

    if len(got) <= SITE_EVENTS:
        got.append(ev)
    else:
        got[-1 - got[0] % 3] = ev


def noted(sites):
    return sorted(ev for got in sites.values() for ev in got[1:])


class Sched:

    def __init__(self, rng, strategy, *, replay=None, faults=(), mode='line',
                 line_hook=None, probe=False, only=None, files=None,
                 focus=False, calls=(), on_call=None):
        """
        strategy: dict(kind=..., ...), see _arm and _next.
        replay:   list of [task, op, ev, target] or None
        faults:   list of {"task","op","ev","exc"}
        only:     function names to trace (None: all of the package)
        files:    files of the package to trace (None: all)
        focus:    trace only functions which touch shared state
        calls:    list of {"task","op","ev",...}: calls made by a handler
                  which interrupts the operation, with on_call(task, call)
        """
        self.rng = rng
        self.strategy = strategy
        self.mode = mode
        self.only = only
        self.files = files
        self.focus = focus
        self.tasks = []
        self.cur = None
        self.log = []               # decisions taken
        self.trace_log = []         # coarse event log, for determinism checks
        self.replay = None
        self.points = {}            # planned preemptions (few): key -> list
        self.faults = {}
        self.line_hook = line_hook
        self.probe = probe
        self._hot_sites = {}
        self._warm_sites = {}
        self._lock_sites = {}
        self._any_sites = {}
        self.switches = 0
        self.forced = 0
        self.steps = 0
        self.inject_fired = []
        self.deadlock = None
        self._watched = []
        self._code = {}             # id of code: hashing code is slow
        self._main = _real_lock()
        self._main.acquire()

        if replay is not None:
            self.replay = {}

            for t, o, e, target in replay:
                self.replay.setdefault((t, o), []).append((e, target))

            for v in self.replay.values():
                v.sort()

        for f in faults:
            self.faults[(f['task'], f['op'])] = (f['ev'], f['exc'])

        self.calls = {}
        self.on_call = on_call

        for c in calls:
            self.calls.setdefault((c['task'], c['op']), []).append(c)

        for v in self.calls.values():
            v.sort(key=lambda c: c['ev'])

    # ---------------------------------------------------------- identity
    def in_task(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    def current_task(self):
        return self.cur

    def current_ids(self):
        c = self.cur

        if c is None or c.ident != _thread.get_ident():
            return -1, -1

        return c.tid, c.op

    # -------------------------------------------------------------- codes
    def _info(self, code):
        """None: not of interest, else (hot lines, warm lines, per offset)."""
        fn = code.co_filename

        if fn.startswith(SKIP_DIRS) or code.co_name == '<module>' or (
            self.files is not None and fn[len(PKG):] not in self.files) or (
            self.only is not None and code.co_name not in self.only):
            return None

        hot, bad = hotlib.analyse(fn)
        lines = {ln for _, _, ln in code.co_lines() if ln}
        warm = hotlib.warm(PKG, fn) & lines
        hot = hot & lines

        if self.focus and not hot and not warm:
            return None

        return hot, warm, {o: ln for a, b, ln in code.co_lines()
                           for o in range(a, b, 2)} \
            if self.mode == 'opcode' and (hot or warm) else None

    def monitor(self):
        """Ask the interpreter for the events of the package's functions."""
        mon.use_tool_id(TOOL, 'verif')
        opcode = self.mode == 'opcode'
        mon.register_callback(TOOL, mon.events.LINE, self._line_event())

        if opcode:
            mon.register_callback(TOOL, mon.events.INSTRUCTION,
                                  self._opcode_event())

        def start(code, offset):
            """A module of the package is imported only now."""
            if (code.co_name == '<module>' and
                code.co_filename.startswith(PKG)):
                for c in nested(code):
                    self._watch(c)
            return mon.DISABLE

        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)

        for code in package_codes():
            self._watch(code)

    def _watch(self, code):
        info = self._info(code)

        if info is not None:
            self._code[id(code)] = info
            self._watched.append(code)
            mon.set_local_events(TOOL, code, mon.events.LINE | (
                mon.events.INSTRUCTION if info[2] else 0))

    def unmonitor(self):
        mon.set_events(TOOL, 0)

        for code in self._watched:
            mon.set_local_events(TOOL, code, 0)

        mon.free_tool_id(TOOL)

    # ------------------------------------------------------------- events
    hot_events = property(lambda self: noted(self._hot_sites))
    warm_events = property(lambda self: noted(self._warm_sites))
    any_events = property(lambda self: noted(self._any_sites))
    lock_events = property(lambda self: noted(self._lock_sites))

    def _line_event(self):
        codes = self._code
        hotp = self.strategy.get('hotp', 0.0) if self.replay is None else 0.0
        warmp = hotp * 0.4
        probe = self.probe
        rnd = self.rng.random
        hook = self.line_hook

        def line(code, lineno):
            task = self.cur

            if task is None or not task.on:
                return

            task.ev += 1
            hot, warm, _ = codes[id(code)]

            if probe:
                note(self._any_sites, (id(code), lineno), task.ev)

            if hook is not None:
                hook(task)

            if lineno in hot or task.after_hot is code:
                task.after_hot = code if lineno in hot else None

                if probe:
                    note(self._hot_sites, (id(code), lineno), task.ev)
                elif hotp and rnd() < hotp:
                    task.next_ev = task.ev
            elif lineno in warm:
                if probe:
                    note(self._warm_sites, (id(code), lineno), task.ev)
                elif hotp and rnd() < warmp:
                    task.next_ev = task.ev

            if probe and task.locks_held:
                note(self._lock_sites, (id(code), lineno), task.ev)

            if task.ev >= task.next_ev:
                self.point(task, sys._getframe(1))

        return line

    def _opcode_event(self):
        codes = self._code
        hotp = self.strategy.get('hotp', 0.0) if self.replay is None else 0.0
        warmp = hotp * 0.4
        rnd = self.rng.random

        def opcode(code, offset):
            task = self.cur

            if task is None or not task.on:
                return

            task.ev += 1
            hot, warm, at = codes[id(code)]
            lineno = at.get(offset)

            if hotp:
                if lineno in hot or task.after_hot is code:
                    if rnd() < hotp:
                        task.next_ev = task.ev
                elif lineno in warm and rnd() < warmp:
                    task.next_ev = task.ev

            if task.ev >= task.next_ev:
                self.point(task, sys._getframe(1))

        return opcode

    # -------------------------------------------------- scheduling points
    def _arm(self, task):
        """Set task.next_ev to the next event at which something is due."""
        nxt = task.limit
        key = (task.tid, task.op)

        if task.inject is not None:
            nxt = min(nxt, max(task.inject[0], task.ev + 1))

        if task.calls:
            nxt = min(nxt, max(task.calls[0]['ev'], task.ev + 1))

        if self.replay is not None:
            for e, target in self.replay.get(key, ()):
                if e > task.ev:
                    nxt = min(nxt, e)
                    break
        else:
            kind = self.strategy['kind']

            if kind == 'gap':
                nxt = min(nxt, task.ev + 1 + int(
                    self.rng.expovariate(1.0 / self.strategy['gap'])))
            elif kind == 'few':
                for e in self.points.get(key, ()):
                    if e > task.ev:
                        nxt = min(nxt, e)
                        break

        task.next_ev = nxt

    def point(self, task, frame):
        self.steps += 1

        if self.deadlock is not None:
            raise Abandon()

        if task.ev >= task.limit:
            raise StepLimit(f'{task.ev} events')

        called = False

        while (task.calls and task.ev >= task.calls[0]['ev'] and
               not task_in_import(frame)):
            called = True
            self._interrupt(task, task.calls.pop(0))

        if (task.inject is not None and task.ev >= task.inject[0] and
            self._injectable(frame)):
            exc = task.inject[1]
            task.inject = None
            self.inject_fired.append((task.tid, task.op, task.ev, exc))
            W.count('abort-' + exc)
            raise EXC[exc](f'injected by the simulator')

        if task_in_import(frame):
            task.next_ev = task.ev + 1
            return

        due = None

        if self.replay is not None:
            for e, target in self.replay.get((task.tid, task.op), ()):
                if e == task.ev:
                    due = target
                    break
        elif called:
            due = True if task.ev in self.points.get(
                (task.tid, task.op), ()) else None
        elif task.inject is None or task.ev < task.inject[0]:
            due = True
        else:
            # waiting for a place where the exception can be delivered
            due = True if task.ev in self.points.get(
                (task.tid, task.op), ()) else None

        if due is not None:
            self.preempt(task, None if due is True else due)

        self._arm(task)

    def _interrupt(self, task, call):
        """A handler runs here, on this thread, and makes a call."""
        on, op, ev = task.on, task.op, task.ev
        task.on = False
        W.count('interrupting-call')

        try:
            self.on_call(task, call)
        finally:
            task.on, task.op, task.ev = on, op, ev

    def _injectable(self, frame):
        if task_in_import(frame):
            return False

        while frame is not None:
            fn = frame.f_code.co_filename

            if fn.startswith(PKG):
                bad = hotlib.analyse(fn)[1]

                if frame.f_lineno in bad:
                    return False

                if frame.f_code.co_name in ('__enter__', '__exit__',
                                            '__del__'):
                    return False

            frame = frame.f_back

        return True

    def _runnable(self):
        return [t for t in self.tasks if t.state == RUN]

    def preempt(self, task, target=None):
        others = [t for t in self.tasks if t.state == RUN and t is not task]

        if not others or self.switches > MAX_SWITCHES:
            return

        if self.replay is not None:
            nxt = next((t for t in others if t.tid == target), None)

            if nxt is None:
                return
        else:
            nxt = self.rng.choice(others)

        self.log.append([task.tid, task.op, task.ev, nxt.tid])
        self.switches += 1
        self._switch(task, nxt)

    def _switch(self, task, nxt):
        self.trace_log.append((task.tid, task.op, task.ev, nxt.tid))
        self.cur = nxt
        nxt.baton.release()
        task.baton.acquire()

        if self.deadlock is not None:
            raise Abandon()

    def _pick(self, task):
        """Who runs when the current task cannot go on?"""
        run = self._runnable()

        if not run:
            waiting = [t for t in self.tasks
                       if t.wake_at is not None and t.state != DONE]

            if not waiting:
                return None

            t = min(waiting, key=lambda t: (t.wake_at, t.tid))
            dt = t.wake_at - W.mono

            if dt > 0:
                W.advance(dt)

            t.timed_out = t.state == BLOCKED
            t.wake_at = None
            t.state = RUN
            run = [t]

        if self.replay is not None:
            want = None

            for e, target in self.replay.get((task.tid, task.op), ()):
                if e == -1 - task.forced_n:
                    want = target
                    break

            nxt = next((t for t in run if t.tid == want), run[0])
        else:
            nxt = self.rng.choice(run)

        # A forced switch: recorded under a negative event number.
        self.log.append([task.tid, task.op, -1 - task.forced_n, nxt.tid])
        task.forced_n += 1
        self.forced += 1
        return nxt

    def _yield_forced(self, task):
        nxt = self._pick(task)

        if nxt is None:
            self._deadlocked(task)
        elif nxt is not task:
            self._switch(task, nxt)

    def _deadlocked(self, task):
        self.deadlock = [(t.tid, t.op, t.state) for t in self.tasks
                         if t.state not in (DONE,)]
        raise Abandon()

    def sleep(self, dt):
        t = self.cur
        t.naps += 1

        if t.naps > MAX_NAPS:
            raise StepLimit(f'{t.naps} sleeps or requests')

        W.count('virtual-sleep')
        t.state = SLEEP
        t.wake_at = W.mono + dt
        self._yield_forced(t)

    def lock_point(self, lock, what):
        t = self.cur
        f = sys._getframe(2)

        if task_in_import(f):
            return

        if self.replay is not None:
            return

        if self.strategy['kind'] in ('gap', 'hot') and \
           self.rng.random() < self.strategy.get('lockp', 0.3):
            # take effect at the next traced event, where it is recorded
            t.next_ev = t.ev + 1

    def block_on(self, lock, timeout):
        t = self.cur
        W.count('lock-contention')
        t.state = BLOCKED
        t.waiting = lock
        t.timed_out = False

        if timeout is not None and timeout >= 0:
            t.naps += 1

            if t.naps > MAX_NAPS:
                raise StepLimit(f'{t.naps} waits')

            t.wake_at = W.mono + timeout

        self._yield_forced(t)
        t.waiting = None
        t.wake_at = None
        return not t.timed_out

    def lock_released(self, lock):
        for t in self.tasks:
            if t.state == BLOCKED and t.waiting is lock:
                t.state = RUN
                t.wake_at = None

    # ---------------------------------------------------------------- run
    def add(self, ops):
        t = Task(len(self.tasks), ops)
        t.forced_n = 0
        self.tasks.append(t)
        return t

    def _body(self, task):
        task.ident = _thread.get_ident()
        task.baton.acquire()

        try:
            if self.deadlock is None:
                for op_id, func, limit in task.ops:
                    task.op = op_id
                    task.ev = 0
                    task.naps = 0
                    task.forced_n = 0
                    task.limit = limit
                    task.after_hot = None
                    task.inject = self.faults.get((task.tid, op_id))
                    task.calls = list(self.calls.get((task.tid, op_id), ()))
                    # A switch between two operations: event 0.
                    self._op_start(task)
                    self._arm(task)

                    try:
                        func(task)
                    finally:
                        task.on = False
        except Abandon:
            pass
        except BaseException as e:      # harness error: reported by main
            self.harness_error = e
            import traceback
            self.harness_tb = traceback.format_exc()
        finally:
            task.on = False
            task.state = DONE
            nxt = None

            if self.deadlock is None:
                try:
                    task.op = -2
                    nxt = self._pick(task)

                    if nxt is None and any(t.state != DONE
                                           for t in self.tasks):
                        self.deadlock = [(t.tid, t.op, t.state)
                                         for t in self.tasks
                                         if t.state != DONE]
                except BaseException as e:
                    self.harness_error = e

            if nxt is None and self.deadlock is not None:
                nxt = next((t for t in self.tasks if t.state != DONE), None)

            if nxt is None:
                self.cur = None
                self._main.release()
            else:
                self.cur = nxt
                nxt.baton.release()

    def _op_start(self, task):
        if self.replay is not None:
            for e, target in self.replay.get((task.tid, task.op), ()):
                if e == 0:
                    self.preempt(task, target)
                    return
        elif (0 in self.points.get((task.tid, task.op), ()) or
              self.rng.random() < self.strategy.get('opp', 0.3)):
            self.preempt(task)

    def go(self):
        self.harness_error = None
        self.harness_tb = ''
        W.sched = self

        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))

        # all threads park on their baton; pick the first
        self.cur = None

        if self.replay is not None:
            want = next((x[1] for x in self.replay.get((-1, -1), ())), 0)
            first = next((t for t in self.tasks if t.tid == want),
                         self.tasks[0])
        elif 'first' in self.strategy:
            first = self.tasks[self.strategy['first']]
        else:
            first = self.rng.choice(self.tasks)

        self.log.append([-1, -1, 0, first.tid])
        while not all(hasattr(t, 'ident') for t in self.tasks):
            _real_sleep(0.0001)
        self.monitor()
        self.cur = first
        first.baton.release()
        self._main.acquire()
        self.unmonitor()
        W.sched = None

        if self.harness_error is not None:
            raise HarnessError(self.harness_tb)


class HarnessError(Exception):
    pass


from .boot import real_sleep as _real_sleep   # noqa: E402


def task_in_import(frame):
    while frame is not None:
        if frame.f_code.co_filename.startswith('<frozen importlib'):
            return True
        frame = frame.f_back
    return False
