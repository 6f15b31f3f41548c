"""
The simulated world: clock, time zone database, geocoding network.

One module level object, W.  Every seam (see boot.py) asks W; every check
configures W inside the forked child process that executes one run.
"""
import random
import _thread

REAL_LOCK = _thread.allocate_lock
DEFAULT_WALL = 1700000000.25        # 2023-11-14T22:13:20.25Z


class World:

    def __init__(self):
        self.reset()

    def reset(self, seed=0):
        self.rng = random.Random(seed)
        self.sched = None               # the Sched of this run, if any
        # -- clock
        self.wall = DEFAULT_WALL        # simulated seconds since the epoch
        self.mono = 1000.0
        self.clock_policy = None        # callable(world) after every reading
        self.readings = []              # (task, op, value) of every reading
        # -- time zone
        self.zone = None                # None: use the environment's zone
        self.tz_fault = None            # callable() -> exception or None
        self.tz_calls = 0
        # -- network
        self.places = {}                # name -> (lat, lon)
        self.net_policy = None          # callable(world, query) -> answer
        self.net_calls = []
        # -- calls made by user supplied time zones
        self.shared = []
        self.busy = set()
        self.nested = []
        self.nested_n = 0
        # -- counters of faults which really fired
        self.fired = {}

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # ------------------------------------------------------------- clock
    def read_clock(self):
        v = self.wall
        s = self.sched
        task, op = s.current_ids() if s is not None else (-1, -1)
        self.readings.append((task, op, v))

        if self.clock_policy is not None:
            self.clock_policy(self)

        return v

    def read_mono(self):
        self.mono += 1e-6
        return self.mono

    def advance(self, dt):
        """Let virtual time pass."""
        self.wall += dt
        self.mono += dt

    def sleep(self, dt):
        dt = max(float(dt), 0.0)

        if self.sched is not None and self.sched.in_task():
            self.sched.sleep(dt)
        else:
            self.advance(dt)


W = World()
