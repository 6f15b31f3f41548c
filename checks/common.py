"""Shared by the checks: scheduling strategies, judging, minimising."""
import copy
import hashlib
import json
import random

from sim import engine, gen
from sim.lang import label, show


class Result:
    """What one simulated run (or one scenario) gave."""

    def __init__(self):
        self.violations = []    # {"kind", "op", "detail"}
        self.stats = {}
        self.fired = {}
        self.digest = ''
        self.nontrivial = False
        self.shape = ''         # distinctness measure
        self.replay = None      # {"scenario", "log"}
        self.sim_seconds = 0.0
        self.sample = None

    def bad(self, kind, op, detail):
        self.violations.append({'kind': kind, 'op': op, 'detail': detail})

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def data(self):
        return self.__dict__


def digest(*parts):
    h = hashlib.sha256()

    for p in parts:
        h.update(json.dumps(p, sort_keys=True, default=str).encode())

    return h.hexdigest()[:16]


def short(o, n=300):
    s = json.dumps(o, ensure_ascii=False, default=str)
    return s if len(s) <= n else s[:n] + '...'


def strategy(rng, sc, info_of):
    """
    Choose a scheduling strategy; info_of(sc, op) -> traced solo info,
    for placing a few preemptions inside the operations.
    """
    x = rng.random()

    if 'focus' not in sc:       # event numbers depend on it
        sc['focus'] = rng.random() < 0.75

    if x < 0.30:
        sc['strategy'] = {'kind': 'hot', 'hotp': rng.choice((0.1, 0.3, 0.6)),
                          'opp': 0.3, 'lockp': 0.3}
    elif x < 0.50:
        sc['mode'] = 'opcode'
        sc['strategy'] = {'kind': 'hot', 'hotp': rng.choice((0.05, 0.15, 0.4)),
                          'opp': 0.3, 'lockp': 0.3}
    elif x < 0.70:
        sc['strategy'] = {'kind': 'gap', 'gap': rng.choice(
            (4, 15, 60, 250, 1000)), 'opp': 0.3, 'lockp': 0.3}
    else:
        sc['strategy'] = {'kind': 'few', 'opp': 0.3}
        points = {}
        ops = [(t, op) for t, ops in enumerate(sc['tasks']) for op in ops]
        chosen = rng.sample(ops, min(len(ops), rng.choice((1, 1, 2, 3))))

        for _ in range(rng.randint(1, 4)):
            t, op = rng.choice(chosen)
            info = info_of(sc, op)

            x = rng.random()

            if info['hot'] and x < 0.5:
                e = rng.choice(info['hot']) + rng.choice((0, 0, 1))
            elif info.get('warm') and x < 0.85:
                e = rng.choice(info['warm']) + rng.choice((0, 0, 1))
            else:
                e = engine.any_point(rng, info)

            points.setdefault((t, op['id']), []).append(e)

        sc['points'] = [[list(k), v] for k, v in points.items()]

    for ops in sc['tasks']:
        for op in ops:
            op['limit'] = STEP_LIMIT


STEP_LIMIT = 3000000        # the longest call alone needs about 60000


def schedule_shape(res):
    """The sequence of context switches by place, independent of counts."""
    return digest([(a, b, c, d) for a, b, c, d in res['trace']])


def basic_faults(sc, res, r):
    """Deadlock and runaway operations."""
    if res['deadlock']:
        ops = {op['id']: op for o in sc['tasks'] for op in o}
        who = [f"thread {t} in {label(ops[o]['x']) if o in ops else o} "
               f"({state})" for t, o, state in res['deadlock']]
        r.bad('deadlock', ', '.join(sorted(
            label(ops[o]['x']) for t, o, s in res['deadlock'] if o in ops)),
            'threads wait for ever: ' + '; '.join(who))

    for h in res['history']:
        if h.get('out', [''])[0] == 'steps':
            r.bad('does-not-finish', label(h['x']),
                  f"{show(h['x'])} used {h['out'][1]}")


# --------------------------------------------------------------- minimising
def shrink(sc, log, violates, budget=60.0):
    """
    Minimise scenario and schedule while violates(sc, log) still holds.
    violates returns a new log (or None if the violation is gone).
    """
    from sim.boot import real_monotonic
    end = real_monotonic() + budget
    tries = [0]

    def attempt(c, lg):
        if real_monotonic() > end:
            return None
        tries[0] += 1
        try:
            return violates(c, lg)
        except engine.ChildError:
            return None

    best, blog = sc, log
    changed = True

    while changed and real_monotonic() < end:
        changed = False

        # whole tasks, then single operations
        for t in range(len(best['tasks'])):
            if not best['tasks'][t]:
                continue
            c = copy.deepcopy(best)
            c['tasks'][t] = []
            lg = attempt(c, blog)
            if lg is not None:
                best, blog, changed = c, lg, True

        for t in range(len(best['tasks'])):
            i = 0
            while i < len(best['tasks'][t]):
                c = copy.deepcopy(best)
                del c['tasks'][t][i]
                lg = attempt(c, blog)
                if lg is not None:
                    best, blog, changed = c, lg, True
                else:
                    i += 1

        for key in ('faults', 'calls', 'final', 'values', 'events'):
            i = 0
            while i < len(best.get(key) or ()):
                c = copy.deepcopy(best)
                del c[key][i]
                lg = attempt(c, blog)
                if lg is not None:
                    best, blog, changed = c, lg, True
                else:
                    i += 1

        # the schedule: drop decisions, halves first
        size = max(1, len(blog) // 2)

        while size >= 1 and real_monotonic() < end:
            i = 0
            while i < len(blog):
                part = blog[:i] + blog[i + size:]
                lg = attempt(best, part)
                if lg is not None and len(lg) < len(blog):
                    blog, changed = lg, True
                else:
                    i += size
                if real_monotonic() > end:
                    break
            size //= 2

        for key in ('config',):
            if best.get(key) is not None:
                c = copy.deepcopy(best)
                c[key] = None
                lg = attempt(c, blog)
                if lg is not None:
                    best, blog, changed = c, lg, True

    return best, blog, tries[0]


def shrink_list(sc, log, violates, budget, variants):
    """Greedy: take the first smaller variant that still fails."""
    from sim.boot import real_monotonic
    end = real_monotonic() + budget
    tries = 0
    progress = True

    while progress and real_monotonic() < end:
        progress = False

        for c in variants(sc):
            if real_monotonic() > end:
                break
            tries += 1
            lg = violates(c, log)
            if lg is not None:
                sc, log, progress = c, lg, True
                break

    return sc, log, tries


def shifted(x, by, mod=None):
    """The expression about other shared objects."""
    if isinstance(x, dict):
        if 's' in x and len(x) == 1:
            return {'s': (x['s'] % mod if mod else x['s']) + by}
        return {k: shifted(v, by, mod) for k, v in x.items()}
    if isinstance(x, list):
        return [shifted(v, by, mod) for v in x]
    return x


class ThreadCheck:
    """A check whose scenarios are run by engine.run in one forked child."""
    fork_timeout = engine.FORK_TIMEOUT

    def run_hooks(self, sc):
        return {}

    def child(self, sc, log):
        return engine.run(sc, replay=log, **self.run_hooks(sc))

    def once(self, sc, log=None):
        return engine.in_child(self.child, sc, log, timeout=self.fork_timeout)

    def execute(self, sc, log=None):
        r = Result()
        res = self.once(sc, log)
        basic_faults(sc, res, r)
        self.judge(sc, res, r)
        r.fired = {**r.fired, **res['fired']}
        r.digest = digest(res['out'], res['trace'], res['fired'],
                          res.get('finish'))
        r.shape = schedule_shape(res)
        r.nontrivial = res['switches'] > 0
        r.count('operations', len(res['history']))
        r.count('preemptions', res['switches'])
        r.count('forced-switches', res['forced'])
        r.sim_seconds = res['mono'] - 1000.0
        r.replay = {'scenario': sc, 'log': res['log']}
        r.sample = {'threads': [[show(op['x']) for op in ops]
                                for ops in sc['tasks']],
                    'strategy': sc.get('strategy'),
                    'context_switches': [list(x) for x in res['trace'][:12]]}
        return r

    def describe(self, sc, log):
        out = []
        for t, ops in enumerate(sc['tasks']):
            for op in ops:
                out.append(f"thread {t} op {op['id']}: {show(op['x'])}")
        for i, x in enumerate(sc.get('shared', ())):
            out.append(f'shared[{i}] = {show(x)}')
        for f in sc.get('faults', ()):
            out.append(f'fault: {f}')
        for d in log or ():
            out.append(f'switch: thread {d[0]}, op {d[1]}, event {d[2]} -> '
                       f'thread {d[3]}')
        return out
