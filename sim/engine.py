"""
Executes one scenario in a forked child and collects what happened.
"""
import gc
import json
import os
import pickle
import random
import select
import signal
import sys

from . import boot
from .canon import canon, exc as canon_exc
from .lang import Env, Failed, evaluate
from .sched import Sched, StepLimit, Abandon, HarnessError
from .world import W

FORK_TIMEOUT = 150


class ChildError(Exception):
    """The forked run itself failed: a harness error, never a violation."""


def in_child(func, *args, timeout=FORK_TIMEOUT):
    """Run func in a forked copy of this (pristine) process."""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()

    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()
            try:
                out = (True, func(*args))
            except BaseException as e:
                import traceback
                out = (False, traceback.format_exc())
            try:
                data = pickle.dumps(out)
            except BaseException:
                import traceback
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)

    os.close(w)
    chunks = []
    end = boot.real_monotonic() + timeout

    try:
        while True:
            left = end - boot.real_monotonic()
            ready = select.select([r], [], [], max(left, 0))[0]

            if not ready:
                raise ChildError(f'run did not end within {timeout} s')

            c = os.read(r, 1 << 16)

            if not c:
                break
            chunks.append(c)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        status = os.waitpid(pid, 0)[1]

    try:
        ok, val = pickle.loads(b''.join(chunks))
    except Exception:
        raise ChildError(f'run died without an answer, status {status}')

    if not ok:
        raise ChildError(val)

    return val


def setup_world(sc):
    W.reset(sc.get('seed', 0))
    W.wall = sc.get('wall', W.wall)
    W.zone = sc.get('zone')
    W.places = {k: tuple(v) for k, v in sc.get('places', {}).items()}
    random.seed(0)

    if sc.get('net0'):              # a network without delays
        W.net_policy = no_delay


def no_delay(world, query):
    return 'ok', 0.0, None


def outcome_of(f):
    """Canonical outcome of a call; simulator exceptions pass through."""
    try:
        v = f()
    except (StepLimit, Abandon):
        raise
    except BaseException as e:
        return ['!', canon_exc(e)]
    return ['=', v]


def configure(cfg):
    """Apply an initial configuration: None, or set_local_coordinates args."""
    if cfg is not None:
        import badidatetime
        badidatetime.set_local_coordinates(*cfg.get('a', ()),
                                           **cfg.get('k', {}))


def run(sc, replay=None, probe=False, prepare=None, line_hook=None,
        after_op=None, before_op=None, finish=None):
    """
    Execute scenario sc in this process (a forked child).

    sc: shared, tasks [[{"id","x","limit"}]], strategy, mode, faults, config,
        wall, zone, places, seed, only
    """
    setup_world(sc)

    if prepare is not None:
        prepare(sc)

    configure(sc.get('config'))
    shared = []
    env = Env(shared)

    for x in sc.get('shared', ()):
        try:
            shared.append(evaluate(x, env))
        except Exception as e:
            shared.append(Failed(e))

    W.shared = shared
    W.nested.clear()
    rng = random.Random(sc.get('seed', 0) ^ 0x5eed)
    s = Sched(rng, sc.get('strategy') or {'kind': 'hot', 'opp': 0.0},
              replay=replay, faults=sc.get('faults', ()),
              mode=sc.get('mode', 'line'), probe=probe,
              line_hook=line_hook, only=sc.get('only'),
              files=sc.get('files'), focus=sc.get('focus', False),
              calls=sc.get('calls', ()),
              on_call=lambda task, c: interrupting(task, c))

    for key, evs in sc.get('points', ()):
        s.points[tuple(key)] = sorted(evs)

    W.readings.clear()
    W.fired.clear()
    results = {}
    history = []
    seq = [0]

    def stamp():
        seq[0] += 1
        return seq[0]

    interrupts = []

    def interrupting(task, c):
        r = {'id': c['id'], 'task': task.tid, 'during': c['op'],
             'x': c['x'], 'locks': task.locks_held}
        interrupts.append(r)

        if (task.locks_held and c.get('locking')):
            r['out'] = None         # would wait for its own thread: not made
            return

        r['out'] = outcome_of(lambda: canon(evaluate(c['x'], env)))

    def make_op(op):
        def func(task):
            h = {'id': op['id'], 'task': task.tid, 'inv': stamp(),
                 'wall0': W.wall, 'mono0': W.mono, 'x': op['x']}

            if before_op is not None:
                before_op(sc, op, h)

            history.append(h)
            status = None

            task.on = not sc.get('notrace')

            try:
                v = evaluate(op['x'], env)
                task.on = False
                status = '='
            except StepLimit as e:
                task.on = False
                status = 'steps'
                out = ['steps', str(e)]
            except Abandon:
                task.on = False
                raise
            except BaseException as e:
                task.on = False
                status = '!'
                out = ['!', canon_exc(e)]

            h['ret'] = stamp()
            h['wall1'] = W.wall
            h['mono1'] = W.mono
            h['nev'] = task.ev

            if status == '=':
                try:
                    out = ['=', canon(v)]
                except (Abandon, StepLimit):
                    raise
                except BaseException as e:
                    out = ['?', canon_exc(e)]

            h['out'] = out
            results[op['id']] = out

            if after_op is not None:
                after_op(sc, op, h, v if status == '=' else None, shared)
        return func

    for ops in sc['tasks']:
        s.add([(op['id'], make_op(op), op.get('limit', 1 << 60))
               for op in ops])

    s.go()
    res = {'out': results, 'history': history, 'log': s.log,
           'deadlock': s.deadlock, 'switches': s.switches,
           'forced': s.forced, 'injected': s.inject_fired,
           'fired': dict(W.fired), 'readings': list(W.readings),
           'trace': s.trace_log, 'hot': s.hot_events,
           'warm': s.warm_events, 'lock': s.lock_events,
           'any': s.any_events,
           'interrupts': interrupts, 'nested': list(W.nested),
           'wall': W.wall, 'mono': W.mono, 'left': len(
               [t for t in s.tasks if t.locks_held])}

    if finish is not None:
        res['finish'] = finish(sc, shared)

    return res


# ---------------------------------------------------------------- references
_solo = {}
SOLO_KEEP = 20000
SOLO_LIMIT = 4000000     # events; a hang must not hang the reference


def used_shared(x, acc=None):
    acc = set() if acc is None else acc

    if isinstance(x, dict):
        if 's' in x and len(x) == 1:
            acc.add(x['s'])
        else:
            for v in x.values():
                used_shared(v, acc)
    elif isinstance(x, list):
        for v in x:
            used_shared(v, acc)

    return acc


def solo(x, sc, config=None, extra=None, traced=True, mode='line', only=None,
         focus=False):
    """
    What the operation answers as the only call of a fresh process.

    -> dict(out, nev, hot, lock)
    """
    used = used_shared(x)
    shared = [s if i in used else None
              for i, s in enumerate(sc.get('shared', ()))]
    one = {'shared': shared, 'config': config, 'wall': sc.get('wall'),
           'zone': sc.get('zone'), 'places': sc.get('places', {}),
           'net0': sc.get('net0'), 'mode': mode, 'only': only, 'seed': 0,
           'tasks': [[{'id': 0, 'x': x, 'limit': SOLO_LIMIT}]]}
    one = {k: v for k, v in one.items() if v is not None}

    if traced and focus:
        one['focus'] = True

    if extra:
        one.update(extra)

    key = json.dumps(one, sort_keys=True) + str(traced)
    r = _solo.get(key)

    if r is None:
        if len(_solo) > SOLO_KEEP:
            _solo.clear()

        r = in_child(_solo_child if traced else _solo_plain, one)
        _solo[key] = r

    return r


def _solo_child(one):
    r = run(one, probe=True, prepare=PREPARE.get(one.get('prepare')))
    h = r['history'][0]

    if r['deadlock']:
        out = ['deadlock']
    else:
        out = h['out']

    return {'out': out, 'nev': h.get('nev', 0), 'hot': _thin(r['hot']),
            'warm': _thin(r['warm']), 'lock': _thin(r['lock']),
            'any': _thin(r['any'], 1000), 'readings': r['readings']}


def any_point(rng, info):
    """Any event of a traced call; rarely executed lines as likely as loops."""
    if info.get('any') and rng.random() < 0.7:
        return rng.choice(info['any'])
    return rng.randint(1, max(1, info['nev']))


def _thin(ev, n=300):
    if len(ev) <= n:
        return ev
    step = len(ev) / n
    return [ev[int(i * step)] for i in range(n)]


def _solo_plain(one):
    setup_world(one)
    prep = PREPARE.get(one.get('prepare'))

    if prep is not None:
        prep(one)

    configure(one.get('config'))
    env = Env([])

    for x in one.get('shared', ()):
        try:
            env.shared.append(evaluate(x, env))
        except Exception as e:
            env.shared.append(Failed(e))

    outs = []

    for ops in one['tasks']:
        for op in ops:
            out = outcome_of(lambda: evaluate(op['x'], env))

            if out[0] == '=':
                out = ['=', canon(out[1])]

            outs.append(out)

    return {'out': outs[0], 'outs': outs, 'nev': 0, 'hot': [], 'lock': [],
            'readings': []}


PREPARE = {}


def history(sc, on_op=None, before_op=None):
    """
    Execute the operations of sc one after the other on the main thread of
    this (forked) process: sequences without concurrency.
    """
    setup_world(sc)
    prep = PREPARE.get(sc.get('prepare'))

    if prep is not None:
        prep(sc)

    configure(sc.get('config'))
    env = Env([])

    for x in sc.get('shared', ()):
        try:
            env.shared.append(evaluate(x, env))
        except Exception as e:
            env.shared.append(Failed(e))

    W.readings.clear()
    W.fired.clear()
    outs = []

    for i, op in enumerate(sc['tasks'][0]):
        if before_op is not None:
            before_op(i, op)

        out = outcome_of(lambda: evaluate(op['x'], env))

        if out[0] == '=':
            try:
                v, out = out[1], ['=', canon(out[1])]
            except Exception as e:
                v, out = None, ['?', canon_exc(e)]
        else:
            v = None

        if on_op is not None:
            out = on_op(i, op, out, v, env)

        outs.append(out)

    return {'outs': outs, 'fired': dict(W.fired), 'mono': W.mono,
            'wall': W.wall}
