#!/usr/bin/env python3
"""
Runs one check:  check.py C01 [--tier quick|thorough] [--seed N]
                 check.py C01 --replay FILE
                 check.py --setup
Exit: 0 held on everything explored, 1 violation, 2 the machinery failed.
"""
import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.json')

# The environments simulated processes start in.
ENVS = [
    {'LANG': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONHASHSEED': '0',
     'VERIF_WALL': '1700000000.25'},
    {'LANG': 'en_US.UTF-8', 'TZ': 'America/New_York', 'PYTHONHASHSEED': '1',
     'VERIF_WALL': '951782400.5'},
    {'LANG': 'C', 'TZ': 'Asia/Tehran', 'PYTHONHASHSEED': '2',
     'VERIF_WALL': '1710936000.0'},
    {'LANG': 'C.UTF-8', 'TZ': 'Australia/Lord_Howe', 'PYTHONHASHSEED': '3',
     'VERIF_WALL': '-1.5'},
    {'LANG': 'en_US.UTF-8', 'TZ': 'Asia/Kathmandu', 'PYTHONHASHSEED': '4',
     'VERIF_WALL': '4102444800.75'},
    {'LANG': 'C.UTF-8', 'TZ': 'America/St_Johns', 'PYTHONHASHSEED': '5',
     'VERIF_WALL': '1719800000.125'},
    {'LANG': 'C', 'TZ': 'Pacific/Kiritimati', 'PYTHONHASHSEED': '6',
     'VERIF_WALL': '0.0'},
    {'LANG': 'en_US.UTF-8', 'TZ': 'Europe/Paris', 'PYTHONHASHSEED': '7',
     'VERIF_WALL': '1735689599.875'},
]


class Broken(Exception):
    """The machinery, not the code under test, failed."""


class Zygote:

    def __init__(self, env, noload=False):
        e = {k: v for k, v in os.environ.items()
             if k in ('PATH', 'HOME', 'VERIF_REPO')}
        e.update(ENVS[env])
        e.update(PYTHONPATH=HERE, LC_ALL='', PYTHONDONTWRITEBYTECODE='1')
        e.pop('LC_ALL')

        if noload:
            e['VERIF_NOLOAD'] = '1'

        self.lock = threading.Lock()
        self.env = env
        self.err = open(os.path.join(
            EVIDENCE, f'.zygote-{os.getpid()}-{env}-{int(noload)}-{id(self)}'
            '.err'), 'w+')
        self.p = subprocess.Popen(
            [PY, '-B', '-m', 'sim.zygote'], cwd=HERE, env=e, text=True,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
        self.boot = None

    def ready(self):
        if self.boot is None:
            line = self.p.stdout.readline()
            self.boot = json.loads(line)['boot'] if line else 'died'
        return self.boot

    def ask(self, job):
        with self.lock:
            if self.ready() != 'ok':
                raise Broken(f'environment {ENVS[self.env]}: {self.boot}')

            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()

        if not line:
            raise Broken('zygote died: ' + self.stderr())

        return json.loads(line)

    def stderr(self):
        self.err.flush()
        with open(self.err.name) as f:
            return f.read()[-3000:]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        name = self.err.name
        self.err.close()
        if os.path.exists(name):
            os.unlink(name)


class Pool:

    def __init__(self):
        self.z = {}
        self.lock = threading.Lock()

    def get(self, env, noload=False):
        with self.lock:
            k = env, bool(noload)
            if k not in self.z:
                self.z[k] = Zygote(*k)
            return self.z[k]

    def chain(self, job):
        """Run a job; a job may continue in another environment."""
        while True:
            ans = self.get(job['env'], job.get('noload')).ask(job)

            if 'error' in ans:
                raise Broken(ans['error'])

            if not ans.get('next'):
                return ans

            job = ans['next']

    def close(self):
        for z in self.z.values():
            z.close()
        self.z.clear()


def job_base(check, tier):
    return {'check': check.ID, 'tier': tier,
            'noload': getattr(check, 'NOLOAD', False)}


class Driver:

    def __init__(self, check, tier, seed, workers, budget, runs):
        self.check, self.tier, self.seed = check, tier, seed
        self.pool = Pool()
        self.results = {}
        self.errors = []
        self.found = []
        self.stop = threading.Event()
        self.workers = workers
        self.budget = budget
        self.runs = runs
        self.base = job_base(check, tier)
        self.envs = list(getattr(check, 'ENVS', range(len(ENVS))))

    def job(self, env, index):
        return {**self.base, 'cmd': 'run', 'seed': self.seed, 'env': env,
                'index': index, 'sample': index < 2}

    def work(self, q):
        while not self.stop.is_set() and time.monotonic() < self.end:
            try:
                index, env = q.get_nowait()
            except queue.Empty:
                return

            try:
                d = self.pool.chain(self.job(env, index))
            except Broken as e:
                self.errors.append(f'run {env}:{index}: {e}')
                if len(self.errors) > 5:
                    self.stop.set()
                continue

            self.results[(index, env)] = d

            if d['violations'] and not self.known(d):
                self.found.append((index, env, d))
                self.stop.set()

    def known(self, d):
        return all(known_entry(self.check.ID, v) for v in d['violations'])

    def explore(self):
        self.end = time.monotonic() + self.budget
        # One queue per environment: an environment's zygote is one process,
        # so one worker per environment keeps all of them busy.
        threads = []
        groups = [[] for _ in range(min(self.workers, len(self.envs)))]

        for i, e in enumerate(self.envs):
            groups[i % len(groups)].append(e)

        for g in groups:
            q = queue.Queue()
            for i in range(self.runs):
                for e in g:
                    q.put((i, e))
            t = threading.Thread(target=self.work, args=(q,))
            t.start()
            threads.append(t)

        for t in threads:
            t.join()

    def selftest(self, n):
        """Repeat some runs in other processes: the same seed, same run."""
        pool = Pool()
        keys = sorted(self.results)
        picks = keys[::max(1, len(keys) // n)][:n] if keys else []
        out = []

        def again(index, env):
            try:
                d = pool.chain(self.job(env, index))
            except Broken as e:
                self.errors.append(f'repeating {env}:{index}: {e}')
                return
            have = self.results[(index, env)]['digest']
            out.append(d['digest'] == have)
            if d['digest'] != have:
                self.errors.append(f'NONDETERMINISM: run {env}:{index} gave '
                                   f"{have} then {d['digest']}")

        try:
            threads = [threading.Thread(target=again, args=k) for k in picks]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            pool.close()

        same, bad = out.count(True), out.count(False)
        return same, bad

    def replay_job(self, rep):
        return {**self.base, 'cmd': 'replay', 'env': rep['env'],
                'scenario': rep['scenario'], 'log': rep['log']}


def known_entry(prop, v):
    try:
        with open(KNOWN) as f:
            known = json.load(f)
    except OSError:
        return None

    for e in known:
        if (e.get('status') == 'known' and e['property'] == prop and
            e['kind'] == v['kind'] and e['op'] == v['op'] and
            e.get('contains', '') in v['detail']):
            return e
    return None


def report(drv, index, env, d):
    """Minimise, write the replay file, confirm it in a fresh process."""
    from checks import common
    v = next(v for v in d['violations']
             if not known_entry(drv.check.ID, v))
    rep = {'property': drv.check.ID, 'env': env, 'environment': ENVS[env],
           'seed': drv.seed, 'index': index, 'tier': drv.tier,
           'violation': v, **d['replay']}

    def violates(sc, lg):
        try:
            a = drv.pool.chain(drv.replay_job(
                {'env': env, 'scenario': sc, 'log': lg}))
        except Broken:
            return None
        if any(x['kind'] == v['kind'] for x in a['violations']):
            return a['replay']['log']
        return None

    path = os.path.join(EVIDENCE, f'{drv.check.ID}-replay-{env}-{index}.json')
    tries = 0

    try:
        if violates(rep['scenario'], rep['log']) is not None:
            sc, lg, tries = getattr(drv.check, 'shrink', common.shrink)(
                rep['scenario'], rep['log'], violates,
                120 if drv.tier == 'thorough' else 60)
            rep['scenario'], rep['log'] = sc, lg
        else:
            rep['note'] = 'not reproduced by the recorded log; original run'
    except Exception as e:
        rep['note'] = f'minimising failed: {e}'

    pool = Pool()

    try:
        a = pool.chain(drv.replay_job(rep))
        b = pool.chain(drv.replay_job(rep))
        rep['digest'] = a['digest']
        rep['replayed'] = a['digest'] == b['digest'] and any(
            x['kind'] == v['kind'] for x in a['violations'])

        for x in a['violations']:
            if x['kind'] == v['kind']:
                rep['violation'] = v = x
                break
    except Exception as e:
        rep['replayed'] = False
        rep['note'] = f'replay failed: {e}'
    finally:
        pool.close()

    rep['shrink_tries'] = tries

    try:
        rep['text'] = drv.check.describe(rep['scenario'], rep['log'])
    except Exception as e:
        rep['text'] = [f'no description: {e}']

    with open(path, 'w') as f:
        json.dump(rep, f, indent=1, ensure_ascii=False)

    print(f"seed {drv.seed} environment {env} run {index}: {v['kind']}: "
          f"{v['op']}\n  {v['detail']}")

    for line in rep['text'][:40]:
        print('  ' + line[:300])

    print(f"  replayed in a fresh process: {rep['replayed']}")
    print(f'VIOLATION property={drv.check.ID} replay={path}')
    return rep


def evidence(drv, wall, selfcheck, reps):
    c = drv.check
    runs = len(drv.results)
    stats, fired, shapes, sim = {}, {}, set(), 0.0
    nontrivial = 0
    samples = []

    for k in sorted(drv.results):
        d = drv.results[k]
        for a, b in d['stats'].items():
            stats[a] = stats.get(a, 0) + b
        for a, b in d['fired'].items():
            fired[a] = fired.get(a, 0) + b
        sim += d['sim_seconds']
        if d['nontrivial']:
            nontrivial += 1
            shapes.add(d['shape'])
        if d.get('sample') and len(samples) < 5:
            samples.append({'environment': k[1], 'run': k[0], **d['sample']})

    per_hour = runs / max(wall, 1e-9) * 3600
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(shapes),
        'rule': c.RULE,
        'samples': samples or [{'note': 'no samples'}],
        'nontrivial_runs': nontrivial,
        'simulated_runs_per_hour': round(per_hour),
        'seeds': 'one per run, derived from VERIF_SEED, the check, the '
        'environment and the index',
        'simulated_seconds': round(sim, 3),
        'faults_fired': dict(sorted(fired.items())),
        'counters': dict(sorted(stats.items())),
        'environments': [ENVS[e] for e in drv.envs],
        'distinct_states_measure': getattr(
            c, 'MEASURE', 'distinct sequences of context switches'),
        'real_components': getattr(c, 'REAL', REAL),
        'stub_components': getattr(c, 'STUB', STUB),
        'determinism': {'runs_repeated_in_another_process': selfcheck[0],
                        'different': selfcheck[1]},
        'planned_runs': drv.runs * len(drv.envs),
        'soft_wall_budget_s': drv.budget,
    }
    ev = {'property': c.ID, 'tier': drv.tier, 'seed': drv.seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': c.ASSUMES, 'wall_s': round(wall, 2),
          'violations': len(reps)}

    if reps:
        cov['violation_reports'] = [
            {'kind': r['violation']['kind'], 'op': r['violation']['op'],
             'detail': r['violation']['detail'][:2000],
             'replay': os.path.join(EVIDENCE, f"{c.ID}-replay-{r['env']}-"
                                    f"{r['index']}.json")} for r in reps]

    with open(os.path.join(EVIDENCE, f'{c.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)

    return ev


REAL = ['all of badidatetime (from the working tree)', 'CPython interpreter '
        'and threads', 'pickle, copy, re, locale, zoneinfo, datetime',
        'geopy geocoder above its network adapter']
STUB = ['thread scheduling: seeded baton scheduler over sys.settrace',
        'locks: SimLock and SimRLock', 'clocks and sleep: virtual time',
        'tzlocal.get_localzone: simulated lookup with faults',
        'geopy network adapter: simulated server with faults']


def get_check(pid):
    return importlib.import_module('checks.' + pid.lower()).Check()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--digests', action='store_true')
    a = ap.parse_args()
    os.makedirs(EVIDENCE, exist_ok=True)

    if a.setup:
        z = Zygote(0)
        ok = z.ready() == 'ok'
        print('boot:', z.boot)
        z.close()
        return 0 if ok else 2

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        a.id = a.id or rep['property']

    check = get_check(a.id)

    if a.replay:
        drv = Driver(check, rep.get('tier', 'quick'), rep['seed'], 1, 60, 1)
        ans = drv.pool.chain(drv.replay_job(rep))
        drv.pool.close()
        for v in ans['violations']:
            print(f"{v['kind']}: {v['op']}\n  {v['detail']}")
        print('digest', ans['digest'], 'recorded', rep.get('digest'))
        if any(not known_entry(check.ID, v) for v in ans['violations']):
            print(f'VIOLATION property={check.ID} replay={a.replay}')
            return 1
        return 0

    start = time.monotonic()
    runs = a.runs or check.RUNS[a.tier]
    budget = a.budget or getattr(check, 'BUDGET', BUDGET)[a.tier]
    drv = Driver(check, a.tier, a.seed, a.workers, budget, runs)
    reps = []
    selfcheck = (0, 0)

    try:
        drv.explore()

        if drv.found:
            index, env, d = min(drv.found, key=lambda x: x[:2])
            reps.append(report(drv, index, env, d))
        elif not drv.errors:
            selfcheck = drv.selftest(6)
    finally:
        drv.pool.close()

    wall = time.monotonic() - start
    evidence(drv, wall, selfcheck, reps)

    if a.digests:
        for k in sorted(drv.results):
            print(k, drv.results[k]['digest'])

    seen = set()

    for d in drv.results.values():
        for v in d['violations']:
            e = known_entry(check.ID, v)
            if e and e['what'] not in seen:
                seen.add(e['what'])
                print(f"KNOWN-FINDING: property={check.ID} {e['what']}")

    print(f'{check.ID}: {len(drv.results)} runs in {wall:.1f} s, '
          f'{len(reps)} violation(s), {len(drv.errors)} error(s)')

    if reps:
        return 1

    if drv.errors:
        for e in drv.errors[:3]:
            print('HARNESS-ERROR', e[-1500:], file=sys.stderr)
        return 2

    if not drv.results:
        print('HARNESS-ERROR nothing was run', file=sys.stderr)
        return 2

    return 0


BUDGET = {'quick': 80, 'thorough': 780}

if __name__ == '__main__':
    sys.exit(main())
