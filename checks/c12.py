"""C12: a crash or full disk during a release never damages files."""
import copy
import json
import os
import random
import re
import shutil
import signal
import stat
import sys
import tempfile

from sim import disk
from sim.boot import REPO
from .common import Result, digest, shrink_list

TOML, INIT = 'pyproject.toml', os.path.join('badidatetime', '__init__.py')
FILES = (TOML, INIT)
STATUS = ['1 - Planning', '2 - Pre-Alpha', '3 - Alpha', '4 - Beta',
          '5 - Production/Stable', '6 - Mature', '7 - Inactive']


class Check:
    ID = 'C12'
    NOLOAD = True
    ENVS = [0, 1, 2, 3, 4, 5, 6, 7]
    RUNS = {'quick': 500, 'thorough': 500000}
    TECHNIQUE = ('deterministic simulation: the release tool on a simulated '
                 'disk, with seeded crashes at system calls, power failures, '
                 'I/O errors, short writes and interruptions; whole-old or '
                 'whole-new invariant at every change, convergence after '
                 'the faults')
    RULE = ('1-4 disturbed runs of the tool, one after the other on what the '
            'last one left, the version sometimes raised in between, then '
            'two undisturbed runs; non-trivial: at least one fault fired; '
            'distinct = distinct kinds of disturbance with the calls they '
            'hit')
    MEASURE = 'distinct sequences of (fault, system call, outcome)'
    REAL = ['config.py, include.mk, pyproject.toml and '
            'badidatetime/__init__.py of the working tree', 'tomlkit',
            "Python's file layers (its pure Python implementation), shutil, "
            'tempfile, pathlib']
    STUB = ['file system calls: wrappers that fail, cut short, log and '
            'crash, over a scratch directory',
            'power failure: state rebuilt from the log of calls']
    ASSUMES = ['changes of directories and modes reach the disk in the order '
               'they are made, data of a file only with fsync for certain',
               'rename is atomic', 'one run of the tool at a time']

    def version(self, rng):
        return [rng.randint(0, 12), rng.randint(0, 30), rng.randint(0, 120)]

    @staticmethod
    def place(rng):
        if rng.random() < 0.5:
            return rng.randint(1, 30)
        return (rng.choice(('write', 'write', 'write', 'fsync', 'replace',
                            'rename', 'chmod', 'open', 'close', 'truncate',
                            'remove', 'unlink')) +
                f':{rng.choice((1, 1, 2, 2, 3, 4))}')

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48),
              'old': self.version(rng), 'old_tag': rng.choice(
                  ('', '', 'rc1', 'b2')),
              'old_status': rng.choice(STATUS), 'new_status':
              rng.choice(STATUS), 'new': self.version(rng),
              'init_same': rng.random() < 0.7,
              'modes': [rng.choice((0o644, 0o644, 0o600, 0o664, 0o755,
                                    0o640, 0o444)) for _ in FILES],
              'umask': rng.choice((0o022, 0o077, 0o002, 0)),
              'extra': [rng.choice((0, 0, 300, 5000, 20000)) for _ in FILES],
              'seq': []}

        if rng.random() < 0.08:
            sc['new'], sc['new_status'] = sc['old'], sc['old_status']

        for _ in range(rng.choice((1, 1, 1, 2, 3, 4))):
            x = rng.random()
            at = self.place(rng)
            a = {'tag': rng.choice(('', '', '', 'rc1', 'rc2'))}

            if x < 0.25:
                a['crash'] = [at, round(rng.random(), 3)]
            elif x < 0.50:
                a['power'] = [at if rng.random() < 0.7 else 1000,
                              round(rng.random(), 3), rng.getrandbits(32)]
            elif x < 0.85:
                a['faults'] = {}
                for _ in range(rng.choice((1, 1, 1, 2, 3))):
                    a['faults'][str(self.place(rng))] = rng.choice((
                        ['errno', rng.randint(0, 5)],
                        ['errno', rng.randint(0, 5)],
                        ['short', round(rng.random(), 3)]))
                if rng.random() < 0.15:     # the disk stays full
                    a['faults'] = {str(i): ['errno', 0]
                                   for i in range(rng.randint(1, 25), 90)}
            else:
                a['interrupt'] = [rng.randint(1, 140), rng.choice(
                    ('KeyboardInterrupt', 'MemoryError', 'SystemExit'))]

            if rng.random() < 0.25:
                a['bump'] = self.version(rng)
            sc['seq'].append(a)
        return sc

    # ---------------------------------------------------------- the project
    def source(self, name):
        with open(os.path.join(REPO, name), encoding='utf-8',
                  newline='') as f:
            return f.read()

    def make(self, root, sc):
        os.makedirs(os.path.join(root, 'badidatetime'))
        shutil.copyfile(os.path.join(REPO, 'config.py'),
                        os.path.join(root, 'config.py'))
        old = '.'.join(map(str, sc['old'])) + sc['old_tag']
        toml = re.sub(r'(?m)^version = "[^"]*"', f'version = "{old}"',
                      self.source(TOML))
        toml = re.sub(r'"Development Status :: [^"]*"',
                      f'"Development Status :: {sc["old_status"]}"', toml)
        init = re.sub(r'(?m)^__version__ = "[^"]*"',
                      f'__version__ = "{old if sc["init_same"] else "0.0.1"}"',
                      self.source(INIT))
        line = '# ' + "Bahá’í Ayyám-i-Há ‘Aẓamat " * 3 + '\n'
        toml += line * (sc['extra'][0] // len(line))
        init += line * (sc['extra'][1] // len(line))

        for name, text, mode in zip(FILES, (toml, init), sc['modes']):
            p = os.path.join(root, name)
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
            os.chmod(p, mode)

        self.bump(root, sc['new'], sc['new_status'])

    def bump(self, root, version, status=None):
        p = os.path.join(root, 'include.mk')
        text = self.source('include.mk') if status is not None else open(
            p, encoding='utf-8').read()

        for k, v in zip(('MAJORVERSION', 'MINORVERSION', 'PATCHLEVEL'),
                        version):
            text = re.sub(rf'(?m)^{k}([\s]*=[\s]*)\d*$', rf'{k}\g<1>{v}',
                          text)
        if status is not None:
            text = re.sub(r'(?m)^STATUS([\s]*=[\s]*)"[^"]*"$',
                          rf'STATUS\g<1>"{status}"', text)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text)

    @staticmethod
    def snap(root):
        out = {}
        for name in FILES:
            p = os.path.join(root, name)
            try:
                with open(p, 'rb') as f:
                    out[name] = (f.read(), stat.S_IMODE(os.stat(p).st_mode))
            except OSError as e:
                out[name] = (f'cannot be read: {e}', 0)
        return out

    # ------------------------------------------------------------- one run
    def tool(self, root, report, a, allowed, umask):
        """In a child process: run the tool; never returns."""
        signal.alarm(60)
        os.umask(umask)
        real_open, snap = open, self.snap
        os.chdir(root)
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        sys.stdout = real_open(1, 'w', closefd=False)
        os.environ['PR_TAG'] = a.get('tag', '')
        bad = []
        dumps, _exit, dump = json.dumps, os._exit, self.dump

        def ids(d):
            out = {}
            for base, dirs, files in os.walk(root):
                for n in files:
                    p = os.path.join(base, n)
                    st = os.stat(p)
                    with real_open(p, 'rb') as f:
                        out[os.path.relpath(p, root)] = [
                            d.known(st.st_ino), f.read().hex(),
                            stat.S_IMODE(st.st_mode)]
            return out

        def end(d, status='crash'):
            dump(report, dumps({
                'status': status, 'log': d.log, 'calls': d.calls,
                'fired': d.fired, 'bad': bad, 'initial': d.initial}))
            _exit(0)

        def check(d):
            if bad or not allowed:
                return
            now = snap_real(root)
            why = self.wrong(now, allowed)
            if why:
                bad.append(f'after call {d.n} ({d.calls[-1]}): {why}')

        def snap_real(root):
            out = {}
            for name in FILES:
                p = os.path.join(root, name)
                try:
                    with real_open(p, 'rb') as f:
                        b = f.read()
                    out[name] = (b, stat.S_IMODE(os.stat(p).st_mode))
                except OSError as e:
                    out[name] = (f'cannot be read: {e}', 0)
            return out

        plan = {k: v for k, v in a.items() if k in ('crash', 'faults')}

        if a.get('power'):
            plan['crash'] = a['power'][:2]

        code = compile(real_open('config.py', encoding='utf-8').read(),
                       os.path.join(root, 'config.py'), 'exec')
        d = disk.Disk(root, plan, end, check)
        d.initial = ids(d)
        d.install()
        lines = [0]
        main = {'__name__': '__main__', '__builtins__': __builtins__,
                '__file__': os.path.join(root, 'config.py')}

        def trace(frame, event, arg):
            if frame.f_code.co_filename != main['__file__']:
                return None
            if event == 'line':
                lines[0] += 1
                if lines[0] == a['interrupt'][0]:
                    sys.settrace(None)
                    d.count('interrupt')
                    raise {'KeyboardInterrupt': KeyboardInterrupt,
                           'MemoryError': MemoryError, 'SystemExit':
                           SystemExit}[a['interrupt'][1]](
                               *([143] if a['interrupt'][1] == 'SystemExit'
                                 else []))
            return trace

        if a.get('interrupt'):
            sys.settrace(trace)

        try:
            exec(code, main)
            status = 'ok'
        except SystemExit as e:
            status = 'ok' if e.code in (0, None) else f'exit {e.code}'
        except BaseException as e:
            status = type(e).__name__ + ': ' + str(e).replace(root, '')
        finally:
            sys.settrace(None)

        # what the interpreter's end does: files left open are flushed
        import gc
        main.clear()
        gc.collect()
        end(d, status)

    @staticmethod
    def dump(path, text):
        fd = disk.REAL['open'](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        b = text.encode()
        while b:
            b = b[disk.REAL['write'](fd, b):]
        disk.REAL['close'](fd)

    def run(self, root, a, allowed, umask):
        report = root + '.report'
        if os.path.exists(report):
            os.unlink(report)
        sys.stdout.flush()
        pid = os.fork()

        if pid == 0:
            try:
                self.tool(root, report, a, allowed, umask)
            except BaseException:
                import traceback
                self.dump(report, json.dumps(
                    {'harness': traceback.format_exc()}))
            finally:
                os._exit(1)

        os.waitpid(pid, 0)

        try:
            with open(report) as f:
                d = json.load(f)
        except OSError:
            raise RuntimeError('the tool died without a report')

        if 'harness' in d:
            raise RuntimeError(d['harness'])
        return d

    @staticmethod
    def wrong(now, allowed):
        for name in FILES:
            content, mode = now[name]
            if not any(content == o[name][0] for o in allowed):
                n = len(content)
                return (f'{name} is neither the old nor the new one '
                        f'({content if isinstance(content, str) else f"{n} bytes, {content[-60:]!r} at its end"}; '
                        f'whole are {[len(o[name][0]) for o in allowed]})')
            if mode not in [o[name][1] for o in allowed]:
                return (f'{name} has mode {mode:o}, not '
                        f'{allowed[0][name][1]:o}')
        return None

    def expected(self, now, root, tag, r):
        """An undisturbed run on a copy, and is that one right?"""
        twin = root + '.twin'
        shutil.copytree(root, twin)

        try:
            d = self.run(twin, {'tag': tag}, None, 0o022)
            new = self.snap(twin)
        finally:
            shutil.rmtree(twin)

        if d['status'] != 'ok':
            r.bad('undisturbed-run-fails', 'config.py', d['status'])
            return new

        mk = open(os.path.join(root, 'include.mk'), encoding='utf-8').read()
        v = '.'.join(re.search(rf'(?m)^{k}[\s]*=[\s]*(\d*)$', mk).group(1)
                     for k in ('MAJORVERSION', 'MINORVERSION', 'PATCHLEVEL')
                     ) + tag
        st = re.search(r'(?m)^STATUS[\s]*=[\s]*"([^"]*)"$', mk).group(1)
        want = {}
        want[TOML] = re.sub(
            rb'(?m)^version = "[^"]*"', f'version = "{v}"'.encode(),
            now[TOML][0])
        want[TOML] = re.sub(rb'"Development Status :: [^"]*"',
                            f'"Development Status :: {st}"'.encode(),
                            want[TOML])
        want[INIT] = re.sub(rb'(?m)^__version__ = "[^"]*"',
                            f'__version__ = "{v}"'.encode(), now[INIT][0])

        for name in FILES:
            if new[name][0] != want[name]:
                r.bad('wrong-update', name,
                      f'an undisturbed run for version {v}, status {st} '
                      f'gives {self.diff(new[name][0], want[name])}')
            if new[name][1] != now[name][1]:
                r.bad('permissions-changed', name,
                      f'{now[name][1]:o} became {new[name][1]:o}')
        return new

    @staticmethod
    def diff(a, b):
        if isinstance(a, str):
            return a
        la, lb = a.splitlines(), b.splitlines()
        for i, (x, y) in enumerate(zip(la, lb)):
            if x != y:
                return f'line {i + 1} {x!r} instead of {y!r}'
        return f'{len(la)} lines instead of {len(lb)}'

    def execute(self, sc, log=None):
        import runpy, tomlkit           # noqa: loaded with the real calls
        r = Result()
        scratch = tempfile.mkdtemp(prefix='verif-c12-')
        root = os.path.join(scratch, 'proj')

        try:
            self.make(root, sc)
            self.play(sc, root, r)
        finally:
            shutil.rmtree(scratch)

        r.replay = {'scenario': sc, 'log': []}
        r.sample = {'disturbed_runs': sc['seq'], 'modes':
                    [oct(m) for m in sc['modes']]}
        return r

    def play(self, sc, root, r):
        shape, record = [], []

        for i, a in enumerate(sc['seq'] + [{'tag': ''}, {'tag': ''}]):
            last = i >= len(sc['seq'])

            if a.get('bump'):
                self.bump(root, a['bump'])

            now = self.snap(root)
            new = self.expected(now, root, a['tag'], r)

            if r.violations:
                return

            d = self.run(root, a, (now, new), sc['umask'])
            r.count('operations')
            r.count('system-calls', len(d['calls']))

            for k, v in d['fired'].items():
                r.fired[k] = r.fired.get(k, 0) + v

            if a.get('power'):
                r.fired['power-failure'] = r.fired.get('power-failure', 0) + 1
                self.power(root, d, a['power'][2])

            after = self.snap(root)
            record.append([d['status'], d['calls'], d['fired'],
                           digest([[n, after[n][0].decode('utf-8', 'replace')
                                    if isinstance(after[n][0], bytes) else
                                    after[n][0], after[n][1]]
                                   for n in FILES])])
            shape.append([sorted(d['fired']), d['status'].split(':')[0],
                          d['calls'][-1:], len(d['calls'])])
            why = d['bad'][0] if d['bad'] else self.wrong(after, (now, new))
            what = {k: v for k, v in a.items() if k != 'tag'}

            if why:
                r.bad('file-damaged', 'config.py',
                      f'run {i} ({what}, ended with {d["status"]}): {why}')
                break

            if d['status'] == 'ok' and not a.get('power') and any(
                    after[n] != new[n] for n in FILES):
                n = [n for n in FILES if after[n] != new[n]][0]
                r.bad('false-success', 'config.py',
                      f'run {i} ({what}) reported success, but {n} was not '
                      f'updated')
                break

            if last and d['status'] != 'ok':
                r.bad('does-not-recover', 'config.py',
                      f"the undisturbed run after the faults ended with "
                      f"{d['status']}")
                break

            if last and i > len(sc['seq']) and after != now:
                r.bad('not-idempotent', 'config.py',
                      'running it once more changed '
                      f'{[n for n in FILES if after[n] != now[n]]}')
                break

        r.digest = digest(record)
        r.shape = digest(shape)
        r.nontrivial = bool(r.fired)

    def power(self, root, d, seed):
        left = disk.replay_power(d['initial'], d['log'], random.Random(seed))
        mk = os.path.join(root, 'include.mk')
        shutil.rmtree(root)
        os.makedirs(os.path.join(root, 'badidatetime'))

        for name, (content, mode) in left.items():
            p = os.path.join(root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(content)
            os.chmod(p, mode)

    def shrink(self, sc, log, violates, budget):
        def variants(sc):
            for i in range(len(sc['seq'])):
                c = copy.deepcopy(sc)
                del c['seq'][i]
                yield c
            for i, a in enumerate(sc['seq']):
                for k in ('bump',):
                    if k in a:
                        c = copy.deepcopy(sc)
                        del c['seq'][i][k]
                        yield c
                for n in list(a.get('faults', ())):
                    if len(a['faults']) > 1:
                        c = copy.deepcopy(sc)
                        del c['seq'][i]['faults'][n]
                        yield c
            for k, v in (('extra', [0, 0]), ('umask', 0o022),
                         ('modes', [0o644, 0o644]), ('old_tag', ''),
                         ('init_same', True)):
                if sc[k] != v:
                    c = copy.deepcopy(sc)
                    c[k] = v
                    yield c
        return shrink_list(sc, log, violates, budget, variants)

    def describe(self, sc, log):
        return [f"version {sc['old']} -> {sc['new']}, modes "
                f"{[oct(m) for m in sc['modes']]}, umask {sc['umask']:o}"] + [
            f'run {i}: {a}' for i, a in enumerate(sc['seq'])]
