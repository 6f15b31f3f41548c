#!/usr/bin/env python3
"""
Makes and confirms planted bugs: mkbugs.py FILE.py [id...] [--check]

FILE.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old,
new)], demo=text of demo.py)}.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), 'seeded')
HELP = os.path.join(HERE, 'interleave.py')
ENV = {**os.environ, 'TZ': 'UTC', 'TEST_RUNNING': 'true', 'LANG': 'C.UTF-8',
       'PYTHONDONTWRITEBYTECODE': '1'}
DEMO = '''#!/bin/bash
# Exit 0: the property holds here; 1: it is broken.  Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec /opt/venv/bin/python "$here/demo.py"
'''


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')] or list(m.BUGS)
    bad = []
    tmp = tempfile.mkdtemp(prefix='verif-mk-')
    repo = os.path.join(tmp, 'repo')

    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])

        for i in ids:
            why = make(i, m.BUGS[i], repo)
            print(i, why or 'ok', flush=True)
            subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '.'])
            if why:
                bad.append(i)
            elif '--check' in sys.argv:
                subprocess.call([sys.executable, os.path.join(
                    HERE, 'trypatch.py'), os.path.join(SEED, i, 'patch.diff'),
                    m.BUGS[i]['property']])
    finally:
        shutil.rmtree(tmp)
    print('bad:', bad)


def demo(d, repo):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo,
                       capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-700:]


def make(i, b, repo):
    d = os.path.join(SEED, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(DEMO)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(b['demo'].lstrip('\n'))
    if 'interleave' in b['demo']:
        shutil.copyfile(HELP, os.path.join(d, 'interleave.py'))

    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']}, f, indent=1,
                  ensure_ascii=False)

    rc, out = demo(d, repo)

    if rc:
        return f'demo fails without the change: {out}'

    for name, old, new in b['edits']:
        p = os.path.join(repo, name)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            return f'{name}: {s.count(old)} times {old!r}'
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))

    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    rc, out = demo(d, repo)

    if not rc:
        return 'demo passes with the change'

    print('   demo:', out.strip().splitlines()[-1][:300] if out.strip()
          else rc)
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                        'no:cacheprovider', '-n0'] if False else
                       ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                        'no:cacheprovider'], cwd=repo, capture_output=True,
                       text=True, env=ENV)
    failed = re.findall(r'^(?:FAILED|ERROR) (\S+)', r.stdout, re.M)

    if not re.search(r'\b310 passed', r.stdout):
        return f'tests: {r.stdout.strip().splitlines()[-1]} {failed[:5]}'

    return None


main()
