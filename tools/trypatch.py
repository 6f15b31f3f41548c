#!/usr/bin/env python3
"""
Run checks against a patched scratch copy of /repo.

trypatch.py PATCH CHECK... [--reverse] [--keep] [--tests] [--demo SCRIPT]
"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
import time

ap = argparse.ArgumentParser()
ap.add_argument('patch')
ap.add_argument('checks', nargs='*')
ap.add_argument('--reverse', action='store_true')
ap.add_argument('--tests', action='store_true')
ap.add_argument('--demo')
ap.add_argument('--budget')
ap.add_argument('--seed', default='1')
a = ap.parse_args()
tmp = tempfile.mkdtemp(prefix='verif-try-')
repo = os.path.join(tmp, 'repo')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

try:
    subprocess.check_call(['cp', '-a', '/repo', repo])
    name = os.path.basename(os.path.dirname(a.patch)) or a.patch

    if a.demo:
        r = subprocess.run(['bash', a.demo], cwd=repo, capture_output=True,
                           text=True, timeout=300)
        print(name, 'demo without the patch:', r.returncode,
              (r.stdout + r.stderr)[-800:] if r.returncode else '')

    subprocess.check_call(['git', '-C', repo, 'apply'] +
                          (['-R'] if a.reverse else []) +
                          [os.path.abspath(a.patch)])

    if a.demo:
        r = subprocess.run(['bash', a.demo], cwd=repo, capture_output=True,
                           text=True, timeout=300)
        print(name, 'demo with the patch:', r.returncode,
              (r.stdout + r.stderr)[-300:].strip())

    if a.tests:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
             'no:cacheprovider'], cwd=repo, capture_output=True, text=True,
            env={**os.environ, 'TZ': 'UTC', 'TEST_RUNNING': 'true',
                 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'})
        print(name, 'tests:', r.stdout.strip().splitlines()[-1],
              [x for x in r.stdout.splitlines() if x.startswith('FAILED')])

    for c in a.checks:
        t = time.time()
        r = subprocess.run(
            [sys.executable, os.path.join(here, 'check.py'), c, '--seed',
             a.seed] + (['--budget', a.budget] if a.budget else []),
            cwd=here, capture_output=True, text=True,
            env={**os.environ, 'VERIF_REPO': repo})
        out = r.stdout.strip().splitlines()
        print(name, c, 'exit', r.returncode, f'{time.time() - t:.0f} s',
              ' | '.join(x[:400] for x in out[:3]) if r.returncode == 1
              else '', r.stderr[-1500:] if r.returncode > 1 else '',
              flush=True)
finally:
    shutil.rmtree(tmp)
