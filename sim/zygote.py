"""
A zygote: loads the package once in one environment, then serves jobs; every
job forks pristine copies of this process.  The zygote itself never calls the
package.
"""
import importlib
import json
import os
import random
import sys
import traceback


def seed_for(*parts):
    import hashlib
    return int.from_bytes(hashlib.sha256(
        ':'.join(map(str, parts)).encode()).digest()[:8], 'big')


def main():
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    sys.dont_write_bytecode = True
    from . import boot
    boot.install()
    from .world import W
    W.wall = float(os.environ.get('VERIF_WALL', W.wall))
    sys.pycache_prefix = '/nonexistent-verif-cache'

    boot.keep_code()

    if os.environ.get('VERIF_NOLOAD') != '1':
        try:
            boot.load()
        except BaseException:
            out.write(json.dumps({'boot': traceback.format_exc()}) + '\n')
            out.flush()
            return 3

        from . import hot
        hot.preload(boot.PKG)

    import gc
    gc.collect()

    if os.environ.get('VERIF_NOLOAD') != '1':
        from . import sched
        sched.package_codes()

    gc.freeze()
    out.write(json.dumps({'boot': 'ok'}) + '\n')
    out.flush()

    for line in sys.stdin:
        job = json.loads(line)

        if job.get('cmd') == 'quit':
            break

        try:
            ans = serve(job)
        except BaseException:
            ans = {'error': traceback.format_exc()}

        out.write(json.dumps(ans, default=str) + '\n')
        out.flush()

    return 0


def serve(job):
    mod = importlib.import_module('checks.' + job['check'].lower())
    check = mod.Check()
    check.env_index = job.get('env', 0)
    check.tier = job.get('tier', 'quick')
    cmd = job['cmd']

    if cmd == 'run':
        seed = seed_for(job['seed'], job['check'], job['env'], job['index'])
        rng = random.Random(seed)
        sc = check.gen(rng, job['index'])
        sc['run_seed'] = seed
        d = dict(check.execute(sc).data())

        if not d['violations'] and not d.get('next'):
            d.pop('replay')
            if not job.get('sample'):
                d.pop('sample')

        return d

    if cmd == 'replay':
        return check.execute(job['scenario'], job['log']).data()

    return getattr(check, 'cmd_' + cmd)(job)


if __name__ == '__main__':
    sys.exit(main())
