"""C02: an answer does not depend on what was called before."""
import random

from sim import engine, gen
from sim.lang import label, show
from .common import Result, digest, short

INCLUDE = [('calc', 'locale', 'local', 'usertz'), ('bc',), ('bc', 'gc'),
           ('val',), ('parse', 'fmt'), ('parse',), ('local', 'config'),
           ('calc',), ('val', 'bc', 'local'), ('bc', 'local', 'config'),
           ('calc', 'local', 'config', 'bad', 'usertz', 'locale'), ('local',),
           ('fmt',), ('usertz', 'val'), ('variant',), ('twin',)]


class Check:
    ID = 'C02'
    RUNS = {'quick': 800, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: seeded histories of calls with '
                 'failing calls and configuration changes, every answer '
                 'compared with the same call in a fresh process')
    RULE = ('one thread, 10-220 public calls, most of them neighbours of '
            'earlier ones (one argument changed), with failing calls, '
            'failing user time zones and configuration changes in between; '
            'non-trivial: at least one call is a neighbour or repetition of '
            'an earlier one; distinct = distinct call sequences')
    MEASURE = 'distinct sequences of calls'
    ASSUMES = ['the reference is the same call on the same tree as the first '
               'call of a fresh process configured once (differential '
               'oracle)']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48)}
        shared, kinds = gen.shared_objects(rng, rng.randint(0, 5))
        sc['shared'] = shared
        sc['places'] = gen.PLACENAMES
        sc['net0'] = True

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        include = rng.choice(INCLUDE)
        pool = []
        ops = []
        n = rng.choice((10, 20, 30, 45, 60))

        if index % 16 == 5:             # long: caches fill up
            n = 220

        if index % 12 == 3:             # equal numbers, equal hashes
            names = gen.names(('calc', 'val', 'parse', 'fmt', 'local', 'twin'),
                              ('heavy', 'usertz'))
            for name in rng.sample(names, min(12, len(names))):
                base = gen.make(name, rng, kinds)
                pairs = (gen.hash_pair(base, rng, kinds) +
                         [base, gen.equal_twin(base, rng),
                          gen.equal_twin(base, rng)])
                ops += rng.sample(pairs, len(pairs))
            n = len(ops)

        while len(ops) < n:
            ops += gen.sequence(rng, min(n - len(ops), rng.randint(3, 15)),
                                include, ('heavy',), kinds, pool,
                                near=rng.choice((0.5, 0.8, 0.95)))
            pool = pool[-12:]

        if rng.random() < 0.3:
            include = ('bad', 'usertz', 'config')
            for _ in range(rng.randint(1, 4)):
                ops.insert(rng.randrange(len(ops) + 1), gen.make(
                    rng.choice(gen.names(include, ('heavy',))), rng, kinds))

        sc['tasks'] = [[{'id': i, 'x': o.expr, 'tpl': o.name}
                        for i, o in enumerate(ops)]]

        if index % 50 == 11 and self.env_index == 2:
            t = sc['tasks'][0]
            t.insert(rng.randrange(len(t)), {
                'id': 9999, 'x': gen.F('init_leap_cache'),
                'tpl': 'init_leap_cache'})

        return sc

    def child(self, sc):
        return engine.history(sc)

    def ref(self, sc, op, config):
        return engine.solo(op['x'], {'wall': sc.get('wall'),
                                     'shared': sc['shared'], 'net0': True,
                                     'places': sc['places']},
                           config, traced=False)['out']

    def execute(self, sc, log=None):
        r = Result()
        res = engine.in_child(self.child, sc)
        config = sc.get('config')
        changes = 0

        for op, got in zip(sc['tasks'][0], res['outs']):
            if op['tpl'] == 'init_leap_cache':
                want = ['=', None]
            else:
                want = self.ref(sc, op, config)

            if op['x'].get('f') == 'set_local_coordinates' and got[0] == '=':
                config = {k: op['x'][k] for k in 'ak' if k in op['x']}
                changes += 1

            r.count('calls-raising', got[0] == '!')

            if got != want:
                r.bad('depends-on-history', label(op['x']),
                      f"{show(op['x'])} gave {short(got)}, as first call it "
                      f"gives {short(want)}")
                break

        r.fired = dict(res['fired'])
        r.fired['configuration-change'] = changes
        r.fired['failing-call'] = r.stats['calls-raising']
        r.digest = digest(res['outs'], res['fired'])
        r.shape = digest([op['x'] for op in sc['tasks'][0]])
        r.nontrivial = len(sc['tasks'][0]) > 1
        r.count('operations', len(res['outs']))
        r.replay = {'scenario': sc, 'log': log or []}
        r.sample = {'calls': [show(op['x']) for op in sc['tasks'][0][:8]]}
        return r

    def describe(self, sc, log):
        out = [f"shared[{i}] = {show(x)}"
               for i, x in enumerate(sc.get('shared', ()))]
        out.append(f"configuration: {sc.get('config')}")
        return out + [f"call {i}: {show(op['x'])}"
                      for i, op in enumerate(sc['tasks'][0])]
