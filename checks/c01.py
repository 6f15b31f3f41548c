"""C01: concurrent callers get the answers they would get alone."""
from sim import engine, gen
from sim.lang import label, show
from .common import STEP_LIMIT, ThreadCheck, shifted, short, strategy

HEAVY_ONLY = ['init_leap_cache', '_build_badi_year_start',
              'jd_from_badi_date', 'badi_date_from_jd', '_badi_year_from_rd',
              'toordinal', '__add__', '_days_in_years']


class Check(ThreadCheck):
    ID = 'C01'
    RUNS = {'quick': 700, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: seeded preemptive scheduling of '
                 'real threads, compared with each call alone')
    RULE = ('2-4 threads x 1-5 public calls on shared and own objects, '
            'preempted at lines or byte codes of the package chosen by the '
            'seed; a run is non-trivial if at least one preemption happened '
            'inside or between calls; distinct = distinct sequences of '
            'context switches with their operations')
    ASSUMES = ['pre-emption happens between Python lines or byte codes of the '
               'package, as under the GIL; free threaded builds and C code '
               'below are not simulated',
               'the reference is the same call on the same tree as the only '
               'call of a fresh process (differential oracle)']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48)}

        if index % 3 == 1:
            return self.duel(rng, sc)

        if index % 3 == 2:
            return self.sweep(rng, sc)

        heavy = index % 120 == 31 and self.env_index % 4 == 1
        shared, kinds = gen.shared_objects(rng, rng.randint(1, 4))
        sc['shared'] = shared

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        include = rng.choice((('calc', 'locale', 'local', 'usertz'), ('bc',),
                              ('bc', 'gc'), ('val',), ('parse', 'fmt'),
                              ('parse',), ('local',), ('calc',), ('fmt',),
                              ('val', 'bc', 'local')))
        exclude = ('config', 'heavy')
        pool = []
        n = 0
        tasks = []
        same = rng.random() < 0.25

        for t in range(rng.choice((2, 2, 2, 3, 3, 4))):
            ops = gen.sequence(rng, rng.choice((1, 2, 2, 3, 4, 5)), include,
                               exclude, kinds, pool, near=0.7)
            if same and t:
                ops = ops[:1]
            tasks.append([{'id': n + i, 'x': o.expr, 'tpl': o.name}
                          for i, o in enumerate(ops)])
            n += len(ops)

        if heavy:
            tasks[0].append({'id': n, 'x': gen.F('init_leap_cache'),
                             'tpl': 'init_leap_cache'})
            n += 1
            sc['only'] = HEAVY_ONLY

        sc['tasks'] = tasks
        allops = [op for ops in tasks for op in ops
                  if op['tpl'] != 'init_leap_cache']
        sc['final'] = [dict(op) for op in rng.sample(
            allops, min(3, len(allops)))]
        strategy(rng, sc, self.traced)

        if heavy:
            sc.pop('mode', None)
            sc['strategy'] = {'kind': 'gap', 'gap': rng.choice((200, 2000)),
                              'opp': 0.3}
        return sc

    def duel(self, rng, sc):
        sc['shared'], tasks = gen.duel(rng)
        ops = [[{'x': x, 'tpl': 'duel'} for x in o] for o in tasks]

        for i, op in enumerate(op for o in ops for op in o):
            op['id'] = i

        sc['tasks'] = ops
        sc['final'] = [dict(op) for o in ops for op in o][:3]
        strategy(rng, sc, self.traced)
        return sc

    def sweep(self, rng, sc):
        """
        A call is stopped at a point, another call runs in its place, the
        first goes on; again on fresh objects at another point.
        """
        if rng.random() < 0.5:
            objs, tasks = gen.duel(rng, 2)
            a, b = (rng.choice(ops) for ops in tasks)
            b = a if rng.random() < 0.3 else b
        else:
            o = gen.make(rng.choice(gen.names(
                ('calc', 'val', 'bc', 'parse', 'fmt', 'local', 'gc', 'locale'),
                ('config', 'heavy'))), rng)
            objs, a = [], o.expr
            b = a if rng.random() < 0.2 else gen.neighbour(o, rng).expr

            if rng.random() < 0.2:
                b = gen.make(rng.choice(gen.names(
                    ('calc', 'val', 'parse', 'fmt'), ('config', 'heavy'))),
                    rng).expr

        n, k = len(objs), rng.choice((3, 6, 10))
        sc.update(shared=objs * k, mod=n, focus=rng.random() < 0.3,
                  tasks=[[], []], final=[], points=[])
        sc['strategy'] = {'kind': 'few', 'opp': 0.0, 'first': 0,
                          'lockp': 0.3}
        info = self.traced(sc, {'x': a})
        points = set()

        for _ in range(5 * k):
            evs = rng.choice([info[s] for s in ('hot', 'warm', 'lock', 'any')
                              if info.get(s)] or [[1]])
            points.add(rng.choice(evs) + rng.choice((0, 0, 1)))
            if len(points) >= min(k, info['nev']):
                break

        points = rng.sample(sorted(points), len(points))

        for i, ev in enumerate(points):
            for t, x in enumerate((a, b)):
                oid = 2 * i + t
                sc['tasks'][t].append({'id': oid, 'x': shifted(x, i * n),
                                       'tpl': 'sweep', 'limit': STEP_LIMIT})
                sc['points'].append([[t, oid], [0] if t else [ev]])

        # the first call of the second thread follows the first point
        sc['points'][1][1] = []

        for i in range(len(points) if n else 1):
            sc['final'] += [{'id': 1000 + 2 * i + t, 'tpl': 'sweep',
                             'x': shifted(x, i * n)}
                            for t, x in enumerate((a, b))]
        return sc

    def traced(self, sc, op):
        return self.ref(sc, op, True)

    def ref(self, sc, op, traced=False):
        if op['x'] == gen.F('init_leap_cache'):
            return {'nev': 100000, 'hot': [], 'lock': [], 'out': ['=', None]}

        x = shifted(op['x'], 0, sc['mod']) if sc.get('mod') else op['x']
        return engine.solo(x, {'wall': sc.get('wall'),
                                     'shared': sc['shared']},
                           sc.get('config'), traced=traced,
                           focus=sc.get('focus'))

    def run_hooks(self, sc):
        def finish(sc, shared):
            from sim.canon import canon
            from sim.lang import Env, evaluate
            outs = []

            for op in sc.get('final', ()):
                o = engine.outcome_of(
                    lambda: canon(evaluate(op['x'], Env(shared))))
                outs.append(o)
            return outs
        return {'finish': finish}

    def judge(self, sc, res, r):
        for h in res['history']:
            want = self.ref(sc, h)['out']
            got = h.get('out')

            if got is None or got[0] == 'steps':
                continue

            if got != want:
                r.bad('wrong-answer', label(h['x']),
                      f"{show(h['x'])} gave {short(got)}, alone it gives "
                      f"{short(want)}")

        if not res['deadlock']:
            if res['left']:
                r.bad('lock-left', '', 'a lock is still held after all '
                      'threads have ended')

            for op, got in zip(sc.get('final', ()), res['finish'] or ()):
                want = self.ref(sc, op)['out']

                if got != want:
                    r.bad('wrong-answer-later', label(op['x']),
                          f"after the threads ended {show(op['x'])} gave "
                          f"{short(got)}, alone it gives {short(want)}")
