"""C03: a call aborted half way leaves nothing behind."""
from sim import engine, gen
from sim.lang import label, show
from . import c09
from .c09 import Check as C09
from .common import ThreadCheck, shifted, short, strategy

INCLUDE = [('calc', 'locale', 'local', 'usertz'), ('bc',), ('val',),
           ('parse', 'fmt'), ('parse',), ('parse',), ('local',), ('calc',),
           ('val', 'bc', 'local', 'clock'), ('usertz', 'val'), ('fmt',)]
EXCS = ('KeyboardInterrupt', 'MemoryError', 'SimTimeout')


class Check(ThreadCheck):
    ID = 'C03'
    RUNS = {'quick': 600, 'thorough': 100000}
    TECHNIQUE = ('deterministic simulation: exceptions injected at seeded '
                 'points inside calls (and by user time zones), later and '
                 'concurrent calls compared with undisturbed ones')
    RULE = ('1-3 threads; in some calls an asynchronous exception is raised '
            'at a chosen line (often next to a write of shared '
            'state or while a lock is held) or by a user time zone; all other '
            'calls must answer as in a fresh process; non-trivial: at least '
            'one exception was delivered; distinct = distinct sequences of '
            'context switches and delivered exceptions')
    MEASURE = 'distinct sequences of context switches and aborts'
    ASSUMES = ['an exception is delivered between lines or byte codes of the '
               'package, outside of exception handlers, finally blocks and '
               'the header of a with statement',
               'the reference is the same call on the same tree in a fresh '
               'process']

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48), 'focus': rng.random() < 0.5}

        if index % 8 == 6:
            return self.env_scenario(rng, sc)

        if index % 8 in (1, 2):
            return self.duel(rng, sc)

        if index % 8 in (5, 7):
            return self.sweep(rng, sc)

        shared, kinds = gen.shared_objects(rng, rng.randint(0, 3))
        sc['shared'] = shared

        if rng.random() < 0.4:
            lat, lon, _ = rng.choice(gen.PLACES)
            sc['config'] = {'a': [lat, lon]}

        if index % 8 == 3:
            self.config_scenario(rng, sc, kinds)
        else:
            self.call_scenario(rng, sc, kinds)

        strategy(rng, sc, self.traced)

        if sc['faults']:
            # CPython 3.12.3 itself crashes when an exception is raised from
            # an op code trace event inside a with block.
            sc.pop('mode', None)

        return sc

    def duel(self, rng, sc):
        """Calls on few objects, some aborted, then calls on the same."""
        sc['shared'], tasks = gen.duel(rng, rng.choice((1, 1, 2)))
        ops = [[{'x': x, 'tpl': 'duel'} for x in o] for o in tasks]
        flat = [(t, op) for t, o in enumerate(ops) for op in o]

        for i, (t, op) in enumerate(flat):
            op['id'] = i

        sc['tasks'] = ops
        sc['faults'] = [self.fault(rng, sc, t, op) for t, op in rng.sample(
            flat, min(len(flat), rng.choice((1, 1, 2))))]
        sc['final'] = [dict(op) for t, op in flat][:4] + [
            {'id': 500 + i, 'x': {'fp': {'s': i}}, 'tpl': 'duel'}
            for i in range(len(sc['shared']))]
        strategy(rng, sc, self.traced)
        sc.pop('mode', None)
        return sc

    def sweep(self, rng, sc):
        """One call on new objects, aborted at a different point each time."""
        if rng.random() < 0.7:
            objs, (ops,) = gen.duel(rng, 1)
            x = rng.choice(ops)
        else:
            d = gen.make(rng.choice(gen.names(
                ('calc', 'val', 'bc', 'parse', 'fmt', 'local', 'gc'),
                ('config', 'heavy'))), rng)
            objs, x = [], d.expr

        n, k = len(objs), rng.choice((4, 8, 12))
        sc.update(shared=objs * k, mod=n, faults=[], tasks=[[]], final=[])
        one = {'x': x}
        info = self.traced(sc, one)
        points = {1}

        while len(points) < k and len(points) < info['nev']:
            points.add(self.point(rng, info) if rng.random() < 0.8
                       else engine.any_point(rng, info))

        for i, ev in enumerate(rng.sample(sorted(points), len(points))):
            sc['tasks'][0].append({'id': i, 'x': shifted(x, i * n),
                                   'tpl': 'sweep'})
            sc['faults'].append({'task': 0, 'op': i, 'ev': ev,
                                 'exc': rng.choice(EXCS)})
            sc['final'] += [{'id': 100 * i + 100 + j, 'tpl': 'sweep',
                             'x': {'fp': {'s': i * n + j}}}
                            for j in range(n)]

        again = range(len(points)) if n else (0,)
        sc['final'] += [{'id': 9000 + i, 'x': shifted(x, i * n),
                         'tpl': 'sweep'} for i in again]
        strategy(rng, sc, self.traced)
        sc.pop('mode', None)
        return sc

    def env_scenario(self, rng, sc):
        """Parses, changes of locale and zone, an aborted parse, parses."""
        c9 = C09()
        c9.zones = rng.choice([c09.ZONES] + c09.FAMILIES)
        sc.update(shared=[], prepare='c09', env=True,
                  loc=rng.choice(c09.LOCALES), tz=rng.choice(c9.zones))
        few = rng.sample(c09.FORMATS, rng.choice((1, 2, 4)))
        pool, ops = [], []

        def parse():
            if pool and rng.random() < 0.5:
                return rng.choice(pool)
            pool.append(c9.parse(rng, few))
            return pool[-1]

        for _ in range(rng.choice((1, 2, 3))):
            if rng.random() < 0.6:
                ops.append(parse())
            for _ in range(rng.choice((1, 1, 2))):
                ops.append(c9.change(rng, sc))
            ops.append(parse())

        ops = [{'id': i, 'x': x, 'tpl': 'env'} for i, x in enumerate(ops)]
        sc['tasks'] = [ops]
        sc['final'] = [{'id': 900 + i, 'x': x, 'tpl': 'env'}
                       for i, x in enumerate(rng.sample(
                           pool, min(3, len(pool))) + [parse()])]
        sc['faults'] = []
        strategy(rng, sc, self.traced)
        sc.pop('mode', None)
        at = self.settings(sc)
        parses = [op for op in ops if 'strptime' in op['x']['f']]

        for op in rng.sample(parses, min(len(parses), rng.choice((1, 1, 2)))):
            sc['faults'].append(self.fault(
                rng, {**sc, 'at': at[op['id']]}, 0, op))

        return sc

    @staticmethod
    def settings(sc):
        """Operation -> locale and zone in force."""
        cur = [sc['loc'], sc['tz']]
        at = {}

        for op in sc['tasks'][0]:
            f = op['x'].get('f')

            if f == 'env.setlocale':
                cur = [op['x']['a'][0], cur[1]]
            elif f == 'env.settz':
                cur = [cur[0], op['x']['a'][0]]
            at[op['id']] = cur

        for op in sc['final']:
            at[op['id']] = cur

        return at

    def op(self, o, n):
        return {'id': n, 'x': o.expr, 'tpl': o.name}

    def call_scenario(self, rng, sc, kinds):
        include = rng.choice(INCLUDE)
        pool, tasks, n = [], [], 0

        for t in range(rng.choice((1, 1, 2, 2, 3))):
            ops = gen.sequence(rng, rng.choice((1, 2, 3, 4)), include,
                               ('config', 'heavy'), kinds, pool, near=0.8)
            tasks.append([self.op(o, n + i) for i, o in enumerate(ops)])
            n += len(ops)

        sc['tasks'] = tasks
        flat = [(t, op) for t, ops in enumerate(tasks) for op in ops]
        sc['faults'] = []

        for t, op in rng.sample(flat, min(len(flat), rng.choice((1, 1, 2)))):
            sc['faults'].append(self.fault(rng, sc, t, op))

        # the same calls and their neighbours afterwards
        final = [op for t, op in flat]
        extra = [gen.neighbour(o, rng, kinds) for o in
                 rng.sample(pool, min(2, len(pool)))]
        sc['final'] = [dict(op) for op in rng.sample(
            final, min(4, len(final)))] + [
                self.op(o, 500 + i) for i, o in enumerate(extra)]

    def fault(self, rng, sc, t, op):
        return {'task': t, 'op': op['id'],
                'ev': self.point(rng, self.traced(sc, op)),
                'exc': rng.choice(EXCS)}

    @staticmethod
    def point(rng, info):
        x = rng.random()

        if info['lock'] and x < 0.35:
            return rng.choice(info['lock']) + rng.choice((0, 0, 1))
        if info['hot'] and x < 0.75:
            return rng.choice(info['hot']) + rng.choice((0, 1, 1, 2))
        return engine.any_point(rng, info)

    def config_scenario(self, rng, sc, kinds):
        """Aborted change, completed change, then local conversions."""
        n = 0
        t0 = []
        first = gen.make('set_coords', rng, kinds)
        second = gen.neighbour(first, rng, kinds) if rng.random() < 0.5 \
            else gen.make('set_coords', rng, kinds)
        t0 = [self.op(first, 0), self.op(second, 1)]

        if rng.random() < 0.5:
            t0.insert(0, self.op(gen.make('set_coords', rng, kinds), 2))

        sc['tasks'] = [t0]
        sc['abort_op'] = 0
        sc['faults'] = [self.fault(rng, sc, 0, t0[-2])]
        local = gen.sequence(rng, 6, ('local',), ('config',), kinds)
        tail = [self.op(o, 10 + i) for i, o in enumerate(local)]
        sc['tasks'][0] = t0 + tail[:3]
        sc['tasks'].append([self.op(o, 30 + i) for i, o in enumerate(
            gen.sequence(rng, rng.randint(0, 2), ('calc',),
                         ('config', 'heavy'), kinds))])
        sc['final'] = tail[3:]

    def traced(self, sc, op):
        return self.ref(sc, op, True)

    def ref(self, sc, op, traced=False, config=0):
        if sc.get('env'):
            if op['x'].get('f', '').startswith('env.'):
                return {'out': ['=', None], 'nev': 1, 'hot': [], 'lock': []}

            loc, tz = sc.get('at') or self.settings(sc)[op['id']]
            return engine.solo(op['x'], {}, None, traced=traced, extra={
                'prepare': 'c09', 'loc': loc, 'tz': tz},
                focus=sc.get('focus'))

        x = shifted(op['x'], 0, sc['mod']) if sc.get('mod') else op['x']
        return engine.solo(x, {'wall': sc.get('wall'),
                               'shared': sc['shared']},
                           sc.get('config') if config == 0 else config,
                           traced=traced, focus=sc.get('focus'))

    def run_hooks(self, sc):
        def finish(sc, shared):
            import badidatetime
            from sim.canon import canon
            from sim.lang import Env, evaluate
            outs = []

            for op in sc.get('final', ()):
                outs.append(engine.outcome_of(
                    lambda: canon(evaluate(op['x'], Env(shared)))))

            return {'outs': outs, 'config': canon(
                [badidatetime.LOCAL_COORD, badidatetime.LOCAL])}
        return {'finish': finish, 'prepare': c09.prepare if sc.get('env')
                else None}

    def judge(self, sc, res, r):
        hit = {(t, o): exc for t, o, ev, exc in res['injected']}
        config = sc.get('config')
        r.count('aborted-calls', len(hit))

        for h in sorted(res['history'], key=lambda h: h['inv']):
            got = h.get('out')

            if got is None or got[0] == 'steps':
                continue

            exc = hit.get((h['task'], h['id']))

            if h['x'].get('f') == 'set_local_coordinates':
                if exc is None and got[0] == '=':
                    config = {'a': h['x']['a']}
                elif exc is None:
                    r.bad('change-fails', label(h['x']),
                          f"{show(h['x'])} after an aborted change gave "
                          f"{short(got)}")
                continue

            if exc is not None:
                continue            # nothing is promised of the call itself

            local = sc.get('abort_op') is not None
            want = self.ref(sc, h, config=config if local else 0)['out']

            if got != want:
                r.bad('wrong-answer', label(h['x']),
                      f"{show(h['x'])} gave {short(got)}, undisturbed it "
                      f"gives {short(want)}; aborted: "
                      f"{res['injected']}")

        if res['deadlock']:
            return

        if res['left']:
            r.bad('lock-left', '', 'a lock is still held after all threads '
                  f"have ended; aborted: {res['injected']}")

        for op, got in zip(sc.get('final', ()), res['finish']['outs']):
            want = self.ref(sc, op, config=config)['out']

            if got != want:
                r.bad('wrong-answer-later', label(op['x']),
                      f"later {show(op['x'])} gave {short(got)}, undisturbed "
                      f"it gives {short(want)}; aborted: {res['injected']}")

    def execute(self, sc, log=None):
        r = super().execute(sc, log)
        r.nontrivial = r.stats.get('aborted-calls', 0) > 0 or any(
            'UserTZ' in str(op['x']) for ops in sc['tasks'] for op in ops)
        return r
