"""C10: stored values are read back equal after a restart elsewhere."""
import copy
import pickle

from sim import engine, gen
from sim.canon import canon, fingerprint
from sim.lang import Env, evaluate, show
from .common import Result, digest, short, shrink_list

KINDS = ('date', 'datetime', 'time', 'tz', 'td', 'date', 'datetime')


def drop_fold(x):
    """Protocols before 4 do not keep fold."""
    if isinstance(x, list):
        for v in x:
            drop_fold(v)
    elif isinstance(x, dict):
        x.pop('fold', None)
        for v in x.values():
            drop_fold(v)


class Check:
    ID = 'C10'
    RUNS = {'quick': 500, 'thorough': 200000}
    TECHNIQUE = ('deterministic simulation: a writer process appends records '
                 'to simulated storage, is crashed at a seeded byte, and a '
                 'reader process in another environment recovers them; '
                 'comparison with the values rebuilt in the reader')
    RULE = ('5-40 records (single values, containers, dictionaries keyed by '
            'values, shared members; pickle protocols 0-5, copy, deepcopy; '
            'hashed, formatted or compared before they are stored or not) '
            'are written in one environment and local configuration and '
            'read in another; the storage is cut at a seeded byte; '
            'non-trivial: the environments differ; distinct = distinct '
            'record lists with their environments')
    MEASURE = 'distinct record lists and environment pairs'
    STUB = ['storage: an append only byte string, cut at a seeded byte',
            'clocks: virtual time', 'environments: 8 combinations of LANG, '
            'TZ, hash seed and clock, each a process of its own']
    ASSUMES = ['writer and reader run the same version of the package and '
               'of Python']

    def value(self, rng, d=None, kind=None):
        d = gen.Draw(rng)
        k = kind or rng.choice(KINDS)

        if k == 'td':
            return d.td()
        if k == 'tz' and rng.random() < 0.1:
            return {'c': rng.choice(('UTC', 'BADI', 'timezone.min',
                                     'timezone.max', 'timezone.utc'))}
        if rng.random() < 0.04 and k in ('date', 'datetime', 'time'):
            return {'c': k + rng.choice(('.min', '.max', '.resolution'))}
        if k == 'datetime' and rng.random() < 0.1:
            return gen.F('datetime.now', {'c': rng.choice(('UTC', 'BADI'))})
        if k in ('date', 'datetime') and rng.random() < 0.08:
            return gen.M(getattr(d, k)(), 'timetuple', cls=k)
        return getattr(d, k)()

    def gen(self, rng, index):
        sc = {'seed': rng.getrandbits(48), 'reader': rng.randrange(8)}

        for k in ('config', 'rconfig'):
            if rng.random() < 0.5:
                lat, lon, _ = rng.choice(gen.PLACES)
                sc[k] = {'a': [lat, lon]}

        recs = []

        for _ in range(rng.choice((5, 10, 20, 40))):
            x = rng.random()

            if x < 0.65:
                v = self.value(rng)
            elif x < 0.75:
                v = gen.T(*[self.value(rng) for _ in range(rng.randint(2, 4))])
            elif x < 0.85:
                v = {'D': [[self.value(rng), i]
                           for i in range(rng.randint(1, 4))]}
            elif x < 0.92:              # values with one common zone
                d = gen.Draw(rng)
                tz = d.tz()
                v = gen.T(tz, gen.F('time', 1, 2, 3, 4, tz),
                          gen.F('datetime', *d.ymd(), None, None, 5, 6, 7, 8,
                                tz))
            else:
                v = self.value(rng, kind='td') if rng.random() < .3 else \
                    {'op': 'add', 'a': [gen.Draw(rng).date(),
                                        gen.Draw(rng).td()]}

            recs.append({'x': v, 'p': rng.randint(0, 5),
                         'how': rng.choice(('pk', 'pk', 'pk', 'cp', 'dc')),
                         'touch': rng.choice(('', '', 'hash', 'all'))})

        for r in recs:                  # as in the standard library
            if r['p'] < 4:
                drop_fold(r['x'])

        sc['records'] = recs
        sc['cut'] = rng.random()
        return sc

    # ------------------------------------------------------------- writer
    @staticmethod
    def build(x):
        if isinstance(x, dict) and 'D' in x:
            return {evaluate(k, Env()): v for k, v in x['D']}
        return evaluate(x, Env())

    @staticmethod
    def parts(v):
        """The values inside a record."""
        if isinstance(v, dict):
            return list(v)
        return list(v) if type(v) is tuple else [v]

    def write(self, sc):
        """In the writer process: the storage and what is in it."""
        engine.setup_world(sc)
        engine.configure(sc.get('config'))
        out = []

        for r in sc['records']:
            try:
                v = self.build(r['x'])
            except Exception as e:      # not a value
                out.append(None)
                continue

            try:
                if r['touch'] == 'hash':
                    hash(v)
                elif r['touch'] == 'all':
                    for p in self.parts(v):
                        fingerprint(p)
            except Exception:
                pass

            rec = {'canon': canon(v), 'now': 'datetime.now' in str(r['x'])}

            try:
                if r['how'] == 'pk':
                    data = pickle.dumps(v, r['p'])
                else:
                    c = (copy.copy if r['how'] == 'cp' else
                         copy.deepcopy)(v)
                    rec['bad'] = self.same(v, c)
                    data = pickle.dumps(c, r['p'])
                rec['data'] = data.hex()
            except Exception as e:
                rec['bad'] = f'{type(e).__name__}: {e}'

            out.append(rec)

        return {'records': out, 'fired': {}}

    def same(self, a, b):
        """Are b and a the same for every user?  -> text or None"""
        if type(a) is not type(b):
            return f'a {type(a).__name__} became a {type(b).__name__}'

        if canon(a) != canon(b):
            return f'{short(canon(a))} became {short(canon(b))}'

        pa, pb = self.parts(a), self.parts(b)

        for x, y in zip(pa, pb):
            # without repr, which tells BADI from its equals
            fx, fy = fingerprint(x), fingerprint(y)
            del fx[1], fy[1]

            if fx != fy:
                return f'{short(fx, 900)} became {short(fy, 900)}'

            if not (x == y) or x != y:
                return f'{x!r} and {y!r} are not equal'

            if hash(x) != hash(y):
                return f'{x!r} and {y!r} have different hashes'

        if isinstance(a, dict):
            for x, y in zip(pa, pb):
                if a[x] != b[x] or a[y] != b[y]:
                    return f'{x!r} is not found in the dictionary'

        return None

    # ------------------------------------------------------------- reader
    def read(self, sc, recs):
        import io
        engine.setup_world(sc)
        engine.configure(sc.get('rconfig'))
        data = b''.join(bytes.fromhex(r['data']) for r in recs
                        if r and 'data' in r)
        cut = int(len(data) * sc['cut'])
        bad, n = [], 0
        done = {'records-read': 0, 'torn-record': 0, 'record-lost': 0}

        for disk, crashed in ((data, False), (data[:cut], True)):
            f = io.BytesIO(disk)

            for i, r in enumerate(recs):
                if not r or 'data' not in r:
                    continue

                start = f.tell()
                whole = start + len(r['data']) // 2 <= len(disk)

                try:
                    v = pickle.load(f)
                except Exception as e:
                    if whole:
                        bad.append((i, f'reading raised {type(e).__name__}: '
                                    f'{e}'))
                        f.seek(start + len(r['data']) // 2)
                        continue
                    done['torn-record' if start < len(disk) else
                         'record-lost'] += 1
                    break

                if not whole:
                    bad.append((i, f'a record cut short was read as {v!r}'))
                    break

                if crashed:
                    if canon(v) != r['canon']:
                        bad.append((i, 'a whole record before the crash was '
                                    f'read as {short(canon(v))}'))
                    continue

                done['records-read'] += 1

                if canon(v) != r['canon']:
                    bad.append((i, f"{short(r['canon'])} was read as "
                                f'{short(canon(v))}'))
                    continue

                if r['now']:
                    continue

                try:
                    why = self.same(self.build(sc['records'][i]['x']), v)
                except Exception as e:
                    why = f'{type(e).__name__}: {e}'

                if why:
                    bad.append((i, why))

        # every prefix of one record
        whole = [i for i, r in enumerate(recs) if r and 'data' in r]

        if whole:
            i = whole[sc['seed'] % len(whole)]
            data = bytes.fromhex(recs[i]['data'])

            for n in range(len(data)):
                done['torn-record'] += 1
                try:
                    v = pickle.loads(data[:n])
                except Exception:
                    continue
                bad.append((i, f'the first {n} of {len(data)} bytes were '
                            f'read as {v!r}'))
                break

        return bad, done

    # ------------------------------------------------------------ driving
    def finish(self, sc, bad, recs, done):
        r = Result()

        for i, why in bad[:1]:
            rec = sc['records'][i]
            r.bad('stored-value-changed', rec['how'],
                  f"{self.text(rec['x'])} (protocol {rec['p']}, "
                  f"{rec['how']}): {why}")

        r.count('operations', sum(1 for x in recs if x))
        r.count('records-not-values', sum(1 for x in recs if not x))
        for k, v in done.items():
            r.count(k, v)
        r.fired = {'torn-record': done.get('torn-record', 0),
                   'record-lost': done.get('record-lost', 0),
                   'restart-elsewhere': 1}
        r.digest = digest(bad, recs, done)
        r.shape = digest(sc['records'], sc['reader'], self.env_index)
        r.nontrivial = sc['reader'] != self.env_index
        r.replay = {'scenario': sc, 'log': []}
        r.sample = {'reader': sc['reader'], 'cut': sc['cut'],
                    'records': [self.text(x['x'])
                                for x in sc['records'][:6]]}
        return r

    def execute(self, sc, log=None):
        recs = engine.in_child(self.write, sc)['records']
        bad = [(i, 'in the writer: ' + x['bad'])
               for i, x in enumerate(recs) if x and x.get('bad')]
        r = self.finish(sc, bad, recs, {})

        if not bad:
            d = r.data()
            d['next'] = {'check': self.ID, 'tier': self.tier, 'cmd': 'read',
                         'env': sc['reader'], 'scenario': sc,
                         'writer': self.env_index, 'records': recs}
        return r

    def cmd_read(self, job):
        self.env_index = job['writer']
        sc = job['scenario']
        bad, done = engine.in_child(self.read, sc, job['records'])
        return self.finish(sc, bad, job['records'], done).data()

    @staticmethod
    def text(x):
        if isinstance(x, dict) and 'D' in x:
            return '{' + ', '.join(f'{show(k)}: {v}' for k, v in x['D']) + '}'
        return show(x)

    def shrink(self, sc, log, violates, budget):
        def variants(sc):
            n = len(sc['records'])
            size = n // 2
            while size:
                for i in range(0, n, size):
                    c = copy.deepcopy(sc)
                    del c['records'][i:i + size]
                    yield c
                size //= 2
            for k in ('config', 'rconfig'):
                if sc.get(k):
                    c = copy.deepcopy(sc)
                    del c[k]
                    yield c
            for i, r in enumerate(sc['records']):
                if r['touch']:
                    c = copy.deepcopy(sc)
                    c['records'][i]['touch'] = ''
                    yield c
        return shrink_list(sc, log, violates, budget, variants)

    def describe(self, sc, log):
        return [f"writer configuration {sc.get('config')}, reader environment "
                f"{sc['reader']}, configuration {sc.get('rconfig')}"] + [
            f"record {i}: {self.text(r['x'])}, {r['how']}, protocol "
            f"{r['p']}, touched before: {r['touch'] or 'no'}"
            for i, r in enumerate(sc['records'])]
