"""C10  saving only reads the model, is repeatable, and can be retried after failure."""
import hashlib, os, random, subprocess, sys
import sim as S, gen, world
from base import Prop, Res
from meta import schema, TOPS, same

ERRS = ['EIO', 'ENOSPC', 'EPIPE', 'INT', 'MEM', 'CLOSED', 'TYPE', 'KEY', 'ATTR', 'UNI', 'EXIT']


def picture(sc, d, cls):
    """Everything visible of a model and the collection it is in, with the order of things."""
    ids = {id(o): i for i, o in d.items()}
    out = [('collection', [(k, id(v)) for k, v in d.items()])]
    for i, c in cls.items():
        o = d[i]
        out.append((i, 'UUID', o.UUID))
        for a in sc.attrs[c]:
            out.append((i, a, getattr(o, a)))
        for n, r in sc.refs[c].items():
            if hasattr(type(o), n) or n in o.__dict__:
                v = getattr(o, n)
                out.append((i, n, [ids.get(id(x), '?') for x in v] if isinstance(v, list) else None if v is None else ids.get(id(v), '?')))
    return out


def differ(a, b):
    for x, y in zip(a, b):
        if x[:-1] != y[:-1] or not (same(x[-1], y[-1]) or x[-1] == y[-1]):
            return '%s was %r, is %r' % (x[:-1], x[-1], y[-1])
    return None if len(a) == len(b) else 'sizes differ'


class C10(Prop):
    id = 'C10'
    rule = ('a case is a seeded model saved again and again: intact, with a seeded failing operation, interrupted at a seeded source line, at '
            'different times, to different targets, by several threads at once under a seeded schedule, and by processes that hash differently; after each attempt everything '
            'visible of the model and its collection is compared with before, and every save that returns must give the identical text; '
            'non-trivial: at least one attempt failed; distinct by event trace')
    real = ['PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'io stack', 'threads']
    stub = ['thread scheduler', 'raw device', 'clock']
    parts = [(('only',), 'list'), (('spec',), 'model'), (('io',), 'dict')]

    def count(self, tier):
        return 604 if tier == 'quick' else 12100

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        if idx >= self.count(tier) - (4 if tier == 'quick' else 100):
            return {'procs': [rng.randrange(2**32) for _ in range(3)], 'pseed': rng.randrange(2**31), 'n': 40}
        return self.model(rng)

    def model(self, rng):
        top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
        n = rng.choice([1, 2, 4, 8, 20])
        ok = gen.all_refs(schema(top))
        spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, 2 * n, hard=rng.random() < 0.5, pred=lambda r: True)
        ids = {o[0]: rng.choice(['', '', '', o[0] + '-own', 'x'] if rng.random() < 0.97 else [None]) for o in spec['objs'] if rng.random() < 0.4} if rng.random() < 0.25 else {}
        return {'spec': spec, 'ids': ids, 'enc': rng.choice(world.ENCODINGS), 'io': gen.io_plan(rng), 'fseed': rng.randrange(2**31)}

    def choose(self, case, counts, lines, rng):
        out = []
        for _ in range(4):
            k = rng.choice([k for k in ('write', 'flush', 'open') if counts[k]] or ['write'])
            out.append({'target': 'path' if k == 'open' else rng.choice(world.TARGETS),
                        'faults': [{'kind': k, 'n': rng.randrange(max(1, counts[k])), 'err': rng.choice(ERRS)}]})
        for _ in range(4):
            out.append({'target': rng.choice(world.TARGETS), 'lines': True,
                        'faults': [{'kind': 'line', 'n': rng.randrange(max(1, lines)), 'err': rng.choice(['INT', 'MEM'])}]})
        out.append({'target': rng.choice(world.TARGETS), 'start': rng.choice([0.0, 4e9, 1.1e9])})
        k = rng.choice([2, 3])
        out.append({'threads': [rng.choice(world.TARGETS) for _ in range(k)], 'sseed': rng.randrange(2**31),
                    'rate': rng.choice([0.002, 0.02, 0.2]),
                    'faults': [{'kind': 'write', 'n': rng.randrange(60), 'err': rng.choice(ERRS)}] if rng.random() < 0.5 else []})
        rng.shuffle(out)
        return out

    def run(self, case):
        res = Res()
        world.clean_scratch()
        if case.get('procs'):
            return self.processes(case, res)
        sc = schema(case['spec']['top'])
        cls = {o[0]: o[1] for o in case['spec']['objs']}
        enc = case['enc']
        d, err = world.attempt(gen.build, case['spec'])
        if err is not None:
            res.stats['model could not be built'] += 1
            return res
        for i, u in case.get('ids', {}).items():      # (what the collection calls an object is not always its identifier)
            if i in d:
                d[i].UUID = u
        before = picture(sc, d, cls)
        # the reference save, counting lines and operations
        with S.Sim(case['io'], world.scratch()) as s:
            t = world.Target(s, 'path', enc)
            with S.Lines(s):
                _, err = world.attempt(world.write, d, t.arg, enc)
            want = t.delivered()
            s.close_all()
        res.absorb(s)
        if err is not None:
            res.stats['save refused'] += 1
            m = differ(before, picture(sc, d, cls))
            if m:
                res.fail('changed', 'a save that raised %s changed the model: %s' % (world.exc_text(err), m))
            return res
        counts, lines = s.count, s.count['line']
        want = want.decode(enc)
        m = differ(before, picture(sc, d, cls))
        if m:
            res.fail('changed', 'a save changed the model: ' + m)
            return res
        done = []
        for f in case.get('only') or self.choose(case, counts, lines, random.Random(case['fseed'])):
            done.append(f)
            plan = dict(case['io'], faults=f.get('faults', []))
            if 'start' in f:
                plan['start'] = f['start']
            kinds = f.get('threads') or [f['target']]
            with S.Sim(plan, world.scratch()) as s:
                ts = [world.Target(s, k, enc, name='o%d.xml' % i) for i, k in enumerate(kinds)]
                fns = [(lambda t=t: world.write(d, t.arg, enc)) for t in ts]
                if len(fns) > 1:
                    sch = S.Sched(s, fns, f['sseed'], f['rate'], f.get('switches'))
                    out = sch.run()
                    del sch.fns[:]
                    s.note(sch.order.hexdigest())
                    s.fired['task:switch'] += len(sch.switches)
                    if f.get('switches') is None:
                        f = dict(f, switches={str(a): b for a, b in sch.switches.items()})
                        done[-1] = f
                elif f.get('lines'):
                    with S.Lines(s):
                        _, err = world.attempt(fns[0])
                    out = [('exc', err) if err is not None else ('ok', None)]
                else:
                    _, err = world.attempt(fns[0])
                    out = [('exc', err) if err is not None else ('ok', None)]
                for k, e in out:
                    if k == 'exc':
                        world.strip(e)
                texts = [t.delivered() for t in ts]
                s.close_all()
            res.absorb(s)
            hurt = {x[3] for x in s.fired_list} if len(kinds) > 1 else {0} if s.fired_list else set()
            res.stats['failed saves'] += len(hurt)
            m = differ(before, picture(sc, d, cls))
            if m:
                res.fail('changed', 'a save (%s) changed the model: %s' % (brief(f), m), dict(case, only=done))
                return res
            for k, (kind, e) in enumerate(out):
                if kind == 'exc':
                    if k not in hurt:
                        res.fail('retry', 'a later save (%s) raised %s' % (brief(f), world.exc_text(e)), dict(case, only=done))
                        return res
                elif texts[k].decode(enc, 'replace') != want and k not in hurt:
                    res.fail('text', 'a later save (%s) gave another document: %s' % (brief(f), first_diff(want, texts[k].decode(enc, 'replace'))),
                             dict(case, only=done))
                    return res
        return res


    def processes(self, case, res):
        """The same models saved by processes that hash differently."""
        outs = []
        for h in case['procs']:
            run = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run.py')
            p = subprocess.run([sys.executable, run, 'saves', str(case['pseed']), str(case['n'])],
                               env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE)
            if p.returncode:
                raise S.HarnessError('the saving process ended with %d' % p.returncode)
            outs.append(p.stdout.decode().split())
            res.runs += case['n']
            res.trace.update(p.stdout)
        res.stats['processes compared'] += len(outs)
        for k, texts in enumerate(zip(*outs)):
            if len(set(texts)) > 1:
                res.fail('process', 'model %d is saved as different documents by processes started with PYTHONHASHSEED %s' % (k, case['procs']))
                break
        return res

    def saves(self, pseed, n):
        """Prints a digest of the document each of n seeded models is saved as."""
        for k in range(n):
            case = self.model(random.Random(gen.seed_of('saves', pseed, k)))
            d, err = world.attempt(gen.build, case['spec'])
            with S.Sim({}, world.scratch()) as s:
                t = world.Target(s, 'duck', case['enc'])
                if err is None:
                    _, err = world.attempt(world.write, d, t.arg, case['enc'])
                print(hashlib.sha256(t.delivered()).hexdigest() if err is None else type(err).__name__)
                s.close_all()


def brief(f):
    return ', '.join('%s=%s' % (k, v) for k, v in f.items() if k != 'switches')


def first_diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'at character %d %r instead of %r' % (k, b[k:k + 40], a[k:k + 40])


PROP = C10()
