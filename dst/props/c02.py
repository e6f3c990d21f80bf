"""C02  a save that returns has delivered the whole document; otherwise it raises."""
import random
import sim as S, gen, world, saved
from base import Prop, Res
from meta import schema, TOPS

ODD = ['EAGAIN', 'ETIMEDOUT', 'ECONNRESET', 'CLOSED', 'UNI', 'TYPE', 'KEY', 'ATTR', 'RUN', 'ASSERT', 'EOF', 'EXIT']
ERRS = {'open': ['EACCES', 'EMFILE', 'ENOSPC', 'EIO', 'CRASH', 'INT', 'MEM', 'EAGAIN', 'EXIT'],
        'write': ['EIO', 'ENOSPC', 'EPIPE', 'EDQUOT', 'CRASH', 'INT', 'MEM'] + ODD,
        'flush': ['EIO', 'ENOSPC', 'INT', 'EPIPE', 'MEM'] + ODD}


BAD = ['\x00', 'a\x00b', '\x01', 'x\x08', '\x0b', 'tab\tand\x0c', '\x0e', '\x1b[0m', '\x1f', '\ud800', '\udfff', 'a\udc80', '\ufffe', '\uffff', 'caf\xe9\x00' * 50]


class C02(Prop):
    id = 'C02'
    rule = ('a case is a seeded model, target, encoding and device shape; it is saved once without faults to count operations, then '
            'once per seeded fault point (first, last and random opens, writes, flushes and disk capacities, with seeded errors, '
            'interrupts and process death, in sequences of one to three), some of them also with a text in a seeded place that XML cannot carry; non-trivial: the fault fired; distinct by event trace')
    real = ['PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding', 'process death']
    parts = [(('only',), 'list'), (('spec',), 'model'), (('stale',), 'drop'), (('bad',), 'drop'), (('io',), 'dict')]
    points = 24

    def count(self, tier):
        return 1600 if tier == 'quick' else 12000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
        sc = schema(top)
        n = rng.choice([0, 1, 2, 3, 8, 8, 30]) if idx % 200 else 700
        ok = gen.all_refs(sc)
        spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n // 2)], (), n - n // 2, n,
                         hard=rng.random() < 0.6, pred=lambda r: True)
        io = gen.io_plan(rng)
        bad = None
        if rng.random() < 0.15 and spec['objs']:        # what no XML document can carry
            bad = [rng.randrange(len(spec['objs'])), rng.choice(['value', 'value', 'id', 'enum']), rng.randrange(1000), rng.choice(BAD)]
        return {'bad': bad, 'spec': spec, 'enc': rng.choice(world.ENCODINGS), 'target': rng.choice(world.TARGETS), 'io': io,
                'stale': rng.choice([None, None, 10, 100000]), 'fseed': rng.randrange(2**31), 'line_buffering': rng.random() < 0.3}

    def save(self, case, d, faults=(), cap=None):
        """-> (exception or None, bytes safe at that moment, sim)"""
        world.clean_scratch()
        plan = dict(case['io'], faults=list(faults))
        if cap is not None:
            plan['cap'] = cap
        with S.Sim(plan, world.scratch()) as s:
            t = world.Target(s, case['target'], case['enc'])
            if case.get('stale') and case['target'] in ('path', 'pathobj'):
                with S.real_open(t.path, 'wb') as f:
                    f.write(b'<old/>' * case['stale'])
            err = None
            try:
                world.write(d, t.arg, case['enc'])
            except BaseException as e:
                if isinstance(e, S.HarnessError):
                    raise
                err = e
            data = t.delivered()        # what a crash right now would leave
            died = s.dead
            if err is not None:
                err = err.with_traceback(None)
            s.close_all()
        return err, data, s, died

    def refused(self, case, d, res):
        """A model with a text in one place that XML cannot carry must not be saved."""
        k, what, n, text = case['bad']
        objs = case['spec']['objs']
        if k >= len(objs):
            return
        obj = d[objs[k][0]]
        attrs = sorted(schema(case['spec']['top']).attrs[objs[k][1]].values(), key=lambda a: a.name)
        names = ['UUID'] if what == 'id' else [a.name for a in attrs if (a.typ == 'str' and not a.enum if what == 'value' else a.enum) and a.name != 'UUID']
        if not names:
            return
        name = names[n % len(names)]
        old = getattr(obj, name)
        setattr(obj, name, text)
        err, data, s, died = self.save(case, d)
        setattr(obj, name, old)
        res.absorb(s)
        res.stats['fault text:' + what] += 1
        if err is None:
            res.fail('unreadable', 'saving returned although %s of %s is %r, which no XML document can carry' % (name, objs[k][1], text[:40]))
        elif not isinstance(err, Exception):
            res.fail('raises', 'saving %r raised %s' % (text[:40], world.exc_text(err)))

    def choose(self, case, counts, size, rng):
        out = []
        kinds = [k for k in ('open', 'write', 'flush') if counts[k]]
        for k in kinds:
            for n in sorted({0, counts[k] - 1}):
                out.append({'faults': [{'kind': k, 'n': n, 'err': rng.choice(ERRS[k])}]})
        if case['target'] not in ('stringio',) and size:
            for c in sorted({0, size - 1, size // 2}):
                out.append({'cap': c})
        while len(out) < self.points and kinds:
            if rng.random() < 0.3 and case['target'] != 'stringio' and size:
                out.append({'cap': rng.randrange(size)})
                continue
            fs = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(kinds + ['write'])
                if counts[k]:
                    fs.append({'kind': k, 'n': rng.randrange(counts[k]), 'err': rng.choice(ERRS[k])})
            if fs:
                out.append({'faults': fs})
        return out

    def run(self, case):
        res = Res()
        cls, st = gen.expected(case['spec'])
        top, enc = case['spec']['top'], case['enc']
        try:
            d = gen.build(case['spec'])
        except Exception as e:
            res.stats['model could not be built'] += 1
            return res

        def complete(data):
            return saved.check(data, top, cls, st, enc)
        if case.get('bad'):
            self.refused(case, d, res)
            if res.viol:
                return res
        err, clean, s, _ = self.save(case, d)
        res.absorb(s)
        if err is not None:
            res.fail('raises', 'without any failure, saving raised ' + world.exc_text(err))
            return res
        bad = complete(clean)
        if bad:
            res.fail('partial', 'without any failure, saving returned but the target holds %d bytes: %s' % (len(clean), bad[1]))
            return res
        # a sink that counts characters, not bytes
        size = len(clean.decode(enc)) if case['target'].startswith('duck') else len(clean)
        runs = case.get('only') or self.choose(case, s.count, size, random.Random(case['fseed']))
        for f in runs:
            err, data, s, died = self.save(case, d, f.get('faults', ()), f.get('cap'))
            res.absorb(s)
            hit = [k for k in s.fired if not k.endswith((':short', ':jump'))]
            if hit:
                res.stats['saves with a fault'] += 1
            if err is None and not died:
                bad = None if data == clean else complete(data)
                if bad:
                    res.fail('partial', 'saving returned after %s although the target holds %d of %d bytes: %s' % (
                        hit or 'no failure', len(data), len(clean), bad[1]), dict(case, only=[f]))
                elif hit and set(hit) - {'write:EAGAIN', 'flush:EAGAIN'}:       # buffers may bridge a device that is not ready
                    res.fail('swallowed', 'saving returned normally although %s failed' % hit, dict(case, only=[f]))
            elif err is not None and not hit:
                res.fail('raises', 'without any failure, saving raised ' + world.exc_text(err), dict(case, only=[f]))
            if res.viol:
                break
        return res


PROP = C02()
