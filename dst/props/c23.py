"""C23  every call ends, after work in proportion to its document."""
import gc, io, os, random, signal, sys, time
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, special, TOPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
SHAPES = ['plain', 'star', 'list', 'many', 'pair', 'unknown', 'absent', 'about', 'twice', 'props']
HEAVY = [('load', 'plain'), ('load', 'pair'), ('load', 'unknown'), ('load', 'absent'), ('load', 'again'), ('load', 'props'), ('into', 'plain'),
         ('into', 'absent'), ('save', 'plain'), ('save', 'pair'), ('save', 'props'), ('print', 'plain'), ('print', 'props'),
         ('writer', 'data'), ('writer', 'deep'), ('writer', 'flat'), ('writer', 'attrs')]
LARGE = 10000           # elements of the documents whose processor time is compared
MANY = 4000             # operations that fail, from the first one on


class Endless(BaseException):
    """The call has done far more than its document calls for."""


class Counted(dict):
    """A collection that counts how many of its entries it hands out in bulk."""
    seen = 0

    def __iter__(self):
        self.seen += len(self)
        return dict.__iter__(self)

    def keys(self):
        self.seen += len(self)
        return dict.keys(self)

    def values(self):
        self.seen += len(self)
        return dict.values(self)

    def items(self):
        self.seen += len(self)
        return dict.items(self)

    def copy(self):
        self.seen += len(self)
        return dict.copy(self)


class Steps(object):
    """Counts the source lines executed, of PyCIM and of the standard library for it (not of the setters of the classes)."""

    def __init__(self, budget):
        self.n, self.budget = 0, budget
        self.mine = {}

    def _trace(self, frame, event, arg):
        c = frame.f_code
        m = self.mine.get(c)
        if m is None:
            m = self.mine[c] = not c.co_filename.startswith((HERE,) + S._MODEL)
        return self._line if m else None

    def _line(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n > self.budget:
                raise Endless()
        return self._line

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class C23(Prop):
    id = 'C23'
    rule = ('a case runs one call (load, load into a collection, save, pretty print) on documents of one seeded shape (separate objects, many '
            'references to one object, one object listing many, many-to-many, pairs, unknown, absent, rdf:about, the same again, many properties '
            'of one object) of n, 2n and 4n elements, counting source lines executed, entries of the collection gone through and operations and bytes on the simulated device, and '
            'again with a device that fails for good from a seeded operation on; for some shapes, and calls of the XML writer, also the processor time for 10,000 and 40,000 elements; the increase from 2n to 4n may be at most 1.25 times '
            'twice that from n to 2n, and after the device failed the call has to end with the error within 60 operations; '
            'non-trivial: always; distinct by event trace')
    real = ['PyCIM', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock']
    parts = [(('io',), 'dict'), (('fails',), 'list')]

    def count(self, tier):
        return 320 if tier == 'quick' else 10000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        h = idx // 5 if idx % 5 == 4 else len(HEAVY)
        if h < len(HEAVY) * (1 if tier == 'quick' else 8):
            do, shape = HEAVY[h % len(HEAVY)]
            return {'do': do, 'shape': shape, 'top': rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)]), 'dseed': rng.randrange(2**31), 'heavy': LARGE}
        io = {'buf': rng.choice([512, 8192, 65536]), 'tchunk': rng.choice([256, 8192])}
        if rng.random() < 0.4:
            io['rchunk'] = [rng.choice([7, 100, 500, 4095]) for _ in range(rng.randrange(1, 3))]
        if rng.random() < 0.4:
            io['wchunk'] = [rng.choice([7, 100, 4095]) for _ in range(rng.randrange(1, 3))]
        do = rng.choice(['load', 'load', 'load', 'into', 'save', 'save', 'print'])
        return {'do': do, 'shape': SHAPES[idx % len(SHAPES)], 'top': rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)]), 'n': rng.choice([80, 120, 160]),
                'dseed': rng.randrange(2**31), 'io': io, 'kind': rng.choice(world.TARGETS if do == 'save' else world.SOURCES),
                'fails': [{'kind': rng.choice(['write', 'write', 'flush', 'open'] if do == 'save' else ['read', 'read', 'seek', 'open']),
                           'at': rng.random(), 'err': rng.choice(['EIO', 'ENOSPC', 'MEM', 'EACCES'])} for _ in range(2)]}

    def spec(self, case, n):
        """-> (objects, links stated by the first of each, extra elements)"""
        rng = random.Random(case['dseed'])
        sc = schema(case['top'])
        shape = case['shape']
        refs = gen.all_refs(sc)
        q = lambda r: sc.inverse(r)
        ok = {'star': lambda r: not r.many and (q(r) is None or q(r).many), 'list': lambda r: r.many and q(r) is not None and not q(r).many,
              'many': lambda r: r.many and q(r) is not None and q(r).many, 'pair': lambda r: not r.many and q(r) is not None and not q(r).many,
              'twice': lambda r: not r.many, 'about': lambda r: not r.many}.get(shape)
        objs, links = [], []
        r = None
        if ok is not None:
            rs = [r for r in refs if ok(r)]
            while rs:
                r = rs.pop(rng.randrange(len(rs)))
                p = gen.pair_for(rng, sc, r)
                if p is not None:
                    break
            else:
                r, shape = None, 'plain'
        if r is None:
            c = rng.choice(sc.names)
            p = (c, c)
        at = {}
        for c in set(p):
            at[c] = {a: gen.value(rng, sc.attrs[c][a], False) for a in rng.sample(sorted(sc.attrs[c]), min(len(sc.attrs[c]), 3))}
        one = shape in ('star', 'list', 'many', 'twice', 'about')
        if one:
            objs.append(['hub', p[1] if shape in ('star', 'twice', 'about') else p[0], {}])
        for k in range(n):
            i = 'm%05d' % k
            if shape == 'pair':
                objs += [[i, p[0], at[p[0]]], ['p' + i, p[1], at[p[1]]]]
                links.append([i, r, 'p' + i])
            elif shape in ('list', 'many'):
                objs.append([i, p[1], at[p[1]]])
                links.append(['hub', r, i])
            elif one:
                objs.append([i, p[0], at[p[0]]])
                links.append([i, r, 'hub'])
            else:
                objs.append([i, p[0], at[p[0]]])
        return sc, shape, objs, links

    def document(self, case, n):
        sc, shape, objs, links = self.spec(case, n)
        rng = random.Random(case['dseed'] + 1)
        elems, by = [], {}
        for i, c, at in objs:
            ps = [gen.attr_prop(rng, sc, c, a, v) for a, v in sorted(at.items())]
            e = {'cls': c, 'id': i, 'mode': 'ID', 'props': [x for x in ps if x]}
            by[i] = e
            elems.append(e)
        for a, r, b in links:
            by[a]['props'].append(['r', r.owner, r.name, b])
        c = objs[-1][1]
        r = next((r for _, r in sorted(sc.refs[c].items()) if not special(r)), None)
        at = sorted(objs[-1][2].items())
        more = []
        for e in list(elems):
            if shape == 'unknown':
                e['props'].append(['v', c, 'nonsense' if e['id'] < 'm00040' else 'nonsense%s' % e['id'], 'x'])
                more.append({'cls': 'Nonsense', 'id': 'n' + e['id'], 'mode': 'ID', 'props': [['v', 'Nonsense', 'x', 'y']]})
            elif shape == 'absent' and r is not None:
                e['props'].append(['r', r.owner, r.name, 'gone' + e['id']])
            elif shape == 'about':
                more.append({'cls': elems[-1]['cls'], 'id': elems[-1]['id'], 'mode': 'about', 'props': elems[-1]['props'][:1]})
            elif shape in ('twice', 'again'):
                more.append({'cls': e['cls'], 'id': e['id'], 'mode': 'about', 'props': e['props']})
            elif shape == 'props':
                elems[0]['props'] += [x for x in [gen.attr_prop(random.Random(7), sc, c, a, v) for a, v in at] if x] or [['v', c, 'nonsense', 'x']]
        return sc, {'ns': sc.ns, 'enc': 'utf-8', 'style': None, 'elems': elems + more}

    def call(self, case, n, plan, budget):
        """-> (steps, sim, error)"""
        with S.Sim(dict(case['io'], **plan), world.scratch()) as s:
            if case['do'] == 'save':
                sc, shape, objs, links = self.spec(case, n)
                d, err = world.attempt(gen.build, {'top': case['top'], 'objs': objs, 'links': [[a, r.name, b] for a, r, b in links]})
                if err is not None:
                    return None
                t = world.Target(s, case['kind'])
                d = Counted(d)
                fn = lambda: world.write(d, t.arg)
            else:
                sc, doc = self.document(case, n)
                data = rdf.serialise(doc)
                src = world.source(s, case['kind'], data)
                d = Counted() if case['do'] == 'into' else None
                fn = (lambda: world.xmlpp(src)) if case['do'] == 'print' else (lambda: world.read(src, sc, d))
            s.moved = 0
            with Steps(budget) as st:
                _, err = world.attempt(fn)
            s.looked = d.seen if d is not None else 0
            fn = src = t = d = None
            s.close_all()
        return st.n, s, err

    # ---- work that no line shows: processor time of large documents
    def prepare(self, case, n):
        if case['do'] == 'save':
            sc, shape, objs, links = self.spec(case, n)
            d = gen.build({'top': case['top'], 'objs': objs, 'links': [[a, r.name, b] for a, r, b in links]})
            return lambda: world.write(d, io.StringIO())
        if case['do'] == 'writer':
            return lambda: self.calls(case['shape'], n)
        sc, doc = self.document(case, n)
        data = rdf.serialise(doc)
        if case['do'] == 'print':
            return lambda: world.xmlpp(io.BytesIO(data))
        return lambda: world.read(io.BytesIO(data), sc, {} if case['do'] == 'into' else None)

    def calls(self, shape, n):
        from PyCIM.SimpleXMLWriter import XMLWriter
        w = XMLWriter(io.StringIO(), 'utf-8')
        w.declaration()
        top = w.start('top')
        if shape == 'attrs':
            w.element('a', 'x', dict(('k%05d' % k, 'v<%d' % k) for k in range(4 * n)))
        for k in range(8 * n if shape == 'data' else n if shape != 'attrs' else 0):
            if shape == 'data':
                w.data('piece & %d ' % k)
            elif shape == 'deep':
                w.start('e%d' % k, {'k': 'v'})
            else:
                w.element('e%d' % k, 'text', k='v')
        w.close(top)
        w.flush()

    def time(self, case, n, limit):
        """Processor time of one call on n elements, or None if it takes more than the limit."""
        fn = self.prepare(case, n)
        gc.collect()

        def late(*_):
            raise Endless()
        old = signal.signal(signal.SIGPROF, late)
        try:
            t0 = time.process_time()
            signal.setitimer(signal.ITIMER_PROF, limit)
            try:
                _, err = world.attempt(fn)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            t = time.process_time() - t0
        except Endless:
            return None, None
        finally:
            signal.signal(signal.SIGPROF, old)
        return (None if isinstance(err, Endless) else t), err

    def heavy(self, case, res):
        small = []
        n = case['heavy']
        for k in range(3):
            for _ in range(1 if k else 2):
                t, err = self.time(case, n, 20)             # (ordinarily less than one)
                if err is not None and not isinstance(err, Endless):
                    res.stats['call refused'] += 1
                    return
                if t is None:
                    small = None
                    break
                small.append(t)
            if small is None:
                break
            limit = 6.5 * max(sum(small) / len(small), 0.02)
            t, err = self.time(case, 4 * n, min(limit + 0.5, 40))
            res.runs += 2
            res.stats['large documents timed'] += 1
            if err is not None and not isinstance(err, Endless) or t is not None and t <= limit:
                return
        res.fail('growth:time', 'a %s (%s) of %d elements takes more than 6.5 times the processor time of one of %d, or that 20 s' % (case['do'], case['shape'], 4 * n, n))

    def run(self, case):
        res = Res()
        world.clean_scratch()
        if case.get('heavy'):
            self.heavy(case, res)
            return res
        self.call(case, 3, {}, 10**9)                   # whatever is done once only
        work = []
        last = None
        for f in (1, 2, 4):
            budget = 10**6 if last is None else 30 * last
            r = self.call(case, f * case['n'], {}, budget)
            if r is None:
                res.stats['model could not be built'] += 1
                return res
            n, s, err = r
            res.absorb(s)
            res.stats['steps'] += n
            if isinstance(err, Endless):
                res.fail('endless', 'a %s of %d elements (%s) was not over after %d source lines%s' % (
                    case['do'], f * case['n'], case['shape'], budget, '; one of half the size takes %d' % last if last else ''))
                return res
            if err is not None:
                res.stats['call refused'] += 1
                return res
            last = n
            work.append({'entries of the collection': s.looked, 'source lines': n, 'reads': s.count['read'], 'writes': s.count['write'], 'other operations': s.ops - s.count['read'] - s.count['write']})
        for k in work[0]:
            a, b, c = [w[k] for w in work]
            if c - b > 2.5 * (b - a) + (400 if k == 'source lines' else 12):
                res.fail('growth:' + k, 'a %s (%s, %s) of %d, %d, %d elements takes %d, %d, %d %s' % (
                    case['do'], case['shape'], case['kind'], case['n'], 2 * case['n'], 4 * case['n'], a, b, c, k))
                return res
        for f in case['fails']:
            c = work[0][{'read': 'reads', 'write': 'writes'}.get(f['kind'], 'other operations')]
            at = int(f['at'] * c)
            if f['kind'] in ('seek', 'flush', 'open'):
                at = int(f['at'] * 3)
            n, s, err = self.call(case, case['n'], {'faults': [{'kind': f['kind'], 'n': at + k, 'err': f['err']} for k in range(MANY)]}, 3 * work[0]['source lines'] + 20000)
            res.absorb(s)
            after = sum(v for k, v in s.fired.items() if k == '%s:%s' % (f['kind'], f['err']))
            if not after or not world.real_faults(s):
                continue
            if isinstance(err, Endless) or after > 60:
                res.fail('persists', 'a %s (%s) whose device fails every %s from the %dth on with %s tried %d times%s' % (
                    case['do'], case['kind'], f['kind'], at, f['err'], after, ' and did not end' if isinstance(err, Endless) else ''))
                return res
            if err is None and f['kind'] != 'seek':
                res.stats['fault not noticed'] += 1     # (what that means is for C02 and C03 to say)
        return res


PROP = C23()
