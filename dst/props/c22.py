"""C22  what the caller lets go of is freed."""
import gc, random, weakref
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS, MM
from c04 import read_doc
from c20 import Ses
import hist


class Box(dict):
    """A collection one can watch."""
    __slots__ = ('__weakref__',)


def alive():
    """Objects of the library's classes, counted by class."""
    gc.collect()
    n = {}
    for o in gc.get_objects():
        t = type(o)
        m = getattr(t, '__module__', '')
        if isinstance(m, str) and m[:5] in ('CIM14', 'CIM15') or m == 'PyCIM.SimpleXMLWriter':
            n[t.__name__] = n.get(t.__name__, 0) + 1
    return n


ENDS = [(t, r.owner, r.name) for t in TOPS for r in gen.all_refs(schema(t))]
PER = 4


def link(sc, r, a, b, how):
    q = sc.inverse(r)
    if how == 'other' and q is not None:
        return link(sc, q, b, a, 'assign')
    if not r.many:
        setattr(a, r.name, b)
    elif how == 'add':
        gen.add_to(a, r, b)
    else:
        setattr(a, r.name, [b])


def unlink(sc, r, a, b, how):
    q = sc.inverse(r)
    if how == 'other' and q is not None:
        return unlink(sc, q, b, a, 'clear')
    if how == 'replace':
        x = type(b)()
        setattr(a, r.name, [x] if r.many else x)
    elif r.many and how == 'remove':
        gen.remove_from(a, r, b)
    else:
        setattr(a, r.name, [] if r.many else None)


class C22(Prop):
    id = 'C22'
    rule = ('a case makes seeded loads (into new and into given collections), saves and edits of seeded models, intact and failing at a seeded '
            'open, read, write, flush, seek, source line or in the data, drops results, collections, streams and exceptions, and after a garbage '
            'collection looks for objects of the library and for the collections and streams; then objects are unlinked from a model that lives '
            'on and dropped, and looked for (every association end of every package once in 710 cases); non-trivial: at least one object was built and dropped; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack', 'garbage collector']
    stub = ['raw device', 'clock', 'interrupts']
    parts = [(('calls',), 'list'), (('ends',), 'list'), (('ops',), 'list')] + [(('calls', k, 'spec'), 'model') for k in range(6)] + [(('io',), 'dict')]

    def count(self, tier):
        return 4000 if tier == 'quick' else 60000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        calls = []
        for _ in range(rng.choice([2, 4, 6])):
            top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
            ok = gen.all_refs(schema(top))
            n = rng.choice([1, 3, 8])
            c = {'do': rng.choice(['load', 'load', 'into', 'save', 'build']), 'dseed': rng.randrange(2**31),
                 'spec': gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, 2 * n, hard=False, pred=lambda r: True)}
            c['kind'] = rng.choice(world.TARGETS if c['do'] == 'save' else world.SOURCES)
            if c['do'] != 'build' and rng.random() < 0.6:
                c['fault'] = rng.choice(['write', 'flush', 'open', 'line'] if c['do'] == 'save' else ['open', 'read', 'seek', 'line', 'data'])
                c['at'], c['err'] = rng.random(), rng.choice(['EIO', 'INT', 'MEM', 'EOF', 'CLOSED', 'KEY', 'EXIT'])
            calls.append(c)
        ends = []
        for t, owner, name in gen.Decks(ENDS, 'h22%s' % seed, PER).deal(idx):
            sc = schema(t)
            p = gen.pair_for(rng, sc, sc.refs[owner][name])
            if p is not None:
                ends.append([t, p[0], name, p[1], rng.choice(['ctor', 'assign', 'add', 'other']), rng.choice(['clear', 'replace', 'remove', 'other', 'other']),
                             rng.choice('ab')])
        top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
        sc = schema(top)
        ok = gen.all_refs(sc)
        refs, classes = [], []
        for r in rng.sample(ok, min(len(ok), 3)):
            p = gen.pair_for(rng, sc, r)
            if p is not None:
                q = sc.inverse(r)
                refs += [r.key] + ([q.key] if q is not None else [])
                classes += list(p)
        ops = [[rng.choice(['new', 'new', 'link', 'link', 'link', 'drop']) if k > 2 else 'new', rng.randrange(2**31)] for k in range(rng.choice([10, 20]))]
        return {'calls': calls, 'io': gen.io_plan(rng), 'top': top, 'refs': refs, 'classes': classes or [rng.choice(sc.names)], 'idkind': 1, 'ops': ops, 'ends': ends}

    def call(self, case, c, faults):
        """-> (sim, weak references, did it raise)"""
        spec = c['spec']
        top = spec['top']
        rng = random.Random(c['dseed'])
        weak = []

        def watch(what, o):
            try:
                weak.append((what, weakref.ref(o)))
            except TypeError:
                pass
        with S.Sim(dict(case['io'], faults=faults or []), world.scratch()) as s:
            lines = bool(c.get('fault') == 'line')
            if c['do'] in ('save', 'build'):
                d, err = world.attempt(gen.build, spec)
                if err is not None:
                    return None, weak, True
                d = Box(d)
                watch('collection', d)
                if c['do'] == 'build':
                    call = None
                else:
                    t = world.Target(s, c['kind'])
                    arg = t.arg
                    if not isinstance(arg, str):
                        watch('target', arg)
                    call = lambda: world.write(d, arg)
            else:
                doc = gen.doc_of(rng, spec, 0.3)
                data = rdf.serialise(doc)
                if faults is not None and c.get('fault') == 'data':
                    data = data[:int(c['at'] * len(data))] + b'<'
                arg = world.source(s, c['kind'] if c.get('fault') != 'data' or c['kind'] != 'stringio' else 'bytesio', data)
                if not isinstance(arg, (str, bytes)):
                    watch('source', arg)
                d = Box()
                watch('collection', d)
                sc = schema(top)
                into = d if c['do'] == 'into' else None
                call = lambda: world.read(arg, sc, into)
            out = err = None
            if call is not None:
                if lines:
                    with S.Lines(s):
                        out, err = world.attempt(call)
                else:
                    out, err = world.attempt(call)
                for i, o in list((out if isinstance(out, dict) else {}).items())[:1]:
                    watch('object', o)
            failed = err is not None
            s.close_all()
            s.handles[:] = []
        return s, weak, failed

    def run(self, case):
        res = Res()
        world.clean_scratch()
        base = alive()
        for k, c in enumerate(case['calls']):
            counts = {}
            for at in (0, 1):
                if at and not c.get('fault'):
                    break
                faults = None
                if at:
                    n = counts.get(c['fault'], 0)
                    faults = [{'kind': c['fault'], 'n': min(n - 1, int(c['at'] * n)), 'err': c['err']}] if n else []
                s, weak, failed = self.call(case, c, faults)
                if s is None:
                    res.stats['model could not be built'] += 1
                    break
                res.absorb(s)
                counts = s.count
                res.stats['calls that failed' if failed else 'calls that returned'] += 1
                name = 'a %s (%s) that %s' % (c['do'], c['kind'], 'failed' if failed else 'returned')
                s = None
                now = alive()
                more = {n: v - base.get(n, 0) for n, v in now.items() if v > base.get(n, 0)}
                if more:
                    res.fail('kept', 'after %s, with everything dropped, these objects are still in memory: %s' % (name, more))
                    return res
                for what, w in weak:
                    if w() is not None:
                        res.fail('kept:' + what, 'after %s the %s is still in memory' % (name, what))
                        return res
        if not self.ends(case, res):
            return res
        return self.edits(case, res, base)

    def ends(self, case, res):
        """Two objects linked and unlinked; one of them stays, the other is dropped."""
        kept, weak = [], []
        for k, (t, ca, n, cb, how, undo, stays) in enumerate(case.get('ends', ())):
            sc = schema(t)
            r = sc.refs[ca][n]
            res.runs += 1
            if how == 'ctor' and gen.shared_name(sc, ca, n):
                how = 'assign'      # built with it, it loses it: the known finding of C14
            try:
                b = sc.live(cb)()
                a = sc.live(ca)(**{n: [b] if r.many else b} if how == 'ctor' else {})
                if how != 'ctor':
                    link(sc, r, a, b, how)
                unlink(sc, r, a, b, undo)
            except Exception as e:
                res.stats['edit failed'] += 1
                a = b = e = None
                continue
            kept.append(a if stays == 'a' else b)
            weak.append((k, weakref.ref(b if stays == 'a' else a)))
            a = b = None
        gc.collect()
        for k, w in weak:
            if w() is not None:
                res.fail('end', '%s.%s: linked (%s), unlinked (%s), and dropped while the other end lives on, the object is still in memory'
                         % (case['ends'][k][1], case['ends'][k][2], case['ends'][k][4], case['ends'][k][5]))
                return False
            res.stats['objects taken out and freed'] += 1
        return True

    def edits(self, case, res, base):
        """Objects taken out of a model that lives on."""
        ses = Ses(case, res)
        refs = {}
        for k, op in enumerate(case['ops']):
            try:
                ok = ses.step(op)
            except hist.Stop as e:
                res.stats['edit failed'] += 1
                return res
            res.trace.update(('%s %s;' % (op[0], ok)).encode())
            for i, o in ses.d.items():
                if i not in refs:
                    refs[i] = weakref.ref(o)
            o = None
            if op[0] == 'drop' and ok:
                gc.collect()
                for i in sorted(refs):
                    if i not in ses.d:
                        if refs[i]() is not None:
                            res.fail('unlinked', 'after step %d an object that was unlinked from the rest and dropped is still in memory' % k)
                            return res
                        del refs[i]
                        res.stats['objects taken out and freed'] += 1
        ses = o = None
        now = alive()
        more = {n: v - base.get(n, 0) for n, v in now.items() if v > base.get(n, 0)}
        if more:
            res.fail('kept', 'after edits, with the model dropped, these objects are still in memory: %s' % more)
        return res


PROP = C22()
