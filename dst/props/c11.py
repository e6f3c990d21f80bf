"""C11  a failed or interrupted load leaves the process able to load again."""
import random
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS, snapshot, diff_state
from c04 import read_doc
from c10 import picture, differ

REUSE = ('binary', 'raw', 'bytesio', 'stringio', 'text')


class C11(Prop):
    id = 'C11'
    rule = ('a case loads document A, then fails to load document B several times (source errors and a premature end in any pass, damaged '
            'text, interrupts and memory errors at seeded source lines, from a path or a stream), checking after each failure that the '
            'collection of A is untouched, that B loads completely from the same rewound stream or path into a new collection, and that A '
            'loads again; non-trivial: at least one load failed; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock', 'interrupts']
    parts = [(('only',), 'list'), (('A', 'x', 'doc', 'elems'), 'list'), (('B', 'x', 'doc', 'elems'), 'list'), (('io',), 'dict')]

    def count(self, tier):
        return 700 if tier == 'quick' else 15000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))

        def doc(n):
            top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
            ok = gen.all_refs(schema(top))
            spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, 2 * n, hard=rng.random() < 0.4,
                             pred=lambda r: True, idkind=rng.choice([1, 1, 5]))
            return {'spec': spec, 'x': {'top': top, 'mode': 'detect' if top in ('CIM14', 'CIM15') else 'map',
                    'doc': gen.doc_of(rng, spec, rng.random(), rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'utf-16']),
                                      rng.choice([None, rng.randrange(2**31)]))},
                    'source': rng.choice(world.SOURCES)}
        return {'A': doc(rng.choice([1, 3])), 'B': doc(rng.choice([1, 2, 5])), 'io': gen.io_plan(rng), 'fseed': rng.randrange(2**31)}

    def choose(self, case, counts, lines, size, rng):
        out = []
        for _ in range(5):
            k = rng.choice([k for k in ('read', 'open', 'seek', 'read') if counts[k]] or ['read'])
            out.append({'faults': [{'kind': k, 'n': rng.randrange(max(1, counts[k])), 'err': rng.choice(['EIO', 'ESTALE', 'INT', 'MEM', 'EOF', 'CLOSED', 'KEY', 'TYPE', 'UNI', 'EXIT'])}]})
        for _ in range(8):
            out.append({'lines': True, 'faults': [{'kind': 'line', 'n': rng.randrange(max(1, lines)), 'err': rng.choice(['INT', 'INT', 'MEM'])}]})
        for _ in range(4):
            out.append({'cut': rng.randrange(size)})
        for _ in range(2):
            out.append({'badtag': rng.randrange(size)})
        rng.shuffle(out)
        return out

    def model(self, w):
        if len(w['x']['doc']['elems']) == len(w['spec']['objs']):
            return gen.expected(w['spec'])
        from c04 import PROP as c04
        return c04.subset(w['spec'], w['x']['doc'])

    def run(self, case):
        res = Res()
        world.clean_scratch()
        A, B = case['A'], case['B']
        ca, sa = self.model(A)
        cb, sb = self.model(B)
        da, db = rdf.serialise(A['x']['doc']), rdf.serialise(B['x']['doc'])
        sca, scb = schema(A['x']['top']), schema(B['x']['top'])

        def load(w, data, src=None, plan=None, lines=False, name='in.xml'):
            with S.Sim(dict(case['io'], **(plan or {})), world.scratch()) as s:
                if src is None:
                    src = world.source(s, w['source'], data, w['x']['doc']['enc'], name=name)
                else:
                    src = src(s)
                if lines:
                    with S.Lines(s):
                        out, err = world.attempt(read_doc, src, w['x'])
                else:
                    out, err = world.attempt(read_doc, src, w['x'])
                s.close_all()
            res.absorb(s)
            return out, err, s
        first, err, _ = load(A, da, name='a.xml')
        if err is not None or world.compare(sca, first, ca, sa):
            res.stats['A did not load'] += 1       # C04's business
            return res
        out, err, s = load(B, db, lines=True)
        if err is not None or world.compare(scb, out, cb, sb):
            res.stats['B did not load'] += 1
            return res
        counts, lines = s.count, s.count['line']
        before = picture(sca, first, ca)
        done = []
        for f in case.get('only') or self.choose(case, counts, lines, len(db), random.Random(case['fseed'])):
            done.append(f)

            def bad(key, msg):
                res.fail(key, 'after a load that failed (%s): %s' % (show(f), msg), dict(case, only=list(done)))
                return res
            stream = None
            with S.Sim(dict(case['io'], faults=f.get('faults', [])), world.scratch()) as s:
                data = db
                if 'cut' in f:
                    data = db[:f['cut']]
                elif 'badtag' in f:
                    data = db[:f['badtag']] + b'<&' + db[f['badtag']:]
                if B['source'] in REUSE and 'cut' not in f and 'badtag' not in f:
                    stream = src = world.source(s, B['source'], data, B['x']['doc']['enc'])
                else:
                    kind = 'bytesio' if B['source'] == 'stringio' else B['source']
                    src = world.source(s, kind, data, B['x']['doc']['enc'])
                if f.get('lines'):
                    with S.Lines(s):
                        out, err = world.attempt(read_doc, src, B['x'])
                else:
                    out, err = world.attempt(read_doc, src, B['x'])
                res.stats['failed loads'] += err is not None
                out = None
                # the same stream, rewound by its owner; the failure was transient
                if stream is not None and err is not None:
                    s.faults = {}
                    s.line_fault = False
                    _, e2 = world.attempt(stream.seek, 0)
                    if e2 is not None:
                        return bad('stream', 'the stream can no longer be rewound: ' + world.exc_text(e2))
                    again, e2 = world.attempt(read_doc, stream, B['x'])
                    if e2 is not None:
                        return bad('retry', 'loading from the same rewound stream raised ' + world.exc_text(e2))
                    m = world.compare(scb, again, cb, sb)
                    if m:
                        return bad('retry', 'loading from the same rewound stream: ' + m[1])
                err = None
                s.close_all()
            res.absorb(s)
            m = differ(before, picture(sca, first, ca))
            if m:
                return bad('earlier', 'an earlier model changed: ' + m)
            out, err, _ = load(B, db)
            if err is not None:
                return bad('retry', 'loading the intact document raised ' + world.exc_text(err))
            m = world.compare(scb, out, cb, sb)
            if m:
                return bad('retry', 'loading the intact document: ' + m[1])
        out, err, _ = load(A, da, name='a.xml')
        if err is not None or world.compare(sca, out, ca, sa):
            res.fail('again', 'A no longer loads as before: %s' % (world.exc_text(err) if err is not None else world.compare(sca, out, ca, sa)[1]),
                     dict(case, only=done))
        return res


def show(f):
    return ', '.join('%s=%s' % kv for kv in f.items())


PROP = C11()
