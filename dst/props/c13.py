"""C13  files the library opens are closed; the caller's streams stay open and usable."""
import gc, os, random
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS
from c04 import read_doc


def fds():
    out = set()
    for k in range(256):
        try:
            os.fstat(k)
            out.add(k)
        except OSError:
            pass
    return out


class C13(Prop):
    id = 'C13'
    rule = ('a case takes one seeded model and document and runs load, save and pretty-print on path and stream, intact and with a failure '
            'at a seeded open, read, write, flush, seek, source line or in the data; after each, with the result and the exception dropped '
            'and no garbage collection, it lists open files and descriptors, and goes on using the caller\'s stream; '
            'non-trivial: the operation opened a file or used a stream; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'PyCIM.PrettyPrintXML', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock', 'interrupts']
    parts = [(('only',), 'list'), (('spec',), 'model'), (('io',), 'dict')]

    def count(self, tier):
        return 600 if tier == 'quick' else 12000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
        ok = gen.all_refs(schema(top), gen.serialisable(schema(top)))
        n = rng.choice([1, 1, 3, 6])
        spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, n, hard=False)
        return {'spec': spec, 'style': rng.choice([None, rng.randrange(2**31)]), 'io': gen.io_plan(rng), 'fseed': rng.randrange(2**31)}

    KINDS = {'load': ('path', 'pathobj', 'bytespath', 'binary', 'raw', 'text', 'stringio', 'bytesio'),
             'pp': ('path', 'pathobj', 'binary', 'text', 'bytesio'),
             'save': ('path', 'pathobj', 'text', 'stringio', 'duck', 'duckflush')}
    FAULTS = {'load': ('open', 'read', 'read', 'seek', 'line', 'line', 'data'), 'pp': ('open', 'read', 'line', 'data'),
              'save': ('open', 'write', 'write', 'flush', 'line', 'line')}

    def choose(self, rng):
        out = []
        for op in ('load', 'pp', 'save'):
            for k in self.KINDS[op]:
                out.append({'op': op, 'kind': k})
            for _ in range(10):
                k = rng.choice(self.KINDS[op])
                f = rng.choice(self.FAULTS[op])
                out.append({'op': op, 'kind': k, 'fault': f, 'at': rng.random(), 'err': rng.choice(['EIO', 'INT', 'MEM', 'ENOSPC', 'EOF', 'CLOSED', 'TYPE', 'EXIT'])})
        return out

    def run(self, case):
        res = Res()
        world.clean_scratch()
        spec = case['spec']
        top = spec['top']
        sc = schema(top)
        cls, st = gen.expected(spec)
        x = {'top': top, 'mode': 'detect' if top in ('CIM14', 'CIM15') else 'map',
             'doc': gen.doc_of(random.Random(case['fseed']), spec, 0.2, 'utf-8', case['style'])}
        data = rdf.serialise(x['doc'])
        d, err = world.attempt(gen.build, spec)
        if err is not None:
            res.stats['model could not be built'] += 1
            return res
        base = {}
        for f in case.get('only') or self.choose(random.Random(case['fseed'])):
            key = (f['op'], f['kind'])
            if key not in base:
                base[key] = self.go(case, dict(f, fault=None), sc, cls, st, x, data, d, res, None)
                if res.viol:
                    return res
            if f.get('fault') and base[key] is not None:
                self.go(case, f, sc, cls, st, x, data, d, res, base[key])
                if res.viol:
                    return res
        return res

    def go(self, case, f, sc, cls, st, x, data, d, res, counts):
        """One operation.  Returns the counts of an intact one."""
        def bad(key, msg):
            res.fail(key, '%s %s %s: %s' % (f['op'], f['kind'], '(%s fails with %s)' % (f['fault'], f['err']) if f.get('fault') else '', msg),
                     dict(case, only=[f]))
        plan = dict(case['io'])
        src_data = data
        if f.get('fault') == 'data':
            k = int(f['at'] * len(data))
            if f['kind'] == 'stringio':     # holds text: cut it between characters
                k = len(data[:k].decode('utf-8', 'ignore').encode('utf-8'))
            src_data = data[:k] + b'<&' + data[k:] if f['err'] in ('EIO', 'INT') else data[:k]
        elif f.get('fault'):
            n = counts[f['fault']]
            if not n:
                return None
            plan['faults'] = [{'kind': f['fault'], 'n': min(n - 1, int(f['at'] * n)), 'err': f['err']}]
        op, kind = f['op'], f['kind']
        before = fds()
        with S.Sim(plan, world.scratch()) as s:
            lines = f.get('fault') == 'line' or not f.get('fault')
            if op == 'save':
                t = world.Target(s, kind, 'utf-8')
                call, obj = (lambda: world.write(d, t.arg)), t.arg
            else:
                obj = world.source(s, kind, src_data)
                call = (lambda: read_doc(obj, x)) if op == 'load' else (lambda: world.xmlpp(obj))
            if lines:
                with S.Lines(s):
                    out, err = world.attempt(call)
            else:
                out, err = world.attempt(call)
            failed = err is not None
            err = None
            left = [h for h in s.open_handles() if h.owner == 'lib']
            if left:
                return bad('leak', 'the file it opened is still open after it %s' % ('failed' if failed else 'returned'))
            stream = kind not in ('path', 'pathobj', 'bytespath')
            if not stream:
                more = fds() - before
                if more:
                    return bad('leak', 'descriptors still open: %d' % len(more))
                if op != 'save':
                    p = os.fsdecode(os.fspath(obj))
                    with S.real_open(p, 'rb') as g:
                        if g.read() != src_data:
                            return bad('source', 'the source file was modified')
                    if any(h._w for h in s.handles):
                        return bad('source', 'the source file was opened for writing')
            elif getattr(obj, 'closed', False):
                return bad('closed', "the caller's stream was closed")
            elif op == 'save' and not failed:
                a = t.delivered()
                s.faults = {}
                obj.write('<!-- more -->')
                if hasattr(obj, 'flush'):
                    obj.flush()
                if t.delivered() != a + b'<!-- more -->':
                    return bad('unusable', 'after the save the stream does not take a further write as it should')
            elif op == 'load' and not failed and not f.get('fault'):
                _, e1 = world.attempt(obj.seek, 0)
                again, e2 = world.attempt(read_doc, obj, x)
                m = None if e1 or e2 else world.compare(sc, again, cls, st)
                if e1 or e2 or m:
                    return bad('unusable', 'after the load the stream cannot be rewound and loaded again: %s' % (
                        world.exc_text(e1 or e2) if e1 or e2 else m[1]))
            s.close_all()
        res.absorb(s)
        res.stats['%s %s' % (op, 'failed' if failed else 'returned')] += 1
        return s.count if not failed else None


PROP = C13()
