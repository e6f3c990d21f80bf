"""C17  pretty printing changes nothing but white space between elements."""
import random
import xml.parsers.expat as expat
import sim as S, gen, rdf, world
from base import Prop, Res, list_cuts, put
from meta import schema, TOPS, NS14, NS15, NS16
from c04 import read_doc
from c03 import FERR

KINDS = ['path', 'pathobj', 'binary', 'raw', 'text', 'bytesio', 'stringio']


def tree(rng, depth=0):
    """A random element with mixed content: [name, attrs, [child or text]]"""
    kids = []
    n = rng.choice([0, 0, 1, 2, 3, 5]) if depth < 5 else 0
    for _ in range(n):
        x = rng.random()
        if x < 0.65:
            kids.append(tree(rng, depth + 1))
        elif x < 0.8:
            kids.append(rng.choice([' ', '\n', '  \n\t', '\xa0']))
        else:
            kids.append(rng.choice(PAD) + gen.text(rng, rng.random() < 0.5) + rng.choice(PAD))
    if not n and rng.random() < 0.6:
        kids.append(gen.text(rng))
    return [rng.choice(['a', 'b', 'n:c', 'm:d', 'e.f']), {rng.choice(['k', 'n:k', 'xml:space', 'j']): gen.text(rng) for _ in range(rng.choice([0, 0, 1, 3]))}, kids]


PAD = ['', '', ' ', '\n', '\n\n', '\n  ', '\t']


def xml(t, root=True):
    out = []
    if isinstance(t, str):
        return rdf.esc_text(t)
    at = ''.join(' %s="%s"' % (k, rdf.esc_attr(v, '"')) for k, v in t[1].items())
    if root:
        at += ' xmlns:n="http://n" xmlns:m="http://m#"'
    return '<%s%s>%s</%s>' % (t[0], at, ''.join(xml(k, False) for k in t[2]), t[0])


def differ(a, b):
    """Between two parsed documents; None if they differ in white space between elements at most."""
    todo = [(a, b)]
    while todo:
        x, y = todo.pop()
        if (x.ns, x.name) != (y.ns, y.name):
            return 'element {%s}%s became {%s}%s' % (x.ns, x.name, y.ns, y.name)
        if x.attrs != y.attrs:
            return 'attributes of %s %r became %r' % (x.name, x.attrs, y.attrs)
        if len(x.kids) != len(y.kids):
            return '%s had %d children, has %d' % (x.name, len(x.kids), len(y.kids))
        texts = [(x.text, y.text)] + [(p.tail, q.tail) for p, q in zip(x.kids, y.kids)]
        for s, t in texts:
            if s != t and (s.strip() or t.strip() or not x.kids):
                return 'text in %s was %r, is %r' % (x.name, s[:80], t[:80])
        todo += zip(x.kids, y.kids)
    return None


def ragged(root):
    """Every element stands on its own line, two spaces per level, where only blank text is in the way."""
    todo = [(root, 0)]
    while todo:
        x, depth = todo.pop()
        gaps = [x.text] + [k.tail for k in x.kids] if x.kids else []
        for i, g in enumerate(gaps):
            want = '\n' + '  ' * (depth + (i < len(x.kids)))
            if not g.strip() and g != want:
                return 'in %s (level %d) the gap %d of %d is %r' % (x.name, depth, i, len(gaps), g)
        todo += [(k, depth + 1) for k in x.kids]
    return None


class C17(Prop):
    id = 'C17'
    rule = ('a case pretty-prints one seeded document (CIM documents in all lexical forms, or any XML with mixed content) from several '
            'kinds of source under seeded devices: the output is parsed with our own reader and compared, printed again, loaded and '
            'compared with the model, and the source is compared with before; then cut and zeroed documents and failing sources, which must '
            'raise; non-trivial: at least two elements; distinct by event trace')
    real = ['PyCIM.PrettyPrintXML', 'PyCIM.RDFXMLReader', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding']
    parts = [(('only',), 'list'), (('x', 'doc', 'elems'), 'list'), (('io',), 'dict')]

    def shrink(self, case):
        for c in Prop.shrink(self, case):
            yield c
        if case.get('tree'):
            def cuts(t):
                if isinstance(t, str):
                    for s in list_cuts(t):
                        yield s
                    return
                for ks in list_cuts(t[2]):
                    yield [t[0], t[1], ks]
                for ks in list_cuts(sorted(t[1])):
                    yield [t[0], {k: t[1][k] for k in ks}, t[2]]
                for i, k in enumerate(t[2]):
                    for c in cuts(k):
                        yield [t[0], t[1], t[2][:i] + [c] + t[2][i + 1:]]
            for t in cuts(case['tree']):
                yield dict(case, tree=t)

    def count(self, tier):
        return 1000 if tier == 'quick' else 15000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        case = {'io': gen.io_plan(rng), 'fseed': rng.randrange(2**31)}
        if rng.random() < 0.35:
            case['tree'] = tree(rng)
            case['enc'] = rng.choice(['utf-8', 'iso-8859-1', 'utf-16'])
            return case
        top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
        sc = schema(top)
        n = rng.choice([0, 1, 2, 6, 30])
        ok = gen.all_refs(sc)
        spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, n, pred=lambda r: True)
        mode = 'detect' if top in ('CIM14', 'CIM15') else 'map'
        ns = rng.choice([NS15, NS16]) if top == 'CIM15' else sc.ns
        enc = rng.choice(['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16'])
        case['x'] = {'top': top, 'mode': mode, 'spec': spec,
                     'doc': gen.doc_of(rng, spec, rng.random(), enc, rng.choice([None, rng.randrange(2**31)]), ns=ns)}
        return case

    def data(self, case):
        if case.get('tree'):
            enc = case['enc']
            return ("<?xml version='1.0' encoding='%s'?>\n" % enc + xml(case['tree'])).encode(enc, 'xmlcharrefreplace'), enc
        return rdf.serialise(case['x']['doc']), case['x']['doc']['enc']

    def pp(self, case, kind, data, enc, faults=()):
        with S.Sim(dict(case['io'], faults=list(faults)), world.scratch()) as s:
            src = world.source(s, kind, data, enc)
            out, err = world.attempt(world.xmlpp, src)
            same = True
            if kind in ('path', 'pathobj'):
                with S.real_open(src, 'rb') as f:
                    same = f.read() == data
            s.close_all()
        if isinstance(out, str):
            out = out.encode('utf-8')
        return out, err, s, same

    def run(self, case):
        res = Res()
        world.clean_scratch()
        data, enc = self.data(case)
        rng = random.Random(case['fseed'])
        want = rdf.parse(data)
        # the standard library's parser takes a text stream's declaration at its word, so that has to be the one it decodes
        kinds = rng.sample(KINDS if enc in ('utf-8', 'us-ascii') else [k for k in KINDS if k not in ('text', 'stringio')], 3)
        first = None
        for kind in kinds:
            out, err, s, same = self.pp(case, kind, data, enc)
            res.absorb(s)
            if err is not None:
                res.fail('raises', 'pretty printing from a %s raised %s' % (kind, world.exc_text(err)))
                return res
            if not same:
                res.fail('source', 'pretty printing changed its source')
                return res
            if first is None:
                first, counts, fkind = out, s.count, kind
                try:
                    got = rdf.parse(out)
                except (expat.ExpatError, TypeError) as e:
                    res.fail('malformed', 'the output is not well-formed: %s' % e)
                    return res
                m = differ(want, got)
                if m:
                    res.fail('changed', m)
                    return res
                m = ragged(got)
                if m:
                    res.fail('indentation', m)
                    return res
            elif out != first:
                res.fail('source-kind', 'the output depends on how the source delivers it (%s, %s)' % (kinds[0], kind))
                return res
        again, err, s, _ = self.pp(case, 'bytesio', first, 'utf-8')
        res.absorb(s)
        if err is not None or again != first:
            res.fail('unstable', 'pretty printing the output again %s' % ('raised ' + world.exc_text(err) if err is not None else 'changes it'))
            return res
        if case.get('x'):
            x = case['x']
            if len(x['doc']['elems']) == len(x['spec']['objs']):
                cls, st = gen.expected(x['spec'])
            else:
                from c04 import PROP as c04
                cls, st = c04.subset(x['spec'], x['doc'])
            with S.Sim({}, world.scratch()) as s:
                d, err = world.attempt(read_doc, world.source(s, 'bytesio', first), x)
                s.close_all()
            res.absorb(s, False)
            # an empty document has nothing to tell its version by
            m = ('load', world.exc_text(err)) if err is not None else world.compare(schema(x['top']), d, cls, st)
            if m:
                res.fail('load:' + m[0], 'the pretty-printed document does not load as the same model: ' + m[1])
                return res
        # damage and failures
        end = data.rfind('>'.encode('utf-16-le' if enc == 'utf-16' else enc))
        tail = data.rfind('</'.encode('utf-16-le' if enc == 'utf-16' else enc))
        runs = case.get('only')
        if not runs:
            runs = [{'cut': c} for c in sorted({0, 1, max(0, tail), max(0, tail + 1), *(rng.randrange(tail + 1) for _ in range(6))} if tail > 0 else {0})]
            if enc != 'utf-16' and tail > 0:
                runs += [{'zero': [a, a + rng.choice([1, 64, 4096])]} for a in (rng.randrange(tail + 1) for _ in range(3))]
            for k in ('open', 'read'):
                for n in sorted({0, counts[k] - 1, rng.randrange(max(1, counts[k]))}) if counts[k] else ():
                    runs.append({'faults': [{'kind': k, 'n': n, 'err': rng.choice(FERR[k])}]})
        for f in runs:
            dd, fs, kind = data, f.get('faults', ()), fkind
            if f.get('cut', -1) > end or 'zero' in f and f['zero'][0] > end:
                continue                # a minimised document is shorter
            if 'cut' in f:
                dd = data[:f['cut']]
            if 'zero' in f:
                a, b = f['zero']
                dd = data[:a] + b'\0' * (min(b, len(data)) - a) + data[b:]
            if kind in ('text', 'stringio') and not fs:
                kind = 'bytesio'
            out, err, s, same = self.pp(case, kind, dd, enc, fs)
            res.absorb(s)
            if not same:
                res.fail('source', 'pretty printing changed its source', dict(case, only=[f]))
            elif err is None and ('cut' in f or 'zero' in f or world.real_faults(s)) and not s.dead:
                res.fail('accepted', 'a source with %s was pretty-printed without complaint' % f, dict(case, only=[f]))
            if res.viol:
                return res
        return res


PROP = C17()
