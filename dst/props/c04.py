"""C04  a load depends only on what the document says."""
import random
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS, NS14, NS15, NS16
from c18 import C18


def read_doc(src, x):
    """The load a document of a case asks for."""
    f, _ = world.lib()
    if x['mode'] == 'detect':
        return f(src)
    return f(src, schema(x['top']).map(), x['doc']['ns'])


class C04(C18):
    id = 'C04'
    rule = ('a case loads one to three seeded documents one after another in one process (all versions and profiles; quoting, entities, '
            'CDATA, comments, PIs, DTD entities, prefixes, encodings and white space dealt by seed; each link stated at one end or both; '
            'now and then a damaged document in between), each from a seeded source kind under a seeded device, clock and locale, and '
            'compares each model with what our own schema-driven reading of the case says; every class, attribute and association end '
            'is dealt once per sweep; non-trivial: at least one object; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding']
    parts = [(('docs',), 'list')] + [(('docs', k, 'doc', 'elems'), 'list') for k in range(3)]

    def count(self, tier):
        return self.sweep() * (6 if tier == 'quick' else 60)

    def one_doc(self, rng, top, refs, classes, extra):
        sc = schema(top)
        spec = gen.hub(rng, top, -extra) if extra < 0 else gen.model(
            rng, top, refs, classes, rng.randrange(3) if extra < 100 else extra, extra, pred=lambda r: True)
        mode = 'detect' if top in ('CIM14', 'CIM15') and rng.random() < 0.8 else 'map'
        if mode == 'detect':
            ns = NS14 if top == 'CIM14' else rng.choice([NS15, NS15, NS16, 'http://iec.ch/TC57/CIM-generic', 'urn:x-cim'])
        else:
            ns = rng.choice([sc.ns, sc.ns, NS16, 'http://example.org/profile'])
        doc = gen.doc_of(rng, spec, rng.random(), rng.choice(['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16', 'cp1252']),
                         rng.choice([None, rng.randrange(2**31), rng.randrange(2**31)]), ns=ns)
        if rng.random() < 0.2:
            doc['prdf'] = rng.choice(['r', 'RDF', 'rdfs'])
        if (mode == 'map' or ns in (NS14, NS15, NS16)) and rng.random() < 0.3:
            doc['pcim'] = rng.choice(['', 'c', 'CIM'])
        if rng.random() < 0.15:             # objects introduced by rdf:about
            for e in doc['elems']:
                if rng.random() < 0.5:
                    e['mode'] = 'about'
        if rng.random() < 0.2:
            doc['extra_ns'] = {'ext': 'http://example.org/ext#', 'a': 'http://iec.ch/TC57/2009/CIM-schema-cim14/x'}
        return {'top': top, 'mode': mode, 'spec': spec, 'doc': doc, 'source': rng.choice(world.SOURCES), 'io': gen.io_plan(rng),
                'cut': rng.random() if rng.random() < 0.08 else None}

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top, refs, classes = self.deal(seed, idx)
        docs = [self.one_doc(rng, top, refs, classes, rng.choice([-700, -1500, -4000]) if idx % 150 == 75 else rng.randrange(12) if idx % 200 else 1500)]
        docs[0]['cut'] = None
        for _ in range(rng.choice([0, 0, 1, 2])):
            t = rng.choice(TOPS)
            ok = gen.all_refs(schema(t))
            docs.append(self.one_doc(rng, t, [rng.choice(ok) for _ in range(3)], (), 3))
        rng.shuffle(docs)
        return {'docs': docs, 'same': rng.random() < 0.5, 'half': rng.choice(['map', 'ns']) if rng.random() < 0.1 else None}

    def run(self, case):
        res = Res()
        world.clean_scratch()
        for k, x in enumerate(case['docs']):
            spec = x['spec']
            # a minimised case has fewer elements; the model is what they say
            cls, st = gen.expected(spec) if len(x['doc']['elems']) == len(spec['objs']) else self.subset(spec, x['doc'])
            data = rdf.serialise(x['doc'])
            if x.get('cut') is not None:
                data = data[:int(len(data) * x['cut'])]
            with S.Sim(x['io'], world.scratch()) as s:
                if x['source'] == 'stringio' and x.get('cut') is not None:
                    src = world.source(s, 'bytesio', data)
                else:
                    src = world.source(s, x['source'], data, x['doc']['enc'], name='in%d.xml' % (k if not case.get('same') else 0))
                out, err = world.attempt(read_doc, src, x)
                s.close_all()
            res.absorb(s)
            if x.get('cut') is not None:
                res.stats['fault document:cut'] += 1
                continue
            if case.get('half') and k == 0:
                with S.Sim(x['io'], world.scratch()) as s:
                    src = world.source(s, x['source'], data, x['doc']['enc'])
                    args = (schema(x['top']).map(), None) if case['half'] == 'map' else (None, x['doc']['ns'])
                    half, e2 = world.attempt(world.lib()[0], src, *args)
                    s.close_all()
                if e2 is None:
                    res.fail('half', 'a load given only the %s returned a model of %s objects' % (case['half'], len(half)))
                    return res
            if err is not None:
                res.fail('load', 'document %d (%s, %s, %s) failed to load: %s' % (k, x['top'], x['source'], x['doc']['enc'], world.exc_text(err)))
                return res
            bad = world.compare(schema(x['top']), out, cls, st)
            if bad:
                res.fail(bad[0], 'document %d (%s): %s' % (k, x['top'], bad[1]))
                return res
            res.stats['objects'] += len(cls)
            res.stats['ns ' + x['doc']['ns']] += 1
        return res

    def subset(self, spec, doc):
        ids = {e['id'] for e in doc['elems']}
        full = dict(spec, objs=[o for o in spec['objs'] if o[0] in ids],
                    links=[l for l in spec['links'] if self.stated(spec, doc, l, ids)])
        return gen.expected(full)

    def stated(self, spec, doc, l, ids):
        """Does the reduced document still state this link?"""
        a, n, b = l
        if a not in ids or b not in ids:
            return False
        sc = schema(spec['top'])
        cls = {o[0]: o[1] for o in spec['objs']}
        r = sc.refs[cls[a]][n]
        q = sc.inverse(r)
        names = {n, 'LineSegments'} | ({q.name} if q else set())
        for e in doc['elems']:
            if e['id'] in (a, b):
                for p in e['props']:
                    if p[0] == 'r' and p[2] in names and p[3] == (b if e['id'] == a else a):
                        return True
        return False


PROP = C04()
