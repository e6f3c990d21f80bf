"""C09  unknown or missing content is skipped and reported without harming the rest."""
import logging, random, re
from xml.sax.saxutils import quoteattr
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS, NS14, NS15, NS16
from c18 import C18

NAMES = ['Quux', 'ReactiveLimit', 'TopologicalIsle', 'PowerTransformerTank', 'Zzz', 'BasicIntervalSchedul', 'breaker', 'Terminal2']
PROPS = ['quux', 'nominalVoltag', 'Frobs', 'inService2', 'Nam', 'fooBar', 'x9']
INNER = ['UUID', 'UUID', '_attrs', '_refs', '_defaults', '_enums', '_many_refs', '__init__', '__class__', '__dict__', '__doc__', '__module__', '__eq__', '__weakref__', 'mro']


class C09(C18):
    id = 'C09'
    rule = ('a case loads a seeded document from which a seeded part of the elements is lost and to which seeded content this version does '
            'not know is added in seeded places (unknown classes, unknown properties, references to absent objects or to nothing in the document, elements, properties '
            'and attributes of foreign namespaces), twice in one process, and compares the model with that of the document without them; '
            'the log of each load is searched for every unknown class, unknown property, absent target and CIM version, and has to be clean without any; '
            'non-trivial: at least one unknown or missing item; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack', 'logging']
    stub = ['raw device', 'clock', 'log handler']
    parts = [(('junk',), 'list'), (('spec',), 'model'), (('lost',), 'list'), (('io',), 'dict')]

    def count(self, tier):
        return self.sweep() * (6 if tier == 'quick' else 60)

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top, refs, classes = self.deal(seed, idx)
        sc = schema(top)
        spec = gen.model(rng, top, refs, classes[:3], rng.randrange(3), rng.randrange(12), pred=lambda r: True,
                         idkind=rng.choice([0, 1, 2, 4, 5]))
        ids = [o[0] for o in spec['objs']]
        cls = {o[0]: o[1] for o in spec['objs']}
        lost = [i for i in ids if rng.random() < rng.choice([0, 0.1, 0.4])] if rng.random() < 0.7 else []
        junk = []
        many = [0.1, 0.3, 0.6, 0.75, 0.8, 0.9][idx // 150 % 6] if idx % 150 == 0 else None     # mostly of one kind
        for k in range(rng.choice([0, 1, 3, 6, 12]) if many is None else 1300):
            x = rng.random() if many is None or rng.random() < 0.2 else many
            name = rng.choice(NAMES) + (rng.choice(['', str(k)]) if many is None else str(k))
            if name in sc.raw:
                continue
            if x < 0.25:
                ps = []
                for _ in range(rng.randrange(4)):
                    ps.append(rng.choice([['v', 'IdentifiedObject', 'name', 'n'], ['v', name, rng.choice(PROPS), gen.text(rng)],
                                          ['r', name, 'Ref', rng.choice(ids) if ids else 'gone'], ['e', name, 'kind', 'K', 'l'],
                                          ['x', '<ext:a>t</ext:a>']]))
                junk.append(['class', name, 'unk%d' % k, rng.choice(['ID', 'ID', 'about']), ps])
            elif x < 0.5 and ids:
                i = rng.choice(ids)
                y = rng.random()
                if y < 0.5:
                    p = rng.choice(PROPS) + rng.choice(['', str(k)])
                elif y < 0.75:      # of a class that has nothing to do with this one
                    p = rng.choice(sorted(sc.attrs[rng.choice(sc.names)]) or PROPS)
                else:               # what its objects have for other purposes
                    own = sorted(r for r in sc.refs[cls[i]] if '-' not in r) or ['Names']
                    p = rng.choice(INNER + [b + rng.choice(own) for b in ('get', 'set', 'add', 'add_', 'remove', 'remove_', '_')])
                if p not in sc.attrs[cls[i]] and p not in sc.refs[cls[i]]:
                    o = rng.choice([cls[i], 'IdentifiedObject', 'Other'])
                    junk.append(['prop', i, rng.choice([['v', o, p, gen.text(rng)], ['r', o, p, rng.choice(ids)], ['r', o, p, 'gone%d' % k],
                                                        ['e', o, p, 'Kind', 'lit'], ['x', '<cim:%s.%s><ext:b>t</ext:b></cim:%s.%s>' % (o, p, o, p)]]), p])
            elif x < 0.7 and ids:
                i = rng.choice(ids)
                rs = [r for r in sc.refs[cls[i]].values() if r.name not in ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance') and '-' not in r.name]
                if rs:
                    r = rng.choice(sorted(rs, key=lambda r: r.key))
                    junk.append(['absent', i, ['r', r.owner, r.name, 'gone %d' % k if rng.random() < 0.3 else 'gone%d' % k]])
            elif x < 0.78 and ids:          # a known property that names nothing it could be set to
                i = rng.choice(ids)
                rs = sorted((r for r in sc.refs[cls[i]].values() if '-' not in r.name), key=lambda r: r.key)
                es = sorted(a for a in sc.attrs[cls[i]])
                if rs and rng.random() < 0.8:
                    r = rng.choice(rs)
                    t = rng.choice(['', '\n', ' ', 'x', gen.text(rng), ids[0]])
                    u = rng.choice(['', 'http://example.org/other.xml#_1', 'urn:uuid:4f', 'other.xml#%s' % ids[0], 'http://example.org/x', ids[0].lstrip('#') + '.', 'http://iec.ch/TC57/2010/CIM-schema-cim15#Kind.lit'])
                    q = rng.choice([['v', r.owner, r.name, t], ['x', '<cim:%s.%s rdf:resource=%s/>' % (r.owner, r.name, quoteattr(u))]])
                    junk.append(['void', i, q, r.name])
                elif es:
                    a = rng.choice(es)
                    junk.append(['void', i, ['x', '<cim:%s.%s rdf:resource="%s"/>' % (sc.attrs[cls[i]][a].owner, a, rng.choice(['', 'urn:k', 'literal']))], a])
            elif x < 0.85:
                junk.append(['raw', rng.choice([
                    '<md:FullModel rdf:about="urn:uuid:%d"><md:Model.created>2010</md:Model.created><md:Model.profile>p</md:Model.profile></md:FullModel>' % k,
                    '<ext:Thing rdf:ID="ext%d"><ext:Thing.name>x</ext:Thing.name><ext:deep><ext:deeper a="1">t</ext:deeper></ext:deep></ext:Thing>' % k,
                    '<ext:empty/>', '<old:Terminal rdf:ID="%s"><old:IdentifiedObject.name>no</old:IdentifiedObject.name></old:Terminal>' % ('old%d' % k),
                    '<ext:Terminal rdf:about="#obj0"><ext:IdentifiedObject.name>no</ext:IdentifiedObject.name></ext:Terminal>',
                    '<rdf:Description rdf:about="http://x"><ext:p>t</ext:p></rdf:Description>'])])
            elif ids:
                i = rng.choice(ids)
                junk.append(['prop', i, ['x', rng.choice([
                    '<ext:IdentifiedObject.name>no</ext:IdentifiedObject.name>', '<old:IdentifiedObject.name>no</old:IdentifiedObject.name>',
                    '<ext:ref rdf:resource="#obj0"/>', '<ext:a><ext:b><ext:c/>t</ext:b></ext:a>', '<ext:x>&amp;</ext:x>'])], None])
        return {'spec': spec, 'lost': lost, 'junk': junk, 'dseed': rng.randrange(2**31), 'io': gen.io_plan(rng),
                'source': rng.choice(world.SOURCES), 'style': rng.choice([None, rng.randrange(2**31)]),
                'other': rng.choice([None, None, None, NS16, 'http://iec.ch/TC57/2031/CIM-schema-cim99', 'urn:x-cim'])}

    def run(self, case):
        res = Res()
        world.clean_scratch()
        spec = case['spec']
        top = spec['top']
        sc = schema(top)
        rng = random.Random(case['dseed'])
        lost = set(case['lost'])
        doc = gen.doc_of(rng, spec, 0.3, 'utf-8', case['style'])
        doc['elems'] = [e for e in doc['elems'] if e['id'] not in lost]
        other = case.get('other') if top == 'CIM15' else None       # a version nobody knows, read as the newest
        if other:
            doc['ns'] = other
        elems = {e['id']: e for e in doc['elems']}
        log = []                # [(what, text a record has to mention)]
        for e in doc['elems']:
            for p in e['props']:
                if p[0] == 'r' and p[3] in lost:
                    log.append(('absent target', p[3]))
        for j in case['junk']:
            if j[0] == 'class':
                doc['elems'].insert(rng.randrange(len(doc['elems']) + 1), {'cls': j[1], 'id': j[2], 'mode': j[3], 'props': j[4]})
                log.append(('unknown class', j[1]))
            elif j[0] == 'raw':
                doc['elems'].insert(rng.randrange(len(doc['elems']) + 1), {'raw': j[1]})
            elif j[1] in elems:
                ps = elems[j[1]]['props']
                ps.insert(rng.randrange(len(ps) + 1), j[2])
                if j[0] == 'absent':
                    log.append(('absent target', j[2][3]))
                elif j[0] == 'void':
                    log.append(('property without a value', j[3]))
                elif j[3]:
                    log.append(('unknown property', j[3]))
        doc['extra_ns'] = {'ext': 'http://example.org/ext#', 'md': 'http://iec.ch/TC57/61970-552/ModelDescription/1#',
                           'old': (NS15 if top.startswith('CIM14') else NS14) + '#'}
        rest = dict(spec, objs=[o for o in spec['objs'] if o[0] not in lost],
                    links=[l for l in spec['links'] if l[0] not in lost and l[2] not in lost])
        cls, st = gen.expected(rest)
        data = rdf.serialise(doc)
        for k in range(2):
            S.LOG.clear()
            with S.Sim(case['io'], world.scratch()) as s:
                src = world.source(s, case['source'], data)
                out, err = world.attempt(world.read, src, None if other else sc)
                s.close_all()
            res.absorb(s)
            res.stats['fault content:lost'] += len(lost)
            for j in case['junk']:
                res.stats['fault content:' + j[0]] += 1
            if err is not None:
                res.fail('load', 'the load raised ' + world.exc_text(err))
                return res
            bad = world.compare(sc, out, cls, st)
            if bad:
                res.fail(*bad)
                return res
            said = [m for lv, m in S.LOG.records if lv >= logging.WARNING]
            if other and other != NS16 and not log and not said:
                res.fail('silent', 'the unknown CIM version %r is not reported in the log (load %d)' % (other, k + 1))
                return res
            if said and not log and (not other or other == NS16):
                res.fail('false report', 'nothing unknown or absent in the document, but the load says %r' % said[:3])
                return res
            words = {w for m in said for w in re.findall(r'\w+', m)}
            for what, text in log:
                if text not in words if re.fullmatch(r'\w+', text) else not any(text in m for m in said):
                    res.fail('silent', 'the %s %r is not reported in the log (load %d)' % (what, text, k + 1))
                    return res
        return res


PROP = C09()
