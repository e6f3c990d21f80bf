"""C08  element order and splitting into parts do not change the model."""
import random
import sim as S, gen, rdf, world
from base import Prop, Res, cut_model, put
from meta import schema, TOPS, NS15, NS16
from c18 import C18


class C08(C18):
    id = 'C08'
    rule = ('a case deals the statements of one seeded model over one to four documents loaded one after another into one collection '
            '(each object defined once, by rdf:ID or now and then by rdf:about, described further by rdf:about anywhere in the same or later parts, elements and properties in '
            'seeded order, each part from its own source kind and device), and compares the collection after every part with what the '
            'parts so far say, and the objects with those of before by identity; non-trivial: at least one object; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock']
    parts = [(('spec',), 'model'), (('io',), 'dict'), (('n',), 'drop')]

    def count(self, tier):
        return self.sweep() * (6 if tier == 'quick' else 60)

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top, refs, classes = self.deal(seed, idx)
        spec = gen.model(rng, top, refs, classes[:4], rng.randrange(3) if idx % 200 else 1200, rng.randrange(16) if idx % 200 else 1500, pred=lambda r: True)
        if idx % 150 == 75:
            spec = gen.hub(rng, top, rng.choice([700, 1500, 3000]))
        return {'spec': spec, 'n': rng.choice([1, 2, 2, 3, 4]), 'dseed': rng.randrange(2**31), 'io': gen.io_plan(rng)}

    def run(self, case):
        res = Res()
        world.clean_scratch()
        spec = case['spec']
        sc = schema(spec['top'])
        rng = random.Random(case['dseed'])
        n = case.get('n') or 1
        cls = {o[0]: o[1] for o in spec['objs']}
        # where each object is defined, and where each statement is made; seeded by name, so that minimising keeps the rest in place
        def pick(*what):
            return random.Random(gen.seed_of(case['dseed'], *what))
        part = {i: pick('o', i).randrange(n) for i in cls}
        elems = [{} for _ in range(n)]
        attrs_at = {i: [{} for _ in range(n)] for i in cls}
        links_at = [[] for _ in range(n)]

        def say(k, i, p, r):
            e = elems[k]
            slot = 0 if k > part[i] else r.choice([0, 0, 1, 2])       # several descriptions of one object
            e.setdefault((i, slot), []).append(p)
        for i, c, attrs in spec['objs']:
            elems[part[i]].setdefault((i, 0), [])
            for a, v in sorted(attrs.items()):
                r = pick('a', i, a)
                p = gen.attr_prop(r, sc, c, a, v)
                if p is None:
                    continue
                k = part[i] if r.random() < 0.6 else r.randrange(part[i], n)
                say(k, i, p, r)
                attrs_at[i][k][a] = v
        for l in spec['links']:
            r = pick('l', *l)
            at = []
            for i, p in gen.link_props(r, sc, cls, l, 0.4):
                k = r.randrange(max(part[l[0]], part[l[2]]), n)
                say(k, i, p, r)
                at.append(k)
                if r.random() < 0.15:               # saying it again changes nothing
                    say(r.randrange(k, n), i, p, r)
            links_at[min(at)].append(l)
        d = {} if pick('start').random() < 0.5 else None
        have = {}
        said_a = {i: {} for i in cls}
        said_l = []
        for k in range(n):
            r = pick('p', k)
            es = []
            for (i, slot), ps in elems[k].items():
                r.shuffle(ps)
                es.append({'cls': cls[i], 'id': i, 'mode': 'ID' if part[i] == k and slot == 0 and pick('m', i).random() < 0.85 else 'about', 'props': ps})
            r.shuffle(es)
            ns = sc.ns if spec['top'] != 'CIM15' else r.choice([NS15, NS15, NS16])
            doc = {'ns': ns, 'enc': r.choice(['utf-8', 'utf-8', 'utf-16']), 'style': r.choice([None, r.randrange(2**31)]), 'elems': es}
            data = rdf.serialise(doc)
            kind = r.choice(world.SOURCES)
            with S.Sim(case['io'], world.scratch()) as s:
                src = world.source(s, kind, data, doc['enc'], name='part%d.xml' % k)
                out, err = world.attempt(world.read, src, sc, d)
                s.close_all()
            res.absorb(s)
            what = 'part %d of %d' % (k + 1, n)
            if err is not None:
                res.fail('load', '%s failed to load: %s' % (what, world.exc_text(err)))
                return res
            for i in cls:
                said_a[i].update(attrs_at[i][k])
            said_l += links_at[k]
            sofar = {'top': spec['top'], 'objs': [[i, c, said_a[i]] for i, c, _ in spec['objs'] if part[i] <= k], 'links': list(said_l)}
            wc, ws = gen.expected(sofar)
            if d is not None and out is not d:
                m = world.compare(sc, d, wc, ws)
                if m:
                    res.fail('collection', 'after %s, in the collection passed in: %s' % (what, m[1]))
                    return res
            m = world.compare(sc, out, wc, ws)
            if m:
                res.fail(m[0], 'after %s: %s' % (what, m[1]))
                return res
            for i, o in have.items():
                if out[i] is not o:
                    res.fail('identity', 'after %s, %s %r is another object than before' % (what, cls[i], i))
                    return res
            have = dict(out)
            d = out
        res.stats['objects'] += len(cls)
        res.stats['parts'] += n
        return res


PROP = C08()
