"""C18  the saved document, read by an independent RDF/XML reader."""
import random
import sim as S, gen, world, saved
from base import Prop, Res
from meta import schema, TOPS
from c01 import C01


class C18(C01):
    id = 'C18'
    rule = ('a run builds a seeded model (any links, every class and every association end dealt once per sweep), saves it to one '
            'kind of target in one encoding under a seeded locale and device shape, and interprets the bytes with an expat-based '
            'reader of our own and the frozen schema; non-trivial: at least one object; distinct by event trace')
    real = ['PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding']
    parts = [(('spec',), 'model'), (('io',), 'dict')]

    def __init__(self):
        self.refs = [(t, r) for t in TOPS for r in gen.all_refs(schema(t))]
        self.classes = [(t, c) for t in TOPS for c in schema(t).names]

    def count(self, tier):
        return self.sweep() * (7 if tier == 'quick' else 60) + (60 if tier == 'quick' else 2000)

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        n = self.sweep() * (7 if tier == 'quick' else 60)
        any_link = lambda r: True
        if idx < n:
            top, refs, classes = self.deal(seed, idx)
            spec = gen.model(rng, top, refs, classes, rng.randrange(3), rng.randrange(12), pred=any_link)
        else:
            top = rng.choice(['CIM14', 'CIM15', 'CIM15', rng.choice(TOPS)])
            k = rng.choice([0, 1, 40, 300, 1500])
            ok = gen.all_refs(schema(top))
            spec = gen.model(rng, top, [rng.choice(ok) for _ in range(k // 4)], (), k // 2, k,
                             hard=rng.random() < 0.5, p_attr=0.2, pred=any_link)
        return {'spec': spec, 'ctor': rng.random() < 0.3, 'enc': rng.choice(world.ENCODINGS),
                'target': rng.choice(world.TARGETS), 'io': gen.io_plan(rng), 'keys': gen.keys_of(rng),
                'part': rng.random() if rng.random() < 0.15 else None}

    def run(self, case):
        res = Res()
        world.clean_scratch()
        cls, st = gen.expected(case['spec'])
        try:
            d = gen.build(case['spec'], case.get('ctor'))
        except Exception as e:
            res.fail('build', 'building the model raised ' + world.exc_text(e))
            return res
        if case.get('part') is not None:        # some of the objects only; references lead out of the document
            keep = [i for i in cls if gen.seed_of('part', case['part'], i) % 3]
            d, cls = {i: d[i] for i in keep}, {i: cls[i] for i in keep}
        d = gen.rekey(d, case.get('keys'))
        with S.Sim(case['io'], world.scratch()) as s:
            t = world.Target(s, case['target'], case['enc'])
            try:
                world.write(d, t.arg, case['enc'])
            except Exception as e:
                res.fail('save', 'saving raised ' + world.exc_text(e))
                return res
            finally:
                res.absorb(s)
            data = t.delivered()
            s.close_all()
        bad = saved.check(data, case['spec']['top'], cls, st, case['enc'])
        if bad:
            res.fail(*bad)
        res.stats['objects'] += len(cls)
        return res

    def probe(self):
        return []


PROP = C18()
