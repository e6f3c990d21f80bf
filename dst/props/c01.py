"""C01  save + load round trip."""
import os, random
import sim as S, gen, world
from base import Prop, Res
from meta import schema, TOPS, special, same

SITES = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'known_sites_C01.txt')


class C01(Prop):
    id = 'C01'
    rule = ('a run builds a seeded model, saves it to one kind of target in one encoding under a seeded device shape, '
            'loads it back through one kind of source and compares everything; decks deal every class (all attributes) and '
            'every serialisable association end at least once per sweep; non-trivial: at least one object; distinct by event trace')
    real = ['PyCIM.RDFXMLWriter', 'PyCIM.RDFXMLReader', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding']
    parts = [(('spec',), 'model'), (('io',), 'dict'), (('rio',), 'dict')]

    def __init__(self):
        refs, classes = [], []
        for t in TOPS:
            sc = schema(t)
            ok = gen.serialisable(sc)
            refs += [(t, r) for r in gen.all_refs(sc, ok)]
            classes += [(t, c) for c in sc.names]
        self.refs, self.classes = refs, classes

    def decks(self, seed):
        # dealt per version: items of one deal share a version
        d = []
        for t in TOPS:
            rs = [r for u, r in self.refs if u == t]
            cs = [c for u, c in self.classes if u == t]
            d.append((t, gen.Decks(rs, '%s-r-%s' % (seed, t), 10), gen.Decks(cs, '%s-c-%s' % (seed, t), 8)))
        sizes = [max(a.size, b.size) for _, a, b in d]
        return d, sizes

    def deal(self, seed, idx):
        d, sizes = self.decks(seed)
        total = sum(sizes)
        rnd, k = divmod(idx, total)
        for (t, a, b), n in zip(d, sizes):
            if k < n:
                return t, a.deal(rnd * a.size + k % a.size), b.deal(rnd * b.size + k % b.size)
            k -= n

    def sweep(self):
        return sum(self.decks(0)[1])

    def count(self, tier):
        return self.sweep() * (6 if tier == 'quick' else 40) + (200 if tier == 'quick' else 1500)

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        n = self.sweep() * (3 if tier == 'quick' else 40)
        if idx < n:
            top, refs, classes = self.deal(seed, idx)
            spec = gen.model(rng, top, refs, classes, rng.randrange(3), rng.randrange(12))
        else:                                       # a few big models of one version
            top = rng.choice(['CIM14', 'CIM15', 'CIM15', rng.choice(TOPS)])
            k = rng.choice([0, 1, 40, 300, 1500])
            sc = schema(top)
            if self.count(tier) - idx <= (4 if tier == 'quick' else 20):       # and huge ones of a few plain classes
                k = rng.choice([9000, 12000, 30000]) if idx % 4 else 70000
                plain = sorted(sc.names, key=lambda c: (len(sc.attrs[c]) + len(sc.refs[c]), c))[:12]
                names = [rng.choice(plain) for _ in range(4)]
                b = gen.Builder(rng, top, False, rng.choice([0, 1]))
                for _ in range(k):
                    b.obj(rng.choice(names), 0.1)
                r = rng.choice(gen.all_refs(sc, gen.serialisable(sc)))
                ends = gen.pair_for(rng, sc, r)
                hub = b.obj(ends[1], 0) if ends and rng.random() < 0.6 else None     # one long list, or many short ones
                for _ in range(1500 if ends else 0):
                    b.link(b.obj(ends[0], 0), r, hub or b.obj(ends[1], 0))
                return self.rest(rng, b.spec(), True)
            ok = gen.all_refs(sc, gen.serialisable(sc))
            refs = [rng.choice(ok) for _ in range(k // 4)]
            spec = gen.model(rng, top, refs, (), k // 2, k, hard=rng.random() < 0.5, p_attr=0.2)
        return self.rest(rng, spec)

    def rest(self, rng, spec, huge=False):
        return {'spec': spec, 'ctor': rng.random() < 0.3, 'enc': rng.choice(world.ENCODINGS),
                'target': rng.choice(world.TARGETS), 'source': rng.choice(world.SOURCES), 'keys': gen.keys_of(rng),
                'io': {} if huge else gen.io_plan(rng), 'rio': {} if huge else gen.io_plan(rng)}

    def run(self, case):
        res = Res()
        sc = schema(case['spec']['top'])
        world.clean_scratch()
        cls, st = gen.expected(case['spec'])
        try:
            d = gen.build(case['spec'], case.get('ctor'))
        except Exception as e:
            res.fail('build', 'building the model raised ' + world.exc_text(e))
            return res
        enc = case['enc']
        d = gen.rekey(d, case.get('keys'))
        with S.Sim(case['io'], world.scratch()) as s:
            t = world.Target(s, case['target'], enc)
            try:
                world.write(d, t.arg, enc)
            except Exception as e:
                res.fail('save', 'saving raised ' + world.exc_text(e))
                return res
            finally:
                res.absorb(s)
            data = t.delivered()
            s.close_all()
        with S.Sim(case['rio'], world.scratch()) as s:
            src = world.source(s, case['source'], data, enc)
            try:
                e = world.read(src, sc)
            except Exception as x:
                res.fail('load', 'loading the saved document raised ' + world.exc_text(x))
                return res
            finally:
                res.absorb(s)
            s.close_all()
        bad = world.compare(sc, e, cls, st)
        if bad:
            res.fail(*bad)
        res.stats['objects'] += len(cls)
        res.stats['links'] += len(case['spec']['links'])
        return res

    # ---- known finding: lists without a single-valued end are not written
    def lost_refs(self):
        """-> {ref: what happened} for every many-to-many or one-ended list reference a save and load loses."""
        out = {}
        for t in TOPS:
            sc = schema(t)
            ok = gen.serialisable(sc)
            for r in gen.all_refs(sc, lambda r: not ok(r)):
                rng = random.Random(gen.seed_of('probe', r.key))
                p = gen.pair_for(rng, sc, r)
                if p is None:
                    continue
                spec = {'top': t, 'objs': [['a', p[0], {}], ['b', p[1], {}]], 'links': [['a', r.name, 'b']]}
                res = self.run({'spec': spec, 'enc': 'utf-8', 'target': 'stringio', 'source': 'bytesio', 'io': {}, 'rio': {}})
                if res.viol:
                    v = res.viol[0]
                    q = sc.inverse(r)
                    lost = v['key'] in ('state:' + r.name, 'state:' + (q.name if q else r.name)) and 'is [], expected [' in v['msg']
                    out[r.key] = 'lost' if lost else v['msg']
        return out

    def probe(self):
        with S.real_open(SITES, encoding='utf-8') as f:
            sites = set(f.read().split())
        out = self.lost_refs()
        known = sorted(k for k in out if k in sites and out[k] == 'lost')
        fresh = sorted(k for k in out if k not in known)
        ans = [('many-refs-not-written', bool(known), '%d many-to-many or one-ended list references are not written' % len(known))]
        for k in fresh[:3]:
            ans.append(('ref-not-kept:' + k, True, 'a link %s does not survive save and load: %s' % (k, out[k])))
        return ans


PROP = C01()
