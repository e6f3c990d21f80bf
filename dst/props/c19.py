"""C19  loading holds a bounded part of the document in memory, and nothing of it afterwards."""
import gc, random, re
import xml.etree.ElementTree as ET
import sim as S, gen, rdf, world
from base import Prop, Res, list_cuts
from meta import schema, TOPS
from c04 import read_doc

ELEMENT = type(ET.Element('x'))
WINDOW = 96 * 1024              # of the document; real readers take 16 to 64 KiB at a time
SHAPES = ['known', 'unknown', 'foreign', 'about', 'absent', 'mixed', 'dull']


def live():
    gc.collect()
    return sum(type(o) is ELEMENT for o in gc.get_objects())


class C19(Prop):
    id = 'C19'
    rule = ('a case loads one long seeded document (known, unknown, foreign, rdf:about elements, references to absent '
            'objects, in seeded mixture) through a seeded source, counts the document elements alive at some forty seeded reads of each load, '
            'and again after the load has returned, after loads that failed at seeded reads, and after a repeated load; '
            'non-trivial: at least 2000 elements; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack', 'garbage collector']
    stub = ['raw device', 'clock']
    parts = [(('io',), 'dict'), (('fails',), 'list')]

    def shrink(self, case):
        for c in Prop.shrink(self, case):
            yield c
        if case['n'] > 4000:
            yield dict(case, n=case['n'] // 2)

    def count(self, tier):
        return 140 if tier == 'quick' else 3000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        io = {'buf': rng.choice([512, 8192, 65536]), 'tchunk': rng.choice([256, 8192])}
        if rng.random() < 0.6:
            io['rchunk'] = [rng.choice([500, 4095, 16384]) for _ in range(rng.randrange(1, 4))]
        return {'shape': SHAPES[idx % len(SHAPES)], 'top': rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)]), 'n': rng.choice([11000, 16000]),
                'dseed': rng.randrange(2**31), 'enc': rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'utf-16']), 'io': io,
                'source': rng.choice(world.SOURCES), 'start': rng.random() < 0.3,
                'fails': [{'kind': rng.choice(['read', 'read', 'seek', 'open']), 'at': rng.random(), 'err': rng.choice(['EIO', 'INT', 'MEM'])}
                          for _ in range(2)]}

    def doc(self, case):
        """About n document elements."""
        rng = random.Random(case['dseed'])
        sc = schema(case['top'])
        shape = case['shape']
        names = [c for c in sc.names if len(sc.attrs[c]) >= 2]
        pool = rng.sample(names, min(len(names), 6))
        rows = []
        for c in pool:
            at = sorted(sc.attrs[c])
            rs = [r for _, r in sorted(sc.refs[c].items()) if not r.many and sc.inverse(r) is None]
            rows.append((c, at, rs))
        elems, size, k = [], 0, 0
        while size < case['n']:
            x = shape if shape != 'mixed' else rng.choice(['known', 'unknown', 'foreign', 'about', 'absent', 'dull'])
            c, at, rs = rng.choice(rows)
            i = 'o%d' % k
            props = []
            for n in rng.sample(at, min(len(at), rng.randrange(1, 7))):
                p = gen.attr_prop(rng, sc, c, n, gen.value(rng, sc.attrs[c][n], False))
                if p:
                    props.append(p)
            if x == 'known':
                elems.append({'cls': c, 'id': i, 'mode': 'ID', 'props': props})
            elif x == 'unknown':
                elems.append({'cls': 'Quux%d' % rng.randrange(3), 'id': i, 'mode': rng.choice(['ID', 'about']), 'props': props})
            elif x == 'foreign':
                elems.append({'raw': '<ext:Thing rdf:ID="%s">%s</ext:Thing>' % (i, '<ext:p><ext:q a="1">t</ext:q></ext:p>' * rng.randrange(1, 4))})
                props = [0] * 6
            elif x == 'about':
                if k % 20:
                    elems.append({'cls': c, 'id': 'a%d' % pool.index(c), 'mode': 'about', 'props': props})
                else:
                    elems.append({'cls': c, 'id': i, 'mode': 'about', 'props': props})
            elif x == 'absent':
                r = rng.choice(rs) if rs else None
                props += [['r', r.owner, r.name, 'gone'] if r else ['r', c, 'Nonsense', 'gone']] * 3
                elems.append({'cls': c, 'id': i, 'mode': 'ID', 'props': props})
            else:       # stray properties outside any object, and empty objects
                elems.append(rng.choice([{'cls': c, 'id': i, 'mode': 'ID', 'props': []}, {'raw': '<cim:IdentifiedObject.name>n</cim:IdentifiedObject.name>'}]))
            size += 1 + len(props)
            k += 1
        first = [{'cls': c, 'id': 'a%d' % n, 'mode': 'ID', 'props': []} for n, c in enumerate(pool)]
        d = {'ns': sc.ns, 'enc': case['enc'], 'style': None, 'elems': first + elems, 'extra_ns': {'ext': 'http://example.org/ext#'}}
        return {'top': case['top'], 'mode': 'map', 'doc': d}

    def run(self, case):
        res = Res()
        world.clean_scratch()
        x = self.doc(case)
        data = rdf.serialise(x['doc'])
        x['doc'] = dict(x['doc'], elems=None)
        text = data.decode(case['enc'])
        size = len(re.findall('<[a-zA-Z]', text))
        # the document is uniform: the densest window holds this many, with room for one object
        starts = [m.start() for m in re.finditer('<[a-zA-Z]', text)]
        w, lo, dense = WINDOW // (2 if case['enc'] == 'utf-16' else 1), 0, 0
        for hi, p in enumerate(starts):
            while p - starts[lo] > w:
                lo += 1
            dense = max(dense, hi - lo + 1)
        del starts, text
        bound = dense + 200
        res.stats['document elements'] += size
        if size < 2 * bound:
            res.stats['document too short'] += 1
            return res
        base = live()

        def load(plan, start=None, every=None):
            peak = [0]
            with S.Sim(dict(case['io'], **plan), world.scratch()) as s:
                src = world.source(s, case['source'], data, case['enc'])
                if every:
                    op, seen = s.op, [0]

                    def watched(kind, *a, **k):
                        if kind == 'read':
                            seen[0] += 1
                            if seen[0] % every == 0:
                                peak[0] = max(peak[0], live() - base)
                        return op(kind, *a, **k)
                    s.op = watched
                out, err = world.attempt(self.read, src, x, start)
                n = len(out) if isinstance(out, dict) else None
                s.op = None if not every else op
                src = None
                s.close_all()
            res.absorb(s)
            return peak[0], n, err, s

        start = {} if case['start'] else None
        _, n, err, s0 = load({}, None)
        if err is not None:
            res.fail('load', 'the load raised ' + world.exc_text(err))
            return res
        left = live() - base
        if left:
            res.fail('left', '%d of %d document elements are still in memory after the load' % (left, size))
            return res
        every = max(1, s0.count['read'] // 60)
        peak, n2, err, _ = load({}, start, every)
        start = None
        if err is not None or n2 != n:
            res.fail('again', 'the second load %s' % (world.exc_text(err) if err is not None else 'has %s objects, the first %s' % (n2, n)))
            return res
        res.stats['peak elements'] += peak
        if peak > bound:
            res.fail('peak', '%d document elements in memory at once, of %d in the document (shape %s); a window of %d KiB has %d' % (
                peak, size, case['shape'], WINDOW // 1024, dense))
            return res
        for f in case['fails']:
            c = s0.count[f['kind']]
            if not c:
                continue
            _, _, err, s = load({'faults': [{'kind': f['kind'], 'n': int(f['at'] * c), 'err': f['err']}]})
            hit = world.real_faults(s)
            err = None
            left = live() - base
            if hit and left:
                res.fail('left', '%d document elements are still in memory after a load that failed with %s' % (left, hit))
                return res
        return res

    def read(self, src, x, start):
        f, _ = world.lib()
        sc = schema(x['top'])
        return f(src, sc.map(), x['doc']['ns']) if start is None else f(src, sc.map(), x['doc']['ns'], start)


PROP = C19()
