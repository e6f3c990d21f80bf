"""C03  a truncated, torn or unreadable document is never accepted as a model."""
import random
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS

PASSY = ('path', 'pathobj', 'bytespath', 'bytesio')     # sources that can tell one pass from the next
FERR = {'open': ['ENOENT', 'EACCES', 'EMFILE', 'EIO', 'ESTALE', 'INT', 'CRASH', 'EAGAIN', 'ENXIO', 'EXIT'],
        'read': ['EIO', 'ESTALE', 'ETIMEDOUT', 'ECONNRESET', 'INT', 'MEM', 'CRASH', 'EAGAIN'] + sorted(S.ODD),
        'seek': ['EIO', 'ESPIPE', 'EINVAL', 'INT', 'CRASH', 'CLOSED', 'ATTR', 'RUN', 'EOF', 'EXIT']}


def close_of(data, enc):
    """Offset just before the last character of the root element's end tag."""
    end = '</rdf:RDF>'.encode('utf-16-le' if enc == 'utf-16' else enc)
    i = data.rfind(end)
    if i < 0:
        return data.rfind('/>'.encode('utf-16-le' if enc == 'utf-16' else enc))
    return i + len(end) - (2 if enc == 'utf-16' else 1)


class C03(Prop):
    id = 'C03'
    rule = ('a case is a seeded document (our serialiser in all lexical forms, or the library\'s own), source kind and device shape; '
            'one run per seeded damage: end cut off, cut seen by one pass only, region zeroed, number garbled, failing open/read/seek, or the file a '
            'crash left in mid-save; non-trivial: the damage was met; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack']
    stub = ['raw device', 'clock', 'process death']
    parts = [(('only',), 'list'), (('doc', 'elems'), 'list'), (('io',), 'dict'), (('doc', 'style'), 'drop')]

    def count(self, tier):
        return 600 if tier == 'quick' else 12000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
        sc = schema(top)
        n = rng.choice([0, 1, 2, 5, 12, 40]) if idx % 150 else 700
        ok = gen.all_refs(sc, gen.serialisable(sc))
        spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n // 2)], (), n - n // 2, n, hard=rng.random() < 0.4)
        enc = rng.choice(['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16'])
        style = rng.choice([None, rng.randrange(2**31)])
        case = {'top': top, 'spec': spec, 'doc': gen.doc_of(rng, spec, rng.random(), enc, style),
                'source': rng.choice(world.SOURCES), 'io': gen.io_plan(rng), 'fseed': rng.randrange(2**31),
                'crash_save': idx % 4 == 0}
        if not case['crash_save']:
            case['spec'] = {'top': top, 'objs': [], 'links': []}
        return case

    def choose(self, case, counts, data, rng):
        enc = case['doc']['enc']
        end = close_of(data, enc)
        out = []
        cuts = {0, 1, end, end - 1, max(0, end - 9), max(0, end - 10), max(0, end - 11)}
        while len(cuts) < 14:
            cuts.add(rng.randrange(end + 1))
        for c in sorted(x for x in cuts if x >= 0):
            out.append({'cut': c})
        if enc != 'utf-16':
            for _ in range(6):
                a = rng.randrange(end)
                out.append({'zero': [a, min(end + 1, a + rng.choice([1, 2, 16, 512, 4096]))]})
            out.append({'zero': [end, end + 1]})
        if case['source'] in PASSY:
            for p in (0, 1, 2):
                for c in (0, rng.randrange(end + 1), end):
                    out.append({'pass': p, 'at': c})
        kinds = [k for k in ('open', 'read', 'seek') if counts[k]]
        pts = []
        for k in kinds:
            pts += [(k, n) for n in (range(counts[k]) if counts[k] <= 6 else sorted({0, 1, counts[k] - 1, counts[k] - 2, *(rng.randrange(counts[k]) for _ in range(5))}))]
        sc = schema(case['top'])
        nums = [(i, j) for i, e in enumerate(case['doc']['elems']) for j, p in enumerate(e['props'])
                if p[0] == 'v' and p[2] in sc.attrs[e['cls']] and sc.attrs[e['cls']][p[2]].typ in ('float', 'int')]
        for i, j in rng.sample(nums, min(3, len(nums))):
            out.append({'rot': [i, j, rng.choice(['x', '1.2.3', '12abc', '--1', '0x1F', '1,5', '1 2', 'e5', '?', '1.5m'])]})
        for k, n in pts:
            out.append({'faults': [{'kind': k, 'n': n, 'err': rng.choice(FERR[k])}]})
        return out

    def load(self, case, data, plan, kind=None):
        sc = schema(case['top'])
        with S.Sim(dict(case['io'], **plan), world.scratch()) as s:
            src = world.source(s, kind or case['source'], data, case['doc']['enc'])
            out, err = world.attempt(world.read, src, sc)
            s.close_all()
        return out, err, s

    def run(self, case):
        res = Res()
        world.clean_scratch()
        data = rdf.serialise(case['doc'])
        out, err, s = self.load(case, data, {})
        res.absorb(s)
        if err is not None:
            res.stats['intact document refused'] += 1       # C04's business
            return res
        end = close_of(data, case['doc']['enc'])
        for f in case.get('only') or self.choose(case, s.count, data, random.Random(case['fseed'])):
            if 'crash' in f:
                continue
            plan, dd, kind = {}, data, case['source']
            if f.get('cut', -1) > end or 'zero' in f and f['zero'][0] > end:
                continue                # a minimised document is shorter
            if 'cut' in f:
                dd = data[:f['cut']]
            elif 'zero' in f:
                a, b = f['zero']
                dd = data[:a] + b'\0' * (b - a) + data[b:]
            elif 'rot' in f:
                i, j, text = f['rot']
                es = list(case['doc']['elems'])
                if i >= len(es) or j >= len(es[i]['props']) or es[i]['props'][j][0] != 'v':
                    continue
                a = schema(case['top']).attrs[es[i]['cls']].get(es[i]['props'][j][2])
                if a is None or a.typ not in ('float', 'int'):
                    continue
                ps = list(es[i]['props'])
                ps[j] = ps[j][:3] + [text]
                es[i] = dict(es[i], props=ps)
                dd = rdf.serialise(dict(case['doc'], elems=es))
                res.stats['fault document:garbled number'] += 1
            elif 'pass' in f:
                plan = {'cut': {str(f['pass']): f['at']}}
            else:
                plan = {'faults': f['faults']}
            if kind in ('text', 'stringio') and ('cut' in f or 'zero' in f):
                try:
                    dd.decode(case['doc']['enc'])
                except UnicodeError:
                    if kind == 'stringio':
                        continue
            out, err, s = self.load(case, dd, plan)
            res.absorb(s)
            met = 'cut' in f or 'zero' in f or 'rot' in f or s.cut_met or any(not k.endswith((':short', ':jump', ':truncated')) for k in s.fired)
            if 'cut' in f:
                res.stats['fault document:cut'] += 1
            if 'zero' in f:
                res.stats['fault document:zeroed'] += 1
            if not met or s.dead and err is not None and isinstance(err, S.SimCrash):
                continue
            if err is None:
                what = 'a document of %d bytes cut to %d' % (len(data), f['cut']) if 'cut' in f else \
                    'a document with bytes %d-%d zeroed' % tuple(f['zero']) if 'zero' in f else \
                    'a document that says %r where a number belongs' % f['rot'][2] if 'rot' in f else \
                    'a source that ends after %d of %d bytes in pass %d' % (f['at'], len(data), f['pass']) if 'pass' in f else \
                    'a source with %s' % sorted(k for k in s.fired if not k.endswith((':short', ':jump')))
                if 'pass' in f and f['pass'] == 0 and f['at'] > 0:
                    # detection may not have needed the missing part
                    continue
                n = len(out) if isinstance(out, dict) else -1
                res.fail('accepted', 'loading %s returned %s' % (what, 'a model of %d objects' % n if n >= 0 else repr(out)[:80]),
                         dict(case, only=[f]))
                return res
        if case['crash_save'] and case['spec']['objs']:
            self.crashes(case, res)
        return res

    def crashes(self, case, res):
        """Whatever a dying save leaves behind is refused, or is the whole model."""
        spec = case['spec']
        sc = schema(spec['top'])
        cls, st = gen.expected(spec)
        d, err = world.attempt(gen.build, spec)
        if err is not None:
            return
        rng = random.Random(case['fseed'] + 1)

        def save(plan):
            world.clean_scratch()
            with S.Sim(dict(case['io'], **plan), world.scratch()) as s:
                t = world.Target(s, 'path', 'utf-8', name='crash.xml')
                _, err = world.attempt(world.write, d, t.arg, 'utf-8')
                data = t.delivered()
                s.close_all()
            return data, err, s
        whole, err, s = save({})
        res.absorb(s)
        if err is not None or not s.count['write']:
            return
        pts = [f for f in case.get('only') or () if 'crash' in f]
        if not case.get('only'):
            for _ in range(8):
                n = s.count['write'] - 1 if rng.random() < 0.3 else rng.randrange(s.count['write'])
                z = [rng.random(), rng.choice([1, 64, 512, 4096])] if rng.random() < 0.4 else None
                pts.append({'crash': n, 'zero_at': z})
        for f in pts:
            data, err, s = save({'faults': [{'kind': 'write', 'n': f['crash'], 'err': 'CRASH'}]})
            res.absorb(s)
            if f.get('zero_at') and data:       # pages that never reached the disk
                a = int(f['zero_at'][0] * len(data))
                data = data[:a] + b'\0' * len(data[a:a + f['zero_at'][1]]) + data[a + f['zero_at'][1]:]
                res.stats['fault crash:lost page'] += 1
            c2 = dict(case, top=spec['top'], doc=dict(case['doc'], enc='utf-8'))
            out, err, s = self.load(c2, data, {}, 'path')
            res.absorb(s)
            if err is None:
                bad = world.compare(sc, out, cls, st)
                if bad:
                    res.fail('crash', 'the %d of %d bytes a crash in mid-save left were loaded as a model that is not the saved one: %s' % (
                        len(data), len(whole), bad[1]), dict(case, only=[f]))
                    return


PROP = C03()
