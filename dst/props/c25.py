"""C25  what a load or save reports about itself is true when it is reported."""
import logging, random, re
import sim as S, gen, rdf, world, saved
from base import Prop, Res
from meta import schema, TOPS
from c04 import read_doc, PROP as c04

DONE = re.compile(r'\b(\d+) CIM objects')
TOOK = re.compile(r'\bin (-?[0-9.]+)s')
NAMES = ['qux', 'zap', 'loadFactor2', 'x1', 'Conductor9']


class C25(Prop):
    id = 'C25'
    rule = ('a case runs one to three loads and saves of separate seeded models, one after another or as scheduled threads, on slow devices '
            'with seeded faults and damaged sources, unknown properties repeated a seeded number of times, and logging at a seeded level; '
            'every record is taken down with the simulated time, the number of device operations so far and, for saves, what the target '
            'would keep at that instant; completion has to be reported exactly by the calls that return, with the number of objects, the '
            'time that passed, and a document that is complete then; each unknown property with its number of occurrences; '
            'non-trivial: always; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack', 'logging', 'threads']
    stub = ['raw device', 'clock', 'thread scheduler', 'log handler']
    parts = [(('tasks',), 'list'), (('switches',), 'dict'), (('faults',), 'list'), (('io',), 'dict')] + \
            [(('tasks', k, 'spec'), 'model') for k in range(3)] + [(('tasks', k, 'x', 'doc', 'elems'), 'list') for k in range(3)] + \
            [(('tasks', k, 'junk'), 'list') for k in range(3)]

    def count(self, tier):
        return 3000 if tier == 'quick' else 60000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        tasks = []
        for k in range(rng.choice([1, 1, 2, 3]) if idx % 250 else 1):
            top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
            ok = gen.all_refs(schema(top), gen.serialisable(schema(top)))
            n = rng.choice([0, 1, 2, 5, 12]) if idx % 250 else 700
            cs = [rng.choice(schema(top).names)] * rng.choice([0, 0, 2, 3])
            t = {'spec': gen.model(rng, top, [rng.choice(ok) for _ in range(n)], cs, n, n, hard=rng.random() < 0.3, idkind=1)}
            t['do'] = rng.choice(['load', 'load', 'into', 'save', 'save'])
            t['old'] = rng.random() < 0.6
            if t['do'] == 'save':
                t['kind'], t['enc'] = rng.choice(world.TARGETS), rng.choice(world.ENCODINGS)
            else:
                t['kind'] = rng.choice(world.SOURCES)
                t['x'] = {'top': top, 'mode': 'detect' if top in ('CIM14', 'CIM15') else 'map',
                          'doc': gen.doc_of(rng, t['spec'], rng.random(), 'utf-8', rng.choice([None, rng.randrange(2**31)]))}
                t['junk'] = [[rng.randrange(50), rng.choice(NAMES), rng.choice([1, 1, 2, 7]), rng.random() < 0.5] for _ in range(rng.choice([0, 0, 1, 3, 8]))]
                t['cut'] = rng.random() if rng.random() < 0.12 else None
            tasks.append(t)
        io = gen.io_plan(rng)
        io['delay'] = [rng.choice([0.0, 0.01, 0.4, 30.0]) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.7:
            io.pop('jump', None)
        faults = []
        if rng.random() < 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['write', 'read', 'open', 'seek', 'flush', 'flush'])
                faults.append({'kind': kind, 'n': rng.randrange({'write': 60, 'read': 30, 'open': 6, 'seek': 4, 'flush': 3}[kind]),
                               'err': rng.choice(['EIO', 'ENOSPC', 'MEM', 'INT', 'EOF', 'CLOSED', 'KEY', 'EXIT'])})
            if rng.random() < 0.3:
                io['cap'] = rng.randrange(4000)
        elif len(tasks) == 1 and rng.random() < 0.3:
            io['cut'] = {2: rng.randrange(6000)}        # the second pass over the elements ends early
        return {'tasks': tasks, 'faults': faults, 'io': io, 'threads': len(tasks) > 1 and rng.random() < 0.6, 'sseed': rng.randrange(2**31),
                'rate': rng.choice([0.004, 0.02, 0.1, 0.4]), 'level': rng.choice([0, 0, 0, 0, logging.INFO, logging.WARNING, logging.CRITICAL])}

    def document(self, t):
        """-> (data, {(class, name): times}, expected)"""
        doc = t['x']['doc']
        es = [dict(e, props=list(e['props'])) for e in doc['elems']]
        odd = {}
        for j, name, times, all_ in t['junk'] if es else ():
            for e in [e for e in es if e['cls'] == es[j % len(es)]['cls']] if all_ else [es[j % len(es)]]:
                e['props'] += [['v', e['cls'], name, 'x']] * times
                odd[e['cls'], name] = odd.get((e['cls'], name), 0) + times
        data = rdf.serialise(dict(doc, elems=es))
        want = gen.expected(t['spec']) if len(es) == len(t['spec']['objs']) else c04.subset(t['spec'], doc)
        return data, odd, want

    def prepare(self, s, k, t):
        """-> job"""
        job = {'t': t, 'odd': {}, 'recs': []}
        if t['do'] == 'save':
            d, err = world.attempt(gen.build, t['spec'])
            if err is not None:
                return None
            job['want'], job['n'] = gen.expected(t['spec']), len(d)
            g = job['target'] = world.Target(s, t['kind'], t['enc'], name='out%d.xml' % k)
            fn = lambda: world.write(d, g.arg, t['enc'])
        else:
            data, job['odd'], job['want'] = self.document(t)
            if t.get('cut') is not None:
                data = data[:int(len(data) * t['cut'])]
            job['path'] = 'in%d.xml' % k if t['kind'] in ('path', 'pathobj', 'bytespath') else None
            kind = 'bytesio' if t['kind'] == 'stringio' and t.get('cut') is not None else t['kind']
            src = world.source(s, kind, data, 'utf-8', name='in%d.xml' % k)
            if t['do'] == 'into':
                sc = schema(t['x']['top'])
                old = {'there before': sc.live(sorted(sc.names)[0])(UUID='there before')} if t['old'] else {}
                kw = {'start_dict': old}
                fn = (lambda: world.lib()[0](src, **kw)) if t['x']['mode'] == 'detect' else (lambda: world.lib()[0](src, sc.map(), t['x']['doc']['ns'], **kw))
            else:
                fn = lambda: read_doc(src, t['x'])

        def call():
            job['began'], job['ops'], job['opening'] = s.now, s.ops, s.opening
            del s.marks[:]
            return fn()
        job['call'] = call
        return job

    def run(self, case):
        res = Res()
        world.clean_scratch()
        with S.Sim(dict(case['io'], faults=case['faults']), world.scratch()) as s:
            jobs = [self.prepare(s, k, t) for k, t in enumerate(case['tasks'])]
            if None in jobs or not jobs:
                res.stats['model could not be built'] += 1
                s.close_all()
                return res
            at = [0]

            def taken(record):
                k = s.sched.cur if s.sched is not None else at[0]
                j = jobs[k]
                m = record.getMessage()
                j['recs'].append({'level': record.levelno, 'text': m, 'now': s.now, 'ops': s.ops, 'opening': s.opening, 'marks': list(s.marks),
                                  'kept': j['target'].delivered() if 'target' in j and DONE.search(m) else None})
            S.LOG.clear()
            S.LOG.hook = taken
            logging.disable(case['level'])
            try:
                if case['threads']:
                    sch = S.Sched(s, [j['call'] for j in jobs], case['sseed'], case['rate'], case.get('switches'))
                    out = sch.run()
                    del sch.fns[:]
                    s.fired['task:switch'] += len(sch.switches)
                    s.note(sch.order.hexdigest())
                    if case.get('switches') is None:
                        case = dict(case, switches={str(a): b for a, b in sch.switches.items()})
                else:
                    out = []
                    for k, j in enumerate(jobs):
                        at[0] = k
                        r, err = world.attempt(j['call'])
                        out.append(('ok', r) if err is None else ('exc', err))
            finally:
                logging.disable(0)
                S.LOG.hook = None
            jumped = bool(s.fired['clock:jump'])
            kept = [j['target'].delivered() if 'target' in j else None for j in jobs]
            s.close_all()
        res.absorb(s)
        for k, ((kind, v), j) in enumerate(zip(out, jobs)):
            bad = self.judge(case, k, j, kind, v, kept[k], jumped)
            if bad:
                res.fail(bad[0], '%s %d of %d (%s, %s): %s' % (j['t']['do'], k, len(jobs), j['t']['kind'], 'at once' if case['threads'] else 'one after another', bad[1]), case)
                return res
            res.stats['calls that ' + ('returned' if kind == 'ok' else 'raised')] += 1
        return res

    def judge(self, case, k, j, kind, v, kept, jumped):
        t, recs = j['t'], j['recs']
        done = [r for r in recs if DONE.search(r['text'])]
        if kind == 'exc':
            world.strip(v)
            if done:
                return 'false', 'reported %r and then raised %s' % (done[0]['text'], world.exc_text(v))
            return None
        # the result does not depend on what is logged
        cls, st = j['want']
        if t['do'] == 'save':
            m = saved.check(kept, t['spec']['top'], cls, st, t['enc'])
        elif t.get('cut') is None:
            m = world.compare(schema(t['x']['top']), {i: o for i, o in v.items() if i != 'there before'}, cls, st)
        else:
            m = None
        if m:
            return 'result:' + m[0], m[1]
        if case['level'] < logging.WARNING:
            for (c, name), n in sorted(j['odd'].items()):
                said = [r['text'] for r in recs if re.search(r'\b%s\b' % c, r['text']) and re.search(r'\b%s\b' % name, r['text'])]
                if len(said) != 1 or str(n) not in re.findall(r'\d+', said[0].split(name, 1)[1]):
                    return 'times', '%d properties %s of %s are not known, the reports are %s' % (n, name, c, said[:3])
        if case['level'] >= logging.INFO:
            return None
        if len(done) != 1:
            return 'missing', 'completion was reported %d times' % len(done)
        n = j['n'] if t['do'] == 'save' else len(v)
        if int(DONE.search(done[0]['text']).group(1)) != n:
            return 'number', 'reported %r for %d objects' % (done[0]['text'], n)
        if t['do'] == 'save' and done[0]['kept'] != kept:
            return 'early', 'completion was reported when %d of %d bytes would have survived' % (len(done[0]['kept']), len(kept))
        took = TOOK.search(done[0]['text'])
        if took and not jumped:
            x, most = float(took.group(1)), done[0]['now'] - j['began']
            opening = done[0]['opening'] - j['opening']         # whether that is part of it is not said
            if t['do'] != 'save':                               # nor whether finding out about the namespaces is
                ms = done[0]['marks']
                at = [m for m in ms if m[0] == 'seek'][:1] or ms[1:2]
                opening += at[0][1] - j['began'] if at else most
            if x < 0 or x > most + 0.02 or not case['threads'] and x < most - opening - 0.02:
                return 'time', 'reported %r, it took %.2f s' % (done[0]['text'], most)
        if j.get('path'):
            named = [r for r in recs if j['path'] in r['text'] and r['level'] == logging.INFO]
            if not named or named[0] is not recs[0] or not case['threads'] and named[0]['ops'] != j['ops']:
                return 'start', 'the start was not reported before anything else, with the name of the source'
            if recs[-1] is not named[-1] or len(named) < 2:
                return 'end', 'the last report is %r' % recs[-1]['text']
        return None


PROP = C25()
