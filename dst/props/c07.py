"""C07  concurrent loads and saves of separate models do not disturb each other."""
import logging, random, re
import sim as S, gen, rdf, world, saved
from base import Prop, Res
from meta import schema, TOPS, special
from c04 import read_doc

RATES = [0.001, 0.004, 0.02, 0.1, 0.4]


class C07(Prop):
    id = 'C07'
    rule = ('a case runs two to four loads and saves of separate seeded models as real threads of which only the holder of the baton runs (in one case of four, '
            'each is made inside another one, at an operation of its device or a report of it); '
            'the baton moves at seeded source lines, I/O operations, clock readings and locks; seeded faults hit some of them; each result '
            'is judged on its own (our schema-driven reading for loads and for saved bytes), then all of it is repeated one after another; '
            'non-trivial: the schedule switched tasks at least once in mid-operation; distinct by order of switches')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack', 'threads']
    stub = ['thread scheduler', 'locks', 'raw device', 'clock']
    states_are = 'distinct sequences of (from task, to task, kind of point)'
    parts = [(('tasks',), 'list'), (('switches',), 'dict'), (('faults',), 'list')] + \
            [(('tasks', k, 'spec'), 'model') for k in range(4)] + [(('tasks', k, 'x', 'doc', 'elems'), 'list') for k in range(4)]

    def count(self, tier):
        return 1400 if tier == 'quick' else 20000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        tasks = []
        for k in range(rng.choice([2, 2, 2, 3, 3, 4])):
            top = rng.choice(['CIM14', 'CIM15', rng.choice(TOPS)])
            ok = gen.all_refs(schema(top), gen.serialisable(schema(top)))
            n = rng.choice([1, 2, 4, 8])
            # the same identifiers on purpose: state shared between calls would show
            spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, 2 * n, hard=rng.random() < 0.4, idkind=1)
            t = {'spec': spec}
            if rng.random() < 0.5:
                t['do'] = 'save'
                t['enc'] = rng.choice(world.ENCODINGS)
                t['target'] = rng.choice(world.TARGETS)
            else:
                t['do'] = 'load'
                t['x'] = {'top': top, 'mode': 'detect' if top in ('CIM14', 'CIM15') else 'map',
                          'doc': gen.doc_of(rng, spec, rng.random(), 'utf-8', rng.choice([None, rng.randrange(2**31)]))}
                t['source'] = rng.choice(world.SOURCES)
                t['junk'] = [[rng.randrange(50), rng.choice(['p', 'p', 'r']), '%s%d' % (rng.choice(['qux', 'nul', 'zap%d' % k]), rng.randrange(3))]
                             for _ in range(rng.choice([0, 0, 2, 5]))]
            tasks.append(t)
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                kind = rng.choice(['write', 'read', 'open', 'seek', 'flush'])
                faults.append({'kind': kind, 'n': rng.randrange({'write': 60, 'read': 30, 'open': 8, 'seek': 4, 'flush': 3}[kind]),
                               'err': rng.choice(['EIO', 'ENOSPC', 'MEM', 'INT'])})
        return {'tasks': tasks, 'faults': faults, 'io': gen.io_plan(rng), 'sseed': rng.randrange(2**31), 'rate': rng.choice(RATES),
                'nest': rng.random() < 0.25}

    def prepare(self, case):
        jobs = []
        for k, t in enumerate(case['tasks']):
            cls, st = gen.expected(t['spec'])
            if t['do'] == 'save':
                d = gen.build(t['spec'])
                jobs.append((t, k, cls, st, d))
            else:
                if len(t['x']['doc']['elems']) != len(cls):
                    from c04 import PROP as c04
                    cls, st = c04.subset(t['spec'], t['x']['doc'])
                doc = t['x']['doc']
                es = [dict(e, props=list(e['props'])) for e in doc['elems']]
                for j, what, name in t.get('junk', ()) if es else ():
                    e = es[j % len(es)]
                    r = next((r for n, r in sorted(schema(t['spec']['top']).refs[e['cls']].items()) if not special(r)), None)
                    if what == 'p':
                        e['props'].append(['v', e['cls'], name, 'x'])
                    elif r is not None:
                        e['props'].append(['r', r.owner, r.name, name])
                jobs.append((t, k, cls, st, rdf.serialise(dict(doc, elems=es))))
        return jobs

    def said(self, k=None):
        """What was reported (by task k), as often as it was."""
        return sorted(re.sub(r'(in|out)\d+|0x[0-9a-f]+', '', m) for (lv, m), t in zip(S.LOG.records, S.LOG.tasks)
                      if lv >= logging.WARNING and (k is None or t == k))

    def start(self, sim, job):
        """-> (function to run, function to judge its result)"""
        t, k, cls, st, x = job
        if t['do'] == 'save':
            g = world.Target(sim, t['target'], t['enc'], name='out%d.xml' % k)

            def judge(_):
                bad = saved.check(g.delivered(), t['spec']['top'], cls, st, t['enc'])
                return bad and 'saved a document that is not its model: ' + bad[1]
            return (lambda: world.write(x, g.arg, t['enc'])), judge
        src = world.source(sim, t['source'], x, t['x']['doc']['enc'], name='in%d.xml' % k)

        def judge(out):
            bad = world.compare(schema(t['spec']['top']), out, cls, st)
            return bad and 'loaded a model that is not its document: ' + bad[1]
        return (lambda: read_doc(src, t['x'])), judge

    def run(self, case):
        res = Res()
        world.clean_scratch()
        jobs, err = world.attempt(self.prepare, case)
        if err is not None:
            res.stats['model could not be built'] += 1
            return res
        if not jobs:
            return res
        with S.Sim(dict(case['io'], faults=case['faults']), world.scratch()) as s:
            pairs = [self.start(s, j) for j in jobs]
            S.LOG.clear()
            sch = (S.Nest if case.get('nest') else S.Sched)(s, [p[0] for p in pairs], case['sseed'], case['rate'], case.get('switches'))
            if case.get('nest'):
                S.LOG.hook = lambda record: sch.point('report')
            try:
                out = sch.run()
            finally:
                S.LOG.hook = None
            del sch.fns[:]
            said = {k: self.said(k) for k in range(len(jobs))}
            hurt = {f[3] for f in s.fired_list}
            bad = None
            for k, (kind, v) in enumerate(out):
                what = 'task %d (%s)' % (k, jobs[k][0]['do'])
                if kind == 'exc':
                    world.strip(v)
                    if k not in hurt:
                        bad = bad or ('raised', what + ' raised %s although nothing failed in it' % world.exc_text(v))
                elif k in hurt:
                    bad = bad or ('swallowed', what + ' returned although %s failed in it' % [f[:3] for f in s.fired_list if f[3] == k])
                else:
                    m = pairs[k][1](v)
                    if m:
                        bad = bad or ('mixed', what + ' ' + m)
            s.close_all()
        s.fired['task:call inside a call' if case.get('nest') else 'task:switch'] += len(sch.switches)
        s.note(sch.order.hexdigest())
        res.absorb(s, False)
        res.states.add(sch.order.hexdigest()[:16])
        if bad:
            sw = {str(a): b for a, b in sch.switches.items()} if case.get('switches') is None else case['switches']
            res.fail(bad[0], bad[1], dict(case, switches=sw))
            return res
        # and one after another, in the process they left behind
        with S.Sim({}, world.scratch()) as s:
            for k, j in enumerate(jobs):
                fn, judge = self.start(s, (j[0], 100 + k) + j[2:])
                S.LOG.clear()
                v, err = world.attempt(fn)
                m = 'raised ' + world.exc_text(err) if err is not None else judge(v)
                if m:
                    res.fail('later', 'repeated alone afterwards, task %d (%s) %s' % (k, j[0]['do'], m))
                    break
                if k not in hurt and j[0]['do'] == 'load':
                    res.stats['reports compared'] += len(said[k])
                    if self.said() != said[k]:
                        res.fail('reports', 'task %d (load) reported %s, but %s when it is alone' % (k, said[k][:4], self.said()[:4]))
                        break
            s.close_all()
        res.absorb(s, False)
        return res


PROP = C07()
