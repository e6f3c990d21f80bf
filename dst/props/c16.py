"""C16  a line segment has at most one impedance, consistent through every view."""
import random
import sim as S, gen, world, hist
from base import Prop, Res
from meta import schema, ACL, PLI

VIEW = {'PerLengthSequenceImpedance': 'SequenceImpedance', 'PerLengthPhaseImpedance': 'PhaseImpedance'}


class C16(Prop):
    id = 'C16'
    rule = ('a case is a seeded history of impedance operations (assign and clear through the generic and kind views, assign, extend and '
            'shrink an impedance\'s own list, construct segments and impedances with them, refused double constructions, saves on failing '
            'devices, crashes and restarts) by one to three interleaved callers over a few segments and impedances; after each operation the '
            'three views and both kinds of lists of all objects are compared with a map segment -> impedance; non-trivial: at least one '
            'operation; distinct by map reached')
    real = ['CIM15.IEC61970.Wires', 'PyCIM.RDFXMLWriter', 'PyCIM.RDFXMLReader']
    stub = ['callers are cooperative tasks', 'raw device', 'process death']
    states_are = 'distinct segment-to-impedance maps reached with the operation that led there'
    parts = [(('ops',), 'list')]

    def count(self, tier):
        return 16000 if tier == 'quick' else 120000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        segs = ['s%d' % k for k in range(rng.choice([1, 2, 3, 5]))]
        imps = [['z%d' % k, rng.choice(sorted(VIEW))] for k in range(rng.choice([1, 2, 3, 4]))]
        progs = []
        for c in range(rng.choice([1, 2, 3])):
            ops = []
            for k in range(rng.choice([3, 8, 20])):
                x = rng.random()
                s, z = rng.choice(segs), rng.choice(imps)[0]
                if x < 0.2:
                    ops.append(['set', s, 'PerLengthImpedance', z])
                elif x < 0.4:
                    ops.append(['set', s, 'kind', z])
                elif x < 0.48:
                    ops.append(['clear', s, rng.choice(['PerLengthImpedance', 'kind'])])
                elif x < 0.58:
                    ops.append(['list', z, [rng.choice(segs) for _ in range(rng.randrange(4))]])
                elif x < 0.68:
                    ops.append(['add', z, [rng.choice(segs) for _ in range(rng.choice([1, 1, 2, 3]))]])
                elif x < 0.76:
                    ops.append(['remove', z, rng.randrange(2**31), rng.choice([1, 1, 2, 9])])
                elif x < 0.80:
                    ops.append(['mutate', rng.randrange(2**31), s])
                elif x < 0.84:
                    ops.append(['relist', z, rng.randrange(2**31)])
                elif x < 0.88:
                    ops.append(['newseg', 'n%d_%d' % (c, k), rng.choice(['PerLengthImpedance', 'kind']), z])
                elif x < 0.91:
                    ops.append(['newimp', 'm%d_%d' % (c, k), rng.choice(sorted(VIEW)), [rng.choice(segs) for _ in range(rng.randrange(3))]])
                elif x < 0.95:
                    vs = rng.sample(['PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance'], rng.choice([2, 2, 3]))
                    ops.append(['two', vs, rng.randrange(2**31)])
                elif c == 0:
                    ops.append(rng.choice([['save', None], ['save', rng.randrange(12)], ['crash'], ['crash']]))
            progs.append(ops)
        ops, live = [], [p for p in progs if p]
        while live:
            p = rng.choice(live)
            ops.append(p.pop(0))
            live = [p for p in live if p]
        return {'segs': segs, 'imps': imps, 'ops': ops}

    def run(self, case):
        res = Res()
        res.runs += 1
        world.clean_scratch()
        sc = schema('CIM15')
        K = {c: sc.live(c) for c in [ACL] + sorted(VIEW)}
        d, kind, m = {}, {}, {}         # objects, their classes, segment -> impedance
        passed = []
        disk = None
        for i in case['segs']:
            d[i], kind[i], m[i] = K[ACL](UUID=i), ACL, None
        for i, c in case['imps']:
            d[i], kind[i] = K[c](UUID=i), c

        def look():
            ids = {id(o): i for i, o in d.items()}

            def name(v):
                return None if v is None else ids.get(id(v), '?')
            for i, o in d.items():
                if kind[i] == ACL:
                    want = {'PerLengthImpedance': m[i], 'SequenceImpedance': None, 'PhaseImpedance': None}
                    if m[i]:
                        want[VIEW[kind[m[i]]]] = m[i]
                    for v, w in want.items():
                        if name(getattr(o, v)) != w:
                            return 'view', '%s.%s is %r, expected %r' % (i, v, name(getattr(o, v)), w)
                else:
                    got = sorted(name(x) for x in o.LineSegments)
                    w = sorted(s for s, z in m.items() if z == i)
                    if got != w:
                        return 'list', '%s.LineSegments is %s, expected %s' % (i, got, w)
            return None
        for k, op in enumerate(case['ops']):
            o = op[0]
            a = op[1] if len(op) > 1 else None
            if isinstance(a, str) and o not in ('newseg', 'newimp') and a not in d:
                continue
            args = [x for x in op[2:] if isinstance(x, str) and x[0] in 'sznm' and x[1:2].isdigit()]
            if any(x not in d for x in args):
                continue
            try:
                if o == 'set':
                    setattr(d[a], op[2] if op[2] != 'kind' else VIEW[kind[op[3]]], d[op[3]])
                    m[a] = op[3]
                elif o == 'clear':
                    v = op[2] if op[2] != 'kind' or not m[a] else VIEW[kind[m[a]]]
                    if v == 'kind':
                        continue
                    setattr(d[a], v, None)
                    m[a] = None
                elif o in ('list', 'relist'):
                    if o == 'relist':
                        cur = [s for s, z in sorted(m.items()) if z == a]
                        rng = random.Random(op[2])
                        ss = cur if rng.random() < 0.5 else [s for s in cur if rng.random() < 0.5]
                        l = d[a].LineSegments if len(ss) == len(cur) else [d[s] for s in ss]
                    else:
                        ss = [s for s in op[2] if s in d]
                        l = [d[s] for s in ss]
                        passed.append(l)
                    d[a].LineSegments = l
                    for s in m:
                        if m[s] == a:
                            m[s] = None
                    for s in ss:
                        m[s] = a
                elif o == 'add':
                    d[a].addLineSegments(*[d[s] for s in op[2] if s in d])
                    for s in op[2]:
                        if s in d:
                            m[s] = a
                elif o == 'remove':
                    cur = [s for s, z in sorted(m.items()) if z == a]
                    ss = random.Random(op[2]).sample(cur, min(len(cur), op[3]))
                    d[a].removeLineSegments(*[d[s] for s in ss])
                    for s in ss:
                        m[s] = None
                elif o == 'mutate':
                    if not passed or op[2] not in d:
                        continue
                    l = passed[a % len(passed)]
                    l.append(d[op[2]]) if a % 2 else l.clear()
                elif o == 'newseg':
                    d[a] = K[ACL](UUID=a, **{op[2] if op[2] != 'kind' else VIEW[kind[op[3]]]: d[op[3]]})
                    kind[a], m[a] = ACL, op[3]
                elif o == 'newimp':
                    ss = [s for s in op[3] if s in d]
                    l = [d[s] for s in ss]
                    passed.append(l)
                    d[a] = K[op[2]](UUID=a, LineSegments=l)
                    kind[a] = op[2]
                    for s in ss:
                        m[s] = a
                elif o == 'two':
                    zs = sorted(z for z in d if kind[z] != ACL)
                    rng = random.Random(op[2])
                    kw = {}
                    for v in op[1]:
                        c = [z for z in zs if v == 'PerLengthImpedance' or VIEW[kind[z]] == v]
                        if c:
                            kw[v] = d[rng.choice(c)]
                    if len(kw) < 2:
                        continue
                    _, err = world.attempt(K[ACL], **kw)
                    if err is None:
                        res.fail('two', 'a segment was built with %s' % sorted(kw))
                        return res
                elif o == 'save':
                    with S.Sim({'faults': [] if a is None else [{'kind': 'write', 'n': a * 7, 'err': 'EIO'}]}, world.scratch()) as s:
                        t = world.Target(s, 'duck')
                        _, err = world.attempt(world.write, d, t.arg)
                        s.close_all()
                    res.absorb(s, False)
                    if err is None and not world.real_faults(s):
                        disk = (t.delivered(), dict(kind), dict(m))
                    elif not world.real_faults(s):
                        res.fail('save', 'saving raised ' + world.exc_text(err))
                        return res
                elif o == 'crash':
                    if disk is None:
                        continue
                    with S.Sim({}, world.scratch()) as s:
                        out, err = world.attempt(world.read, world.source(s, 'bytesio', disk[0]), sc)
                        s.close_all()
                    res.absorb(s, False)
                    res.stats['fault process:restart'] += 1
                    if err is not None or set(out) != set(disk[1]):
                        res.fail('restart', 'the saved model does not load: ' + (world.exc_text(err) if err is not None else 'objects differ'))
                        return res
                    d, kind, m, passed = out, dict(disk[1]), dict(disk[2]), []
                bad = look()
            except S.HarnessError:
                raise
            except Exception as e:
                res.fail('raises', 'operation %d %s raised %s' % (k, op, world.exc_text(e)))
                return res
            res.stats['call ' + o] += 1
            res.trace.update(repr(op).encode())
            res.states.add(gen.seed_of(o, sorted(m.items(), key=str), sorted(kind.items())))
            if bad:
                res.fail(bad[0] + ':' + o, 'after operation %d %s: %s' % (k, op, bad[1]))
                return res
        return res


PROP = C16()
