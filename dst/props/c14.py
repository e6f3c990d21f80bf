"""C14  objects are built as asked and share nothing with each other."""
import importlib, inspect, random
import sim as S, gen, world, hist, shadow
from base import Prop, Res
from meta import schema, TOPS, diff_state, special, ACL, GHOST, MM
from c06 import C06, show


def positional(k, kw, part):
    """The first part of all arguments, own and inherited, in order; they are taken out of kw."""
    ps = [p for c in k.__mro__ if '__init__' in vars(c) and c is not object for p in list(inspect.signature(c.__init__).parameters.values())[1:]]
    if any(p.kind is p.KEYWORD_ONLY for p in ps):
        return ()
    ps = [p for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD]
    names = [p.name for p in ps]
    if len(set(names)) != len(names) or any(n not in names for n in kw) or any(len(c.__bases__) > 1 for c in k.__mro__):
        return ()
    return [kw.pop(p.name, p.default) for p in ps[:int(part * len(ps) + 0.5)]]


class Live(hist.Live):
    def step(self, op):
        if op[0] == 'build':
            i, c, attrs, args = op[1:5]
            if i in self.d or not self.has(*[b for v in args.values() for b in (v if isinstance(v, list) else [v])]):
                return False
            kw = dict(attrs)
            for n, v in args.items():
                kw[n] = [self.d[b] for b in v] if isinstance(v, list) else self.d[v]
                if isinstance(v, list):
                    self.passed.append(kw[n])
            given = dict(kw)
            lists = {n: list(v) for n, v in kw.items() if isinstance(v, list)}
            self.m.new(i, c, attrs)
            kw2 = dict(kw, **self.uuid(i))
            first = ()
            if len(op) > 5:
                first = positional(self.sc.live(c), kw2, op[5])
                self.res.stats['positional arguments'] += len(first)
            o = self.d[i] = self.sc.live(c)(*first, **kw2)
            first = None
            if o.UUID != self.uuid(i).get('UUID', ''):
                raise hist.Stop('uuid', 'the object has UUID %r' % (o.UUID,))
            if any(kw[n] is not v for n, v in given.items()) or any(kw[n] != v for n, v in lists.items()):
                raise hist.Stop('args', 'the constructor changed its arguments')
            for n, v in args.items():
                self.m.assign(i, n, v if isinstance(v, list) else [v])
            self.res.stats['objects built'] += 1
            return True
        if op[0] == 'anonymous':
            c = op[1]
            o = self.sc.live(c)()
            m = hist.RefModel(self.sc.top)
            m.new('?', c)
            import meta
            got = meta.snapshot(self.sc, {'?': o}, {'?': c})['?']
            e = diff_state(self.sc, c, m.state('?'), got)
            if e:
                raise hist.Stop('default', 'a new %s: %s' % (c, e))
            return True
        return hist.Live.step(self, op)


class C14(C06):
    id = 'C14'
    rule = ('a case builds objects of eight seeded classes and of the classes they refer to, with seeded subsets of own and inherited '
            'attributes and references as arguments, and without any, interleaved with later changes to some of them and to lists passed in; '
            'after every step every attribute (value and type) and association of every object is compared with the executable reference '
            'model; every class of every package is dealt once per sweep and looked up in the catalogue; '
            'non-trivial: at least one object; distinct by history')
    real = ['CIM14.*', 'CIM15.*']
    stub = []
    salt = 'h14'
    sweeps = {'quick': 5, 'thorough': 150}
    parts = [(('ops',), 'list')]

    def __init__(self):
        self.decks = [(t, gen.Decks(schema(t).names, self.salt + t, 8)) for t in TOPS]
        self.n = sum(d.size for _, d in self.decks)

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        rnd, k = divmod(idx, self.n)
        for t, d in self.decks:
            if k < d.size:
                names = gen.Decks(d.items, '%s%s%s' % (seed, self.salt, t), 8).deal(rnd * d.size + k)
                return self.case(rng, t, names, rnd % 2 == 0)
            k -= d.size

    def case(self, rng, top, names, ordered=False):
        sc = schema(top)
        b = gen.Builder(rng, top)
        ops = []
        cls = {}

        def new(c):
            i = 'o%d' % len(cls)
            cls[i] = c
            return i
        for c in names:
            ops.append(['anonymous', c])
            rs = [r for n, r in sorted(sc.refs[c].items()) if not special(r) and r.name != GHOST and not gen.shared_name(sc, c, n)
                  and not (c == ACL and top == 'CIM15' and 'Impedance' in n)]
            for full in (True, False):
                args = {}
                for r in rs:
                    if rng.random() > (0.8 if full else 0.3):
                        continue
                    k = rng.choice([0, 1, 1, 2]) if r.many else 1
                    ts = []
                    for _ in range(k):
                        old = [i for i in cls if gen.link_ok(sc, r, c, cls[i])]
                        if old and rng.random() < 0.5:
                            ts.append(rng.choice(old))
                        elif gen.link_ok(sc, r, c, r.tgt):
                            t = new(r.tgt)
                            ops.append(['build', t, r.tgt, {}, {}])
                            ts.append(t)
                    ts = list(dict.fromkeys(ts))
                    if r.many:
                        args[r.name] = ts
                    elif ts:
                        args[r.name] = ts[0]
                attrs = {n: gen.value(rng, a) for n, a in sorted(sc.attrs[c].items()) if rng.random() < (0.9 if full else 0.2)}
                i = new(c)
                ops.append(['build', i, c, attrs, args] + ([rng.uniform(0.7, 1.2)] if full and ordered else [rng.random() * 1.2] if rng.random() < 0.4 else []))
                for _ in range(rng.choice([0, 1, 3])):
                    j = rng.choice(sorted(cls))
                    ops.append(['attr', j, rng.randrange(2**31)])
                    rs2 = [r for n, r in sorted(sc.refs[cls[j]].items()) if not special(r) and r.many and not gen.shared_name(sc, cls[j], n)]
                    if rs2:
                        r = rng.choice(rs2)
                        c2 = [x for x in cls if gen.link_ok(sc, r, cls[j], cls[x])]
                        if c2:
                            ops.append(['add', j, r.name, [rng.choice(c2)]])
                    ops.append(['mutate', rng.randrange(2**31), rng.choice(sorted(cls))])
            j = new(c)
            ops.append(['build', j, c, {}, {}])
        return {'top': top, 'objs': [], 'ops': ops, 'twins': rng.choice([None, None, 'none', 'same'])}

    def run(self, case):
        res = Res()
        res.runs += 1
        sc = schema(case['top'])
        live = Live(case, res)
        # the catalogue
        for c in sorted({op[2] for op in case['ops'] if op[0] == 'build'}):
            pm = sc.map()
            if c not in pm:
                res.fail('catalogue', '%s is not in the class map of %s' % (c, case['top']))
                return res
            k = getattr(importlib.import_module(pm[c]), c, None)
            if not isinstance(k, type) or k.__name__ != c or k is not sc.live(c):
                res.fail('catalogue', 'the class map of %s finds %r for %s' % (case['top'], k, c))
                return res
        for k, op in enumerate(case['ops']):
            try:
                did = live.step(op)
                if not did:
                    continue
                res.trace.update(repr(op).encode())
                snap = hist.snapshot(live) if op[0] != 'anonymous' else None
            except hist.Stop as e:
                res.fail(e.key, 'step %d %s: %s' % (k, show(op), e.msg))
                break
            except S.HarnessError:
                raise
            except Exception as e:
                res.fail('raises', 'step %d %s raised %s' % (k, show(op), world.exc_text(e)))
                break
            bad = snap and self.verdict(live, snap, False)
            if bad:
                res.fail(bad[0] + ':' + op[0], 'after step %d %s: %s' % (k, show(op), bad[1]))
                break
            res.states.add(gen.seed_of(op, case['top']))
        return res


PROP = C14()
