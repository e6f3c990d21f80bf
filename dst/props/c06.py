"""C06  association operations do exactly what they say and touch nothing else."""
import random
import sim as S, gen, world, hist, shadow
from base import Prop, Res
from meta import schema, TOPS, diff_state


class C06(Prop):
    id = 'C06'
    rule = ('a case is a seeded history of association operations (assign, assign list, add, remove, construct, caller mutates a list it '
            'passed, attribute writes, saves with failing devices, crashes and restarts from the last complete save) by one to three '
            'interleaved callers over shared objects; after every operation every attribute and association of every object is compared '
            'with the executable reference model; every association end of every package is dealt at least once per sweep; non-trivial: at '
            'least one operation applied; distinct by history')
    real = ['CIM14.*', 'CIM15.*', 'PyCIM.RDFXMLWriter', 'PyCIM.RDFXMLReader']
    stub = ['callers are cooperative tasks', 'raw device', 'process death']
    states_are = 'distinct reference-model states reached, hashed after every operation'
    parts = [(('ops',), 'list'), (('objs',), 'list')]
    salt = 'h6'
    loose = False
    per = 6
    sweeps = {'quick': 16, 'thorough': 200}

    def __init__(self):
        self.decks = [(t, gen.Decks(gen.all_refs(schema(t)), self.salt + t, self.per)) for t in TOPS]
        self.n = sum(d.size for _, d in self.decks)

    def count(self, tier):
        return self.n * self.sweeps[tier]

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        rnd, k = divmod(idx, self.n)
        for t, d in self.decks:
            if k < d.size:
                deck = gen.Decks(d.items, '%s%s%s' % (seed, self.salt, t), self.per)
                refs = deck.deal(rnd * d.size + k)
                if rnd % 4 == 3:
                    return hist.crowd(rng, t, refs)
                return hist.history(rng, t, refs, rng.choice([4, 8, 12]), loose=self.loose)
            k -= d.size

    def verdict(self, live, snap, loose):
        for i, c in live.m.cls.items():
            e = diff_state(live.sc, c, live.m.state(i), snap[i])
            if e:
                return 'state', '%s %r: %s' % (c, i, e)
        return None

    def run(self, case):
        res = Res()
        try:
            live = hist.Live(case, res)
            live.ordered = not self.loose
        except Exception as e:
            res.stats['object could not be built'] += 1
            return res
        res.runs += 1
        for k, op in enumerate(case['ops']):
            try:
                did = live.step(op)
            except hist.Stop as e:
                res.fail(e.key, 'operation %d %s: %s' % (k, show(op), e.msg))
                break
            except S.HarnessError:
                raise
            except Exception as e:
                res.fail('raises', 'operation %d %s raised %s' % (k, show(op), world.exc_text(e)))
                break
            if not did:
                continue
            res.trace.update(repr(op).encode())
            try:
                snap = hist.snapshot(live)
            except Exception as e:
                res.fail('read', 'after operation %d %s reading the model raised %s' % (k, show(op), world.exc_text(e)))
                break
            bad = self.verdict(live, snap, did == 'loose')
            if bad:
                res.fail(bad[0] + ':' + op[0], 'after operation %d %s: %s' % (k, show(op), bad[1]))
                break
            res.states.add(gen.seed_of(sorted((i, n, tuple(sorted(v))) for i, rs in live.m.refs.items() for n, v in rs.items() if v)))
        return res

    def probe(self):
        return shadow.probe(self.id)


def show(op):
    s = repr(op)
    return s if len(s) < 200 else s[:200] + '...'


PROP = C06()
