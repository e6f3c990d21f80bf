"""Histories of association operations: generator, executable reference model, execution."""
import copy, random
import sim as S, gen, world
from meta import schema, special, ACL, GHOST


class RefModel(object):
    """The CIM schema as a transition system over sets of links."""

    def __init__(self, top):
        self.sc = schema(top)
        self.cls, self.attrs, self.refs = {}, {}, {}

    def new(self, i, c, attrs=()):
        self.cls[i] = c
        at = {n: a.default for n, a in self.sc.attrs[c].items()}
        at.update(attrs)
        self.attrs[i] = at
        self.refs[i] = {n: [] for n, r in self.sc.refs[c].items() if n != GHOST}

    def ref(self, a, n):
        return self.sc.refs[self.cls[a]][n]

    def get(self, a, n):
        return self.refs[a][n]

    def _drop(self, a, n, b):
        if b in self.refs[a][n]:
            self.refs[a][n].remove(b)

    def unlink(self, a, n, b):
        q = self.sc.inverse(self.ref(a, n))
        self._drop(a, n, b)
        if q is not None:
            self._drop(b, q.name, a)

    def link(self, a, n, b):
        r = self.ref(a, n)
        if b in self.refs[a][n]:
            return
        q = self.sc.inverse(r)
        if not r.many:
            for x in list(self.refs[a][n]):
                self.unlink(a, n, x)
        if q is not None and not q.many:
            for x in list(self.refs[b][q.name]):
                self.unlink(b, q.name, x)
        self.refs[a][n].append(b)
        if q is not None and a not in self.refs[b][q.name]:
            self.refs[b][q.name].append(a)

    def assign(self, a, n, bs):
        for x in list(self.refs[a][n]):
            if x not in bs:
                self.unlink(a, n, x)
        for b in bs:
            self.link(a, n, b)

    def state(self, i):
        st = dict(self.attrs[i])
        for n, v in self.refs[i].items():
            st[n] = sorted(v) if self.sc.refs[self.cls[i]][n].many else (v[0] if v else None)
        return st

    def durable(self):
        """What a save keeps: links with a single-valued end."""
        m = copy.copy(self)
        m.cls, m.attrs = dict(self.cls), {i: dict(a) for i, a in self.attrs.items()}
        ok = gen.serialisable(self.sc)
        m.refs = {i: {n: (list(v) if ok(self.ref(i, n)) else []) for n, v in rs.items()} for i, rs in self.refs.items()}
        return m


# ------------------------------------------------------------------ generation
def caller_ops(rng, sc, cls, refs, n, restarts=True, loose=False, letter='a'):
    """One caller's program over the shared objects.  Choices among current members are left to run time."""
    ids = sorted(cls)
    cand = {}
    for r in refs:
        As = [i for i in ids if sc.is_a(cls[i], r.owner) and sc.refs[cls[i]].get(r.name) is r]
        Bs = {}
        for a in As:
            Bs[a] = [b for b in ids if gen.link_ok(sc, r, cls[a], cls[b])]
        As = [a for a in As if Bs[a]]
        if As:
            cand[r] = (As, Bs)
    if not cand:
        return []
    keys = sorted(cand, key=lambda r: r.key)
    ops = []
    deck, r = [], None
    for k in range(n):
        fresh = r is None or rng.random() < 0.35     # operations come in runs on one end of one object
        if fresh:
            deck = deck or rng.sample(keys, len(keys))
            r = deck.pop()
        As, Bs = cand[r]
        if fresh:
            a = rng.choice(As)
        some = lambda lo, hi: [rng.choice(Bs[a]) for _ in range(rng.randint(lo, hi))]
        if fresh and r.many and rng.random() < 0.6:
            bs = rng.sample(Bs[a], min(len(Bs[a]), rng.choice([2, 3, 3, 4])))
            ops.append([rng.choice(['setlist', 'add']), a, r.name, bs])
            continue
        x = rng.random()
        if x < 0.04:
            ops.append(['attr', a, rng.randrange(2**31)])
        elif x < 0.10:
            base = cls[a]
            rs = [q for q in keys if sc.refs[base].get(q.name) is q and not gen.shared_name(sc, base, q.name)]
            if rs:
                args = {}
                for q in rng.sample(rs, min(len(rs), rng.choice([1, 1, 2, 3]))):
                    bs = [b for b in ids if gen.link_ok(sc, q, base, cls[b])]
                    if bs:
                        args[q.name] = rng.sample(bs, min(len(bs), rng.randint(0, 3))) if q.many else rng.choice(bs)
                if args:
                    ops.append(['new', 'n%s%d' % (letter, k), base, args])
        elif not r.many:
            ops.append(['set', a, r.name, rng.choice(Bs[a]) if rng.random() < 0.75 else None])
        elif x < 0.35:
            bs = some(0, 4)
            if sc.inverse(r) is None:
                bs = list(dict.fromkeys(bs))
            ops.append(['setlist', a, r.name, bs])
        elif x < 0.45:
            same = [i for i in As if i != a and sc.refs[cls[i]].get(r.name) is r]
            if same and sc.inverse(r) is not None and rng.random() < 0.35:
                ops.append(['take', a, r.name, rng.choice(same)])         # the very list of another object
            else:
                ops.append(['reassign', a, r.name, rng.randrange(2**31)]) # members plus or minus some, from the getter
        elif x < 0.52:
            ops.append(['mutate', rng.randrange(2**31), rng.choice(ids)])
        elif x < 0.75:
            ops.append(['add', a, r.name, some(1, 3)])
        elif x < 0.97 or not loose:
            ops.append(['remove', a, r.name, rng.randrange(2**31), rng.choice([1, 1, 2, 9])])
        else:
            ops.append(['removeany', a, r.name, some(1, 2)])
    if restarts:
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.insert(rng.randrange(len(ops) + 1), ['save', {'faults': [{'kind': 'write', 'n': rng.randrange(30),
                       'err': rng.choice(['EIO', 'ENOSPC', 'INT'])}]} if rng.random() < 0.4 else {}])
        if rng.random() < 0.5:
            ops.insert(rng.randrange(len(ops) + 1), ['crash'])
        if rng.random() < 0.3:
            ops.insert(rng.randrange(len(ops) + 1), ['copyback'])
    return ops


def history(rng, top, refs, per_ref=10, restarts=True, loose=False):
    """A case: objects around the given association ends, and callers' programs interleaved by the seeded scheduler."""
    sc = schema(top)
    b = gen.Builder(rng, top, True)
    use = []
    for r in refs:
        p = gen.pair_for(rng, sc, r)
        if p is None:
            continue
        use.append(r)
        for _ in range(rng.choice([2, 2, 3])):
            b.obj(p[0], 0.15)
        for _ in range(rng.choice([2, 3, 4])):
            b.obj(gen.pick_class(rng, sc, r.tgt, 0.2) if rng.random() < 0.3 else p[1], 0.15)
    refs = list(use)
    for r in use:                       # operate on both ends
        q = sc.inverse(r)
        if q is not None:
            refs.append(q)
    n = rng.choice([1, 2, 2, 3])
    progs = [caller_ops(rng, sc, b.cls, refs, max(1, per_ref * len(use) // n), restarts and k == 0, loose, 'abc'[k]) for k in range(n)]
    ops, at = [], [0] * n
    left = [k for k in range(n) if progs[k]]
    cur = left[0] if left else None
    while left:                         # bursts of seeded length
        if cur not in left or rng.random() < 0.5:
            cur = rng.choice(left)
        ops.append(progs[cur][at[cur]])
        at[cur] += 1
        if at[cur] == len(progs[cur]):
            left.remove(cur)
    return {'top': top, 'objs': b.objs, 'ops': ops, 'twins': rng.choice([None, None, 'none', 'same'])}


def crowd(rng, top, refs):
    """A case with long lists: for every list end an object whose list is filled, and worked on from both ends while it is long."""
    sc = schema(top)
    b = gen.Builder(rng, top, True)
    ops = []
    for r in refs:
        p = gen.pair_for(rng, sc, r)
        if p is None or not r.many:
            continue
        As = [b.obj(p[0], 0.02) for _ in range(2)]
        Bs = [b.obj(p[1], 0.02) for _ in range(rng.randint(8, 12))]
        q, a = sc.inverse(r), As[0]
        first = rng.sample(Bs, rng.randint(6, len(Bs) - 2))
        rest = [x for x in Bs if x not in first]
        ops.append([rng.choice(['setlist', 'add']), a, r.name, first])
        far = []                        # joining and leaving the long list from the other end
        if q is not None and q.many:
            far = [['add', rest[0], q.name, As[:1]], ['setlist', rest[1], q.name, rng.choice([As, As[:1]])],
                   ['remove', first[0], q.name, rng.randrange(2**31), 2], ['setlist', first[1], q.name, As[1:]]]
        elif q is not None:
            far = [['set', rest[0], q.name, a], ['set', first[0], q.name, None], ['set', first[1], q.name, As[1]]]
        ops += rng.sample(far, len(far))
        for _ in range(rng.choice([3, 4, 6])):
            x = rng.random()
            if x < 0.35:
                ops.append(['remove', a, r.name, rng.randrange(2**31), rng.choice([1, 1, 2, 5, 8])])
            elif x < 0.45:
                ops.append(['add', a, r.name, rng.sample(Bs, rng.randint(1, len(Bs)))])
            elif x < 0.55:
                ops.append(['reassign', a, r.name, rng.randrange(2**31)])
            elif x < 0.62:
                ops.append(['setlist', rng.choice(As), r.name, rng.sample(Bs, rng.randint(0, len(Bs)))])
            elif q is None:
                ops.append(['add', a, r.name, rng.sample(Bs, rng.randint(1, 3))])
            elif not q.many:
                ops.append(['set', rng.choice(rng.choice([Bs, rest])), q.name, rng.choice(As + [None])])
            else:
                ops.append([rng.choice(['setlist', 'add']), rng.choice(rng.choice([Bs, rest])), q.name, rng.sample(As, rng.randint(1, 2))])
                if rng.random() < 0.4:
                    ops.append(['remove', ops[-1][1], q.name, rng.randrange(2**31), 1])
    return {'top': top, 'objs': b.objs, 'ops': ops, 'twins': rng.choice([None, None, 'none', 'same'])}


# ------------------------------------------------------------------ execution
class Stop(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Live(object):
    """The real objects next to the reference model."""
    ordered = False

    def __init__(self, case, res):
        self.sc = schema(case['top'])
        self.m = RefModel(case['top'])
        self.d = {}
        self.passed = []            # lists handed to the library: [the list, owner, ref name]
        self.disk = None
        self.res = res
        self.twins = case.get('twins')      # objects have no identifier of their own, or all the same
        for i, c, attrs in case['objs']:
            self.m.new(i, c, attrs)
            self.d[i] = self.sc.live(c)(**self.uuid(i))
            for n, v in attrs.items():
                setattr(self.d[i], n, v)

    def uuid(self, i):
        return {'UUID': i} if not self.twins else {'UUID': 'x'} if self.twins == 'same' else {}

    def has(self, *ids):
        return all(i in self.d for i in ids)

    def now(self, a, n):
        ids = {id(o): i for i, o in self.d.items()}
        return [ids.get(id(x)) for x in getattr(self.d[a], n)]

    def order(self, a, n, want):
        """Elements keep the order they were given in (saying one twice may move it)."""
        if not self.ordered or len(set(want)) < len(want):
            return
        got = [b for b in self.now(a, n) if b in want]
        if len(got) == len(want) and got != want:
            raise Stop('order', '%s of %r has them in the order %s, they were given as %s' % (n, a, got, want))

    def step(self, op):
        """Applies one operation to both.  False when it does not apply here."""
        k, m, d = op[0], self.m, self.d
        if k in ('set', 'setlist', 'reassign', 'take', 'add', 'remove', 'removeany'):
            a, n = op[1], op[2]
            if not self.has(a) or n not in m.refs[a]:
                return False
            r = m.ref(a, n)
            if k == 'set':
                if op[3] is not None and not self.has(op[3]):
                    return False
                setattr(d[a], n, None if op[3] is None else d[op[3]])
                m.assign(a, n, [] if op[3] is None else [op[3]])
            elif k == 'setlist':
                if not self.has(*op[3]):
                    return False
                l = [d[b] for b in op[3]]
                self.passed.append(l) if self.sc.inverse(r) is not None else None
                setattr(d[a], n, l)
                m.assign(a, n, list(dict.fromkeys(op[3])))
                self.order(a, n, op[3])
            elif k == 'take':
                if not self.has(op[3]) or n not in m.refs[op[3]]:
                    return False
                now = list(m.get(op[3], n))
                if not all(gen.link_ok(self.sc, r, m.cls[a], m.cls[b]) for b in now):
                    return False
                was = self.now(op[3], n)
                setattr(d[a], n, getattr(d[op[3]], n))
                m.assign(a, n, now)
                self.order(a, n, was)
            elif k == 'reassign':
                rng = random.Random(op[3])
                cur = list(getattr(d[a], n))
                ids = {id(o): i for i, o in d.items()}
                now = [ids[id(x)] for x in cur if id(x) in ids]
                mode = rng.randrange(4)
                keep = now if mode == 0 else [x for x in now if rng.random() < 0.5]
                if mode == 2:
                    keep = keep[::-1]
                l = getattr(d[a], n) if mode == 0 else [d[x] for x in keep]
                setattr(d[a], n, l)
                m.assign(a, n, keep)
                self.order(a, n, keep)
            elif k == 'add':
                bs = op[3]
                if not self.has(*bs):
                    return False
                new = [b for b in dict.fromkeys(bs) if b not in m.get(a, n)]
                old = [b for b in self.now(a, n) if b not in bs]
                gen.add_to(d[a], r, *[d[b] for b in bs])
                for b in bs:
                    m.link(a, n, b)
                self.order(a, n, old)
                self.order(a, n, new if len(set(bs)) == len(bs) else [])
            elif k == 'remove':
                rng = random.Random(op[3])
                cur = sorted(m.get(a, n))
                if not cur:
                    return False
                bs = rng.sample(cur, min(len(cur), op[4]))
                old = [b for b in self.now(a, n) if b not in bs]
                gen.remove_from(d[a], r, *[d[b] for b in bs])
                for b in bs:
                    m.unlink(a, n, b)
                self.order(a, n, old)
            else:
                if not self.has(*op[3]) or self.sc.inverse(r) is None:
                    return False
                try:
                    gen.remove_from(d[a], r, *[d[b] for b in op[3]])
                except Exception:
                    self.res.stats['removal of a stranger refused'] += 1
                return 'loose'
        elif k == 'mutate':
            if not self.passed or not self.has(op[2]):
                return False
            l = self.passed[op[1] % len(self.passed)]
            if op[1] % 3 == 0:
                del l[:]
            else:
                l.append(d[op[2]])
        elif k == 'attr':
            if not self.has(op[1]):
                return False
            rng = random.Random(op[2])
            at = self.sc.attrs[m.cls[op[1]]]
            if not at:
                return False
            n = rng.choice(sorted(at))
            v = gen.value(rng, at[n])
            setattr(d[op[1]], n, v)
            m.attrs[op[1]][n] = v
        elif k == 'new':
            i, c, args = op[1:]
            if i in d or not self.has(*[b for v in args.values() for b in (v if isinstance(v, list) else [v])]):
                return False
            kw = {}
            for n, v in args.items():
                kw[n] = [d[b] for b in v] if isinstance(v, list) else d[v]
                if isinstance(v, list):
                    self.passed.append(kw[n])
            m.new(i, c)
            d[i] = self.sc.live(c)(**dict(kw, **self.uuid(i)))
            for n, v in args.items():
                m.assign(i, n, v if isinstance(v, list) else [v])
            for n, v in args.items():
                if isinstance(v, list):
                    self.order(i, n, v)
        elif k == 'save':
            return self.save(op[1])
        elif k == 'crash':
            if self.disk is None:
                return False
            self.restart(self.disk)
        elif k == 'copyback':
            if not self.save({}):
                return False
            self.restart(self.disk)
        else:
            raise S.HarnessError('unknown op %r' % op)
        self.res.stats['call ' + k] += 1
        return True

    def save(self, plan):
        if self.twins:          # identifiers are given for as long as they are needed
            was = {i: o.UUID for i, o in self.d.items()}
            for i, o in self.d.items():
                o.UUID = i
            try:
                self.twins, t = None, self.twins
                return self.save(plan)
            finally:
                self.twins = t
                for i, o in self.d.items():
                    o.UUID = was[i]
        with S.Sim(plan, world.scratch()) as s:
            t = world.Target(s, 'duck')
            _, err = world.attempt(world.write, self.d, t.arg)
            s.close_all()
        self.res.absorb(s, False)
        hit = [k for k in s.fired if not k.endswith((':short', ':jump'))]
        if err is not None:
            if not hit:
                raise Stop('save', 'saving the model raised ' + world.exc_text(err))
            return True
        if hit:
            return True                 # C02's business
        self.disk = (t.delivered(), self.m.durable())
        self.res.stats['call save'] += 1
        return True

    def restart(self, disk):
        """The process died: only the last complete save is left."""
        data, m = disk
        with S.Sim({}, world.scratch()) as s:
            out, err = world.attempt(world.read, world.source(s, 'bytesio', data), self.sc)
            s.close_all()
        self.res.absorb(s, False)
        self.res.stats['fault process:restart'] += 1
        if err is not None:
            raise Stop('restart', 'reloading the saved model raised ' + world.exc_text(err))
        if set(out) != set(m.cls):
            raise Stop('restart', 'reloading the saved model lost or invented objects')
        self.d = out
        if self.twins:
            for o in out.values():
                o.UUID = self.uuid('').get('UUID', '')
        self.m = m.durable()
        self.passed = []


def snapshot(live):
    import meta
    return meta.snapshot(live.sc, live.d, live.m.cls)
