"""C20  sessions of loading into, editing, saving and reloading one model."""
import copy, random
import sim as S, gen, rdf, world, hist
from base import Prop, Res
from meta import schema, special, TOPS, NS15, NS16
from c03 import close_of

ERRS = ['EIO', 'ENOSPC', 'INT', 'MEM', 'EOF', 'CLOSED', 'KEY', 'TYPE', 'EXIT']


class Ses(object):
    """The live collection next to what the session's steps say."""

    def __init__(self, case, res):
        self.sc = schema(case['top'])
        self.case, self.res = case, res
        self.m = hist.RefModel(case['top'])
        self.d = {}
        self.disk = {}                  # path number -> model saved there, or None for torn
        self.kind = case['idkind']
        self.n = 0
        self.keys = set(case['refs'])

    # ---- choices
    def fresh(self):
        self.n += 1
        return gen.ident(random.Random(self.n), self.n, self.kind)

    def open_refs(self, i):
        """Association ends of an object a step may use: the case's own, else any that a save keeps."""
        sc, c = self.sc, self.m.cls[i]
        ok = gen.serialisable(sc)
        rs = [r for n, r in sorted(sc.refs[c].items()) if not special(r) and not gen.shared_name(sc, c, n)]
        mine = [r for r in rs if r.key in self.keys]
        return mine or [r for r in rs if ok(r)]

    def partner(self, rng, i, r):
        bs = [b for b in sorted(self.m.cls) if gen.link_ok(self.sc, r, self.m.cls[i], self.m.cls[b])]
        return rng.choice(bs) if bs else None

    def odd(self, rng, a):
        """A value an editor may leave in an attribute."""
        x = rng.random()
        if x < 0.25:
            return None
        if x < 0.5 and a.typ == 'float':
            return rng.choice([0, 1, 2, -7, 10**6])
        return gen.value(rng, a)

    # ---- steps
    def attr(self, rng):
        ids = [i for i in sorted(self.m.cls) if self.sc.attrs[self.m.cls[i]]]
        if not ids:
            return False
        i = rng.choice(ids)
        at = self.sc.attrs[self.m.cls[i]]
        for n in rng.sample(sorted(at), min(len(at), rng.choice([1, 1, 2, 5]))):
            v = self.odd(rng, at[n])
            setattr(self.d[i], n, v)
            self.m.attrs[i][n] = v
        return True

    def link(self, rng):
        ids = sorted(self.m.cls)
        rng.shuffle(ids)
        for i in ids[:6]:
            rs = self.open_refs(i)
            if not rs:
                continue
            r = rng.choice(rs)
            b = self.partner(rng, i, r)
            if b is None:
                continue
            x = rng.random()
            o, m = self.d[i], self.m
            if not r.many:
                if x < 0.25:
                    setattr(o, r.name, None)
                    m.assign(i, r.name, [])
                else:
                    setattr(o, r.name, self.d[b])
                    m.assign(i, r.name, [b])
            elif x < 0.3 and m.get(i, r.name):
                y = rng.choice(sorted(m.get(i, r.name)))
                gen.remove_from(o, r, self.d[y])
                m.unlink(i, r.name, y)
            elif x < 0.45:
                setattr(o, r.name, [self.d[b]])
                m.assign(i, r.name, [b])
            elif b not in m.get(i, r.name):
                gen.add_to(o, r, self.d[b])
                m.link(i, r.name, b)
            return True
        return False

    def new(self, rng):
        i = self.fresh()
        c = rng.choice(self.case['classes'])
        at = self.sc.attrs[c]
        attrs = {n: gen.value(rng, at[n]) for n in rng.sample(sorted(at), min(len(at), 3))}
        self.d[i] = self.sc.live(c)(UUID=i, **attrs)
        self.m.new(i, c, attrs)
        return True

    def drop(self, rng):
        """Takes an object out of the model: its links first, then the object."""
        m = self.m
        if len(m.cls) < 3:
            return False
        i = rng.choice(sorted(m.cls))
        for j in sorted(m.cls):
            for n, v in sorted(m.refs[j].items()):
                r = m.ref(j, n)
                for b in list(v):
                    if (j == i or b == i) and b in m.refs[j][n]:
                        if special(r):
                            return False
                        if r.many:
                            gen.remove_from(self.d[j], r, self.d[b])
                        else:
                            setattr(self.d[j], n, None)
                        m.unlink(j, n, b)
        del self.d[i], m.cls[i], m.attrs[i], m.refs[i]
        return True

    def part(self, rng, op):
        """Loads a document that adds objects and says more about known ones."""
        sc, m = self.sc, copy.deepcopy(self.m)
        was, props, mode = sorted(m.cls), {}, {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            i, c = self.fresh(), rng.choice(self.case['classes'])
            m.new(i, c)
            mode[i], props[i] = 'ID', []
        for i in rng.sample(was, min(len(was), rng.choice([0, 1, 2, 5]))):
            mode[i], props[i] = 'about', []
        for i in sorted(props):
            at = sc.attrs[m.cls[i]]
            for n in rng.sample(sorted(at), min(len(at), rng.choice([0, 1, 3, 6]))):
                v = gen.value(rng, at[n])
                p = gen.attr_prop(rng, sc, m.cls[i], n, v)
                if p is not None:
                    props[i].append(p)
                    m.attrs[i][n] = v
        linked, moved = set(), set()
        live, self.m = self.m, m            # open_refs and partner look at the model with the new objects
        for _ in range(rng.choice([0, 2, 5, 9])):
            if not props:
                break
            i = rng.choice(sorted(props))
            rs = self.open_refs(i)
            if not rs:
                continue
            r = rng.choice(rs)
            b = self.partner(rng, i, r)
            if b is None or b in m.get(i, r.name):
                continue
            q = sc.inverse(r)
            ends = gen.link_props(rng, sc, m.cls, [i, r.name, b], 0.4)
            if (not r.many and m.get(i, r.name)) or (q is not None and not q.many and m.get(b, q.name)):
                # the document moves a link: only of objects it says nothing else about the links of, whatever their order
                hit = {i, b} | set(m.get(i, r.name)) | (set(m.get(b, q.name)) if q is not None else set())
                if hit & linked:
                    continue
                if r.many:
                    m.link(i, r.name, b)
                else:
                    m.assign(i, r.name, [b])
                moved |= hit
                self.res.stats['links moved by a document'] += 1
            elif {i, b} & moved:
                continue
            else:
                m.link(i, r.name, b)
                hit = {i, b}
            linked |= hit
            for k, p in ends:
                if k not in props:
                    mode[k], props[k] = 'about', []
                props[k].append(p)
        self.m = live
        es = [{'cls': m.cls[i], 'id': i, 'mode': mode[i], 'props': props[i]} for i in sorted(props)]
        for e in es:
            rng.shuffle(e['props'])
        rng.shuffle(es)
        ns = sc.ns if self.case['top'] != 'CIM15' else rng.choice([NS15, NS15, NS16])
        doc = {'ns': ns, 'enc': rng.choice(['utf-8', 'utf-8', 'utf-16']), 'style': rng.choice([None, rng.randrange(2**31)]), 'elems': es}
        data = rdf.serialise(doc)
        before = dict(self.d)
        if rng.random() < 0.35:
            self.cut_first(rng, op, data, doc['enc'])
        with S.Sim(op[2], world.scratch()) as s:
            src = world.source(s, rng.choice(world.SOURCES), data, doc['enc'])
            out, err = world.attempt(world.read, src, sc, self.d)
            s.close_all()
        self.res.absorb(s, False)
        if err is not None:
            raise hist.Stop('load', 'a document that fits the model failed to load into it: ' + world.exc_text(err))
        if out is not self.d:
            raise hist.Stop('collection', 'the load did not return the collection it was given')
        for i, o in before.items():
            if self.d.get(i) is not o:
                raise hist.Stop('identity', '%r is another object after the load' % i)
        self.m = m
        self.res.stats['documents loaded into the model'] += 1
        return True

    def cut_first(self, rng, op, data, enc):
        """The document arrives cut at first: that fails, what was in the collection stays as it was, and the whole one can follow."""
        was = dict(self.d)
        with S.Sim(op[2], world.scratch()) as s:
            src = world.source(s, rng.choice(['path', 'bytesio', 'binary']), data[:rng.randrange(close_of(data, enc))], enc)
            out, err = world.attempt(world.read, src, self.sc, self.d)
            s.close_all()
        self.res.absorb(s, False)
        self.res.stats['fault document:cut'] += 1
        if err is None:
            raise hist.Stop('cut', 'a cut document was loaded into the model without an error')
        for i, o in was.items():
            if self.d.get(i) is not o:
                raise hist.Stop('identity', '%r is another object, or gone, after a load that failed because its document was cut' % i)
        bad = world.compare(self.sc, was, self.m.cls, {i: self.m.state(i) for i in self.m.cls})
        if bad:
            raise hist.Stop(bad[0], 'a load that failed because its document was cut changed what was in the collection: ' + bad[1])

    def badload(self, rng, op):
        """A damaged document, loaded on its own, fails and leaves the session alone."""
        top = self.case['top']
        spec = gen.model(rng, top, (), [rng.choice(self.case['classes']) for _ in range(3)], 0, 3)
        data = rdf.serialise(gen.doc_of(rng, spec))
        with S.Sim(op[2], world.scratch()) as s:
            out, err = world.attempt(world.read, world.source(s, rng.choice(['path', 'bytesio', 'binary']), data[:rng.randrange(len(data) - 10)]), self.sc)
            s.close_all()
        self.res.absorb(s, False)
        self.res.stats['fault document:cut'] += 1
        return True

    def kept(self):
        """What a save keeps, as it will be read back."""
        m = self.m.durable()
        for i, at in m.attrs.items():
            for n, v in at.items():
                a = self.sc.attrs[m.cls[i]][n]
                if v is None:
                    at[n] = a.default
                elif a.typ == 'float':
                    at[n] = float(v)
        return m

    def save(self, rng, op, die=False):
        k = rng.randrange(2)
        plan = dict(op[2])
        if die or rng.random() < 0.3:
            plan['faults'] = [{'kind': rng.choice(['write', 'write', 'write', 'open']), 'n': rng.choice([0, 0, 1, 2, 5]), 'err': 'CRASH' if die else rng.choice(ERRS)}]
        with S.Sim(plan, world.scratch()) as s:
            t = world.Target(s, rng.choice(['path', 'pathobj']), name='m%d.xml' % k)
            _, err = world.attempt(world.write, self.d, t.arg)
            dead = s.dead
            s.close_all()
        self.res.absorb(s, False)
        if err is None and not dead:
            self.disk[k] = self.kept()
            self.res.stats['saves'] += 1
            return True
        if err is not None and not world.real_faults(s):
            raise hist.Stop('save', 'saving the model raised ' + world.exc_text(err))
        self.disk[k] = ('torn', self.kept(), self.disk.get(k))
        if dead:
            return self.reload(rng, op, 1 - k) or self.reload(rng, op, k)
        return True

    def reload(self, rng, op, k=None):
        """A new life starts from a file."""
        k = rng.choice(sorted(self.disk)) if k is None and self.disk else k
        if self.disk.get(k) is None:
            return False
        want = self.disk[k]
        with S.Sim(op[2], world.scratch()) as s:
            t = world.Target(s, rng.choice(['path', 'pathobj']), name='m%d.xml' % k)
            out, err = world.attempt(world.read, t.arg, self.sc)
            s.close_all()
        self.res.absorb(s, False)
        self.res.stats['fault process:restart'] += 1
        if isinstance(want, tuple):         # nothing, an older document that was not touched yet, or the complete new one
            if err is not None:
                return False
            opts = []
            while isinstance(want, tuple):
                opts.append(want[1])
                want = want[2]
            opts += [want] if want is not None else []
            for m in opts:
                if world.compare(self.sc, out, m.cls, {i: m.state(i) for i in m.cls}) is None:
                    self.d, self.m = out, copy.deepcopy(m)
                    return True
            raise hist.Stop('torn', 'the file of a save that did not finish loads as a model that was never saved')
        if err is not None:
            raise hist.Stop('reload', 'reloading the saved model raised ' + world.exc_text(err))
        self.d, self.m = out, copy.deepcopy(want)
        return True

    def step(self, op):
        k, rng = op[0], random.Random(op[1])
        if k in ('attr', 'link', 'new', 'drop'):
            ok = getattr(self, k)(rng)
        elif k == 'die':
            ok = self.save(rng, op, True)
        else:
            ok = getattr(self, k)(rng, op)
        if ok:
            self.res.stats['step ' + k] += 1
        return ok


class C20(Prop):
    id = 'C20'
    rule = ('a case is a session of seeded steps on one collection: load a document that adds objects and describes known ones further (some of it arrives cut at first), set attributes '
            '(also to nothing, or to whole numbers where the class has a float), link and unlink, add and take out objects, save to one of two '
            'paths (over what is there; some saves fail or die), reload, load a damaged document on the side; after every step the whole '
            'collection is compared with the reference model; non-trivial: at least one step applied; distinct by the steps applied and event trace')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'CIM14.*', 'CIM15.*', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding', 'process death']
    parts = [(('ops',), 'list')]

    def count(self, tier):
        return 1300 if tier == 'quick' else 40000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top = rng.choice(['CIM14', 'CIM15', 'CIM15', rng.choice(TOPS)])
        sc = schema(top)
        ok = gen.all_refs(sc, gen.serialisable(sc))
        refs, classes = [], []
        for r in rng.sample(ok, min(len(ok), 3)):
            p = gen.pair_for(rng, sc, r)
            if p is not None:
                q = sc.inverse(r)
                refs += [r.key] + ([q.key] if q is not None else [])
                classes += list(p)
        classes += [rng.choice(sc.names) for _ in range(2)]
        ops = []
        n = rng.choice([6, 12, 12, 24])
        for k in range(n):
            kind = 'new' if k < 2 else rng.choices(['attr', 'link', 'new', 'drop', 'part', 'badload', 'save', 'reload', 'die'],
                                                   [5, 6, 2, 1, 5, 1, 3, 2, 1])[0]
            ops.append([kind, rng.randrange(2**31)] + ([gen.io_plan(rng)] if kind in ('part', 'badload', 'save', 'reload', 'die') else []))
        return {'top': top, 'refs': refs, 'classes': classes, 'idkind': rng.randrange(gen.ID_KINDS), 'ops': ops}

    def run(self, case):
        res = Res()
        world.clean_scratch()
        ses = Ses(case, res)
        for k, op in enumerate(case['ops']):
            try:
                ok = ses.step(op)
            except hist.Stop as e:
                res.fail(e.key, 'step %d (%s): %s' % (k, op[0], e.msg))
                return res
            res.trace.update(('%s %s;' % (op[0], ok)).encode())
            if not ok:
                continue
            m = ses.m
            bad = world.compare(ses.sc, ses.d, m.cls, {i: m.state(i) for i in m.cls})
            if bad:
                res.fail(bad[0], 'after step %d (%s): %s' % (k, op[0], bad[1]))
                return res
        res.states.add(res.trace.hexdigest()[:16])
        return res


PROP = C20()
