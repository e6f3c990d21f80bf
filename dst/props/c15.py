"""C15  any class can be loaded first, in any order, in a fresh process."""
import _thread, importlib, random, sys
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS, MM
from c04 import read_doc

_hooked = False


def hook():
    """Every source file an import reads is one simulated operation that may fail."""
    global _hooked
    if _hooked:
        return
    _hooked = True
    from importlib._bootstrap_external import SourceFileLoader
    real = SourceFileLoader.get_data

    def get_data(self, path):
        s = S.CUR
        p = str(path)
        if s is not None and p.endswith('.py') and (p.startswith(S.REPO) or S.WATCH and p.startswith(S.WATCH)):
            s.op('import', p[len(S.REPO if p.startswith(S.REPO) else S.WATCH):])
        return real(self, path)
    SourceFileLoader.get_data = get_data

    class Locks(object):
        """Waiting for another thread's import is a scheduling decision, too."""
        allocate_lock, RLock = S.SimLock, S.SimRLock

        def __getattr__(self, n):
            return getattr(_thread, n)
    importlib._bootstrap._thread = Locks()


class C15(Prop):
    id = 'C15'
    rule = ('a case is a fresh (forked, nothing of the library imported) process that runs two to five seeded first uses: loading a document '
            'with classes in seeded order, importing a package, a class or the library; a seeded reading of a source file fails or is '
            'interrupted in half of the cases, at a seeded file or source line, and the use is tried again; every load is compared with '
            'its document, every class found with its catalogue entry, and its bases with theirs; in one case of eight several threads load at once under a seeded schedule that switches at source lines, '
            'source file readings and import locks; every class of every package is the '
            'first one of a load once per sweep; non-trivial: always; distinct by order of files imported')
    real = ['PyCIM', 'CIM14.*', 'CIM15.*', 'import system', 'xml.etree/expat']
    stub = ['reading of source files (failures)', 'raw device', 'clock']
    states_are = 'distinct orders in which source files were imported, with faults'
    warm = False
    fresh = True
    parts = [(('loads',), 'list'), (('switches',), 'dict'), (('uses',), 'list')] + [(('loads', k, 'x', 'doc', 'elems'), 'list') for k in range(4)] + [(('uses', k, 'fault'), 'drop') for k in range(5)] + \
            [(('uses', k, 'x', 'doc', 'elems'), 'list') for k in range(5)]

    def __init__(self):
        self.all = [(t, c) for t in TOPS for c in schema(t).names]

    def count(self, tier):
        return len(self.all) if tier == 'quick' else len(self.all) * 20

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        first = self.all[(idx * 7 + idx // len(self.all)) % len(self.all)]
        if idx % 8 == 5:
            return self.together(rng, first)
        uses = [self.use(rng, first)]
        for _ in range(rng.choice([0, 1, 2, 3])):
            t = rng.choice([first[0], first[0], rng.choice(TOPS)])
            uses.append(self.use(rng, (t, rng.choice(schema(t).names))))
        if rng.random() < 0.3:
            uses.insert(0, {'do': 'import', 'what': rng.choice(['PyCIM', 'PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'CIM14', 'CIM15',
                            'PyCIM.PrettyPrintXML', 'PyCIM.SimpleXMLWriter'] + TOPS)})
        for u in uses:
            if rng.random() < 0.35:
                kind = rng.choice(['import', 'import', 'line'])
                u['fault'] = [{'kind': kind, 'n': rng.randrange(rng.choice([2, 10, 60, 300])) if kind == 'import' else rng.randrange(800),
                               'err': rng.choice(['EIO', 'EMFILE', 'INT', 'MEM']) if kind == 'import' else 'INT'}]
        return {'uses': uses}

    def together(self, rng, first):
        """First uses by several threads at once."""
        t = first[0]
        loads = [self.use(rng, first, True)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = rng.choice([t, t, t, rng.choice(TOPS)])
            loads.append(self.use(rng, (o, rng.choice(schema(o).names)), True))
        return {'uses': [], 'loads': loads, 'sseed': rng.randrange(2**31), 'rate': rng.choice([0.02, 0.1, 0.3, 0.6])}

    def use(self, rng, first, load=False):
        t, c = first
        sc = schema(t)
        mod = MM[t]['classes'][c]['mod']
        x = 1 if load else rng.random()
        if x < 0.15:
            return {'do': 'import', 'what': rng.choice([mod, mod.rsplit('.', 1)[0]])}
        if x < 0.3:
            return {'do': 'from', 'what': mod, 'cls': c, 'top': t}
        b = gen.Builder(rng, t, False, 1)
        b.obj(c, 0.3)
        for _ in range(rng.choice([0, 1, 3])):
            b.obj(rng.choice(sc.names), 0.3)
        b.more_links(6, lambda r: True)
        spec = b.spec(shuffle=False)
        return {'do': 'load', 'spec': spec, 'x': {'top': t, 'mode': 'detect' if t in ('CIM14', 'CIM15') else 'map',
                'doc': gen.doc_of(rng, spec, 0.3, shuffle=False)}}

    def do(self, u):
        if u['do'] == 'import':
            return importlib.import_module(u['what'])
        if u['do'] == 'from':
            return getattr(__import__(u['what'], {}, {}, [u['cls']], 0), u['cls'])
        src = world.source(S.CUR, 'bytesio', rdf.serialise(u['x']['doc']))
        return read_doc(src, u['x'])

    def run(self, case):
        hook()
        res = Res()
        world.clean_scratch()
        seen = {}
        if case.get('loads'):
            self.threads(case, res, seen)
            if res.viol:
                return res
        for k, u in enumerate(case['uses']):
            what = 'use %d (%s %s)' % (k, u['do'], u.get('what') or ' '.join(e['cls'] for e in u['x']['doc']['elems'][:4]))
            failed = False
            for attempt in range(2):
                fs = u.get('fault') if attempt == 0 else None
                with S.Sim({'faults': fs or []}, world.scratch()) as s:
                    if fs and fs[0]['kind'] == 'line':
                        with S.Lines(s):
                            out, err = world.attempt(self.do, u)
                    else:
                        out, err = world.attempt(self.do, u)
                    s.close_all()
                res.absorb(s)
                if err is None:
                    break
                if not s.fired_list:
                    res.fail('fails', '%s raised %s%s' % (what, world.exc_text(err), ' after an import that failed' if failed else ''))
                    return res
                failed = True
            if u['do'] == 'load':
                if not self.right(res, seen, u, out, what):
                    return res
            elif u['do'] == 'from':
                self.known(res, seen, out, u['top'])
            if res.viol:
                return res
        # every base of every class seen is the class the catalogue has for that name
        for name, k in sorted(seen.items()):
            for b in k.__mro__[:-1]:
                m = sys.modules.get(b.__module__)
                if m is None:
                    m, err = world.attempt(importlib.import_module, b.__module__)
                    if err is not None:
                        res.fail('fails', 'importing %s raised %s' % (b.__module__, world.exc_text(err)))
                        return res
                if getattr(m, b.__name__, None) is not b:
                    res.fail('twice', 'there are two classes %s.%s' % (b.__module__, b.__name__))
                    return res
        return res

    def right(self, res, seen, u, out, what):
        cls, st = gen.expected(u['spec']) if len(u['x']['doc']['elems']) == len(u['spec']['objs']) else self.subset(u)
        m = world.compare(schema(u['x']['top']), out, cls, st)
        if m:
            res.fail(m[0], '%s: %s' % (what, m[1]))
            return False
        for i, o in out.items():
            self.known(res, seen, type(o), u['x']['top'])
        return True

    def threads(self, case, res, seen):
        world.lib()
        with S.Sim({}, world.scratch()) as s:
            sch = S.Sched(s, [lambda u=u: self.do(u) for u in case['loads']], case['sseed'], case['rate'], case.get('switches'))
            out = sch.run()
            del sch.fns[:]
            s.close_all()
        s.fired['task:switch'] += len(sch.switches)
        s.note(sch.order.hexdigest())
        res.absorb(s)
        if case.get('switches') is None:
            case = dict(case, switches={str(a): b for a, b in sch.switches.items()})
        for k, (kind, v) in enumerate(out):
            what = 'load %d of %d at once' % (k + 1, len(out))
            if kind == 'exc':
                res.fail('together', '%s in a fresh process raised %s' % (what, world.exc_text(world.strip(v))), case)
            elif not self.right(res, seen, case['loads'][k], v, what):
                res.viol[-1]['case'] = case
            if res.viol:
                return

    def known(self, res, seen, k, top):
        name = k.__module__ + '.' + k.__name__
        if seen.setdefault(name, k) is not k:
            res.fail('twice', 'there are two classes ' + name)
        m = importlib.import_module(k.__module__)
        pk = importlib.import_module(MM[top]['classes'][k.__name__]['mod'])
        for w in (m, pk):
            if getattr(w, k.__name__, None) is not k:
                res.fail('twice', '%s.%s is not the class that was loaded' % (w.__name__, k.__name__))

    def subset(self, u):
        from c04 import PROP as c04
        return c04.subset(u['spec'], u['x']['doc'])


PROP = C15()
