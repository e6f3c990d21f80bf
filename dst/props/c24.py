"""C24  a load with the caller's own map builds what that map names, from packages of the caller's own, too."""
import itertools, logging, os, random, re, sys
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, snapshot, diff_state, TOPS, NS14, NS15, MM
from c15 import hook

serial = itertools.count()      # no two runs of a process use the same package names
OWN = {'ownColour': ('str', ''), 'ownSize': ('int', 0), 'ownRatio': ('float', 0.0), 'ownOn': ('bool', False)}
MOODS = ['happy', 'sad', 'so_so']
VALUES = {'ownColour': ['red', 'x y', '\u00e9<&>'], 'ownSize': [1, -7, 10**12], 'ownRatio': [0.5, -1e-9, 3.0], 'ownOn': [True]}

SRC = '''from %(mod)s import %(base)s as Base


class %(name)s(Base):
    """A class of the caller's own."""

    def __init__(self, ownColour='', ownSize=0, ownRatio=0.0, ownOn=False, ownMood=None, ownFriend=None, *args, **kw_args):
        self.ownColour = ownColour
        self.ownSize = ownSize
        self.ownRatio = ownRatio
        self.ownOn = ownOn
        self.ownMood = ownMood
        self.ownFriend = ownFriend
        super(%(name)s, self).__init__(*args, **kw_args)

    _attrs = ["ownColour", "ownSize", "ownRatio", "ownOn", "ownMood"]
    _attr_types = {"ownColour": str, "ownSize": int, "ownRatio": float, "ownOn": bool, "ownMood": "OwnMood"}
    _defaults = {"ownColour": '', "ownSize": 0, "ownRatio": 0.0, "ownOn": False, "ownMood": 'happy'}
    _enums = {"ownMood": "OwnMood"}
    _refs = ["ownFriend"]
    _many_refs = []
'''


def subset(spec, elems):
    from c04 import PROP as c04
    return c04.subset(spec, {'elems': elems})


class C24(Prop):
    id = 'C24'
    rule = ('a case writes a package of its own on disk (classes derived from one to three library classes, under their names or new ones, '
            'with attributes, an enumeration and a reference of their own) and loads one document, with elements in two namespaces, '
            'one to four times with seeded maps (classes missing from them, entries for the package, the module or the own class, entries '
            'nobody asks for that lead nowhere, modules that fail to import or lack the class) and namespaces, into new or given '
            'collections, one after another or as scheduled threads, with faults of the source device and of the reading of the own '
            'modules; each result is compared with what its map says about the document, as are the reports, and the map is untouched; '
            'the result is saved and loaded again with the same map; non-trivial: at least one own class or missing entry; '
            'distinct by event trace')
    real = ['PyCIM', 'CIM14.*', 'CIM15.*', 'import system', 'xml.etree/expat', 'io stack', 'threads']
    stub = ['raw device', 'clock', 'thread scheduler', 'reading of source files (failures)']
    parts = [(('loads',), 'list'), (('switches',), 'dict'), (('faults',), 'list'), (('elems',), 'list'), (('elems2',), 'list')] + \
            [(('loads', k, 'drop'), 'list') for k in range(4)]

    def count(self, tier):
        return 4000 if tier == 'quick' else 60000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        top = TOPS[idx % len(TOPS)] if idx % 3 == 0 else rng.choice(['CIM14', 'CIM15'])
        sc = schema(top)
        specs, elems = [], []
        ok = gen.all_refs(sc, gen.serialisable(sc))
        for k in range(2):
            n = rng.choice([1, 2, 3]) if k else rng.choice([1, 3, 6])
            spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], [rng.choice(sc.names) for _ in range(rng.randrange(2))], 1, n,
                             hard=rng.random() < 0.3, idkind=1)
            doc = gen.doc_of(rng, spec, rng.random(), ns=sc.ns)
            specs.append(spec)
            elems.append(doc['elems'])
        used = sorted({o[1] for s in specs for o in s['objs']})
        own = {}
        for k, c in enumerate(rng.sample(used, min(len(used), rng.choice([0, 1, 1, 2, 3])))):
            own[c if rng.random() < 0.5 else 'Own' + c] = [c, 'm%d' % k]
        for es in elems:                    # what the own classes say
            ids = [e['id'] for e in es]
            for e in es:
                n = e['cls'] if e['cls'] in own else 'Own' + e['cls'] if 'Own' + e['cls'] in own and rng.random() < 0.8 else None
                if n is None:
                    continue
                e['cls'] = n
                e['own'] = {}
                for a in OWN:
                    if rng.random() < 0.5:
                        e['own'][a] = rng.choice(VALUES[a])
                if rng.random() < 0.5:
                    e['own']['ownMood'] = rng.choice(MOODS)
                if rng.random() < 0.5:
                    e['own']['ownFriend'] = rng.choice(ids)
        loads = [self.load(rng, top, sorted({e['cls'] for es in elems for e in es}), own) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        ns = rng.choice([sc.ns, sc.ns, NS14, NS15, 'http://example.org/profile', 'urn:x'])
        other = rng.choice(['http://example.org/other', ns + '-2', ns + '/x', ns[:-1], ns.replace('e', 'E')])
        case = {'top': top, 'specs': specs, 'elems': elems[0], 'elems2': elems[1], 'own': own, 'loads': loads,
                'ns': ns, 'other': other if other != ns else ns + 'x', 'exports': rng.random() < 0.3,
                'threads': len(loads) > 1 and rng.random() < 0.4, 'sseed': rng.randrange(2**31), 'rate': rng.choice([0.004, 0.02, 0.1, 0.4]),
                'broken': {m: rng.choice(['lacks', 'missing', 'raises']) for _, m in own.values()} if rng.random() < 0.15 else {},
                'faults': [], 'io': gen.io_plan(rng), 'enc': 'utf-8', 'style': rng.choice([None, rng.randrange(2**31)])}
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 2])):
                kind = rng.choice(['import', 'import', 'read', 'seek', 'open'])
                case['faults'].append({'kind': kind, 'n': rng.randrange({'import': 4, 'read': 12, 'seek': 4, 'open': 4}[kind]),
                                       'err': rng.choice(['EIO', 'INT', 'MEM', 'EMFILE'] if kind == 'import' else ['EIO', 'MEM', 'INT'])})
        return case

    def load(self, rng, top, names, own):
        x = rng.random()
        return {'drop': [n for n in names if rng.random() < rng.choice([0, 0.15, 0.4])],
                'plain': [n for n in names if n in own and not n.startswith('Own') and rng.random() < 0.3],
                'deep': [n for n in names if rng.random() < 0.3], 'only': rng.random() < 0.4,
                'ghosts': rng.random() < 0.3, 'ns': 'doc' if x < 0.7 else 'other' if x < 0.9 else 'none',
                'into': rng.random() < 0.3, 'kind': rng.choice(world.SOURCES), 'kw': rng.random() < 0.3,
                'half': rng.choice(['map', 'ns']) if rng.random() < 0.06 else None}

    # ---------------------------------------------------------------- the package on disk
    def package(self, case, root):
        d = os.path.join(root, 'own', self.pkg)
        os.makedirs(d)
        with S.real_open(os.path.join(d, '__init__.py'), 'w') as f:
            if case['exports']:             # a package of the name of each class may export the library's, too
                for c, m in case['own'].values():
                    f.write('from %s import %s\n' % (MM[case['top']]['classes'][c]['mod'], c))
        for n, (c, m) in case['own'].items():
            how = case['broken'].get(m)
            if how == 'missing':
                continue
            mod = MM[case['top']]['classes'][c]['mod']
            src = SRC % {'mod': mod, 'base': c, 'name': n if how != 'lacks' else n + 'x'}
            if how == 'raises':
                src += '\nraise RuntimeError("not today")\n'
            with S.real_open(os.path.join(d, m + '.py'), 'w', encoding='utf-8') as f:
                f.write(src)
        return os.path.dirname(d)

    def forget(self):
        for m in [m for m in sys.modules if m == self.pkg or m.startswith(self.pkg + '.')]:
            del sys.modules[m]

    # ---------------------------------------------------------------- the document and what a load makes of it
    def own_props(self, case, e):
        o, c = e.get('own', {}), e['cls']
        ps = [['v', c, a, gen.lexical(random.Random(1), type('A', (), {'typ': OWN[a][0]}), v)] for a, v in o.items() if a in OWN]
        if 'ownMood' in o:
            ps.append(['e', c, 'ownMood', 'OwnMood', o['ownMood']])
        if 'ownFriend' in o:
            ps.append(['r', c, 'ownFriend', o['ownFriend']])
        return ps

    def document(self, case):
        first = [dict(e, props=e['props'] + self.own_props(case, e)) for e in case['elems']]
        raw = []
        for e in case['elems2']:
            out = ['<o:%s rdf:ID="%s">' % (e['cls'], rdf.esc_attr(e['id'], '"'))]
            for p in e['props'] + self.own_props(case, e):
                t = 'o:%s.%s' % (p[1], p[2])
                if p[0] == 'v':
                    out.append('<%s>%s</%s>' % (t, rdf.esc_text(p[3]), t))
                elif p[0] == 'r':
                    out.append('<%s rdf:resource="#%s"/>' % (t, rdf.esc_attr(p[3], '"')))
                else:
                    out.append('<%s rdf:resource="%s#%s.%s"/>' % (t, case['other'], p[3], p[4]))
            raw.append({'raw': ''.join(out) + '</o:%s>' % e['cls']})
        elems = first + raw
        random.Random(case['sseed']).shuffle(elems)
        return rdf.serialise({'ns': case['ns'], 'enc': case['enc'], 'style': case['style'], 'elems': elems, 'extra_ns': {'o': case['other'] + '#'}})

    def map(self, case, l):
        """-> the map of this load"""
        sc = schema(case['top'])
        full = dict(sc.map())
        for n, (c, m) in case['own'].items():
            if n not in l['plain']:
                full[n] = self.pkg + '.' + m
        names = {e['cls'] for e in case['elems'] + case['elems2']}
        if l['only']:
            full = {n: m for n, m in full.items() if n in names}
        for n in l['drop']:
            full.pop(n, None)
        for n in l['deep']:
            if n in full and not full[n].startswith(self.pkg) and n in sc.raw:
                full[n] = sc.live(n).__module__
        if l['ghosts']:
            full.update({n: 'dst_no_such_package.' + n for n in ('Gone', 'Absent') + tuple(x for x in sc.names[:30] if x not in names)})
        return full or {'Gone': 'dst_no_such_package'}

    def wanted(self, case, l, m):
        """-> elements this load is about, and which of these its map knows"""
        es = {'doc': (0, case['elems']), 'other': (1, case['elems2']), 'none': (0, [])}[l['ns']]
        return es[0], es[1], [e for e in es[1] if e['cls'] in m]

    def judge(self, case, l, m, out, start):
        """A difference between what the map says and the loaded collection, or None."""
        sc = schema(case['top'])
        k, all_, es = self.wanted(case, l, m)
        cls, st = subset(case['specs'][k], es)
        if start is not None and out is not start:
            return 'start', 'returned another collection than the one given'
        if not isinstance(out, dict):
            return 'not-a-dict', 'returned %r' % type(out)
        want = {e['id'] for e in es}
        if set(out) != want:
            return 'ids', 'has %s its map has no entry for, lacks %s' % (sorted(set(out) - want)[:4], sorted(want - set(out))[:4])
        for e in es:
            o, i = out[e['id']], e['id']
            mod = sys.modules.get(m[e['cls']])
            if mod is None or type(o) is not getattr(mod, e['cls'], None):
                return 'class', '%r (%s) is a %s.%s, the map says %s' % (i, e['cls'], type(o).__module__, type(o).__name__, m[e['cls']])
            if o.UUID != i:
                return 'uuid', '%r has UUID %r' % (i, o.UUID)
        got = snapshot(sc, out, cls)
        for i, c in cls.items():
            d = diff_state(sc, c, st[i], got[i])
            if d:
                return 'state', '%s %r: %s' % (c, i, d)
        for e in es:
            if m[e['cls']].startswith(self.pkg):
                o, said = out[e['id']], e.get('own', {})
                for a, (t, dflt) in OWN.items():
                    v, w = getattr(o, a), said.get(a, dflt)
                    if type(v) is not type(w) or v != w:
                        return 'own', '%s.%s of %r is %r, expected %r' % (e['cls'], a, e['id'], v, w)
                if o.ownMood != said.get('ownMood'):
                    return 'own', 'mood of %r is %r, expected %r' % (e['id'], o.ownMood, said.get('ownMood'))
                w = out.get(said.get('ownFriend'))
                if o.ownFriend is not w:
                    return 'own', 'friend of %r is %s, expected %s' % (e['id'], o.ownFriend and o.ownFriend.UUID, said.get('ownFriend'))
        return None

    def lost(self, case, l, m):
        """Whether something had to be reported."""
        k, all_, es = self.wanted(case, l, m)
        if len(all_) != len(es):
            return True
        return any(e.get('own') and not m[e['cls']].startswith(self.pkg) for e in es)

    def start(self, case, l, s, data, k):
        """-> (function, map, copy of it, given collection)"""
        m = self.map(case, l)
        src = world.source(s, l['kind'], data, case['enc'], name='in%d.xml' % k)
        f = world.lib()[0]
        ns = {'doc': case['ns'], 'other': case['other'], 'none': 'http://example.org/none'}[l['ns']]
        d = {} if l['into'] else None
        args, kw = [m, ns], {}
        if l['half'] == 'map':
            args[1] = None
        elif l['half'] == 'ns':
            args[0] = None
        if l['kw']:
            args, kw = [], {'packageMap': args[0], 'nsURI': args[1]}
        if d is not None:
            kw['start_dict'] = d
        return (lambda: f(src, *args, **kw)), m, dict(m), d

    def run(self, case):
        hook()
        res = Res()
        world.clean_scratch()
        root = world.scratch()
        self.pkg = 'dstown%d' % next(serial)
        path = self.package(case, root)
        S.WATCH = os.path.join(path, self.pkg) + os.sep
        sys.path.insert(0, path)
        try:
            self.loads(case, res)
        finally:
            sys.path.remove(path)
            sys.path_importer_cache.pop(path, None)
            sys.path_importer_cache.pop(os.path.join(path, self.pkg), None)
            self.forget()
            S.WATCH = None
            for v in res.viol:
                v['msg'] = re.sub('dstown[0-9]+', 'dstown', v['msg'])
        return res

    def bad_import(self, case, l, m):
        """Whether this load needs a module that cannot deliver."""
        es = self.wanted(case, l, m)[2]
        return any(m[e['cls']].startswith(self.pkg + '.') and m[e['cls']][len(self.pkg) + 1:] in case['broken'] for e in es)

    def loads(self, case, res):
        data = self.document(case)
        for n, (c, m) in case['own'].items():
            schema(case['top']).live(c)
        with S.Sim(dict(case['io'], faults=case['faults']), world.scratch()) as s:
            jobs = [self.start(case, l, s, data, k) for k, l in enumerate(case['loads'])]
            S.LOG.clear()
            if case['threads']:
                sch = S.Sched(s, [j[0] for j in jobs], case['sseed'], case['rate'], case.get('switches'))
                out = sch.run()
                del sch.fns[:]
                s.fired['task:switch'] += len(sch.switches)
                s.note(sch.order.hexdigest())
                if case.get('switches') is None:
                    case = dict(case, switches={str(a): b for a, b in sch.switches.items()})
                hurt = {f[3] for f in s.fired_list}
                said = [[r for r, t in zip(S.LOG.records, S.LOG.tasks) if t == k] for k in range(len(jobs))]
            else:
                out, hurt, said = [], set(), []
                for k, j in enumerate(jobs):
                    n, a = len(s.fired_list), len(S.LOG.records)
                    r, err = world.attempt(j[0])
                    out.append(('ok', r) if err is None else ('exc', err))
                    if len(s.fired_list) > n:
                        hurt.add(k)
                    said.append(S.LOG.records[a:])
            s.close_all()
        res.absorb(s)
        for k, ((kind, v), (fn, m, before, d), l) in enumerate(zip(out, jobs, case['loads'])):
            what = 'load %d of %d (%s)' % (k, len(jobs), 'at once' if case['threads'] else 'one after another')
            if list(m.items()) != list(before.items()):
                res.fail('map', what + ' changed the map it was given', case)
            elif l['half']:
                if kind != 'exc':
                    res.fail('half', what + ' given only the %s returned a model' % l['half'], case)
                elif k not in hurt and d:
                    res.fail('half', what + ' given only the %s put objects into the collection' % l['half'], case)
            elif kind == 'exc':
                world.strip(v)
                if k not in hurt and not self.bad_import(case, l, m):
                    res.fail('raised', what + ' raised %s although nothing failed in it' % world.exc_text(v), case)
            elif self.bad_import(case, l, m):
                res.fail('partial', what + ' returned although a module its map names cannot be imported or lacks the class', case)
            elif k in hurt:
                res.fail('swallowed', what + ' returned although something failed in it', case)
            else:
                bad = self.judge(case, l, m, v, d)
                if bad:
                    res.fail(bad[0], what + ': ' + bad[1], case)
                else:
                    told = [t for lv, t in said[k] if lv >= logging.WARNING]
                    if self.lost(case, l, m) and not told:
                        res.fail('silent', what + ' lost content without a report', case)
                    elif told and len(self.wanted(case, l, m)[1]) == len(self.wanted(case, l, m)[2]) and not self.lost(case, l, m):
                        res.fail('false report', what + ' lost nothing but reported %s' % told[:2], case)
                    else:
                        self.again(case, res, l, m, v, k)
            if res.viol:
                return
            res.stats['load ' + ('refused' if kind == 'exc' else 'judged')] += 1

    def again(self, case, res, l, m, d, k):
        """Save what was loaded; load it with the same map."""
        if not d:
            return
        with S.Sim(case['io'], world.scratch()) as s:
            p = os.path.join(world.scratch(), 'again%d.xml' % k)
            _, err = world.attempt(world.write, d, p)
            out = None
            if err is None:
                with S.real_open(p, 'rb') as f:
                    ns = re.search(rb'xmlns:cim\s*=\s*["\']([^"\']*?)#?["\']', f.read()).group(1).decode()
                out, err = world.attempt(world.lib()[0], p, m, ns)
            s.close_all()
        res.absorb(s)
        if err is not None:
            res.fail('again', 'saving the model of load %d and loading it again raised %s' % (k, world.exc_text(err)), case)
            return
        bad = self.judge(case, l, m, out, None)
        if bad:
            res.fail('again', 'the model of load %d, saved and loaded again: %s' % (k, bad[1]), case)


PROP = C24()
