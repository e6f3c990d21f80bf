"""Seeded generation of values, models, documents and I/O conditions.  All results are JSON."""
import hashlib, json, random
from meta import schema, special, TOPS, ACL, ACL_VIEWS, PLI, GHOST

WORDS = ['', ' ', 'a', 'Substation 1', 'None', 'True', 'false', '0', '#x', 'a.b.c', '&amp;', '<b>', ']]>', '"q"', "it's",
         'x\ny', '\ttab', ' lead', 'trail ', 'cr\rlf', '\r\n', 'caf\xe9', '\u00b5\u03a9', '\u65e5\u672c', '\U0001f50c',
         '\u00a0', '\u2028', '\x85', '-', '--', '%s', '{0}', '\\n', 'http://x/y#z.w', '<!-- c -->', '&#13;', '\ufffd', "'", '>',
         'A' * 300, '\n', '\n\n  \n', 'e\u0301', 'nul', '\ud7ff\ue000']
CHARS = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.,;:#&<>"\'/\\\n\t\r()[]{}!?@$%^*+=~`|'
         '\xe9\xfc\xdf\u0394\u20ac\u4e2d\U0001f600\x7f\x80\x9f\xa0\xff\u0100\u2029\ufeff')


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(':'.join(map(str, parts)).encode()).digest()[:8], 'big')


def text(rng, hard=True):
    r = rng.random()
    if not hard:
        return ''.join(rng.choice('abcdefghij klmnop0123456789') for _ in range(rng.randrange(1, 12)))
    if r < 0.5:
        return rng.choice(WORDS)
    if r < 0.97:
        return ''.join(rng.choice(CHARS) for _ in range(rng.randrange(1, 30)))
    return ''.join(rng.choice(CHARS) for _ in range(rng.randrange(2000, 30000)))


def real(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0.0, 1.0, -1.0, 0.1, -0.0, 1e-300, 5e-324, 1.7976931348623157e308, -123.456, 1e16, 1e22, 3.14159,
                           float('inf'), float('-inf'), float('nan'), 2 / 3.0, 1e-7, 100000.0, 123456789012345680.0])
    if r < 0.6:
        return round(rng.uniform(-1000, 1000), rng.randrange(0, 6))
    return rng.uniform(-1, 1) * 10 ** rng.randrange(-30, 30)


def integer(rng):
    return rng.choice([0, 1, -1, 2, 7, 10, 255, -32768, 2**31 - 1, -2**31, 2**63, 10**30, rng.randrange(-10**6, 10**6)])


def value(rng, a, hard=True):
    if a.typ == 'float':
        return real(rng)
    if a.typ == 'int':
        return integer(rng)
    if a.typ == 'bool':
        return rng.random() < 0.75
    if a.typ == 'enum':
        return rng.choice(a.lits) if a.lits else rng.choice(['', 'other', 'x1'])
    return text(rng, hard)


ID_KINDS = 8


def ident(rng, i, kind):
    """The i-th identifier of a model; unique for one kind."""
    if kind == 0:
        return '_%08x' % (i * 2654435761 % 2**32)
    if kind == 1:
        return 'obj%d' % i
    if kind == 2:
        return '%d' % i
    if kind == 3:
        return ('Id' if i % 2 else 'id') + 'X%d' % (i // 2)         # differ by case only
    if kind == 4:
        return '#%d#.%d' % (i, i)
    if kind == 5:
        return 'n %d & <"\'> \xe9\u4e2d' % i
    if kind == 6:
        return ('L' * 200) + '%d' % i
    return 't\t\n\r%d' % i


def link_ok(sc, r, ca, cb):
    """May an object of class ca hold a link r to one of class cb, free of shadowed ends?"""
    if not sc.is_a(ca, r.owner) or not sc.is_a(cb, r.tgt) or sc.refs[ca].get(r.name) is not r:
        return False
    q = sc.inverse(r)
    return q is None or sc.refs[cb].get(q.name) is q


def shared_name(sc, c, n):
    """Do two associations of this class share the name n?  (Known finding; see shadow.py.)"""
    return any(m == n for _, m in sc.shadow[c])


def all_refs(sc, pred=None):
    return [r for c in sc.names for r in sc.own[c] if not special(r) and (pred is None or pred(r))]


class Decks(object):
    """Shuffled decks dealt by case number, so that a sweep of cases touches every item."""

    def __init__(self, items, seed, per):
        self.items, self.seed, self.per = items, seed, per
        self.size = max(1, -(-len(items) // per))
        self._d = {}

    def deal(self, idx):
        rnd = idx // self.size
        if rnd not in self._d:
            d = list(self.items)
            random.Random(seed_of('deck', self.seed, rnd)).shuffle(d)
            self._d = {rnd: d}
        k = idx % self.size
        return self._d[rnd][k * self.per:(k + 1) * self.per]


def pick_class(rng, sc, base, p_sub=0.4):
    subs = sc.subclasses(base)
    return rng.choice(subs) if rng.random() < p_sub else base


def pair_for(rng, sc, r):
    """Classes for the two ends of a link r."""
    for _ in range(40):
        ca, cb = pick_class(rng, sc, r.owner), pick_class(rng, sc, r.tgt)
        if link_ok(sc, r, ca, cb):
            return ca, cb
    return (r.owner, r.tgt) if link_ok(sc, r, r.owner, r.tgt) else None


class Builder(object):
    """Grows a model spec {top, objs:[[id, cls, {attr: value}]], links:[[id, ref, id]]}."""

    def __init__(self, rng, top, hard=True, idkind=None):
        self.rng, self.sc, self.hard = rng, schema(top), hard
        self.idkind = rng.randrange(ID_KINDS) if idkind is None else idkind
        self.objs, self.links = [], []
        self.cls = {}
        self.single = {}                  # (id, ref name) -> id, single ends in use
        self.have = set()

    def obj(self, c, p_attr=0.5):
        i = ident(self.rng, len(self.objs), self.idkind)
        attrs = {}
        for n, a in self.sc.attrs[c].items():
            if self.rng.random() < p_attr:
                attrs[n] = value(self.rng, a, self.hard)
        self.objs.append([i, c, attrs])
        self.cls[i] = c
        return i

    def link(self, a, r, b):
        """Adds a link if no single-valued end is in use; True when added."""
        sc = self.sc
        if not link_ok(sc, r, self.cls[a], self.cls[b]):
            return False
        q = sc.inverse(r)
        ends = []
        if not r.many:
            ends.append((a, r.name, b))
        if q is not None and not q.many:
            ends.append((b, q.name, a))
        if any((x, n) in self.single for x, n, _ in ends):
            return False
        if len(ends) == 2 and ends[0][:2] == ends[1][:2]:
            ends = ends[:1]
        k = (a, r.name, b)
        if k in self.have or (q is not None and (b, q.name, a) in self.have):
            return False
        self.have.add(k)
        for x, n, v in ends:
            self.single[x, n] = v
        self.links.append([a, r.name, b])
        return True

    def impedance(self):
        """A line segment with an impedance (CIM15 only)."""
        a = self.obj(ACL)
        t = self.rng.choice(sorted(PLI))
        b = self.obj(t)
        self.links.append([a, 'PerLengthImpedance' if self.rng.random() < 0.5 else PLI[t], b])

    def more_links(self, n, pred):
        sc, rng = self.sc, self.rng
        ids = [o[0] for o in self.objs]
        for _ in range(n):
            a = rng.choice(ids)
            rs = [r for r in sc.refs[self.cls[a]].values() if not special(r) and pred(r)]
            if not rs:
                continue
            r = rng.choice(rs)
            cand = [b for b in ids if sc.is_a(self.cls[b], r.tgt)]
            if cand:
                self.link(a, r, rng.choice(cand))

    def spec(self, shuffle=True):
        objs = list(self.objs)
        if shuffle:
            self.rng.shuffle(objs)
        return {'top': self.sc.top, 'objs': objs, 'links': self.links}


def serialisable(sc):
    """Links some single-valued end carries (the others are the known finding of C01)."""
    def f(r):
        if not r.many:
            return True
        q = sc.inverse(r)
        return q is not None and not q.many
    return f


def model(rng, top, refs=(), classes=(), extra_objs=0, extra_links=0, hard=True, pred=None, idkind=None, p_attr=0.5):
    b = Builder(rng, top, hard, idkind)
    sc = b.sc
    pred = pred or serialisable(sc)
    for r in refs:
        p = pair_for(rng, sc, r)
        if p is None:
            continue
        ca, cb = p
        a = b.obj(ca, p_attr)
        # self-reference or an existing object now and then
        old = [x for x in b.cls if sc.is_a(b.cls[x], r.tgt)]
        t = rng.choice(old) if old and rng.random() < 0.3 else b.obj(cb, p_attr)
        if not b.link(a, r, t):
            b.link(a, r, b.obj(cb, p_attr))
    for c in classes:
        b.obj(c, 0.9)
    for _ in range(extra_objs):
        b.obj(rng.choice(sc.names), p_attr)
    if top == 'CIM15' and rng.random() < 0.2:
        b.impedance()
    if b.objs and extra_links:
        b.more_links(extra_links, pred)
    return b.spec()


def drop_objs(spec, keep):
    """The spec restricted to a set of ids."""
    return dict(spec, objs=[o for o in spec['objs'] if o[0] in keep],
                links=[l for l in spec['links'] if l[0] in keep and l[2] in keep])


def expected(spec):
    """Spec -> ({id: class}, {id: state}) by the schema alone."""
    sc = schema(spec['top'])
    cls = {o[0]: o[1] for o in spec['objs']}
    st = {}
    for i, c, attrs in spec['objs']:
        s = {n: a.default for n, a in sc.attrs[c].items()}
        s.update(attrs)
        for n, r in sc.refs[c].items():
            if r.name != GHOST:
                s[n] = [] if r.many else None
        st[i] = s

    def put(a, n, b):
        r = sc.refs[cls[a]][n]
        if r.many:
            if b not in st[a][n]:
                st[a][n].append(b)
                st[a][n].sort()
        else:
            st[a][n] = b
    for a, n, b in spec['links']:
        if cls[a] == ACL and spec['top'] == 'CIM15' and n in ACL_VIEWS:
            put(a, 'PerLengthImpedance', b)
            put(a, PLI[cls[b]], b)
            put(b, 'LineSegments', a)
            continue
        put(a, n, b)
        q = sc.inverse(sc.refs[cls[a]][n])
        if q is not None:
            put(b, q.name, a)
    return cls, st


def build(spec, ctor=False):
    """Spec -> ordered {id: live object} with the real classes."""
    sc = schema(spec['top'])
    d = {}
    for i, c, attrs in spec['objs']:
        k = sc.live(c)
        if ctor:
            d[i] = k(UUID=i, **attrs)
        else:
            o = d[i] = k(UUID=i)
            for n, v in attrs.items():
                setattr(o, n, v)
    cls = {o[0]: o[1] for o in spec['objs']}
    for a, n, b in spec['links']:
        r = sc.refs[cls[a]][n]
        if r.many:
            add_to(d[a], r, d[b])
        else:
            setattr(d[a], n, d[b])
    return d


def rekey(d, how):
    """The same objects under other names in the map: their identifiers are their own."""
    if not how or not d:
        return d
    if how == 'moved':                  # each under the identifier of the next
        ks = list(d)
        return {k: d[i] for k, i in zip(ks[1:] + ks[:1], ks)}
    return {'%s of %d' % (how, j): o for j, o in enumerate(d.values())}


def keys_of(rng):
    return rng.choice(['key', 'moved']) if rng.random() < 0.25 else None


def add_to(o, r, *xs):
    """add*: lists without an inverse spell it add_X."""
    f = getattr(o, 'add' + r.name, None) or getattr(o, 'add_' + r.name)
    f(*xs)


def remove_from(o, r, *xs):
    f = getattr(o, 'remove' + r.name, None) or getattr(o, 'remove_' + r.name)
    f(*xs)


def attr_prop(rng, sc, c, n, v):
    a = sc.attrs[c][n]
    if a.enum:
        return None if v is None else ['e', a.owner, n, a.enum, v]
    return ['v', a.owner, n, lexical(rng, a, v)]


def hub(rng, top, n):
    """A model spec around one object whose list names n others, with all its attributes set: the element of it is long."""
    sc = schema(top)
    b = Builder(rng, top, False, rng.choice([0, 1]))
    while True:
        r = rng.choice([r for r in all_refs(sc) if r.many])
        p = pair_for(rng, sc, r)
        if p is not None:
            break
    h = b.obj(p[0], 1)
    for _ in range(n):
        b.link(h, r, b.obj(p[1], 0.01))
    return b.spec()


def link_props(rng, sc, cls, link, both):
    """[(element, property)] stating a link: at one end, or at both."""
    a, n, b = link
    r = sc.refs[cls[a]][n]
    here = (a, ['r', r.owner, n, b])
    if cls[a] == ACL and sc.top == 'CIM15' and n in ACL_VIEWS:
        return [here, (b, ['r', cls[b], 'LineSegments', a])] if rng.random() < both else [here]
    q = sc.inverse(r)
    if q is None:
        return [here]
    there = (b, ['r', q.owner, q.name, a])
    x = rng.random()
    return [here, there] if x < both else [here] if x < both + (1 - both) / 2 else [there]


def doc_of(rng, spec, both=0.3, enc='utf-8', style=None, ns=None, shuffle=True):
    """A document stating the model: each link at one end, or at both."""
    sc = schema(spec['top'])
    cls = {o[0]: o[1] for o in spec['objs']}
    props = {o[0]: [] for o in spec['objs']}
    for i, c, attrs in spec['objs']:
        for n, v in attrs.items():
            p = attr_prop(rng, sc, c, n, v)
            if p:
                props[i].append(p)
    for l in spec['links']:
        for i, p in link_props(rng, sc, cls, l, both):
            props[i].append(p)
    elems = []
    for i, c, _ in spec['objs']:
        if shuffle:
            rng.shuffle(props[i])
        elems.append({'cls': c, 'id': i, 'mode': 'ID', 'props': props[i]})
    if shuffle:
        rng.shuffle(elems)
    return {'ns': ns or sc.ns, 'enc': enc, 'style': style, 'elems': elems}


def lexical(rng, a, v):
    """A text denoting the value."""
    if a.typ not in ('bool', 'float', 'int'):
        return v
    if a.typ == 'bool':
        s = 'true' if v else 'false'
        s = rng.choice([s, s, s, s.title(), s.upper(), '1' if v else '0'])
    elif a.typ == 'float':
        s = repr(v)
        if v == int(v) if abs(v) < 1e9 else False:
            s = rng.choice([s, '%d' % v, '%.2f' % v])
        if rng.random() < 0.1 and v == v:
            s = rng.choice(['%.17e', '%.17E']) % v
    else:
        s = str(v)
    if a.typ != 'bool' and s.lstrip('-')[0].isdigit() and rng.random() < 0.1:
        s = s[0] + '00' + s[1:] if s[0] in '+-' else rng.choice(['+', '00', '+0']) + s
    if rng.random() < 0.12:
        s = rng.choice(['', ' ', '\n   ', '\t']) + s + rng.choice([' ', '\n  ', '\r\n'])
    return s


# ------------------------------------------------------------------ I/O conditions
def io_plan(rng, faults=False, locale=True):
    """Benign but awkward I/O: short transfers, tiny buffers, stalls, clock jumps, locales."""
    p = {'buf': rng.choice([1, 7, 64, 512, 8192, 65536]), 'tchunk': rng.choice([1, 16, 256, 8192])}
    if rng.random() < 0.6:
        p['wchunk'] = [rng.choice([1, 2, 3, 5, 17, 100, 4096]) for _ in range(rng.randrange(1, 4))]
        if max(p['wchunk']) < 50 and rng.random() < 0.9:
            p['wchunk'].append(rng.choice([60, 900]))
    if rng.random() < 0.7:
        p['rchunk'] = [rng.choice([1, 2, 3, 7, 33, 500, 4095, 16384]) for _ in range(rng.randrange(1, 5))]
        if max(p['rchunk']) < 50:
            p['rchunk'].append(rng.choice([50, 777]))
    if rng.random() < 0.3:
        p['delay'] = [rng.choice([0.0, 0.001, 0.5, 60.0, 3600.0]) for _ in range(rng.randrange(1, 5))]
    if rng.random() < 0.3:
        p['jump'] = {str(rng.choice([-1, -2, -3, -4, 1, 2, 5, 9])): rng.choice([-1e9, -3600.0, -1.0, 86400.0, 1e9]) for _ in range(2)}
    if locale and rng.random() < 0.5:
        p['locale'] = rng.choice(['ascii', 'latin-1', 'utf-8', 'cp1252'])
    return p
