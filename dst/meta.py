"""The frozen CIM schema (metamodel.json) and how it maps to the live classes."""
import importlib, json, math, os

_HERE = os.path.dirname(os.path.abspath(__file__))
MM = json.load(open(os.path.join(_HERE, 'metamodel.json')))
TOPS = sorted(MM)
NS14 = 'http://iec.ch/TC57/2009/CIM-schema-cim14'
NS15 = 'http://iec.ch/TC57/2010/CIM-schema-cim15'
NS16 = 'http://iec.ch/TC57/2013/CIM-schema-cim16'
RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'
TYPES = {'float': float, 'int': int, 'bool': bool, 'str': str, 'enum': str}


class Ref(object):
    __slots__ = ('name', 'tgt', 'many', 'inv', 'owner', 'top')

    def __init__(self, top, owner, name, tgt, many, inv):
        self.top, self.owner, self.name, self.tgt, self.many, self.inv = top, owner, name, tgt, many, inv

    @property
    def key(self):
        return '%s:%s.%s' % (self.top, self.owner, self.name)


class Attr(object):
    __slots__ = ('name', 'typ', 'default', 'enum', 'lits', 'owner')

    def __init__(self, owner, name, typ, default, enum, lits):
        self.owner, self.name, self.typ, self.default, self.enum, self.lits = owner, name, typ, default, enum, lits


class Schema(object):
    """One version or profile."""

    def __init__(self, top):
        self.top = top
        self.ver = MM[top]['ver']
        self.raw = MM[top]['classes']
        self.version = top.split('.')[0]
        self.ns = NS14 if self.version == 'CIM14' else NS15
        self.names = sorted(self.raw)
        self.chain, self.attrs, self.refs, self.subs, self.shadow = {}, {}, {}, {}, {}
        self.own = {}
        for c in self.names:
            ch, s = [], c
            while s in self.raw:
                ch.append(s)
                s = self.raw[s]['sup']
            self.chain[c] = ch
            for x in ch:
                self.subs.setdefault(x, []).append(c)
        for c in self.names:
            self.own[c] = [Ref(top, c, *r) for r in self.raw[c]['refs']]
        for c in self.names:
            A, R = {}, {}
            sh = set()
            for x in self.chain[c]:             # nearest first
                for a in self.raw[x]['attrs']:
                    A.setdefault(a[0], Attr(x, *a))
                for r in self.own[x]:
                    if r.name in R:
                        sh.add((x, r.name))
                    else:
                        R[r.name] = r
            self.attrs[c], self.refs[c], self.shadow[c] = A, R, sh
        self._live = {}

    def subclasses(self, c):
        return self.subs.get(c, [])

    def is_a(self, c, base):
        return base in self.chain[c]

    def live(self, c):
        k = self._live.get(c)
        if k is None:
            k = self._live[c] = getattr(importlib.import_module(self.raw[c]['mod']), c)
        return k

    def map(self):
        return importlib.import_module(self.top).packageMap

    def read_args(self):
        """(packageMap, nsURI) for cimread; (None, None) where the version is detected."""
        if self.top in ('CIM14', 'CIM15'):
            return None, None
        return self.map(), self.ns

    def inverse(self, r):
        """The Ref at the other end, or None."""
        if r.inv is None:
            return None
        for x in self.chain[r.tgt]:
            for q in self.own[x]:
                if q.name == r.inv:
                    return q
        raise KeyError(r.key)

    def kind(self, r):
        """'1-1' '1-n' (this end single, other many) 'n-1' 'n-n' or 'p1'/'pn' (plain, one-ended)."""
        q = self.inverse(r)
        if q is None:
            return 'pn' if r.many else 'p1'
        return ('n' if r.many else '1') + '-' + ('n' if q.many else '1')


_schemas = {}


def schema(top):
    if top not in _schemas:
        _schemas[top] = Schema(top)
    return _schemas[top]


# Ends that are views over, or the special case of, one stored reference (property C16).
ACL = 'ACLineSegment'
ACL_VIEWS = ('SequenceImpedance', 'PhaseImpedance', 'PerLengthImpedance')
PLI = {'PerLengthSequenceImpedance': 'SequenceImpedance', 'PerLengthPhaseImpedance': 'PhaseImpedance'}
# Listed by the schema tool but no instance attribute behind it.
GHOST = 'EAID_4B45E775_795A_4030_865F_0AB320000DDD-B'


def special(r):
    """Refs the generic model leaves to C16, or that do not exist."""
    return (r.top == 'CIM15' and ((r.owner == ACL and r.name in ACL_VIEWS) or
                                  (r.owner in PLI and r.name == 'LineSegments'))) or r.name == GHOST


def same(a, b):
    """Value equality with the declared type and NaN equal to itself."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def snap_obj(sc, c, o, ids):
    """Observable state of one object: attributes and associations through the public properties."""
    st = {}
    for a in sc.attrs[c]:
        st[a] = getattr(o, a)
    for n, r in sc.refs[c].items():
        if r.name == GHOST:
            continue
        v = getattr(o, n)
        if r.many:
            st[n] = sorted(ids.get(id(x), '?%s' % type(x).__name__) for x in v)
        else:
            st[n] = None if v is None else ids.get(id(v), '?%s' % type(v).__name__)
    return st


def snapshot(sc, objs, classes):
    """objs: {id: live object}, classes: {id: class name} -> {id: state}"""
    ids = {id(o): u for u, o in objs.items()}
    return {u: snap_obj(sc, classes[u], o, ids) for u, o in objs.items()}


def diff_state(sc, c, want, got):
    """First difference between two states of an object of class c, or None."""
    for k, w in want.items():
        g = got[k]
        if k in sc.attrs[c]:
            if w is None and g is None:
                continue
            if not same(w, g):
                return '%s is %r, expected %r' % (k, g, w)
        elif w != g:
            return '%s is %s, expected %s' % (k, short(g), short(w))
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:150] + '...'
