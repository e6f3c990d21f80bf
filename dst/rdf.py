"""Independent CIM RDF/XML: a serialiser with many lexical forms and a schema-driven interpreter.

Nothing here uses PyCIM.  The parser is expat driven by our own handlers.
"""
import random
import xml.parsers.expat as expat
from meta import RDF, schema, NS14, NS15, NS16, TYPES


# ------------------------------------------------------------------ writing
def esc_text(s, rng=None):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        elif ch == '\r':
            out.append('&#13;')
        elif rng is not None and rng.random() < 0.05:
            out.append('&#x%X;' % o if rng.random() < 0.5 else '&#%d;' % o)
        else:
            out.append(ch)
    return ''.join(out)


def esc_attr(s, q, rng=None):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == q:
            out.append('&quot;' if q == '"' else '&apos;')
        elif ch in '\r\n\t':
            out.append('&#%d;' % o)
        elif rng is not None and rng.random() < 0.05:
            out.append('&#x%X;' % o)
        else:
            out.append(ch)
    return ''.join(out)


def serialise(doc):
    """doc: {ns, enc, style, prefixes?, elems:[{cls,id,mode,props,ns?}]} -> bytes
    props: ['v', decl, name, text] | ['r', decl, name, id] | ['e', decl, name, enum, lit] | ['x', rawxml]
    style: seed of the lexical choices, or None for the plainest form."""
    enc = doc.get('enc', 'utf-8')
    rng = random.Random(doc['style']) if doc.get('style') is not None else None

    def coin(p):
        return rng is not None and rng.random() < p

    def ws():
        return rng.choice(['\n', '\n  ', ' ', '\t', '\r\n    ', '']) if rng is not None else '\n  '

    def at(name, val):
        q = "'" if coin(0.4) else '"'
        return '%s%s%s=%s%s%s' % (rng.choice([' ', '  ', '\n ']) if rng is not None else ' ', name,
                                 ' ' if coin(0.1) else '', q, esc_attr(val, q, rng), q)

    def noise():
        if coin(0.08):
            return rng.choice(['<!-- a comment & <cim:Terminal rdf:ID="no"/> -->', '<?app data="x"?>',
                               '<!---->', '<?x?>'])
        return ''

    def text(s):
        if coin(0.15) and ']]>' not in s and '\r' not in s and s and (enc.lower().startswith('utf') or s.isascii()):
            return '<![CDATA[%s]]>' % s
        if coin(0.06) and s:
            k = rng.randrange(len(s) + 1)
            return esc_text(s[:k], rng) + rng.choice(['<!-- in text -->', '<?pi in text?>']) + esc_text(s[k:], rng)
        return esc_text(s, rng)

    ns = doc['ns']
    R, C = doc.get('prdf', 'rdf'), doc.get('pcim', 'cim')
    K = C + ':' if C else ''
    nsd = ns if (ns.endswith('#')) else ns + '#'
    out = []
    if enc.lower() in ('utf-8', 'us-ascii') and (rng is None or coin(0.5)):
        out.append("<?xml version='1.0'?>\n" if not coin(0.2) else '')
    else:
        out.append('<?xml version="1.0" encoding="%s"?>\n' % enc)
    if coin(0.2):
        out.append('<!-- head -->\n')
    ent = coin(0.15)            # the namespace as an entity, as many exporters write it
    if ent:
        out.append('<!DOCTYPE %s:RDF [\n  <!ENTITY c "%s">\n]>\n' % (R, nsd))
    decl = [('xmlns:' + R, RDF), ('xmlns:' + C if C else 'xmlns', nsd)]
    if doc.get('extra_ns'):
        decl += [('xmlns:' + k, v) for k, v in sorted(doc['extra_ns'].items())]
    if rng is not None:
        rng.shuffle(decl)
    out.append('<%s:RDF%s>' % (R, ''.join(at(k, v) for k, v in decl)))
    for e in doc['elems']:
        out.append(ws())
        out.append(noise())
        if 'raw' in e:
            out.append(e['raw'])
            continue
        head = '<%s%s%s' % (K, e['cls'], at(R + ':ID', e['id']) if e.get('mode', 'ID') == 'ID'
                              else at(R + ':about', '#' + e['id']))
        if not e['props']:
            out.append(head + ('/>' if not coin(0.5) else '></%s%s>' % (K, e['cls'])))
            continue
        out.append(head + '>')
        for p in e['props']:
            out.append(ws())
            out.append(noise())
            if p[0] == 'v':
                if p[3] == '' and not coin(0.5):
                    out.append('<%s%s.%s/>' % (K, p[1], p[2]))
                else:
                    out.append('<%s%s.%s>%s</%s%s.%s>' % (K, p[1], p[2], text(p[3]), K, p[1], p[2]))
            elif p[0] == 'r':
                h = '<%s%s.%s%s' % (K, p[1], p[2], at(R + ':resource', '#' + p[3]))
                out.append(h + ('/>' if not coin(0.3) else '></%s%s.%s>' % (K, p[1], p[2])))
            elif p[0] == 'e':
                a = ' %s:resource="&c;%s.%s"' % (R, p[3], p[4]) if ent else at(R + ':resource', '%s%s.%s' % (nsd, p[3], p[4]))
                h = '<%s%s.%s%s' % (K, p[1], p[2], a)
                out.append(h + ('/>' if not coin(0.3) else '></%s%s.%s>' % (K, p[1], p[2])))
            else:
                out.append(p[1])
        out.append(ws())
        out.append('</%s%s>' % (K, e['cls']))
    out.append(ws())
    out.append('</%s:RDF>' % R)
    if coin(0.3):
        out.append('\n<!-- tail -->\n')
    return ''.join(out).encode(enc, 'xmlcharrefreplace')


# ------------------------------------------------------------------ reading
class Node(object):
    __slots__ = ('ns', 'name', 'attrs', 'kids', 'text', 'tail')

    def __init__(self, ns, name, attrs):
        self.ns, self.name, self.attrs, self.kids, self.text, self.tail = ns, name, attrs, [], '', ''


def parse(data, encoding=None):
    """bytes -> root Node; raises expat.ExpatError."""
    p = expat.ParserCreate(encoding, namespace_separator='\x01')
    p.buffer_text = True
    p.ordered_attributes = True
    stack, root = [], []

    def split(n):
        a, _, b = n.rpartition('\x01')
        return a, b

    def start(n, attrs):
        at = {}
        for i in range(0, len(attrs), 2):
            at[split(attrs[i])] = attrs[i + 1]
        x = Node(split(n)[0], split(n)[1], at)
        if stack:
            stack[-1].kids.append(x)
        else:
            root.append(x)
        stack.append(x)

    def end(n):
        stack.pop()

    def chars(s):
        if stack:
            t = stack[-1]
            if t.kids:
                t.kids[-1].tail += s
            else:
                t.text += s
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(data, True)
    return root[0]


def convert(a, text):
    """Text to the declared type."""
    if a.typ == 'bool':
        return text.strip().lower() in ('true', '1')
    return TYPES[a.typ](text)
