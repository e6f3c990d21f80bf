"""Is a saved document exactly the model?  Judged with our own parser and the frozen schema."""
import codecs, re
import xml.parsers.expat as expat
import rdf
from meta import RDF, schema, same, GHOST


def declared(data):
    """The encoding an XML processor takes the bytes to be in."""
    if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
        return 'utf-16'
    m = re.match(rb'^(?:\xef\xbb\xbf)?<\?xml[^>]*?encoding\s*=\s*["\']([A-Za-z0-9._-]+)["\']', data)
    return m.group(1).decode() if m else 'utf-8'


def check(data, top, cls, st, enc):
    """None, or (key, message)."""
    sc = schema(top)
    try:
        text = data.decode(enc)
    except UnicodeError as e:
        return 'encoding', 'the bytes are not %s: %s' % (enc, e)
    dec = declared(data)
    try:
        if data.decode(dec) != text:
            return 'encoding', 'declared as %s, encoded as %s' % (dec, enc)
    except (UnicodeError, LookupError) as e:
        return 'encoding', 'declared as %s, encoded as %s: %s' % (dec, enc, e)
    try:
        root = rdf.parse(data)
    except expat.ExpatError as e:
        return 'malformed', 'the document is not well-formed: %s' % e
    if (root.ns, root.name) != (RDF, 'RDF') or root.attrs:
        return 'root', 'the root element is {%s}%s %s' % (root.ns, root.name, root.attrs)
    ns = sc.ns + '#'
    if root.text.strip():
        return 'text', 'stray text %r' % root.text
    seen = set()
    for e in root.kids:
        if e.tail.strip() or (e.kids and e.text.strip()):
            return 'text', 'stray text around %s' % e.name
        if e.ns != ns:
            return 'namespace', 'element %s is in namespace %s' % (e.name, e.ns)
        if set(e.attrs) != {(RDF, 'ID')}:
            return 'id', 'element %s has attributes %s' % (e.name, sorted(e.attrs))
        i = e.attrs[RDF, 'ID']
        if i not in cls:
            return 'id', 'no object has the identifier %r' % i
        if i in seen:
            return 'id', 'two elements for %r' % i
        seen.add(i)
        c = cls[i]
        if e.name != c:
            return 'class', '%r is written as %s, expected %s' % (i, e.name, c)
        bad = props(sc, ns, i, c, e, st[i])
        if bad:
            return bad
    if seen != set(cls):
        return 'missing', 'not written: %s' % sorted(set(cls) - seen)[:3]
    return None


XSD = {'bool': re.compile(r'\s*(true|false|1|0)\s*\Z'), 'int': re.compile(r'\s*[+-]?[0-9]+\s*\Z'),
       'float': re.compile(r'\s*([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([Ee][+-]?[0-9]+)?|-?INF|NaN)\s*\Z')}


def props(sc, ns, i, c, e, st):
    got = {}
    for p in e.kids:
        if p.tail.strip() or p.kids:
            return 'text', 'stray content in %r' % i
        if p.ns != ns:
            return 'namespace', 'property %s is in namespace %s' % (p.name, p.ns)
        decl, _, n = p.name.partition('.')
        a, r = sc.attrs[c].get(n), sc.refs[c].get(n)
        x = a or r
        if x is None or (x.owner != decl):
            return 'prop', '%s of %r is written as %s' % (n, i, p.name)
        if r is not None and r.many:
            # not written today (see the known finding of C01); if written, it has to be true
            t = p.attrs.get((RDF, 'resource'), '')
            if t[:1] != '#' or t[1:] not in st[n] or (n, t) in got:
                return 'ref', '%s of %r written as %r' % (n, i, t)
            got[n, t] = 1
            continue
        if n in got:
            return 'prop', '%s of %r is written twice' % (n, i)
        got[n] = 1
        if a is not None and not a.enum:
            if p.attrs:
                return 'value', '%s of %r has XML attributes %s' % (n, i, sorted(p.attrs))
            if a.typ in XSD and not XSD[a.typ].match(p.text):
                return 'value', '%s of %s %r is written as %r, which is not how XML Schema writes a %s' % (n, c, i, p.text, a.typ)
            try:
                v = rdf.convert(a, p.text)
            except (ValueError, TypeError):
                v = p.text
            if st[n] is None or not same(v, st[n]):
                return 'value', '%s of %s %r is written as %r, it is %r' % (n, c, i, p.text, st[n])
            continue
        if set(p.attrs) != {(RDF, 'resource')} or p.text.strip():
            return 'ref', '%s of %r is not an rdf:resource' % (n, i)
        v = p.attrs[RDF, 'resource']
        if a is not None:
            if st[n] is None or v != '%s%s.%s' % (ns, a.enum, st[n]):
                return 'enum', '%s of %s %r is written as %r, it is %r of %s' % (n, c, i, v, st[n], a.enum)
        elif st[n] is None or v != '#' + st[n]:
            return 'ref', '%s of %s %r is written as %r, it is %r' % (n, c, i, v, st[n])
    for n, v in st.items():
        if n in got or v is None:
            continue
        a, r = sc.attrs[c].get(n), sc.refs[c].get(n)
        if a is not None:
            if a.enum or not same(v, a.default) and v != a.default:
                return 'missing', '%s of %s %r is not written (%r)' % (n, c, i, v)
        elif not r.many:
            return 'missing', '%s of %s %r is not written (%r)' % (n, c, i, v)
    return None
