"""Known finding: classes in which two associations share one name (and one storage).

Probed apart from the search, site by site; a site that is not listed in known_sites_shadow.txt is
a violation like any other."""
import os
import sim as S, world
from meta import schema, TOPS, snap_obj

SITES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_sites_shadow.txt')


def sites():
    """(site, broken for C05, broken for C06/C14, what happens)"""
    out = []
    for t in TOPS:
        sc = schema(t)
        for c in sc.names:
            for n in sorted({m for _, m in sc.shadow[c]}):
                near = sc.refs[c][n]
                # constructed with the nearer one
                x = sc.live(near.tgt)(UUID='x')
                o = sc.live(c)(UUID='o', **{n: [x]})
                lists = [id(y) for y in getattr(o, n)] == [id(x)]
                q = sc.inverse(near)
                back = getattr(x, q.name)
                names = any(y is o for y in back) if q.many else back is o
                out.append(('ctor %s:%s.%s' % (t, c, n), lists != names, not (lists and names),
                            '%s(%s=[x]): the list %s x, x %s it back' % (c, n, 'holds' if lists else 'does not hold', 'names' if names else 'does not name')))
                # linked from the other end of the outer one
                for owner in [w for w, m in sorted(sc.shadow[c]) if m == n]:
                    outer = [r for r in sc.own[owner] if r.name == n][0]
                    q = sc.inverse(outer)
                    x = sc.live(outer.tgt)(UUID='x')
                    o = sc.live(c)(UUID='o')
                    if q.many:
                        getattr(x, 'add' + q.name)(o)
                    else:
                        setattr(x, q.name, o)
                    shown = any(y is x for y in getattr(o, n))
                    near_back = getattr(x, sc.inverse(near).name) if sc.is_a(outer.tgt, near.tgt) else None
                    claims = isinstance(near_back, list) and any(y is o for y in near_back) or near_back is o
                    # the list is that of the nearer association: showing x claims a link x does not have
                    bad = shown and not claims
                    out.append(('set %s:%s.%s from %s.%s' % (t, c, n, outer.tgt, q.name), bad, bad,
                                'after linking x.%s to a %s, its %s lists x although x.%s does not name it' % (
                                    q.name, c, n, sc.inverse(near).name)))
    return out


def probe(pid):
    with S.real_open(SITES, encoding='utf-8') as f:
        listed = set(f.read().split('\n'))
    broken = [(s, w) for s, b5, b6, w in sites() if (b5 if pid == 'C05' else b6) and (pid != 'C14' or s.startswith('ctor'))]
    known = [s for s, w in broken if s in listed]
    out = [('shared-names', bool(known), 'two associations of one class share a name: %s' % '; '.join(known))]
    for s, w in broken:
        if s not in listed:
            out.append(('shared-name:' + s, True, w))
    return out
