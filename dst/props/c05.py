"""C05  the two ends of every association always agree."""
import gen, shadow
from meta import schema, special
from c06 import C06


class C05(C06):
    id = 'C05'
    rule = C06.rule.replace('every attribute and association of every object is compared with the executable reference model',
                            'for every pair of objects and every two-ended association the two ends are compared with each other and every '
                            'list is searched for duplicates; the histories also remove objects from lists they are not in')
    salt = 'h5'
    loose = True

    def verdict(self, live, snap, loose):
        sc, cls = live.sc, live.m.cls
        for i, c in cls.items():
            for n, r in sc.refs[c].items():
                if n not in snap[i]:
                    continue
                q = sc.inverse(r)
                if q is None:
                    continue
                v = snap[i][n]
                v = v if r.many else [] if v is None else [v]
                for k, b in enumerate(v):
                    if k and v[k - 1] == b:
                        return 'twice', '%s.%s of %r names %r twice' % (c, n, i, b)
                    if b not in cls:
                        return 'stranger', '%s.%s of %r holds something that is not in the model' % (c, n, i)
                    if not gen.link_ok(sc, r, c, cls[b]):
                        continue
                    w = snap[b][q.name]
                    if i not in (w if q.many else [w]):
                        return 'disagree', '%s.%s of %r names %r, whose %s does not name it back' % (c, n, i, b, q.name)
        return self.resync(live, snap) if loose else None

    def resync(self, live, snap):
        # what removing a stranger does is not specified; go on from what it did
        for i, rs in live.m.refs.items():
            for n in rs:
                v = snap[i][n]
                rs[n] = list(v) if isinstance(v, list) else [] if v is None else [v]
        return None

    def probe(self):
        return shadow.probe(self.id)


PROP = C05()
