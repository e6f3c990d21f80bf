"""C12  the XML writer emits exactly the document its calls describe."""
import random
import xml.parsers.expat as expat
import sim as S, gen, world, saved
from base import Prop, Res

TAGS = ['a', 'b', 'rdf:RDF', 'cim:Terminal', 'x.y', 'A-1', '_u', 'c' * 60]
KEYS = ['k', 'id', 'rdf:ID', 'name', 'xml:lang', 'z9', 'style', 'encoding', 'file', 'text']


BAD = ['\x00', '\x01', '\x08', '\x0b', '\x0c', '\x0e', '\x1f', '\ud800', '\udfff', '\ufffe', '\uffff', '--', '---', 'a--b']


class Tree(object):
    """The document a call sequence describes: [tag, attrs, children]; children are trees, text or Comment."""

    def __init__(self):
        self.root, self.open = [], []

    def start(self, tag, attrs):
        n = [tag, dict(attrs), []]
        (self.open[-1][2] if self.open else self.root).append(n)
        self.open.append(n)
        return len(self.open) - 1

    def text(self, t):
        (self.open[-1][2] if self.open else self.root).append(t)

    def comment(self):
        (self.open[-1][2] if self.open else self.root).append(None)

    def end(self):
        self.open.pop()


def flat(n):
    """Events with runs of text joined; the line end after a comment belongs to the comment."""
    out = []

    def walk(x):
        if x is None:
            out.append(['comment'])
        elif isinstance(x, str):
            if out and out[-1][0] == 'text':
                out[-1][1] += x
            else:
                out.append(['text', x])
        else:
            out.append(['start', x[0], x[1]])
            for k in x[2]:
                walk(k)
            out.append(['end', x[0]])
    # iterative for depth
    stack = [iter([n])]
    path = []
    while stack:
        try:
            x = next(stack[-1])
        except StopIteration:
            stack.pop()
            if path:
                out.append(['end', path.pop()])
            continue
        if x is None or isinstance(x, str):
            walk(x)
        else:
            out.append(['start', x[0], x[1]])
            path.append(x[0])
            stack.append(iter(x[2]))
    return [e for e in out if e[0] != 'text' or e[1]]


def parse(data):
    p = expat.ParserCreate()
    p.buffer_text = True
    out = []

    def chars(s):
        if out and out[-1][0] == 'text':
            out[-1][1] += s
        else:
            out.append(['text', s])
    p.StartElementHandler = lambda n, a: out.append(['start', n, a])
    p.EndElementHandler = lambda n: out.append(['end', n])
    p.CharacterDataHandler = chars
    p.CommentHandler = lambda c: out.append(['comment'])
    p.Parse(data, True)
    fixed = []
    for k, e in enumerate(out):
        if e[0] == 'text' and k and out[k - 1][0] == 'comment' and e[1].startswith('\n'):
            e = ['text', e[1][1:]]
        if e[0] != 'text' or e[1]:
            fixed.append(e)
    return fixed


def program(rng, big):
    """A legal call sequence: one root element, calls nested to seeded depth."""
    ops = []
    tags = []

    def attrs():
        return {rng.choice(KEYS): gen.text(rng) for _ in range(rng.choice([0, 0, 1, 2, 4]))}

    def kw():
        return {k: gen.text(rng) for k in rng.sample(['name', 'k', 'style', 'value', 'id2'], rng.choice([0, 0, 1, 2]))}
    if rng.random() < 0.7:
        ops.append(['decl'])
    if rng.random() < 0.2:
        ops.append(['comment', 'head & <x>'])
    ops.append(['start', rng.choice(TAGS), attrs() if rng.random() < 0.8 else None, kw()])
    tags.append(ops[-1][1])
    deep = rng.random() < 0.05
    for _ in range(rng.choice([0, 3, 10, 30]) if not big else 400):
        x = rng.random()
        if x < (0.7 if deep else 0.3):
            t = rng.choice(TAGS)
            ops.append(['start', t, attrs() if rng.random() < 0.7 else None, kw()])
            tags.append(t)
        elif x < 0.5:
            ops.append(['data', gen.text(rng)])
        elif x < 0.7:
            ops.append(['element', rng.choice(TAGS), rng.choice([None, '', gen.text(rng)]), attrs() if rng.random() < 0.6 else None, kw()])
        elif x < 0.75:
            ops.append(['comment', rng.choice(['c', '', 'a & b < c', 'caf\xe9', 'x > y'])])
        elif x < 0.77:
            ops.append(['flush'])
        elif x < 0.78:
            t = rng.choice(BAD)
            ops.append(['badtext', rng.choice(['data', 'element', 'attr', 'kw', 'comment']), t if rng.random() < 0.7 else gen.text(rng, False) + t])
        elif x < 0.82:
            ops.append(['badend', rng.choice(['nosuchtag', rng.choice(tags), tags[0], rng.choice(TAGS)])])
        elif len(tags) > 1:
            if x < 0.9:
                ops.append(['end', tags.pop() if rng.random() < 0.5 else (tags.pop(), None)[1]])
            else:
                k = rng.randrange(1, len(tags))
                del tags[k:]
                ops.append(['close', k])
    ops.append(rng.choice([['close', 0], ['unwind']]))
    if rng.random() < 0.3:
        ops.append(['badend', rng.choice([None, 'a'])])
    ops.append(['flush'])
    return ops


class C12(Prop):
    id = 'C12'
    rule = ('a case runs one to three seeded legal call sequences (start, data, end, element, close, comment, declaration, flush, with '
            'refused illegal ends and texts XML cannot carry in between) on their own writers, interleaved by the seeded scheduler, over seeded targets, encodings and '
            'devices, then once more with a seeded failing operation; the bytes are parsed with expat and compared with the tree of the '
            'calls; non-trivial: at least three calls; distinct by event trace')
    real = ['PyCIM.SimpleXMLWriter', 'io stack']
    stub = ['raw device', 'clock', 'default locale encoding', 'callers are cooperative tasks']
    warm = False
    parts = [(('w',), 'list'), (('faults',), 'list'), (('io',), 'dict')] + [(('w', k, 'ops'), 'list') for k in range(3)]

    def count(self, tier):
        return 4000 if tier == 'quick' else 60000

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        w = []
        for k in range(rng.choice([1, 1, 2, 3])):
            enc = rng.choice(['utf-8', 'utf-8', 'us-ascii', 'us-ascii', 'iso-8859-1', 'utf-16', 'cp1252'])
            ops = program(rng, rng.random() < 0.03)
            if enc not in ('utf-8', 'us-ascii') and ops[0] != ['decl']:
                ops.insert(0, ['decl'])
            w.append({'enc': enc, 'target': rng.choice(world.TARGETS), 'ops': ops})
        fs = [{'kind': rng.choice(['write', 'write', 'flush', 'open']), 'n': rng.randrange(rng.choice([2, 20, 200])),
               'err': rng.choice(['EIO', 'ENOSPC', 'INT', 'MEM', 'CLOSED', 'TYPE', 'KEY', 'UNI', 'EXIT'])}]
        return {'w': w, 'io': gen.io_plan(rng), 'sseed': rng.randrange(2**31), 'faults': fs}

    def run(self, case):
        res = Res()
        self.once(case, res, [])
        if not res.viol and case.get('faults'):
            self.once(case, res, case['faults'])
        return res

    def once(self, case, res, faults):
        from PyCIM.SimpleXMLWriter import XMLWriter
        world.clean_scratch()
        with S.Sim(dict(case['io'], faults=faults), world.scratch()) as s:
            gens = []
            for k, w in enumerate(case['w']):
                t = world.Target(s, w['target'], w['enc'], name='w%d.xml' % k)
                gens.append([self.drive(XMLWriter, s, t, w, k), t, w])
            rng = random.Random(case['sseed'])
            live = list(range(len(gens)))
            trees = {}
            while live:
                k = rng.choice(live)
                for _ in range(rng.choice([1, 1, 2, 7])):
                    try:
                        next(gens[k][0])
                    except StopIteration as e:
                        live.remove(k)
                        key, val = e.value
                        if key == 'ok':
                            trees[k] = val
                        elif key != 'failed':
                            res.fail(key, 'writer %d: %s' % (k, val))
                        break
            if not res.viol:
                for k, tree in trees.items():
                    t, w = gens[k][1], gens[k][2]
                    bad = self.judge(t.delivered(), tree, w['enc'])
                    if bad:
                        res.fail(bad[0], 'writer %d (%s, %s): %s' % (k, w['target'], w['enc'], bad[1]))
                        break
            gens = None
            s.close_all()
        res.absorb(s)

    def judge(self, data, tree, enc):
        if len(tree.root) < 1 or tree.open or sum(isinstance(x, list) for x in tree.root) != 1:
            return None             # a minimised program may not be a document any more
        dec = saved.declared(data)
        try:
            got = parse(data)
        except expat.ExpatError as e:
            return 'malformed', 'the output is not well-formed: %s: %r' % (e, data[-200:])
        try:
            if data.decode(dec) != data.decode(enc):
                return 'encoding', 'declared as %s, encoded as %s' % (dec, enc)
        except (UnicodeError, LookupError) as e:
            return 'encoding', 'declared as %s, encoded as %s: %s' % (dec, enc, e)
        want = []
        for x in tree.root:
            want += flat(x) if isinstance(x, list) else [['comment']] if x is None else []
        # text outside the root cannot be reported by a parser
        for a, b in zip(want, got):
            if a != b:
                return 'differs', 'the document has %s where the calls say %s' % (short(b), short(a))
        if len(want) != len(got):
            return 'differs', 'the document has %d events, the calls %d' % (len(got), len(want))
        return None

    def drive(self, XMLWriter, s, t, w, me):
        """Generator: one call per step.  Returns (outcome, value)."""
        tree = Tree()
        fired0 = []

        def call(fn, *a, **k):
            before = len(s.fired_list)
            _, err = world.attempt(fn, *a, **k)
            hit = s.fired_list[before:]
            if hit:
                fired0.extend(hit)
            if err is not None and not fired0:
                return 'raised', '%s%r raised %s' % (getattr(fn, '__name__', fn), a, world.exc_text(err))
            if err is None and hit and w['target'] not in ('path', 'pathobj', 'text'):
                return 'swallowed', '%s%r returned although the target failed with %s' % (getattr(fn, '__name__', fn), a, hit[0][:3])
            return None if err is None else ('failed', None)
        before = len(s.fired_list)
        writer, err = world.attempt(XMLWriter, t.arg, w['enc'])
        if err is not None:
            if len(s.fired_list) > before:
                return 'failed', None
            return 'raised', 'XMLWriter(...) raised ' + world.exc_text(err)
        for k, op in enumerate(w['ops']):
            yield
            o = op[0]
            r = None
            if o == 'decl':
                if k:
                    continue
                r = call(writer.declaration)
            elif o == 'start':
                at = None if op[2] is None else dict(op[2])
                r = call(writer.start, op[1], *([] if at is None else [at]), **op[3])
                if at is not None and at != op[2]:
                    return 'modified', "start modified the caller's attributes"
                tree.start(op[1], dict(op[2] or {}, **op[3]))
            elif o == 'element':
                at = None if op[3] is None else dict(op[3])
                if not tree.open:
                    continue
                r = call(writer.element, op[1], op[2], *([] if at is None else [at]), **op[4])
                if at is not None and at != op[3]:
                    return 'modified', "element modified the caller's attributes"
                tree.start(op[1], dict(op[3] or {}, **op[4]))
                if op[2]:
                    tree.text(op[2])
                tree.end()
            elif o == 'data':
                if not tree.open:
                    continue
                r = call(writer.data, op[1])
                tree.text(op[1])
            elif o == 'comment':
                r = call(writer.comment, op[1])
                tree.comment()
            elif o == 'flush':
                r = call(writer.flush)
            elif o == 'end':
                if not tree.open or op[1] is not None and tree.open[-1][0] != op[1]:
                    continue
                r = call(writer.end, *([] if op[1] is None else [op[1]]))
                tree.end()
            elif o == 'close':
                if len(tree.open) <= op[1]:
                    continue
                r = call(writer.close, op[1])
                while len(tree.open) > op[1]:
                    tree.end()
            elif o == 'unwind':
                while tree.open and r is None:
                    r = call(writer.end)
                    tree.end()
            elif o == 'badtext':
                if not tree.open or '--' in op[2] and op[1] != 'comment':
                    continue
                f = {'data': lambda: writer.data(op[2]), 'element': lambda: writer.element('a', op[2]), 'attr': lambda: writer.start('a', {'k': op[2]}),
                     'kw': lambda: writer.element('a', None, k=op[2]), 'comment': lambda: writer.comment(op[2])}[op[1]]
                _, err = world.attempt(f)
                if err is None:         # when the text is written at the latest
                    _, err = world.attempt(lambda: writer.start('b'))
                if err is None:
                    return 'accepted', '%s with %r was accepted' % (op[1], op[2])
                return 'failed', None
            elif o == 'badend':
                if op[1] is None and tree.open or tree.open and tree.open[-1][0] == op[1]:
                    continue
                before = len(s.fired_list)
                _, err = world.attempt(writer.end, *([] if op[1] is None else [op[1]]))
                if err is None:
                    return 'accepted', 'end(%s) was accepted with open tags %s' % (op[1] or '', [x[0] for x in tree.open][-3:])
            if r:
                return r
        if fired0 and any(f[0] in ('write', 'flush') for f in fired0):
            return 'swallowed', 'every call returned although the target failed with %s' % (fired0[0][:3],)
        return 'ok', tree


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


PROP = C12()
