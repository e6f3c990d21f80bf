"""Sources and targets for the library, over the simulated device; common operations."""
import errno, io, os, re, shutil, tempfile, pathlib
import sim as S
from meta import schema, snapshot, diff_state, MM

SCRATCH = None


def scratch():
    """One scratch directory per worker process."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix='dst-', dir=base))
    return SCRATCH[1]


def clean_scratch():
    d = scratch()
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def drop_scratch():
    global SCRATCH
    if SCRATCH is not None and SCRATCH[0] == os.getpid():
        shutil.rmtree(SCRATCH[1], ignore_errors=True)
        SCRATCH = None


# ------------------------------------------------------------------ targets
TARGETS = ['path', 'pathobj', 'text', 'stringio', 'duck', 'duckflush']
ENCODINGS = ['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16', 'cp1252', 'UTF-8']


class SimString(io.StringIO):
    """StringIO whose calls are simulated operations."""

    def __init__(self, sim, initial=''):
        io.StringIO.__init__(self, initial, newline='')
        self.sim = sim

    def write(self, s):
        self.sim.op('write', 'caller')
        if self.sim.dead:
            return len(s)
        return io.StringIO.write(self, s)

    def flush(self):
        self.sim.op('flush', 'caller')

    def read(self, n=-1):
        s = self.sim
        s.op('read', 'caller')
        if s.rchunk and n is not None and n > 0:
            c = s.rchunk[s.ri % len(s.rchunk)]
            s.ri += 1
            n = min(n, c)
        return io.StringIO.read(self, n)

    def seek(self, *a):
        self.sim.op('seek', 'caller')
        if a == (0,):
            self.sim.passes += 1
        return io.StringIO.seek(self, *a)


class Duck(object):
    """The least a target has to offer."""

    def __init__(self, sim):
        self.sim, self.got, self.n = sim, [], 0

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('a text target takes text, not ' + type(s).__name__)
        self.sim.op('write', 'caller')
        if self.sim.dead:
            return
        if self.sim.cap is not None and self.n + len(s) > self.sim.cap:
            self.sim.fault('write', 'ENOSPC')
        self.n += len(s)
        self.got.append(s)

    def text(self):
        return ''.join(self.got)


class DuckFlush(Duck):
    """Only what was flushed counts."""

    def __init__(self, sim):
        Duck.__init__(self, sim)
        self.safe = ''

    def flush(self):
        self.sim.op('flush', 'caller')
        if not self.sim.dead:
            self.safe += ''.join(self.got)
            self.got = []

    def text(self):
        return self.safe


class Target(object):
    def __init__(self, sim, kind, enc='utf-8', name='out.xml', root=None):
        self.sim, self.kind, self.enc = sim, kind, enc
        if kind in ('path', 'pathobj'):
            self.path = os.path.join(sim.root, name)
            self.arg = self.path if kind == 'path' else pathlib.Path(self.path)
        elif kind == 'text':
            self.mem = io.BytesIO()
            self.raw = S.SimRaw(sim, self.mem, '<target>', False, True)
            self.arg = S.stack(sim, self.raw, True, enc, 'xmlcharrefreplace', '')
        elif kind == 'stringio':
            self.arg = SimString(sim)
        elif kind == 'duck':
            self.arg = Duck(sim)
        else:
            self.arg = DuckFlush(sim)

    def delivered(self):
        """The bytes that would survive if the process died now."""
        k = self.kind
        if k in ('path', 'pathobj'):
            try:
                with S.real_open(self.path, 'rb') as f:
                    return f.read()
            except FileNotFoundError:
                return b''
        if k == 'text':
            return self.mem.getvalue()
        t = self.arg.getvalue() if k == 'stringio' else self.arg.text()
        return t.encode(self.enc, 'xmlcharrefreplace')


# ------------------------------------------------------------------ sources
SOURCES = ['path', 'pathobj', 'bytespath', 'binary', 'raw', 'text', 'stringio', 'bytesio']


class SimBytes(io.BytesIO):
    def __init__(self, sim, data):
        io.BytesIO.__init__(self, data)
        self.sim = sim

    def read(self, n=-1):
        s = self.sim
        s.op('read', 'caller')
        if s.rchunk and n is not None and n > 0:
            c = s.rchunk[s.ri % len(s.rchunk)]
            s.ri += 1
            n = min(n, c)
        end = s.cut.get(s.passes)
        if end is not None:
            left = max(0, end - self.tell())
            if n is None or n < 0 or n > left:
                n = left
                if end < len(self.getbuffer()) and not s.cut_met:
                    s.cut_met = True
                    s.fired['read:truncated'] += 1
        return io.BytesIO.read(self, n)

    def seek(self, *a):
        self.sim.op('seek', 'caller')
        if a == (0,):
            self.sim.passes += 1
        return io.BytesIO.seek(self, *a)


def source(sim, kind, data, enc='utf-8', name='in.xml'):
    """Something cimread accepts, delivering data."""
    if kind in ('path', 'pathobj', 'bytespath'):
        p = os.path.join(sim.root, name)
        with S.real_open(p, 'wb') as f:
            f.write(data)
        return p if kind == 'path' else pathlib.Path(p) if kind == 'pathobj' else os.fsencode(p)
    if kind == 'binary':
        return S.stack(sim, S.SimRaw(sim, io.BytesIO(data), '<source>', True, False))
    if kind == 'raw':
        return S.SimRaw(sim, io.BytesIO(data), '<source>', True, False)
    if kind == 'text':
        return S.stack(sim, S.SimRaw(sim, io.BytesIO(data), '<source>', True, False), True, enc, None, '')
    if kind == 'stringio':
        return SimString(sim, data.decode(enc))
    return SimBytes(sim, data)


# ------------------------------------------------------------------ library entry points
def lib():
    from PyCIM.RDFXMLReader import cimread
    from PyCIM.RDFXMLWriter import cimwrite
    return cimread, cimwrite


def xmlpp(src):
    from PyCIM.PrettyPrintXML import xmlpp as f
    return f(src)


def read(src, sc=None, start=None):
    f, _ = lib()
    m, ns = sc.read_args() if sc is not None else (None, None)
    kw = {}
    if start is not None:
        kw['start_dict'] = start
    if m is not None:
        return f(src, m, ns, **kw)
    return f(src, **kw)


def write(d, target, enc='utf-8'):
    _, f = lib()
    if enc == 'utf-8':
        return f(d, target)
    return f(d, target, enc)


def attempt(fn, *a, **k):
    """-> (result, None) or (None, exception without its frames)."""
    try:
        return fn(*a, **k), None
    except BaseException as e:
        if isinstance(e, S.HarnessError) or type(e).__name__ == 'Hang':
            raise
        return None, strip(e)


def strip(e):
    seen = set()
    x = e
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        x.__traceback__ = None
        nxt = x.__cause__ or x.__context__
        x = nxt
    return e


def real_faults(sim):
    """Faults the code had to notice (not short transfers or clock jumps)."""
    return [k for k in sim.fired if not k.endswith((':short', ':jump', ':truncated'))]


def exc_text(e):
    return '%s: %s' % (type(e).__name__, re.sub(r'\b(0x[0-9a-f]{6,}|at \d{9,})\b', '#', str(e)[:200]))


def warm(top):
    """Import every class of a version, so lazy imports are out of the picture."""
    sc = schema(top)
    for c in sc.names:
        sc.live(c)


def warm_all():
    for t in sorted(MM):
        warm(t)
    lib()
    import PyCIM.PrettyPrintXML, PyCIM.SimpleXMLWriter


# ------------------------------------------------------------------ comparing a loaded model
def compare(sc, d, cls, st, ordered=False):
    """Difference between a loaded collection and the expected model; None if equal."""
    if not isinstance(d, dict):
        return 'not-a-dict', 'the load returned %s' % type(d).__name__
    want, got = set(cls), set(d)
    if want != got:
        return 'ids', 'identifiers missing %s, unexpected %s' % (sorted(map(repr, want - got))[:4], sorted(map(repr, got - want))[:4])
    for i, c in cls.items():
        k = sc.live(c)
        if type(d[i]) is not k:
            return 'class', '%r is a %s.%s, expected %s' % (i, type(d[i]).__module__, type(d[i]).__name__, c)
        if d[i].UUID != i:
            return 'uuid', '%r has UUID %r' % (i, d[i].UUID)
    ids = {id(o): i for i, o in d.items()}
    if len(ids) != len(d):
        return 'alias', 'one object under two identifiers'
    try:
        got = snapshot(sc, d, cls)
    except Exception as e:
        return 'state', 'reading the model raised ' + exc_text(e)
    for i, c in cls.items():
        e = diff_state(sc, c, st[i], got[i])
        if e:
            return 'state:' + e.split(' is ')[0], '%s %r: %s' % (c, i, e)
    return None
