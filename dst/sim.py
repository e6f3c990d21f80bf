"""Deterministic simulator: one process, one seed, one exactly repeatable execution.

Everything the properties depend on that is not deterministic goes through here:
  * time            time.time/monotonic/perf_counter/sleep read a virtual clock
  * files           builtins.open/io.open inside the scratch root give the real
                    io stack (TextIOWrapper/Buffered*) over a simulated raw device
  * streams         caller's sources and sinks are built over the same device
  * locale          the default text encoding is a parameter of the run
  * threads         real threads, but only the one holding the baton runs; the
                    baton moves at seams (I/O, clock, locks, source lines)
  * process death   SimCrash unwinds the code while the device ignores writes
The run's plan (faults, device shape, schedule) is plain JSON, so that a replay
file is the plan itself.
"""
import ast, _thread, builtins, collections, errno, gc, hashlib, io, logging, os, random, sys, threading, time, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
real_time, real_monotonic, real_perf, real_sleep = time.time, time.monotonic, time.perf_counter, time.sleep
real_open = builtins.open
real_Lock, real_RLock = threading.Lock, threading.RLock

CUR = None  # the running Sim


class SimCrash(BaseException):
    """The simulated process dies here."""


class HarnessError(Exception):
    """The machinery, not the code under test, is wrong."""


class Sim(object):
    """One simulated run.  plan keys (all optional):
      faults  [{kind, n, err}]  the n-th operation of that kind fails with err
              (an errno name, CRASH, INT, MEM); kinds: open read write flush seek close line import
      cap     bytes the device takes before ENOSPC
      wchunk / rchunk   sizes the device accepts / delivers, cyclic
      buf / tchunk      buffer sizes of the io stack
      delay   seconds per operation, cyclic;  jump {op: seconds} clock steps
      locale  default text encoding
    """

    def __init__(self, plan=None, root=None):
        plan = plan or {}
        self.plan = plan
        self.root = root
        self.t0 = self.now = float(plan.get('start', 1.3e9))
        self.elapsed = 0.0
        self.count = collections.Counter()
        self.ops = 0
        self.fired = collections.Counter()
        self.fired_list = []
        self.trace = hashlib.sha256()
        self.events = collections.deque(maxlen=400)
        self.dead = False
        self.used = 0
        self.cap = plan.get('cap')
        self.handles = []
        self.faults = {}
        for f in plan.get('faults', ()):
            self.faults[f['kind'], f['n']] = f['err']
        self.jumps = {int(k): v for k, v in plan.get('jump', {}).items()}
        self.delay = plan.get('delay') or [0.001]
        self.opening = 0.0              # time spent opening files
        self.marks = []                 # when a file was opened, or read again
        self.wchunk, self.rchunk = plan.get('wchunk'), plan.get('rchunk')
        self.wi = self.ri = 0
        self.locale = plan.get('locale', 'utf-8')
        self.sched = None
        self.line_fault = any(k == 'line' for k, _ in self.faults)
        # premature end of the data during one pass over the source: {pass: bytes}
        self.cut = {int(k): v for k, v in plan.get('cut', {}).items()}
        self.passes = 0
        self.cut_met = False

    # -- the one place where the world answers
    def note(self, *what):
        s = '|'.join(map(str, what))
        self.trace.update(s.encode('utf-8', 'surrogatepass') + b'\n')
        self.events.append(s)

    def fault(self, kind, err):
        self.fired['%s:%s' % (kind, err)] += 1
        self.fired_list.append((kind, self.count[kind] - 1, err, self.sched.cur if self.sched is not None else None))
        self.note('FAULT', kind, err)
        if err == 'CRASH':
            self.dead = True
            raise SimCrash()
        if err == 'INT':
            raise KeyboardInterrupt()
        if err == 'MEM':
            raise MemoryError('simulated')
        if err in ODD:
            raise ODD[err]()
        raise OSError(getattr(errno, err), 'simulated ' + err)

    def op(self, kind, detail='', point=True):
        if self.dead:
            return
        n = self.count[kind]
        self.count[kind] += 1
        self.ops += 1
        d = self.delay[self.ops % len(self.delay)]
        self.now += d
        self.elapsed += d
        if kind == 'open':
            self.opening += d
        if kind in ('open', 'seek'):
            self.marks.append((kind, self.now))
        j = self.jumps.get(self.ops)
        if j:
            self.now += j
            self.fired['clock:jump'] += 1
        self.note(kind, detail)
        err = self.faults.get((kind, n))
        if err is not None:
            self.fault(kind, err)
        if point and self.sched is not None:
            self.sched.point(kind)

    def clock(self):
        n = self.count['clock']
        self.count['clock'] += 1
        j = self.jumps.get(-1 - n)      # negative keys: the n-th reading of the clock
        if j:
            self.now += j
            self.fired['clock:jump'] += 1
        self.now += 1e-6
        return self.now

    def __enter__(self):
        global CUR
        if CUR is not None:
            raise HarnessError('nested Sim')
        CUR = self
        return self

    def __exit__(self, *a):
        global CUR
        CUR = None
        return False

    def open_handles(self):
        return [h for h in self.handles if not h.closed]

    def close_all(self):
        self.dead = True
        for h in self.handles:
            try:
                h.close()
            except Exception:
                pass


# what streams raise that are not devices: those that unpack, decode or receive, or that were closed
ODD = {'EOF': lambda: EOFError('simulated: the packed stream ended early'),
       'CLOSED': lambda: ValueError('simulated: I/O operation on closed file'),
       'UNI': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'simulated'),
       'TYPE': lambda: TypeError('simulated: a bytes-like object is required'),
       'KEY': lambda: KeyError('simulated'),
       'ATTR': lambda: AttributeError('simulated: the stream has been detached'),
       'RUN': lambda: RuntimeError('simulated'),
       'ASSERT': lambda: AssertionError('simulated'),
       'IMPORT': lambda: ImportError('simulated'),
       'DECAY': lambda: __import__('zlib').error('simulated: incorrect data check'),
       'EXIT': lambda: SystemExit('simulated')}


class SimRaw(io.RawIOBase):
    """A raw device: short transfers, errors, a full disk, death, all from the plan."""

    def __init__(self, sim, dev, name='<sim>', readable=False, writable=False, owner='caller'):
        self.sim, self.dev, self.name, self._r, self._w, self.owner = sim, dev, name, readable, writable, owner
        self.mode = 'rb+' if readable and writable else 'wb' if writable else 'rb'
        self.end = None
        sim.handles.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def readinto(self, b):
        s = self.sim
        s.op('read', self.owner)
        n = len(b)
        if s.rchunk:
            c = s.rchunk[s.ri % len(s.rchunk)]
            s.ri += 1
            if c < n:
                n = c
                s.fired['read:short'] += 1
        if self.end is not None and self.dev.tell() + n > self.end:
            n = max(0, self.end - self.dev.tell())
            here = self.dev.tell()
            more = self.dev.seek(0, 2) > self.end
            self.dev.seek(here)
            if more and not s.cut_met:
                s.cut_met = True
                s.fired['read:truncated'] += 1
        data = self.dev.read(n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        s = self.sim
        b = bytes(b)
        s.op('write', self.owner)
        if s.dead:
            return len(b)
        n = len(b)
        if s.wchunk and n:
            c = s.wchunk[s.wi % len(s.wchunk)]
            s.wi += 1
            if c < n:
                n = c
                s.fired['write:short'] += 1
        if s.cap is not None and n:
            room = s.cap - s.used
            if room <= 0:
                s.fault('write', 'ENOSPC')
            if room < n:
                n = room
                s.fired['write:short'] += 1
        s.used += n
        self.dev.write(b[:n])
        return n

    def seek(self, off, whence=0):
        if not (off == 0 and whence == 1):
            self.sim.op('seek', self.owner)
        return self.dev.seek(off, whence)

    def tell(self):
        return self.dev.tell()

    def truncate(self, size=None):
        if self.sim.dead:
            return size
        return self.dev.truncate(size)

    def close(self):
        if not self.closed:
            if not self.sim.dead:
                self.sim.count['close'] += 1
                self.sim.note('close', self.owner)
            if isinstance(self.dev, io.FileIO):
                self.dev.close()
            super(SimRaw, self).close()


def stack(sim, raw, text=False, encoding=None, errors=None, newline=None, line_buffering=False, buf=None):
    """The standard library's own buffering over a simulated device."""
    size = buf or sim.plan.get('buf') or 8192
    if raw.readable() and raw.writable():
        b = io.BufferedRandom(raw, size)
    elif raw.writable():
        b = io.BufferedWriter(raw, size)
    else:
        b = io.BufferedReader(raw, size)
    if not text:
        return b
    t = io.TextIOWrapper(b, encoding or sim.locale, errors, newline, line_buffering)
    t._CHUNK_SIZE = sim.plan.get('tchunk') or 8192
    return t


class NotASim(Exception):
    pass


def _under(sim, file):
    if sim is None or sim.root is None:
        return None
    try:
        p = os.fsdecode(os.fspath(file))
    except TypeError:
        return None
    p = os.path.abspath(p)
    return p if p.startswith(sim.root + os.sep) else None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = CUR
    p = _under(s, file)
    if p is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    s.op('open', mode.replace('t', ''))
    binary = 'b' in mode
    fmode = mode.replace('b', '').replace('t', '').replace('U', '')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode takes no text arguments')
    if s.dead:
        dev = io.BytesIO(real_open(p, 'rb').read() if os.path.exists(p) and 'r' in fmode else b'')
    else:
        dev = io.FileIO(p, fmode)
    raw = SimRaw(s, dev, p, 'r' in fmode or '+' in fmode, any(c in fmode for c in 'wax+'), owner='lib')
    if fmode == 'r':
        raw.end = s.cut.get(s.passes)
        s.passes += 1
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    f = stack(s, raw, not binary, encoding, errors, newline, buffering == 1,
              buf=buffering if buffering > 1 else None)
    try:
        f.mode = mode
    except (AttributeError, TypeError):
        pass
    return f


# ---------------------------------------------------------------- clock seam
def _time():
    return CUR.clock() if CUR is not None else real_time()


def _mono():
    return CUR.clock() if CUR is not None else real_monotonic()


def _perf():
    return CUR.clock() if CUR is not None else real_perf()


def _sleep(x):
    if CUR is None:
        return real_sleep(x)
    CUR.now += x
    CUR.elapsed += x
    CUR.op('sleep', x)


# ---------------------------------------------------------------- lock seam
class SimLock(object):
    """A lock whose waiting is a scheduling decision."""
    _re = False

    def __init__(self):
        self._l, self._owner, self._n = _thread.allocate_lock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        s = CUR.sched if CUR is not None else None
        if s is None or not s.mine():
            ok = self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        else:
            while True:
                ok = self._l.acquire(False)
                if ok or not blocking:
                    break
                s.point('lock', must=True)
        if ok:
            self._owner, self._n = me, 1
        return ok

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _re = True


# ---------------------------------------------------------------- scheduler
class Nest(object):
    """Calls inside calls on one thread: at seeded points of one call (operations of its devices, reports) the next
    one is made and runs to its end there.  The schedule is {point number: task}, as for Sched."""

    def __init__(self, sim, fns, seed=None, rate=0.05, switches=None):
        self.sim, self.fns = sim, fns
        self.rng = random.Random(seed)
        self.rate = max(0.03, min(0.5, 4 * rate))
        self.replay = None if switches is None else {int(k): v for k, v in switches.items()}
        self.switches = {}
        self.points = self.deepest = 0
        self.stack = []
        self.cur = None
        self.out = [None] * len(fns)
        self.begun = [False] * len(fns)
        self.order = hashlib.sha256()

    def mine(self):
        return self.cur is not None

    def point(self, tag, must=False):
        if must:
            raise RuntimeError('deadlock: the call inside waits for a lock that the call outside holds')
        if self.cur is None or tag in ('line', 'import', 'lock'):
            return
        self.points += 1
        left = [i for i, b in enumerate(self.begun) if not b]
        if not left:
            return
        if self.replay is not None:
            t = self.replay.get(self.points)
            if t not in left:
                return
        elif self.rng.random() < self.rate:
            t = left[self.rng.randrange(len(left))]
            self.switches[self.points] = t
        else:
            return
        self.order.update(b'%d>%d@%s;' % (self.cur, t, tag.encode()))
        self._call(t)

    def _call(self, t):
        self.begun[t] = True
        self.stack.append(self.cur)
        self.deepest = max(self.deepest, len(self.stack))
        self.cur = t
        try:
            self.out[t] = ('ok', self.fns[t]())
        except BaseException as e:
            self.out[t] = ('exc', e)
        finally:
            self.cur = self.stack.pop()

    def run(self):
        self.sim.sched = self
        try:
            for t in range(len(self.fns)):
                if not self.begun[t]:
                    self._call(t)
        finally:
            self.sim.sched = None
        return self.out


class Sched(object):
    """Baton scheduler.  The schedule is {point number: task to run next}."""

    def __init__(self, sim, fns, seed=None, rate=0.05, switches=None, trace_lines=True, limit=2000000):
        self.sim, self.fns = sim, fns
        self.rng = random.Random(seed)
        self.rate = rate
        self.replay = None if switches is None else {int(k): v for k, v in switches.items()}
        self.switches = {}
        self.points = 0
        self.locks = [_thread.allocate_lock() for _ in fns]
        for l in self.locks:
            l.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.done = [False] * len(fns)
        self.out = [None] * len(fns)
        self.cur = None
        self.ids = {}
        self.trace_lines = trace_lines
        self.limit = limit
        self.stuck = 0
        self.order = hashlib.sha256()

    def mine(self):
        return self.ids.get(_thread.get_ident()) == self.cur and self.cur is not None

    def _choose(self, must=False):
        others = [i for i in range(len(self.fns)) if not self.done[i] and i != self.cur]
        if not others:
            return None
        k = self.points
        if self.replay is not None:
            t = self.replay.get(k)
            if t is None and must:
                t = others[0]
            return t if t in others else (others[0] if must else None)
        if must or self.rng.random() < self.rate:
            t = others[self.rng.randrange(len(others))]
            self.switches[k] = t
            return t
        return None

    def point(self, tag, must=False):
        if not self.mine():
            return
        me = self.cur
        self.points += 1
        if self.points > self.limit:
            raise HarnessError('schedule does not end')
        t = self._choose(must)
        if must and t is None:
            self.stuck += 1
            if self.stuck > 1000:
                raise RuntimeError('deadlock: the only runnable task waits for a lock')
            return
        if t is None:
            return
        self.order.update(b'%d>%d@%s;' % (me, t, tag.encode()))
        self.cur = t
        self.locks[t].release()
        self.locks[me].acquire()

    def _body(self, i):
        self.locks[i].acquire()
        if self.trace_lines:
            sys.settrace(self._trace)
        try:
            self.out[i] = ('ok', self.fns[i]())
        except BaseException as e:
            self.out[i] = ('exc', e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            rest = [j for j in range(len(self.fns)) if not self.done[j]]
            if rest:
                self.points += 1
                if self.replay is not None:
                    t = self.replay.get(self.points)
                    t = t if t in rest else rest[0]
                else:
                    t = rest[self.rng.randrange(len(rest))]
                    self.switches[self.points] = t
                self.cur = t
                self.locks[t].release()
            else:
                self.cur = None
                self.main.release()

    def _trace(self, frame, event, arg):
        if traced(frame):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line':
            s = self.sim
            if s.line_fault and not shielded(frame):
                n = s.count['line']
                s.count['line'] += 1
                err = s.faults.get(('line', n))
                if err is not None:
                    s.fault('line', err)
            self.point('line')
        return self._line

    def run(self):
        self.sim.sched = self
        try:
            for i in range(len(self.fns)):
                self.ids[_thread.start_new_thread(self._body, (i,))] = i
            first = 0
            if self.replay is not None:
                first = self.replay.get(0, 0)
            else:
                first = self.switches[0] = self.rng.randrange(len(self.fns))
            self.cur = first
            self.locks[first].release()
            self.main.acquire()
        finally:
            self.sim.sched = None
        for kind, e in self.out:
            if kind == 'exc' and isinstance(e, HarnessError):
                raise e
        return self.out


_traced = {}
CO_OPTIMIZED = 1
_LIB = os.path.join(REPO, 'PyCIM') + os.sep
_MODEL = (os.path.join(REPO, 'CIM14') + os.sep, os.path.join(REPO, 'CIM15') + os.sep)


def traced(frame):
    """Functions of the library; never module or class bodies (import in progress)."""
    code = frame.f_code
    r = _traced.get(code)
    if r is None:
        f = code.co_filename
        r = _traced[code] = bool(code.co_flags & CO_OPTIMIZED) and (f.startswith(_LIB) or f.startswith(_MODEL))
    return r


_shielded = {}


def shielded(frame):
    """Lines where a real interrupt could not be dealt with by any code: leaving a with, entering a try, cleaning up."""
    f = frame.f_code.co_filename
    r = _shielded.get(f)
    if r is None:
        r = _shielded[f] = set()
        with real_open(f, 'rb') as g:
            tree = ast.parse(g.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                r.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                r.update(range(n.lineno, n.body[0].lineno))
                for x in n.finalbody:
                    r.update(range(x.lineno, x.end_lineno + 1))
                for h in n.handlers:
                    r.update(range(h.lineno, h.end_lineno + 1))
    return frame.f_lineno in r


class Lines(object):
    """Counts the library's source lines executed, and fails at a planned one."""

    def __init__(self, sim):
        self.sim = sim

    def _trace(self, frame, event, arg):
        return self._line if traced(frame) else None

    def _line(self, frame, event, arg):
        if event == 'line' and not shielded(frame):
            s = self.sim
            n = s.count['line']
            s.count['line'] += 1
            err = s.faults.get(('line', n))
            if err is not None:
                s.note('line', frame.f_code.co_name, frame.f_lineno)
                s.fault('line', err)
        return self._line

    def __enter__(self):
        sys.settrace(self._trace)

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ---------------------------------------------------------------- logging seam
class LogSink(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []
        self.tasks = []             # who said it

    def clear(self):
        del self.records[:], self.tasks[:]

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    hook = None

    def emit(self, record):
        if self.hook is not None:
            self.hook(record)
        self.records.append((record.levelno, record.getMessage()))
        self.tasks.append(CUR.sched.cur if CUR is not None and CUR.sched is not None else None)

WATCH = None                # another directory whose source files are read under the simulator
LOG = LogSink()
_installed = False


def install():
    """Puts the seams in place.  Called before PyCIM is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.path.dirname(os.path.abspath(__file__)), '.no-pycache')
    warnings.simplefilter('ignore')
    sys.unraisablehook = lambda *a: None
    root = logging.getLogger()
    root.handlers[:] = [LOG]
    root.setLevel(logging.INFO)
    time.time, time.monotonic, time.perf_counter, time.sleep = _time, _mono, _perf, _sleep
    builtins.open = io.open = sim_open
    threading.Lock, threading.RLock = SimLock, SimRLock
    import locale

    def enc(*a):
        return CUR.locale if CUR is not None else 'utf-8'
    locale.getpreferredencoding = locale.getencoding = enc
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


