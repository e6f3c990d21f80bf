"""C21  a call leaves the process as it found it."""
import atexit, builtins, codecs, collections, copyreg, decimal, gc, io, locale, logging, os, pyexpat, random, resource, signal, socket, sys, tempfile
import threading, time, warnings
import xml.etree.ElementTree as ET, xml.etree.cElementTree as CET, xml.parsers.expat
import sim as S, gen, rdf, world
from base import Prop, Res
from meta import schema, TOPS
from c04 import read_doc

MODULES = [builtins, io, os, os.path, sys, ET, CET, xml.parsers.expat, pyexpat, time, codecs, locale, logging, random, tempfile, threading,
           copyreg, collections, warnings, gc, signal]
SKIP = {('sys', n) for n in ('last_exc', 'last_type', 'last_value', 'last_traceback', 'modules', 'exc_info', 'path_importer_cache', 'ps1', 'ps2', '_current_frames')}
SKIP |= {('xml.etree.ElementTree', '_namespace_map'), ('random', '_inst'), ('codecs', '_cache'), ('threading', '_counter')}
PLAIN = (int, float, str, bytes, bool, type(None), tuple)


def picture():
    """Everything of the process a call has no business changing: {what: value}"""
    p = {}
    p['gc.isenabled'], p['gc.get_threshold'], p['gc.get_debug'] = gc.isenabled(), gc.get_threshold(), gc.get_debug()
    p['gc.get_freeze_count'] = gc.get_freeze_count() > 0
    p['gc.callbacks'] = list(map(id, gc.callbacks))
    p['recursion limit'], p['switch interval'] = sys.getrecursionlimit(), sys.getswitchinterval()
    p['int digits'] = sys.get_int_max_str_digits()
    for n in ('path', 'meta_path', 'path_hooks', 'warnoptions', 'argv'):
        p['sys.' + n] = [repr(x) for x in getattr(sys, n)]
    for n in ('stdin', 'stdout', 'stderr', 'excepthook', 'displayhook', 'unraisablehook'):
        p['sys.' + n] = id(getattr(sys, n))
    for n in ('stdout', 'stderr'):
        f = getattr(sys, n)
        p['sys.%s settings' % n] = (getattr(f, 'encoding', None), getattr(f, 'errors', None), getattr(f, 'line_buffering', None), getattr(f, 'closed', None))
    p['profile'] = sys.getprofile()
    p['directory'] = os.getcwd()
    u = os.umask(0o77)
    os.umask(u)
    p['umask'] = u
    p['environment'] = dict(os.environ)
    p['locale'] = [locale.setlocale(c) for c in (locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_TIME, locale.LC_COLLATE)]
    p['decimal context'] = repr(decimal.getcontext())
    p['random'] = random.getstate()
    p['timezone'] = time.tzname
    p['socket timeout'] = socket.getdefaulttimeout()
    p['threads'] = sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread))    # (ours are dummies to it)
    p['signals'] = [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals()) if s != signal.SIGALRM]
    p['signal mask'] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))
    p['codecs'] = [id(codecs.lookup_error(e)) for e in ('strict', 'ignore', 'replace', 'xmlcharrefreplace', 'backslashreplace', 'surrogateescape')]
    p['limits'] = [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE)]
    p['exit handlers'] = atexit._ncallbacks()
    p['warning filters'] = list(warnings.filters)
    p['namespace prefixes'] = dict(ET._namespace_map)
    p['temporary directory'] = tempfile.tempdir
    p['logging'] = (logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.getLogRecordFactory()),
                    id(logging.lastResort), dict(logging._levelToName))
    for n, l in [('root', logging.root)] + sorted(logging.root.manager.loggerDict.items()):
        if isinstance(l, logging.Logger):
            p['logger ' + n] = (l.level, l.disabled, l.propagate, list(map(id, l.handlers)), list(map(id, l.filters)))
    for m in MODULES:
        for n, v in list(vars(m).items()):
            if (m.__name__, n) not in SKIP and not n.startswith('__warning') and n != '_':
                if isinstance(v, PLAIN) and (m is not sys):
                    p['module %s.%s' % (m.__name__, n)] = v
                elif callable(v) or isinstance(v, type):
                    p['module %s.%s' % (m.__name__, n)] = id(v)
    return p


def files(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(d, f)
            with S.real_open(q, 'rb') as g:
                out[os.path.relpath(q, root)] = g.read()
        for f in ds:
            out[os.path.relpath(os.path.join(d, f), root)] = None
    return out


def differ(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b or not (a[k] is b[k] or a[k] == b[k]):
            return '%s was %s, is %s' % (k, short(a.get(k, 'absent')), short(b.get(k, 'absent')))
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 200 else s[:190] + '...'


KINDS = {'load': ('path', 'pathobj', 'bytespath', 'binary', 'raw', 'text', 'stringio', 'bytesio'),
         'print': ('path', 'pathobj', 'binary', 'text', 'bytesio'),
         'save': ('path', 'path', 'pathobj', 'text', 'stringio', 'duck', 'duckflush')}
FAULTS = {'load': ('open', 'read', 'read', 'read', 'seek', 'data', 'data', 'unknown'), 'print': ('open', 'read', 'data'), 'save': ('open', 'write', 'write', 'write', 'flush', 'value')}
ERRS = ['EIO', 'INT', 'MEM', 'ENOSPC', 'EOF', 'CLOSED', 'KEY', 'EXIT']
SETTINGS = ['gc on', 'gc off', 'ascii', 'threshold', 'log warning', 'log off', 'digits', 'recursion', 'plain']


class Bad(object):
    def __str__(self):
        raise ValueError('this value cannot be written')


class C21(Prop):
    id = 'C21'
    rule = ('a case makes four to eight seeded calls (loads, saves, pretty prints; path and stream; intact or failing at a seeded open, read, write, '
            'flush, seek, in the data or in a value; some two or three at once as threads under a seeded schedule), in a process with seeded settings, and compares '
            'after each a picture of the process (collector, limits, directory, environment, locale, random state, logging, warnings, signal '
            'handlers, streams, exit handlers, threads, XML prefixes, standard modules, files) with the one before; '
            'non-trivial: at least one call failed; distinct by event trace')
    real = ['PyCIM.RDFXMLReader', 'PyCIM.RDFXMLWriter', 'PyCIM.SimpleXMLWriter', 'PyCIM.PrettyPrintXML', 'CIM14.*', 'CIM15.*', 'xml.etree/expat', 'io stack', 'threads']
    stub = ['raw device', 'clock', 'thread scheduler']
    parts = [(('calls',), 'list'), (('switches',), 'dict'), (('io',), 'dict')]

    def count(self, tier):
        return 600 if tier == 'quick' else 15000

    def call(self, rng, top):
        ok = gen.all_refs(schema(top), gen.serialisable(schema(top)))
        n = rng.choice([1, 2, 5])
        spec = gen.model(rng, top, [rng.choice(ok) for _ in range(n)], (), n, n, hard=rng.random() < 0.3)
        do = rng.choice(['load', 'load', 'save', 'save', 'print'])
        c = {'do': do, 'spec': spec, 'kind': rng.choice(KINDS[do]), 'dseed': rng.randrange(2**31), 'enc': 'utf-8'}
        if do == 'save':
            c['enc'] = rng.choice(world.ENCODINGS)
        if rng.random() < 0.6:
            c['fault'], c['at'], c['err'] = rng.choice(FAULTS[do]), rng.random(), rng.choice(ERRS)
        return c

    def gen(self, seed, idx, tier):
        rng = random.Random(gen.seed_of(seed, self.id, idx))
        calls = []
        for _ in range(rng.choice([4, 6, 8])):
            tops = ['CIM14', 'CIM15', rng.choice(TOPS)]
            calls.append([self.call(rng, rng.choice(tops)) for _ in range(1 if rng.random() < 0.75 else rng.choice([2, 3]))])
        return {'calls': calls, 'io': gen.io_plan(rng, locale=False), 'sseed': rng.randrange(2**31), 'rate': rng.choice([0.005, 0.05, 0.3]),
                'set': rng.choice(SETTINGS)}

    # ---- one call
    def prepare(self, s, k, c, at):
        """-> function"""
        spec = c['spec']
        f = c.get('fault') if at else None
        if c['do'] == 'save':
            d = gen.build(spec)
            if f == 'value' and d:
                o = list(d.values())[int(c['at'] * len(d))]
                sc = schema(spec['top'])
                n = [a for a in sorted(sc.attrs[type(o).__name__]) if not sc.attrs[type(o).__name__][a].enum]
                if n:
                    setattr(o, n[0], Bad())
            t = world.Target(s, c['kind'], c['enc'], name='out%d.xml' % k)
            return lambda: world.write(d, t.arg, c['enc'])
        top = spec['top']
        rng = random.Random(c['dseed'])
        doc = gen.doc_of(rng, spec, 0.3, 'utf-8', rng.choice([None, rng.randrange(2**31)]))
        if f == 'unknown':
            doc['elems'].append({'cls': 'Nonsense', 'id': 'zz', 'mode': 'ID', 'props': []})
            for e in doc['elems']:
                e['props'] = e['props'] + [['x', '<cim:Foo.bar>1</cim:Foo.bar>']] if not doc.get('pcim') else e['props']
        data = rdf.serialise(doc)
        if f == 'data':
            j = int(c['at'] * len(data))
            data = data[:j] + b'<&' + data[j:] if c['err'] in ('EIO', 'INT') else data[:j]
        src = world.source(s, c['kind'], data, 'utf-8', name='in%d.xml' % k) if c['kind'] != 'stringio' or f != 'data' else world.source(s, 'bytesio', data)
        if c['do'] == 'print':
            return lambda: world.xmlpp(src)
        x = {'top': top, 'mode': 'detect' if top in ('CIM14', 'CIM15') else 'map', 'doc': doc}
        return lambda: read_doc(src, x)

    def settings(self, name):
        if name == 'gc on':
            gc.set_threshold(10**9)
            gc.enable()
        elif name == 'threshold':
            gc.set_threshold(10**8, 7, 7)
        elif name == 'log warning':
            logging.root.setLevel(logging.WARNING)
        elif name == 'log off':
            logging.disable(logging.CRITICAL)
        elif name == 'digits':
            sys.set_int_max_str_digits(100000)
        elif name == 'recursion':
            sys.setrecursionlimit(3000)
        elif name == 'ascii':
            os.environ['PYTHONIOENCODING'] = 'ascii'

    def restore(self, was):
        gc.disable()
        gc.set_threshold(*was['gc.get_threshold'])
        logging.root.setLevel(logging.INFO)
        logging.disable(logging.NOTSET)
        sys.set_int_max_str_digits(was['int digits'])
        sys.setrecursionlimit(was['recursion limit'])
        os.environ.pop('PYTHONIOENCODING', None)

    def run(self, case):
        res = Res()
        world.clean_scratch()
        home = os.getcwd()
        os.chdir(world.scratch())
        tmp = tempfile.tempdir
        os.mkdir(os.path.join(world.scratch(), 'tmp'))
        tempfile.tempdir = os.path.join(world.scratch(), 'tmp')
        os.environ['TMPDIR'] = tempfile.tempdir
        was = picture()
        try:
            self.settings(case['set'])
            self.go(case, res)
        finally:
            self.restore(was)
            tempfile.tempdir = tmp
            os.environ.pop('TMPDIR', None)
            os.chdir(home)
        return res

    def go(self, case, res):
        ordinary = picture()
        switches = {}
        for k, cs in enumerate(case['calls']):
            # once intact to count operations, then with its fault
            counts = {}
            single = len(cs) == 1
            for at in (0, 1):
                if at and not any(c.get('fault') for c in cs):
                    continue
                faults = []
                if at:
                    for c in cs:
                        n = counts.get(c.get('fault'), 0)
                        if n:
                            faults.append({'kind': c['fault'], 'n': min(n - 1, int(c['at'] * n)), 'err': c['err']})
                with S.Sim(dict(case['io'], faults=faults), world.scratch()) as s:
                    fns, err = world.attempt(lambda: [self.prepare(s, 10 * k + j, c, at) for j, c in enumerate(cs)])
                    if err is not None:
                        res.stats['model could not be built'] += 1
                        s.close_all()
                        break
                    before = picture()
                    old = files(world.scratch())
                    if single:
                        out, err = world.attempt(fns[0])
                        failed = err is not None
                        what = world.exc_text(err) if failed else ''
                        out = err = None
                    else:
                        key = '%d.%d' % (k, at)
                        sch = S.Sched(s, fns, gen.seed_of(case['sseed'], key), case['rate'],
                                      None if case.get('switches') is None else case['switches'].get(key, {}))
                        out = sch.run()
                        del sch.fns[:]
                        switches[key] = {str(a): b for a, b in sch.switches.items()} if case.get('switches') is None else case['switches'].get(key, {})
                        s.fired['task:switch'] += len(sch.switches)
                        failed = any(x[0] == 'exc' for x in out)
                        what = '; '.join(world.exc_text(world.strip(x[1])) for x in out if x[0] == 'exc')
                        out = None
                    after = picture()
                    new = files(world.scratch())
                    s.close_all()
                res.absorb(s)
                counts = s.count
                res.stats['calls that failed' if failed else 'calls that returned'] += 1
                fns = None
                name = '%s %s%s' % ('+'.join(c['do'] for c in cs), '+'.join(c['kind'] for c in cs), ' that raised ' + what if failed else '')
                bad = differ(before, after)
                if bad is None and (after['gc.isenabled'], after['recursion limit']) != (ordinary['gc.isenabled'], ordinary['recursion limit']):
                    bad = 'the collector or the recursion limit is not as it was at first'
                if bad:
                    res.fail('changed:' + bad.split(' was ')[0], 'after %s: %s' % (name, bad), self.small(case, k, switches))
                    return
                mine = {'out%d.xml' % (10 * k + j) for j, c in enumerate(cs) if c['do'] == 'save'}
                for f in sorted(set(old) | set(new)):
                    if f not in mine and old.get(f, 0) != new.get(f, 0):
                        res.fail('files', 'after %s: the file %s %s' % (name, f, 'was left behind' if f not in old else 'is gone' if f not in new else 'was changed'),
                                 self.small(case, k, switches))
                        return

    def small(self, case, k, switches):
        if case.get('switches') is not None or not any(len(c) > 1 for c in case['calls']):
            return None
        return dict(case, switches=switches)


PROP = C21()
