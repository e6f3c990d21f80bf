#!/usr/bin/env python3
"""Runner.   run.py check ID [--tier quick|thorough]   run.py replay FILE   run.py selftest [ID...]

check forks workers over the case numbers, merges their results in case order,
minimises and replays the first violation of each kind, prints VIOLATION lines
and rewrites evidence/ID.json.  The outcome is a function of (VERIF_SEED, tier).
"""
import gc, hashlib, importlib, json, os, pickle, signal, subprocess, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(1, os.path.join(HERE, 'props'))
import sim as S
from sim import real_open, real_time
import base

HANG = 240          # real seconds one case may take before it counts as not terminating
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def load(pid):
    m = importlib.import_module(pid.lower())
    return m.PROP


def dumps(x, **k):
    return json.dumps(x, **k)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_case(prop, case):
    """One case; anything the code under test lets escape is a violation, not a crash of the check."""
    gc.collect()        # what cases leave behind is never collected in the middle of another one
    gc.disable()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG)
    try:
        return prop.run(case)
    except Hang:
        r = base.Res()
        r.fail('hang', 'the run did not end within %d s' % HANG)
        return r
    except Exception as e:
        # the code under test raised where the harness only looks (reading a property, say)
        tb = traceback.extract_tb(e.__traceback__)
        if not tb or not tb[-1].filename.startswith(S.REPO):
            raise
        r = base.Res()
        r.fail('escaped:' + type(e).__name__, 'unexpected %s: %s at %s:%d' % (
            type(e).__name__, str(e)[:200], tb[-1].filename[len(S.REPO):], tb[-1].lineno))
        return r
    finally:
        signal.alarm(0)
        S.CUR = None
        sys.settrace(None)


def in_child(fn):
    """Runs fn() in a forked child and returns its pickled result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException:
                out = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            import world
            world.drop_scratch()
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise S.HarnessError('child died')
    return pickle.loads(data)


def digest(r):
    return {'viol': r.viol, 'stats': dict(r.stats), 'states': sorted(r.states), 'sim_s': r.sim_s,
            'trace': r.trace.hexdigest(), 'runs': r.runs, 'sample': r.sample}


def one(prop, case):
    """-> plain dict of one case's outcome (in a fresh child where the property wants one)."""
    if prop.fresh:
        st, out = in_child(lambda: digest(run_case(prop, case)))
        if st != 'ok':
            raise S.HarnessError(out)
        return out
    return digest(run_case(prop, case))


def worker(prop, seed, tier, todo, path, deadline):
    import world
    nviol = 0
    with real_open(path, 'wb') as f:
        for idx in todo:
            if real_time() > deadline:
                pickle.dump(('late', idx, None), f)
                break
            try:
                case = prop.gen(seed, idx, tier)
                d = one(prop, case)
                for v in d['viol']:
                    if v['case'] is None:
                        v['case'] = case
                if d['sample'] is None:
                    d['sample'] = brief(case)
                if idx % 50:
                    d['sample'] = None
                pickle.dump(('ok', idx, d), f)
                nviol += bool(d['viol'])
                if nviol >= 4:
                    pickle.dump(('stop', idx, None), f)
                    break
            except Exception:
                pickle.dump(('error', idx, traceback.format_exc()), f)
                break
    world.drop_scratch()


def brief(case, n=1500):
    s = dumps(case)
    return s if len(s) <= n else s[:n] + '...'


def known():
    """{(property, id): text} of findings recorded as known, not fixed."""
    out = {}
    if os.path.exists(KNOWN):
        for l in real_open(KNOWN, encoding='utf-8'):
            if l.startswith('known:'):
                f = dict(x.split('=', 1) for x in l.split()[1:3])
                out[f['property'], f['id']] = l.split(None, 3)[3].strip()
    return out


def minimise(prop, case, key, budget=25.0, tries=600):
    """Greedy delta debugging in this process; keeps the kind of violation."""
    t0 = real_time()
    n = 0
    best = case
    changed = True
    while changed and real_time() - t0 < budget and n < tries:
        changed = False
        for c in prop.shrink(best):
            n += 1
            if real_time() - t0 > budget or n > tries:
                break
            try:
                d = one(prop, c)
            except Exception:
                continue
            hit = [v for v in d['viol'] if v['key'] == key]
            if hit:
                best = hit[0]['case'] or c
                changed = True
                break
    return best, n


def shows(prop, before, case, key):
    """Runs the cases one after another in a child of this process: (message, trace) of the last if it violates so, or None."""
    def go():
        for c in before:
            try:
                one(prop, c)
            except Exception:
                pass
        return one(prop, case)
    st, d = in_child(go)
    hit = [x for x in d['viol'] if x['key'] == key] if st == 'ok' else []
    return (hit[0]['msg'], d['trace']) if hit else None


def history(prop, seed, tier, idxs, case, key, budget=60.0):
    """The earlier cases of a worker that a violation needs, cut down greedily; [] if it does not show even so."""
    t0 = real_time()
    cur = [prop.gen(seed, i, tier) for i in idxs]
    if not cur or shows(prop, cur, case, key) is None:
        return []
    n = max(1, len(cur) // 2)
    while real_time() - t0 < budget:
        for a in range(0, len(cur), n):
            c = cur[:a] + cur[a + n:]
            if real_time() - t0 > budget:
                break
            if shows(prop, c, case, key) is not None:
                cur = c
                break
        else:
            if n == 1:
                break
            n = max(1, n // 2)
    return cur


def check(pid, tier, workers):
    t0 = real_time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    S.install()
    prop = load(pid)
    import world
    if prop.warm:
        world.warm_all()
        gc.freeze()
    total = prop.count(tier)
    tmp = world.scratch()
    files, pids = [], []
    deadline = t0 + (600 if tier == 'quick' else 3300)
    for w in range(workers):
        path = os.path.join(tmp, 'w%d' % w)
        files.append(path)
        p = os.fork()
        if p == 0:
            code = 0
            try:
                world.SCRATCH = None
                worker(prop, seed, tier, range(w, total, workers), path, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        pids.append(p)
    bad = 0
    for p in pids:
        bad |= os.waitpid(p, 0)[1]
    res, errors, late = {}, [], False
    for path in files:
        if os.path.exists(path):
            with real_open(path, 'rb') as f:
                while True:
                    try:
                        k, idx, d = pickle.load(f)
                    except EOFError:
                        break
                    if k == 'ok':
                        res[idx] = d
                    elif k == 'error':
                        errors.append((idx, d))
                    elif k == 'late':
                        late = True
    if errors or bad:
        for idx, e in errors[:2]:
            print('HARNESS ERROR in case %s\n%s' % (idx, e))
    # merge in case order
    stats, states, sim_s, runs = {}, set(), 0.0, 0
    trace = hashlib.sha256()
    samples = []
    viol = []
    for idx in sorted(res):
        d = res[idx]
        for k, v in d['stats'].items():
            stats[k] = stats.get(k, 0) + v
        states.update(d['states'])
        sim_s += d['sim_s']
        runs += d['runs']
        trace.update(d['trace'].encode())
        if d['sample'] and len(samples) < 3:
            samples.append(d['sample'])
        for v in d['viol']:
            viol.append((idx, v))
    # known findings: probed apart, so the search never has to look away
    kn = known()
    try:
        if prop.fresh:
            st, probes = in_child(prop.probe)
            if st != 'ok':
                raise S.HarnessError(probes)
        else:
            probes = prop.probe()
        for fid, fails, text in probes:
            if fails and (pid, fid) in kn:
                print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, kn[pid, fid]))
            elif fails:
                viol.append((-1, {'key': fid, 'msg': text, 'case': {'probe': fid}}))
    except Exception:
        errors.append((-1, traceback.format_exc()))
        print('HARNESS ERROR in probe\n' + errors[-1][1])
    # report
    done = []
    for idx, v in viol:
        if v['key'] in [x[1]['key'] for x in done] or len(done) >= 3:
            continue
        done.append((idx, v))
    lines = 0
    for idx, v in done:
        case, tries, before = v['case'], 0, []
        if 'probe' not in case:
            st, out = in_child(lambda: minimise(prop, v['case'], v['key']))
            if st == 'ok':
                case, tries = out
            if shows(prop, [], case, v['key']) is None:
                case = v['case']
                if shows(prop, [], case, v['key']) is None and not prop.fresh:
                    # it takes what the process did before
                    before = history(prop, seed, tier, range(idx % workers, idx, workers), case, v['key'])
        rp = os.path.join(ROOT, 'replays', '%s-%s.json' % (pid, hashlib.sha256((v['key'] + dumps(case, sort_keys=True)).encode()).hexdigest()[:10]))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        hit = shows(prop, before, case, v['key']) if 'probe' not in case else None
        rec = {'property': pid, 'key': v['key'], 'message': hit[0] if hit else v['msg'], 'verif_seed': seed, 'case_number': idx,
               'tier': tier, 'trace': hit[1] if hit else None, 'before': before, 'case': case, 'minimise_runs': tries,
               'how': 'python3 dst/run.py replay %s' % os.path.relpath(rp, ROOT)}
        with real_open(rp, 'w', encoding='utf-8') as f:
            json.dump(rec, f, indent=1)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), 'replay', rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf-8', 'replace')
        print('%s: %s' % (v['key'], rec['message']))
        print('replay in a fresh process: %s' % ('reproduced, same trace' if 'REPRODUCED exactly' in out else
                                                 'reproduced' if p.returncode == 1 else 'NOT reproduced\n' + out[-600:]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        lines += 1
    wall = real_time() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault ')}
    ops = {k[3:]: v for k, v in sorted(stats.items()) if k.startswith('op ')}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(('fault ', 'op '))}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': runs, 'distinct_nontrivial': len(states), 'rule': prop.rule,
                       'samples': samples or ['none'], 'cases': len(res), 'cases_planned': total,
                       'distinct_measure': prop.states_are,
                       'runs_per_hour': int(runs / wall * 3600) if wall else 0,
                       'seeds_per_hour': int(len(res) / wall * 3600) if wall else 0,
                       'simulated_seconds': round(sim_s, 3), 'faults_injected': faults, 'simulated_operations': ops,
                       'observed': other, 'components_real': prop.real, 'components_stub': prop.stub,
                       'determinism_digest': trace.hexdigest(), 'workers': workers, 'stopped_early': late},
          'assumptions': prop.assumptions if hasattr(prop, 'assumptions') else [],
          'wall_s': round(wall, 2), 'violations': lines}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with real_open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    world.drop_scratch()
    print('%s %s: %d cases, %d runs, %d distinct, %.0f simulated s, %d faults, %.1f s' % (
        pid, tier, len(res), runs, len(states), sim_s, sum(faults.values()), wall))
    if lines:
        return 1
    if errors or bad:
        return 2
    return 0


def replay(path):
    rec = json.load(real_open(path, encoding='utf-8'))
    S.install()
    prop = load(rec['property'])
    import world
    if prop.warm:
        world.warm_all()
        gc.freeze()
    if 'probe' in rec['case']:
        hit = [p for p in prop.probe() if p[0] == rec['key'] and p[1]]
        print(hit[0][2] if hit else 'no violation')
        world.drop_scratch()
        return 1 if hit else 0
    for c in rec.get('before', ()):
        try:
            one(prop, c)
        except Exception:
            pass
    d = one(prop, rec['case'])
    world.drop_scratch()
    hit = [v for v in d['viol'] if v['key'] == rec['key']] or d['viol']
    if not hit:
        print('no violation')
        return 0
    print('%s: %s' % (hit[0]['key'], hit[0]['msg']))
    if rec.get('trace') == d['trace'] and hit[0]['key'] == rec['key'] and hit[0]['msg'] == rec['message']:
        print('REPRODUCED exactly')
    return 1


def selftest(ids):
    """The same seed gives the same executions: with other worker counts, hash seeds and start-up orders."""
    bad = 0

    def go(pid, w, h):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), 'digest', pid, str(w)], env=env, stdout=subprocess.PIPE)
        return p.stdout.decode().strip() if p.returncode == 0 else None
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(os.cpu_count() or 1)
    jobs = [(pid, [pool.submit(go, pid, w, h) for w, h in ((1, '0'), (3, '7'))]) for pid in ids]
    for pid, fs in jobs:
        got = [f.result() for f in fs]
        ok = got[0] is not None and got[0] == got[1]
        bad += not ok
        print('%s: %s' % (pid, 'deterministic' if ok else 'NOT deterministic: %s' % got))
    return 1 if bad else 0


def digests(pid, workers):
    """A digest of the event traces of a spread of cases, worked off in another order for each worker count."""
    S.install()
    prop = load(pid)
    import world
    if prop.warm:
        world.warm_all()
        gc.freeze()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    n = prop.count('quick')
    todo = sorted({i * n // 12 for i in range(12)})
    res = {}
    for w in range(workers):
        for idx in todo[w::workers]:
            d = one(prop, prop.gen(seed, idx, 'quick'))
            d.pop('sample')
            res[idx] = hashlib.sha256(dumps([d['trace'], d['states'], sorted(d['stats'].items()), d['sim_s'], d['runs'],
                                             [(v['key'], v['msg']) for v in d['viol']]]).encode()).hexdigest()
    world.drop_scratch()
    print(hashlib.sha256(dumps(sorted(res.items())).encode()).hexdigest())
    return 0


def main(a):
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        w = int(a[a.index('--workers') + 1]) if '--workers' in a else int(os.environ.get('DST_WORKERS', 0)) or min(8, os.cpu_count() or 1)
        return check(a[1], tier, w)
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'case':      # run.py case ID N: show one generated case and its outcome
        S.install()
        prop = load(a[1])
        import world
        if prop.warm:
            world.warm_all()
            gc.freeze()
        c = prop.gen(int(os.environ.get('VERIF_SEED', '1')), int(a[2]), os.environ.get('VERIF_TIER', 'quick'))
        print(dumps(c)[:20000])
        d = one(prop, c)
        d['states'] = len(d['states'])
        print(d)
        world.drop_scratch()
        return 0
    if a[0] == 'selftest':
        return selftest(a[1:] or [json.loads(l)['id'] for l in real_open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')])
    if a[0] == 'list':
        for l in real_open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
            x = json.loads(l)
            print(x['id'], type(load(x['id'])).__name__, x['title'])
        return 0
    if a[0] == 'saves':
        S.install()
        load('C10').saves(int(a[1]), int(a[2]))
        import world
        world.drop_scratch()
        return 0
    if a[0] == 'digest':
        return digests(a[1], int(a[2]))
    print(__doc__)
    return 2

if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
