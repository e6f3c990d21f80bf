"""What a property module provides, and generic minimisation of its cases."""
import collections, copy, hashlib, json


class Res(object):
    """Outcome of one simulated run (or a small family of runs of one case)."""

    def __init__(self):
        self.viol = []                      # [{key, msg, case}]
        self.stats = collections.Counter()
        self.states = set()
        self.sim_s = 0.0
        self.trace = hashlib.sha256()
        self.runs = 0
        self.sample = None

    def fail(self, key, msg, case=None):
        self.viol.append({'key': key, 'msg': msg, 'case': case})

    def absorb(self, sim, state=True):
        """Account for one finished Sim."""
        self.runs += 1
        self.sim_s += sim.elapsed
        for k, v in sim.fired.items():
            self.stats['fault ' + k] += v
        for k, v in sim.count.items():
            self.stats['op ' + k] += v
        self.trace.update(sim.trace.digest())
        if state:
            self.states.add(sim.trace.hexdigest()[:16])


def get(c, path):
    for p in path:
        c = c[p]
    return c


def put(c, path, v):
    c = copy.deepcopy(c)
    t = c
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return c


def has(c, path):
    try:
        v = get(c, path)
    except (KeyError, IndexError, TypeError):
        return False
    return v is not None


def list_cuts(xs):
    n = len(xs)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield xs[:i] + xs[i + k:]
        k //= 2


def cut_model(spec):
    """Smaller models: fewer objects, links, attributes."""
    ids = [o[0] for o in spec['objs']]
    for keep in list_cuts(ids):
        k = set(keep)
        yield dict(spec, objs=[o for o in spec['objs'] if o[0] in k],
                   links=[l for l in spec['links'] if l[0] in k and l[2] in k])
    for ls in list_cuts(spec['links']):
        yield dict(spec, links=ls)
    for i, (u, c, at) in enumerate(spec['objs']):
        for ks in list_cuts(sorted(at)):
            yield dict(spec, objs=spec['objs'][:i] + [[u, c, {k: at[k] for k in ks}]] + spec['objs'][i + 1:])
    for i, (u, c, at) in enumerate(spec['objs']):
        for k, v in at.items():
            if isinstance(v, str) and len(v) > 1:
                for s in list_cuts(v):
                    yield dict(spec, objs=spec['objs'][:i] + [[u, c, dict(at, **{k: s})]] + spec['objs'][i + 1:])
                    if len(v) > 40:
                        break


def candidates(case, parts):
    """parts: [(path, kind)] with kind list | dict | model | drop"""
    for path, kind in parts:
        if not has(case, path):
            continue
        v = get(case, path)
        if kind == 'list':
            for x in list_cuts(v):
                yield put(case, path, x)
        elif kind == 'dict':
            for ks in list_cuts(sorted(v, key=str)):
                yield put(case, path, {k: v[k] for k in ks})
        elif kind == 'model':
            for x in cut_model(v):
                yield put(case, path, x)
        elif kind == 'drop':
            yield put(case, path, None)


class Prop(object):
    id = None
    parts = []
    warm = True
    fresh = False               # every case in a forked child of an unwarmed parent
    real, stub = [], []
    rule = ''
    states_are = 'distinct event traces (every operation, fault and its order)'

    def count(self, tier):
        raise NotImplementedError

    def gen(self, seed, idx, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def probe(self):
        """Known findings: [(id, still fails, text)]"""
        return []

    def shrink(self, case):
        return candidates(case, self.parts)
