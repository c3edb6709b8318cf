"""Parallel routing equals independent serial runs."""
import copy
import os
import types
from . import lib
from .C11 import mk

BOUNDS = ('one to three cores, one or two particles and up to two '
          'iterations per core on 5x6 (8x9 and 9x8) grids with every random draw, '
          'weighted and steepest-descent routing, with and without '
          'tracked variables and earlier walk data; combining up to four '
          'results of up to three particles with up to three records; '
          'five cores, four particles and three iterations with mostly '
          'fixed draws; particles at rest next to moving ones')
ASSUMPTIONS = ['processes are run one after the other in a fork model: '
               'arguments and results are copied, each process has its own '
               'random state, initially that of the parent',
               'two random integers drawn from a range of a million or more '
               'do not coincide']


class Result(object):
    def __init__(self, v, err=None):
        self.v, self.err = v, err

    def get(self, timeout=None):
        if self.err is not None:
            raise self.err
        return self.v
    result = get

    def wait(self, *a):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.err is None
    done = ready


class Pool(object):
    """multiprocessing.Pool: worker processes as copies"""
    h = None
    tasks = None

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, max_workers=None, **k):
        self.n = int(processes or max_workers or 4)
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.init, self.initargs = initializer, initargs
        self.stream = [None] * self.n
        self.started = [False] * self.n
        self.count = 0
        self.closed = False
        self.per_child = maxtasksperchild

    def _run(self, f, a, k):
        if self.closed:
            raise ValueError('Pool not running')
        q = getattr(f, '__qualname__', '')
        if '<' in q:
            raise AttributeError("Can't pickle local object '%s'" % q)
        h = self.h
        w = self.count % self.n
        if self.per_child and (self.count // self.n) % self.per_child == 0:
            self.started[w], self.stream[w] = False, None
        self.count += 1
        h.worker = w + 1
        s0 = len(h.seeds)
        if not self.started[w]:
            self.started[w] = True
            if self.init:
                self.init(*copy.deepcopy(self.initargs))
        d0 = len(h.alldraws())
        early = [False]
        real = h.draw

        def draw(*q):
            if len(h.seeds) == s0 and self.stream[w] is None:
                early[0] = True
            return real(*q)
        h.draw = draw
        try:
            r = f(*copy.deepcopy(a), **copy.deepcopy(k))
        finally:
            h.draw = real
            h.worker = 0
        if len(h.seeds) > s0:
            self.stream[w] = ('seed', h.seeds[-1])
        self.tasks.append(dict(stream=None if early[0] else self.stream[w],
                               worker=w,
                               seeds=h.seeds[s0:],
                               draws=list(h.alldraws()[d0:])))
        return copy.deepcopy(r)

    def map(self, f, it, chunksize=None):
        return [self._run(f, (x,), {}) for x in it]

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, list(it)))

    def imap_unordered(self, f, it, chunksize=None):
        return iter(self.map(f, list(it))[::-1])

    def starmap(self, f, it, chunksize=None):
        return [self._run(f, tuple(x), {}) for x in it]

    def map_async(self, f, it, chunksize=None, callback=None,
                  error_callback=None):
        r = self.map(f, it)
        if callback:
            callback(r)
        return Result(r)

    def starmap_async(self, f, it, chunksize=None, callback=None, **k):
        r = self.starmap(f, it)
        if callback:
            callback(r)
        return Result(r)

    def apply(self, f, args=(), kwds={}):
        return self._run(f, tuple(args), dict(kwds))

    def apply_async(self, f, args=(), kwds={}, callback=None, **k):
        r = self.apply(f, args, kwds)
        if callback:
            callback(r)
        return Result(r)

    def submit(self, f, *a, **k):
        return Result(self._run(f, a, k))

    def close(self):
        self.closed = True
    terminate = shutdown = close

    def join(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


class Executor(Pool):
    def map(self, f, *its, **k):
        return iter([self._run(f, x, {}) for x in zip(*its)])

    def shutdown(self, *a, **k):
        self.closed = True


def world(h):
    h.worker = 0
    tasks = []
    P = type('Pool', (Pool,), dict(h=h, tasks=tasks))
    X = type('ProcessPoolExecutor', (Executor,), dict(h=h, tasks=tasks))
    mp = types.ModuleType('multiprocessing')
    mp.Pool = P
    mp.pool = types.SimpleNamespace(Pool=P)
    mp.get_context = lambda *a: mp
    mp.cpu_count = lambda: 8
    mp.current_process = lambda: types.SimpleNamespace(
        name='w%d' % h.worker, _identity=(h.worker,), pid=1000 + h.worker)
    cf = types.ModuleType('concurrent.futures')
    cf.ProcessPoolExecutor = X
    cf.as_completed = lambda fs: list(fs)[::-1]
    fake = types.ModuleType('os')
    fake.__dict__.update(os.__dict__)
    fake.getpid = lambda: 1000 + h.worker
    fake.urandom = lambda n: bytes([1 + h.worker] * n)
    h.make_world(extra={'multiprocessing': mp, 'concurrent.futures': cf,
                        'os': fake})
    return tasks


def distinct_wide(h):
    """draws from a wide range do not coincide"""
    w = []
    for kind, low, high, v in h.alldraws():
        if kind == 'randint' and isinstance(high, int) and \
                isinstance(low, int) and high - low >= 2 ** 20:
            w.append(v)
    for i in range(len(w)):
        for j in range(i):
            h.assume(h.Not(w[i] == w[j]))


def route(h, cores=2, n=1, steps=1, steep=False, names=None, prior=False,
          seed=0, locs=((2, 2),), fixed=False, L=5, W=6):
    tasks = world(h)
    pt = h.load('particle_track')
    par = h.load('parallel_routing')

    def model():
        p, _ = mk(h, pt, L, W, seed, steep, particle_variables=names)
        P = pt.Particles(p)
        if prior:
            P.generate_particles(1, [3], [2], method='exact')
            h.fix_draws(0.25)
            P.run_iteration()
            h.fix_draws(None)
        return P
    xs, ys = [a for a, b in locs], [b for a, b in locs]
    if fixed:
        h.fix_draws((0.4, 0.1, 0.9, 0.6, 0.3, 0.7, 0.05, 0.55, 0.8,
                     0.25, 0.95), kinds=('uniform',))
    out = par.parallel_routing(model(), steps, n, list(xs), list(ys), cores)
    h.check(len(tasks) == cores, 'every core is used once')
    if len(tasks) != cores:
        return
    # independent random streams
    distinct_wide(h)
    for t in tasks:
        for s in t['seeds']:
            if s is not None and isinstance(s, (int,)) or \
                    hasattr(s, 't'):
                h.check(h.And(s >= 0, s < 2 ** 32), 'usable random seed')
    for i in range(cores):
        for j in range(i):
            a, b = tasks[i]['stream'], tasks[j]['stream']
            if tasks[i]['worker'] == tasks[j]['worker'] and \
                    not tasks[i]['seeds']:
                continue
            if a is None and b is None:
                h.check(not tasks[i]['draws'] and not tasks[j]['draws'],
                        'independent random streams')
            elif a is not None and b is not None and \
                    a[1] is not None and b[1] is not None:
                try:
                    c = h.Not(a[1] == b[1])
                except TypeError:
                    c = True
                h.check(c, 'independent random streams')
    # each core equals a serial run with its draws
    total = n + (1 if prior else 0)
    keys = ['xinds', 'yinds', 'travel_times']
    if names:
        keys += list(names)
    elif names is None and False:
        pass
    for k in keys:
        h.check(k in out and len(out[k]) == cores * total,
                'every core contributes its particles')
        if k not in out or len(out[k]) != cores * total:
            return
    for c, t in enumerate(tasks):
        S = model()
        h.replay_draws(t['draws'])
        S.generate_particles(n, list(xs), list(ys))
        wd = S.walk_data
        for _ in range(steps):
            wd = S.run_iteration()
        left = len(h.queue or [])
        h.replay_draws([])
        h.check(left == 0, 'same draws used')
        h.check(sorted(wd) == sorted(out), 'same quantities')
        for k in wd:
            for i in range(total):
                a, b = wd[k][i], out[k][c * total + i]
                h.check(len(a) == len(b) and
                        h.all([h.same(x, y) for x, y in zip(a, b)]),
                        'equal to the serial run')
    h.cover('routed')


def combine(h, sizes=(1, 2), recs=2, names=()):
    world(h)
    par = h.load('parallel_routing')
    keys = ['xinds', 'yinds', 'travel_times'] + list(names)
    res, q = [], 0
    for n in sizes:
        r = {k: [] for k in keys}
        for i in range(n):
            for k in keys:
                l = []
                for m in range(1 + (recs + i) % 3 if recs else 0):
                    l.append(h.int('%s%d' % (k, q), 0, 9)
                             if k in ('xinds', 'yinds') else
                             h.real('%s%d' % (k, q), -9, 9))
                    q += 1
                r[k].append(l)
        res.append(r)
    keep = [{k: [list(l) for l in v] for k, v in r.items()} for r in res]
    for again in (0, 1):
        out = par.combine_result(res)
        h.check(sorted(out) == sorted(keys), 'same quantities')
        for k in keys:
            want = [l for r in keep for l in r[k]]
            got = out.get(k, [])
            h.check(len(got) == len(want),
                    'every particle exactly once')
            for a, b in zip(got, want):
                h.check(len(a) == len(b) and
                        h.all([x == y for x, y in zip(a, b)]),
                        'full histories in core order')


def configs(tier):
    out = []

    def add(name, fn=route, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True),
                        covers=['routed'] if fn is route else []))
    add('two')
    add('three', cores=3, steep=True, names=['depth'])
    add('one', cores=1, steps=2)
    add('pair', n=2, steep=True, seed=1)
    add('pair-one', cores=1, n=2, locs=((2, 2), (3, 3)), steep=True)
    add('none', steps=0, n=2, locs=((2, 2), (3, 3)))
    add('prior', prior=True, names=['depth', 'qx'], steep=True)
    add('combine', fn=combine, sizes=(1, 2), names=('depth',))
    add('combine-one', fn=combine, sizes=(3,))
    add('combine-empty', fn=combine, sizes=(0, 2, 0, 1))
    add('many', cores=5, n=4, steps=3, locs=((2, 2),), fixed=True)
    add('rest', cores=1, n=2, steps=3, locs=((1, 3), (3, 3)), steep=True,
        L=8, W=9, fixed=True)
    add('rest-many', cores=3, n=4, steps=3, locs=((1, 3), (3, 3)),
        fixed=True, L=9, W=8, names=['depth'])
    add('combine-large', fn=combine, sizes=(11, 1, 0, 4, 2, 13), recs=1)
    if tier == 'thorough':
        add('two-long', steps=2, steep=True)
        add('two-walk', steps=2, seed=1)
        add('four', cores=4, steep=True, n=2, locs=((2, 2), (1, 3)))
        add('combine-many', fn=combine, sizes=(3, 2, 3), names=('u', 'v'))
    return out
