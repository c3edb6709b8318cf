"""Particle generation honours counts, locations and history."""
from . import lib

BOUNDS = ('0 to 7 new particles over 1 to 4 seed rows/columns (symbolic '
          'positions on a 3x4 / 4x5 grid, equal entries allowed), both '
          'methods, symbolic seed time in [-5, 1e6], earlier own and '
          'previous data of up to 2+2 particles; every draw; up to 29 new '
          'particles over 11 seed places and 5 random ones')
ASSUMPTIONS = ['random seeding draws rows and columns independently']
L, W = 4, 5


def model(h, pt, names=(), roi=False):
    c = lib.const
    depth = lib.grid(h, 'd', L, W, 1, 3) if 'depth' in names else \
        c(L, W, 1.0)
    u = [[0.01 + 0.0625 * (a * W + b) for b in range(W)] for a in range(L)]
    p = pt.modelParams()
    p.dx, p.model = 1.0, 'DeltaRCM'
    p.depth, p.stage = lib.arr(h, depth), lib.arr(h, c(L, W, 1.5))
    p.u, p.v = lib.arr(h, u), lib.arr(h, c(L, W, 1.0))
    p.cell_type = lib.arr(h, c(L, W, 0), 'i')
    if names:
        p.particle_variables = list(names)
    R = None
    if roi:
        R = [[(a + b) % 3 for b in range(W)] for a in range(L)]
        R[1][2] = h.int('roi', 0, 2)
        p.roi_grid = lib.arr(h, R, 'i')
    return pt.Particles(p), R


def value(h, P, R, var, x, y):
    if var == 'roi_flag':
        return h.ite(R[x][y] == 1, 1, 0)
    return getattr(P, var)[x, y]


def seeds(h, n, tag, hi):
    return [h.int('%s%d' % (tag, i), 0, hi) for i in range(n)]


def fresh(h, P, R, wd, k0, n, allv, t0, what):
    for k in ['xinds', 'yinds', 'travel_times'] + allv:
        h.check(k in wd and len(wd[k]) == k0 + n,
                what + ': exactly the requested number is added')
        h.check(all(len(q) == 1 for q in wd[k][k0:]),
                what + ': one record each')
    for i in range(k0, k0 + n):
        h.check(wd['travel_times'][i][0] == t0, what + ': seed time')
        x, y = wd['xinds'][i][0], wd['yinds'][i][0]
        for v in allv:
            h.check(h.all([h.implies(h.And(x == a, y == b), h.same(
                wd[v][i][0], value(h, P, R, v, a, b)))
                for a in range(L) for b in range(W)]),
                    what + ': %s at the start' % v)
    h.check(P.Np_tracer == k0 + n, what + ': number of particles')


def exact(h, n=5, m=2, names=(), roi=False, st=True):
    pt = h.load('particle_track')
    P, R = model(h, pt, names, roi)
    sx, sy = seeds(h, m, 'x', L - 1), seeds(h, m, 'y', W - 1)
    t0 = h.real('t', -5, 1e6) if st else 0
    P.generate_particles(n, list(sx), list(sy), seed_time=t0,
                         method='exact')
    wd = P.walk_data
    allv = list(names) + (['roi_flag'] if roi else [])
    fresh(h, P, R, wd, 0, n, allv, t0, 'exact')
    # the k-th location takes n//m particles, one more for the first n%m
    got = [(wd['xinds'][i][0], wd['yinds'][i][0]) for i in range(n)]
    for i in range(n):
        h.check(h.any([h.And(got[i][0] == a, got[i][1] == b)
                       for a, b in zip(sx, sy)]), 'a listed location')
    for k in range(m):
        cnt = sum([h.ite(h.And(got[i][0] == sx[k], got[i][1] == sy[k]), 1, 0)
                   for i in range(n)]) if n else 0
        want = sum([h.ite(h.And(sx[q] == sx[k], sy[q] == sy[k]),
                          n // m + (1 if q < n % m else 0), 0)
                    for q in range(m)])
        h.check(cnt == want, 'location %d gets its count' % k)
    h.observe('got', [list(q) for q in got])


def rnd(h, n=2, mx=2, my=3, names=('u',), roi=True):
    pt = h.load('particle_track')
    P, R = model(h, pt, names, roi)
    sx, sy = seeds(h, mx, 'x', L - 1), seeds(h, my, 'y', W - 1)
    P.generate_particles(n, list(sx), list(sy))
    wd = P.walk_data
    allv = list(names) + (['roi_flag'] if roi else [])
    fresh(h, P, R, wd, 0, n, allv, 0, 'random')
    for i in range(n):
        h.check(h.any([wd['xinds'][i][0] == a for a in sx]), 'a listed row')
        h.check(h.any([wd['yinds'][i][0] == a for a in sy]),
                'a listed column')
    h.observe('x', wd['xinds'])


def reach(h, n=3, mx=4, my=2):
    """the middle of every share of the draws gives its own coordinate"""
    pt = h.load('particle_track')
    P, R = model(h, pt)
    sx, sy = seeds(h, mx, 'x', L - 1), seeds(h, my, 'y', W - 1)
    for i, s in ((i, s) for s in (sx, sy) for i in range(len(s))):
        f = (i + 0.4321) / len(s)
        h.fix_draws(f)
        P.clear_walk_data()
        P.generate_particles(n, list(sx), list(sy), method='random')
        wd = P.walk_data
        for q in range(n):
            h.check(wd['xinds'][q][0] == sx[int(f * mx)],
                    'every listed row is reached on its share')
            h.check(wd['yinds'][q][0] == sy[int(f * my)],
                    'every listed column is reached on its share')
    h.observe('x', P.walk_data['xinds'])


def _copy(wd):
    return {k: [list(q) for q in v] for k, v in wd.items()}


def history(h, own=2, prev=2, n=2, names=('u',), roi=False, late=(),
            walk=True, method='exact'):
    """earlier data comes first and is kept"""
    pt = h.load('particle_track')
    P, R = model(h, pt, names, roi)
    allv = list(names) + (['roi_flag'] if roi else [])
    h.fix_draws(0.5)
    if own:
        P.generate_particles(own, [1, 2][:own], [2, 3][:own],
                             method='exact')
        if walk:
            P.run_iteration()
        if 'own' in late:
            for v in allv:
                del P.walk_data[v]
    mine = _copy(P.walk_data) if own else {}
    pw = None
    if prev:
        pw = dict(xinds=[], yinds=[], travel_times=[])
        for i in range(prev):
            k = 1 + i % 2
            pw['xinds'].append([h.int('px%d_%d' % (i, q), 0, L - 1)
                                for q in range(k + 1)])
            pw['yinds'].append([h.int('py%d_%d' % (i, q), 0, W - 1)
                                for q in range(k + 1)])
            pw['travel_times'].append([h.real('pt%d_%d' % (i, q), 0, 99)
                                       for q in range(k + 1)])
        if 'prev' not in late:
            for v in allv:
                pw[v] = [[h.real('p%s%d_%d' % (v, i, q), 0, 9)
                          for q in range(len(pw['xinds'][i]))]
                         for i in range(prev)]
    theirs = _copy(pw) if prev else {}
    sx, sy = seeds(h, 2, 'x', L - 1), seeds(h, 2, 'y', W - 1)
    P.generate_particles(n, list(sx), list(sy), method=method,
                         previous_walk_data=pw)
    wd = P.walk_data
    fresh(h, P, R, wd, own + prev, n, allv, 0, 'history')
    for src, off, cnt in ((theirs, 0, prev), (mine, prev, own)):
        for i in range(cnt):
            ln = len(src['xinds'][i])
            for k in ['xinds', 'yinds', 'travel_times'] + allv:
                new = wd[k][off + i]
                h.check(len(new) == ln, 'earlier histories stay aligned')
                if k in src:
                    h.check(h.all([h.same(a, b) for a, b in
                                   zip(src[k][i], new)]),
                            'earlier histories are kept, previous data '
                            'first')
    h.observe('wd', [wd['xinds'], wd['yinds']])


def again(h, n=2, times=3):
    """generating repeatedly adds each time"""
    pt = h.load('particle_track')
    P, R = model(h, pt, ('u',))
    tot = 0
    t0 = h.real('t', 0, 9)
    for r in range(times):
        sx, sy = seeds(h, 2, 'x%d_' % r, L - 1), seeds(h, 2, 'y%d_' % r,
                                                        W - 1)
        old = _copy(P.walk_data) if P.walk_data else None
        P.generate_particles(n + r, sx, sy, method='exact', seed_time=t0)
        fresh(h, P, R, P.walk_data, tot, n + r, ['u'], t0, 'round %d' % r)
        if old:
            for k in old:
                for i in range(tot):
                    h.check(h.all([h.same(a, b) for a, b in
                                   zip(old[k][i], P.walk_data[k][i])]),
                            'earlier particles are kept')
        tot += n + r
    h.observe('x', P.walk_data['xinds'])


def reject(h):
    pt = h.load('particle_track')
    P, R = model(h, pt)
    n = h.int('n', 1, 3)
    x, y = [h.int('x', 0, L - 1)], [h.int('y', 0, W - 1)]
    g = P.generate_particles
    bad = [
        ('count', (TypeError,), ('many', x, y), {}),
        ('row list', (TypeError,), (n, 3, y), {}),
        ('column list', (TypeError,), (n, x, 'ab'), {}),
        ('seed time', (TypeError,), (n, x, y), dict(seed_time='now')),
        ('seed time', (TypeError,), (n, x, y), dict(seed_time=None)),
        ('method type', (TypeError,), (n, x, y), dict(method=5)),
        ('method', (ValueError,), (n, x, y), dict(method='all')),
        ('method', (ValueError,), (n, x, y), dict(method='Exact')),
    ]
    for what, exc, a, k in bad:
        h.check(h.raises(exc, g, *a, **k), 'invalid %s is rejected' % what)
        h.check(P.walk_data is None, 'nothing is generated when rejected')
    k = h.choose('shape', 2)
    a = h.arr([[1], [2]], 'i') if k else h.arr([1, 2], 'i')
    P.generate_particles(h.real('cnt', 2, 2), a, a, method='exact')
    h.check(P.walk_data['xinds'] == [[1], [2]] or h.symbolic and
            [int(q[0]) for q in P.walk_data['xinds']] == [1, 2],
            'array seeds are accepted')
    h.observe('n', n)


def configs(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    for n, m in ((0, 2), (1, 3), (3, 2), (4, 3), (5, 3)):
        add('exact-%d-%d' % (n, m), exact, n=n, m=m)
    add('exact-vars', exact, n=3, m=2, names=('depth', 'u'), roi=True)
    add('exact-29-6', exact, n=29, m=6, st=False)
    add('exact-13-11', exact, n=13, m=11)
    add('random-many', rnd, n=5, mx=1, my=2, names=())
    add('random', rnd)
    add('random-depth', rnd, n=1, mx=3, my=3, names=('depth', 'v'))
    add('reach', reach)
    add('reach-5-3', reach, mx=5, my=3, n=2)
    add('history', history)
    add('history-own', history, prev=0, roi=True)
    add('history-prev', history, own=0, roi=True, n=0)
    add('history-late', history, late=('own', 'prev'), names=('u', 'v'))
    add('history-late-prev', history, late=('prev',), roi=True)
    add('history-random', history, method='random', names=())
    add('again', again)
    add('reject', reject)
    if tier == 'thorough':
        for n, m in ((2, 4), (6, 4), (7, 3), (7, 4), (8, 4)):
            add('exact-%d-%d' % (n, m), exact, n=n, m=m, names=('depth',))
        add('random-3', rnd, n=3, mx=3, my=3)
        add('reach-7-6', reach, mx=7, my=6, n=4)
        add('history-big', history, own=2, prev=4, n=4, roi=True)
    return out
