"""Walk histories are append-only, aligned and complete."""
import copy
from . import lib
from .lib import NB

BOUNDS = ('up to 3 particles with histories of 1 to 3 records, one or two '
          'iterations or one run to a target time, on 3x5 and 4x5 grids; '
          'field values, region, times, routing weights and draws '
          'symbolic; up to 13 particles and 14 iterations with mostly '
          'fixed starts')
ASSUMPTIONS = []
VARS = ['depth', 'stage', 'qx', 'qy', 'u', 'v']


def _copy(wd):
    return {k: [list(q) for q in v] for k, v in wd.items()}


def model(h, pt, L, W, dirs, roi=True, names=VARS, symf=('d',), diff=0.0,
          **kw):
    """a model whose cells route towards dirs[i][j] (option numbers)"""
    c = lib.const
    depth = [[1.0 + 0.0625 * ((7 * a + 3 * b) % 31) for b in range(W)]
             for a in range(L)]
    stage = [[2.0 - 0.25 * a + 0.5 * b for b in range(W)] for a in range(L)]
    qx = [[0.5 + 0.015625 * ((5 * a + 2 * b) % 29) for b in range(W)]
          for a in range(L)]
    qy = [[-0.26 + 0.03125 * ((3 * a + 7 * b) % 23) for b in range(W)]
          for a in range(L)]
    if 'd' in symf:
        depth = lib.grid(h, 'd', L, W, 0.5, 4)
    if 's' in symf:
        stage = lib.grid(h, 's', L, W, -2, 2)
    # velocities are fixed, so that step times are numbers (C06 decides them)
    p = lib.params(h, pt, depth, stage, qx, qy, ct=c(L, W, 0),
                   diff_coeff=diff, dx=2.0, **kw)
    p.u, p.v = p.qx, p.qy
    p.qx = p.qy = None
    if names is not None:
        p.particle_variables = list(names)
    R = None
    if roi:
        R = lib.igrid(h, 'roi', L, W, 0, 2) if roi is True else \
            [[h.int('roi%d_%d' % (a, b), 0, 2) if (a, b) in roi
              else (a + 2 * b) % 3 for b in range(W)] for a in range(L)]
        p.roi_grid = lib.arr(h, R, 'i')
    P = pt.Particles(p)
    if dirs is not None:
        for a in range(L):
            for b in range(W):
                if 0 < a < L - 1 and 0 < b < W - 1:
                    for q in range(9):
                        P.weight[a, b, q] = 1.0 if q == dirs[a][b] else 0.0
    return P, R


def value(h, P, R, var, x, y):
    if var == 'roi_flag':
        return h.ite(R[x][y] == 1, 1, 0)
    return getattr(P, var)[x, y]


def well_formed(h, P, R, wd, names, what, since=None):
    n = len(wd['xinds'])
    for v in list(names) + ['yinds', 'travel_times']:
        h.check(v in wd and len(wd[v]) == n, what + ': one list per particle')
    for i in range(n):
        xs, ys, ts = (wd[k][i] for k in ('xinds', 'yinds', 'travel_times'))
        h.check(len(xs) == len(ys) == len(ts), what + ': aligned')
        for v in names:
            h.check(len(wd[v][i]) == len(xs), what + ': %s aligned' % v)
        for j in range(1, len(xs)):
            h.check(ts[j] >= ts[j - 1], what + ': times never decrease')
            h.check(h.Not(h.And(xs[j] == xs[j - 1], ys[j] == ys[j - 1])),
                    what + ': consecutive positions differ')
        for j in range((since or [0] * n)[i], len(xs)):
            for v in names:
                if len(wd[v][i]) > j:
                    h.check(h.same(wd[v][i][j],
                                   value(h, P, R, v, int(xs[j]),
                                         int(ys[j]))),
                            what + ': %s is the value at the position' % v)


def appended(h, old, new, names, what, most=1):
    keys = ['xinds', 'yinds', 'travel_times'] + list(names)
    for k in keys:
        h.check(k in new and len(new[k]) == len(old['xinds']),
                what + ': no particle lost')
        for i in range(len(old['xinds'])):
            o = old[k][i] if k in old else None
            if o is None:
                continue
            e = new[k][i]
            h.check(len(o) <= len(e) <= len(o) + most,
                    what + ': at most %s' % most)
            h.check(h.all([h.same(a, b) for a, b in zip(o, e)]),
                    what + ': earlier entries of %s are kept' % k)


def free(h, L=3, W=5, cell=(1, 2), names=VARS, roi=True, opts=(1, 4, 5),
         iters=1, target=None):
    """one particle, two symbolic options, symbolic draw"""
    pt = h.load('particle_track')
    names = list(names)
    P, R = model(h, pt, L, W, None, roi=roi, names=names, symf=('d', 's'))
    for q in range(9):
        P.weight[cell[0], cell[1], q] = \
            h.real('w%d' % q, 0, 5, lo_open=True) if q in opts else 0.0
    P.generate_particles(1, [cell[0]], [cell[1]], method='exact')
    allv = names + (['roi_flag'] if roi and 'roi_flag' not in names else [])
    well_formed(h, P, R, P.walk_data, allv, 'seeding')
    old = _copy(P.walk_data)
    wd = P.run_iteration()
    appended(h, old, wd, allv, 'iteration')
    well_formed(h, P, R, wd, allv, 'iteration')
    h.check(sorted(wd) == sorted(['xinds', 'yinds', 'travel_times'] + allv),
            'exactly the tracked variables are recorded')
    same = P.walk_data
    h.check(all(same.get(k) == wd.get(k) for k in ('xinds', 'yinds'))
            if not h.symbolic else len(same['xinds'][0]) ==
            len(wd['xinds'][0]), 'the object keeps the returned history')
    h.cover('%d' % len(wd['xinds'][0]))
    h.observe('wd', [wd[k] for k in sorted(wd) if k != 'travel_times'])


RIGHT = [[5] * 6 for _ in range(5)]
MIX = [[4, 4, 4, 4, 4, 4], [4, 5, 7, 4, 3, 4], [4, 2, 5, 0, 1, 4],
       [4, 5, 1, 3, 0, 4], [4] * 6]


def several(h, L=4, W=5, dirs=None, n=3, iters=2, target=None, names=VARS,
            roi=((1, 2), (2, 3)), hist=True, late=False, cells=None,
            spread=False, fixed=False):
    """several particles on forced routes: together as each on its own"""
    pt = h.load('particle_track')
    dirs = dirs or MIX
    names = list(names)
    P, R = model(h, pt, L, W, dirs, roi=roi, names=names, symf=())
    allv = names + (['roi_flag'] if roi else [])
    four = cells or [(1, 1), (2, 3), (0, 2), (2, 1)]
    starts = [four[(i * i + i // 3) % len(four)] if spread else
              h.pick('start%d' % i, four) for i in range(n)]

    def previous(idx):
        wd = dict(xinds=[], yinds=[], travel_times=[])
        if not late:
            for v in allv:
                wd[v] = []
        for i in idx:
            x, y = starts[i]
            k = i % 3 if hist else 0           # earlier records
            px = [(x + 1 + q) % L for q in range(k)] + [x]
            py = [(y + 1 + (q % 2)) % W for q in range(k)] + [y]
            t = list(times[i][:k + 1])
            wd['xinds'].append(px)
            wd['yinds'].append(py)
            wd['travel_times'].append(t)
            if not late:
                for v in allv:
                    wd[v].append([value(h, P, R, v, a, b)
                                  for a, b in zip(px, py)])
        return wd
    times = []
    for i in range(n):
        t = [h.real('t%d_0' % i, 0, 10) if not fixed or i == 4
             else 0.3125 * i]
        for q in range(1, 3):
            t.append(h.real('t%d_%d' % (i, q), 0, 10))
            h.assume(t[q] >= t[q - 1])
        times.append(t)
    since = [i % 3 + 1 if hist else 1 for i in range(n)] if late else None

    def go(idx):
        P.clear_walk_data()
        P.walk_data = previous(idx)
        P.Np_tracer = 0
        wd = None
        for it in range(1 if target else iters):
            old = _copy(P.walk_data)
            wd = P.run_iteration(target_time=target) if target else \
                P.run_iteration()
            appended(h, old, wd, allv, 'iteration %d' % it,
                     most=99 if target else 1)
            well_formed(h, P, R, wd, allv, 'iteration %d' % it,
                        [since[i] for i in idx] if since else None)
            for a, i in enumerate(idx):
                x, y = (int(old[k][a][-1]) for k in ('xinds', 'yinds'))
                inner = 0 < x < L - 1 and 0 < y < W - 1
                mv = inner and dirs[x][y] != 4
                if not target:
                    h.check(len(wd['xinds'][a]) ==
                            len(old['xinds'][a]) + (1 if mv else 0),
                            'exactly the routed particles move')
                    if mv:
                        da, db = NB[dirs[x][y]]
                        h.check(h.And(wd['xinds'][a][-1] == x + da,
                                      wd['yinds'][a][-1] == y + db),
                                'the new position is the selected cell')
        return _copy(wd)
    h.fix_draws(0.5)         # every cell has one option
    both = go(list(range(n)))
    for i in range(n):
        one = go([i])
        for k in one:
            h.check(len(one[k][0]) == len(both[k][i]),
                    'particles do not influence each other')
            h.check(h.all([h.same(a, b) for a, b in
                           zip(one[k][0], both[k][i])]),
                    'particles do not influence each other')
    h.observe('both', [both[k] for k in ('xinds', 'yinds', 'travel_times')])


def configs(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('free', free)
    add('free-roi-only', free, names=[], opts=(0, 8), L=4, W=4, cell=(2, 2))
    add('free-plain', free, names=[], roi=False, opts=(2, 3, 6))
    add('free-listed-roi', free, names=['v', 'roi_flag'], opts=(1, 7),
        cell=(1, 3))
    add('several', several)
    add('several-new', several, hist=False, names=['depth', 'u'], n=2,
        iters=3)
    add('several-late', several, late=True, names=['depth', 'qy'], n=2)
    add('several-target', several, target=4.03125, names=['stage', 'v'], n=2)
    add('several-target-late', several, target=6.03125, names=['qx'], n=2,
        late=True, cells=[(1, 1), (2, 1)])
    # round and round
    add('several-long', several, n=2, L=4, W=6, iters=14, names=['qy'],
        dirs=[[4] * 6, [4, 5, 7, 4, 7, 4], [4, 1, 3, 1, 3, 4], [4] * 6],
        spread=True, cells=[(1, 1), (2, 4), (2, 2)], hist=False)
    add('several-many', several, n=13, iters=1, names=['depth'], spread=True)
    add('several-many-target', several, n=11, target=7.03125, names=['u'],
        spread=True, hist=False, fixed=True)
    if tier == 'thorough':
        add('several-4', several, n=4, L=5, W=6, iters=2, names=['u'])
        add('several-target-3', several, target=7.0, n=3)
        add('several-right', several, dirs=RIGHT, L=5, W=6, iters=3, n=3)
        for o in ((0, 4), (1, 8), (2, 6), (3, 5), (7, 4)):
            add('free-%d%d' % o, free, opts=o, L=5, W=4, cell=(3, 1))
    return out
