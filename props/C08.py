"""Target-time runs stop as near the target as the step allows."""
import re
import warnings
from . import lib
from .lib import NB

BOUNDS = ('0 to 3 particles (16 in one configuration) with up to two '
          'earlier records on corridors of up to 7 cells, along rows and '
          'columns (forced routes with fast, slow, zero-time, dead-end '
          'and edge cells); target in [-5, 60], start times in [0, 20], '
          'dispersion draws symbolic, iteration limit 1 to 6 and 24 and '
          'the default')
ASSUMPTIONS = ['the iteration limit is at least 1']


def corridor(h, pt, W, speeds, dirs, ct=None, diff=1.9, edge=True,
             names=None, tall=False):
    """3 x W grid; cell (1, j) routes to option dirs[j]; tall: its
    mirror image along the diagonal"""
    L = 3
    c = lib.const

    def m(g):
        return [list(r) for r in zip(*g)] if tall else g
    A, B = c(L, W, 0.0), c(L, W, 1.0)
    for j in range(W):
        B[1][j] = speeds[j]
    cts = c(L, W, 0)
    if edge:
        for r in range(L):
            cts[r][0 if edge == 'low' else W - 1] = -1
    p = pt.modelParams()
    p.dx = 2.0
    p.depth = lib.arr(h, m([[1.0 + 0.125 * j + r for j in range(W)]
                            for r in range(L)]))
    p.stage = lib.arr(h, m(c(L, W, 1.0)))
    p.cell_type = lib.arr(h, m(cts), 'i')
    if tall:
        A, B = m(B), m(A)
    p.u, p.v, p.model = lib.arr(h, A), lib.arr(h, B), 'DeltaRCM'
    p.diff_coeff = diff
    if names:
        p.particle_variables = names
    P = pt.Particles(p)
    for j in range(1, W - 1):
        for o in range(9):
            if tall:
                P.weight[j, 1, o % 3 * 3 + o // 3] = \
                    1.0 if o == dirs[j] else 0.0
            else:
                P.weight[1, j, o] = 1.0 if o == dirs[j] else 0.0
    return P, cts, dirs


def judge(h, ts, start, T, limit, where, edge_near, stuck):
    """ts: all times of a particle; start: records before the run"""
    n = len(ts) - start

    def go_on(m):
        est = h.max(0.1, ts[m] - ts[m - 1]) if m else 0.1
        return h.abs(ts[m] + est - T) <= h.abs(ts[m] - T)
    for m in range(start - 1, len(ts) - 1):
        h.check(go_on(m), 'a step is only taken while the expected next '
                'time is at least as near')
    for m in range(start - 1, len(ts) - 1):
        h.check(h.Not(edge_near[m - start + 1]), 'no step at an edge')
    h.check(n <= limit, 'the iteration limit holds')
    h.check(h.Or(n == limit, edge_near[-1], stuck[-1],
                 h.Not(go_on(len(ts) - 1))),
            'steps continue while the expected next time is at least as near')


def run(h, W=6, speeds=(1, 1, 2, 0.5, 1, 1, 1), dirs=(4, 5, 5, 5, 5, 4, 4),
        starts=((1, 1),), hist=(0,), limit=None, edge=True, diff=1.9,
        verbose=True, target=None, names=None, span=(-5, 60), t0=None,
        tall=False, back=0):
    pt = h.load('particle_track')
    h.fix_draws(0.5, kinds=('uniform',))      # routes are forced
    P, cts, dirs = corridor(h, pt, W, speeds, dirs, edge=edge, diff=diff,
                            names=names, tall=tall)
    n = len(starts)
    T = h.real('T', *span) if target is None else target
    wd = dict(xinds=[], yinds=[], travel_times=[])
    for i in range(n):
        t = [h.real('t%d_0' % i, 0, 20) if t0 is None else t0]
        for q in range(hist[i]):
            t.append(h.real('t%d_%d' % (i, q + 1), 0, 20))
            h.assume(t[-1] >= t[-2])
        x, y = starts[i]
        kx, ky = ('yinds', 'xinds') if tall else ('xinds', 'yinds')
        wd[kx].append([0] * hist[i] + [x])
        wd[ky].append([(y + back) % W] * hist[i] + [y])
        wd['travel_times'].append(t)
    if n:
        P.generate_particles(0, [], [], previous_walk_data=wd)
    else:
        P.generate_particles(0, [], [])
    lens = [k + 1 for k in hist]
    before = [list(t) for t in wd['travel_times']]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if limit is None:
            out = P.run_iteration(target_time=T)
        else:
            out = P.run_iteration(target_time=T, max_iter=limit)
    lim = limit if limit is not None else 10000
    for k in ('xinds', 'yinds', 'travel_times'):
        h.check(k in out and len(out[k]) == n, 'all particles are returned')
    over = []
    for i in range(n):
        ts = out['travel_times'][i]
        xs, ys = out[kx][i], out[ky][i]
        h.check(h.all([ts[q] == before[i][q] for q in range(lens[i])]),
                'earlier records are kept')
        near, stuck = [], []
        for m in range(lens[i] - 1, len(ts)):
            x, y = int(xs[m]), int(ys[m])
            near.append(any(cts[a][b] == -1
                            for a in range(max(0, x - 1), min(3, x + 2))
                            for b in range(max(0, y - 1), min(W, y + 2))))
            stuck.append(x != 1 or y in (0, W - 1) or dirs[y] == 4)
        judge(h, ts, lens[i], T, lim, None, near, stuck)
        if len(ts) - lens[i] == lim:
            over.append(i)
        h.cover('steps %d' % (len(ts) - lens[i]))
    said = []
    for w in rec:
        m = re.search(r'articles are: *\[([^\]]*)\]', str(w.message))
        if m and 'limit' in str(w.message):
            said += [int(q) for q in m.group(1).split(',') if q.strip()]
    h.check(said == over,
            'the warning names exactly the particles at the limit')
    h.observe('ys', out['yinds'])


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('one')
    add('one-history', hist=(1,))
    add('one-no-edge', edge=False, starts=((1, 2),), hist=(2,))
    add('limits', limit=2, hist=(1,))
    add('limit-1', limit=1)
    add('two', starts=((1, 1), (1, 3)), hist=(0, 1), limit=3)
    add('three-limit', starts=((1, 1), (1, 4), (1, 2)), hist=(0, 0, 0),
        limit=2, W=7, dirs=(4, 5, 5, 5, 5, 5, 4), diff=0.0)
    add('none', starts=(), hist=())
    add('zero-time', speeds=(1, -1, -1, 1, -0.5, 1, 1), hist=(1,))
    add('zero-time-first', speeds=(1, -1, 2, 1, 1, 1, 1),
        dirs=(4, 5, 3, 5, 5, 4, 4), limit=5, edge=False)
    add('dead-end', dirs=(4, 5, 5, 4, 5, 4, 4))
    add('at-edge', starts=((1, 4), (0, 0), (1, 3)), hist=(0, 1, 0), W=6)
    add('fine-steps', speeds=(20, 20, 20, 20, 20, 20, 20), hist=(1,))
    add('slow', speeds=(.1, .05, .2, .1, .1, .1, .1), limit=3)
    add('tracked', names=['depth'], hist=(0,), limit=4, speeds=(1,) * 7)
    # around two cells, over and over
    add('cycle', dirs=(4, 4, 5, 3, 4, 4, 4), starts=((1, 2),), diff=0.0,
        edge=False, span=(40, 44), t0=1.5)
    add('cycle-limit', dirs=(4, 4, 5, 3, 4, 4, 4), diff=0.0, edge=False,
        starts=((1, 2), (1, 3)), hist=(0, 0), span=(50, 60), t0=0.0,
        limit=24)
    add('many', starts=((1, 1), (1, 4), (1, 2), (1, 3)) * 4, hist=(0,) * 16,
        W=7, dirs=(4, 5, 5, 5, 5, 5, 4), diff=0.0, t0=0.25, limit=3)
    for tall in (True, False):
        for b in (1, 3, -2):
            add(('tall%+d' if tall else 'wide%+d') % b, tall=tall,
                hist=(1, 2, 1), back=b, limit=3, diff=0.0,
                starts=((1, 1), (1, 3), (1, 2)))
            add(('tall-low%+d' if tall else 'wide-low%+d') % b, tall=tall,
                hist=(1, 2, 1), back=b, limit=3, diff=0.0, edge='low', W=7,
                starts=((1, 5), (1, 3), (1, 4)), dirs=(4, 4, 3, 3, 3, 3, 4))
    if tier == 'thorough':
        add('long', W=9, speeds=(1, 1, 2, 0.5, 1, -1, 3, 1, 1),
            dirs=(4, 5, 5, 5, 5, 5, 5, 5, 4), hist=(1,))
        add('three', starts=((1, 1), (1, 3), (1, 2)), hist=(0, 1, 2),
            limit=4)
        for l in (3, 4, 5, 6):
            add('limit-%d' % l, limit=l, W=8, speeds=(1,) * 8,
                dirs=(4, 5, 5, 5, 5, 5, 5, 4), edge=False)
    return out
