"""Routing probabilities follow the documented gamma/theta formula."""
import math
from . import lib
from .lib import NB, DIST

BOUNDS = ('one routed cell at every interior position of grids up to '
          '3x4/4x4 (non-square included); fully symbolic fields (depth in '
          '[0,60], stage and discharge in [-500,500]), gamma in [0,1], theta '
          'in {0,1/2,1,2,3} (and 1/8 to 20 for fixed depths), dry depth in '
          '[0,1], cell types in '
          '{-1,0,1,2}; single cells of 9x14 and 13x8 grids with one '
          'symbolic field')
ASSUMPTIONS = ['theta is one of the listed exponents']


def formula(h, L=3, W=3, theta=1.0, gamma=None, model='DeltaRCM', cell=(1, 1),
            sym='dsq', ct=True, dry=None, exact=True):
    pt = h.load('particle_track')
    i, j = cell
    if isinstance(theta, tuple):
        theta = h.pick('theta', list(theta))
    near = set((i + a, j + b) for a, b in NB)

    def field(name, on, lo, hi, base):
        g = [[base[(r * 3 + c * 5) % len(base)] for c in range(W)]
             for r in range(L)]
        for r in range(L):
            for c in range(W):
                if (r, c) in near and (on or exact):
                    # a fixed value is a pinned symbol, so that the code's
                    # and the formula's arithmetic stay exact
                    v = g[r][c]
                    g[r][c] = h.real('%s%d_%d' % (name, r, c), lo, hi) \
                        if on else h.real('%s%d_%d' % (name, r, c), v, v)
        return g
    depth = field('d', 'd' in sym, 0, 60, [1.5, 2.0, 0.75, 3.0, 1.25])
    stage = field('s', 's' in sym, -500, 500, [1.0, 0.5, 2.0, 1.75, 0.25, 1.5])
    qx = field('qx', 'q' in sym, -500, 500, [1.0, -0.5, 2.0, 0.75])
    qy = field('qy', 'q' in sym, -500, 500, [0.5, 1.0, -2.0, -0.75, 1.5])
    g = h.real('gamma', 0, 1) if gamma is None else gamma
    dryv = h.real('dry', 0, 1) if dry is None else dry
    cts = None
    if ct:
        cts = lib.edge_ct(L, W)
        for r, c in near:
            cts[r][c] = h.int('ct%d_%d' % (r, c), -1, 2)
    p = lib.params(h, pt, depth, stage, qx, qy, ct=cts, model=model,
                   gamma=g, theta=theta, dry_depth=dryv)
    P = pt.Particles(p)
    w = P.weight
    S, I, D, bad = [], [], [], []
    so = stage[i][j]
    h.assume(depth[i][j] > 0)
    for k, (a, b) in enumerate(NB):
        r, c = i + a, j + b
        d = depth[r][c]
        if ct:
            land = h.Or(d <= dryv, cts[r][c] == 2)
        else:
            inner = 0 < r < L - 1 and 0 < c < W - 1
            land = h.Or(d <= dryv, h.And(inner, d < dryv))
        u = math.sqrt(0.5) if a and b else 1.0      # unit step vector
        if model == 'DeltaRCM':
            pr = qx[i][j] * (a * u) + qy[i][j] * (b * u)
        else:
            pr = (-1 * qy[i][j]) * (a * u) + qx[i][j] * (b * u)
        drop = so - stage[r][c]
        S.append(h.ite(land, 0.0, h.max(0.0, drop) / DIST[k]))
        I.append(h.ite(land, 0.0, h.max(0.0, pr) / DIST[k]))
        D.append(d)
        bad.append(land)
    nS, nI = sum(S), sum(I)
    hasS, hasI = nS > 0, nI > 0
    down = h.Or(h.And(hasS, g > 0), h.And(hasI, g < 1))
    h.assume(down)
    for k in range(9):
        f = g * h.ite(hasS, S[k] / h.ite(hasS, nS, 1.0), 0.0) + \
            (1 - g) * h.ite(hasI, I[k] / h.ite(hasI, nI, 1.0), 0.0)
        x = h.pow(D[k], theta) if theta != 0 else 1.0
        ref = h.ite(bad[k], 0.0, x * f)
        h.check(h.close(lib.zn(h, w[i, j, k]), ref),
                'weight of option %d follows the formula' % k)
    h.observe('w', [w[i, j, k] for k in range(9)])


def configs(tier):
    out = []

    def add(name, **kw):
        out.append(dict(name=name, fn=formula, kw=kw))
    add('full')
    add('full-3x4', L=3, W=4, cell=(1, 2))
    add('full-4x3-xy', L=4, W=3, cell=(2, 1), model=None)
    add('full-theta0', theta=0.0, ct=False)
    add('slope-only-4x4', gamma=1.0, sym='s', dry=0.1, L=4, W=4, cell=(2, 1))
    add('slope-only-theta2', gamma=1.0, sym='s', theta=2.0, ct=False, dry=0.1)
    add('inertia-only-3x5', gamma=0.0, sym='q', dry=0.1, L=3, W=5,
        cell=(1, 3))
    add('inertia-only-xy', gamma=0.0, sym='q', dry=0.1, model=None)
    add('depth-theta1', gamma=0.25, sym='d')
    add('depth-theta.5', gamma=0.75, sym='d', theta=0.5)
    add('depth-theta3', gamma=0.5, sym='d', theta=3.0, L=4, W=3, cell=(2, 1))
    add('blend', sym='', dry=0.1)
    add('large', L=9, W=14, cell=(6, 10), sym='s', gamma=0.25, dry=0.1)
    add('large-xy', L=13, W=8, cell=(9, 3), sym='q', gamma=0.75, dry=0.1,
        model=None)
    for n, t in enumerate(((0.125, 1.5, 2.5), (4.0, 5.0, 7.5), (10.0, 20.0))):
        add('theta-range-%d' % n, theta=t, sym='s', gamma=0.5, dry=0.1,
            exact=False, ct=n == 1)
        add('theta-flow-%d' % n, theta=t, sym='q', gamma=0.25, dry=0.1,
            exact=False, ct=False, L=3, W=4, model=None)
    if tier == 'thorough':
        add('full-theta2', theta=2.0)
        add('full-theta.5', theta=0.5, model=None)
        add('full-theta3', theta=3.0, ct=False)
        for L, W, i, j in ((4, 4, 1, 1), (4, 4, 1, 2), (4, 4, 2, 1),
                           (4, 4, 2, 2), (5, 3, 3, 1), (3, 5, 1, 1)):
            add('full-%dx%d-%d%d' % (L, W, i, j), L=L, W=W, cell=(i, j),
                model='DeltaRCM' if (i + j) % 2 else None)
    return out
