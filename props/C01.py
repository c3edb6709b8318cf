"""Routing weights are valid at every cell of every domain."""
from . import lib
from .lib import NB

BOUNDS = ('grids up to 3x5/4x4 (quick) and 5x5/4x6 (thorough), every cell '
          'fully symbolic: depth in [0,60], stage and discharge in [-500,500], '
          'cell type in {-1,0,1,2}, gamma in [0,1], dry depth in [0,1], '
          'theta in {0,1/2,1,2,3}')
ASSUMPTIONS = ['theta is one of the listed exponents',
               'undefined stage arises where the depth is zero, or '
               '(configuration nan) anywhere']


def weights(h, L, W, theta=1.0, ct=True, nan=False, model='DeltaRCM',
            strict=False, gamma=None):
    pt = h.load('particle_track')
    depth = lib.grid(h, 'd', L, W, 0, 60)
    stage = lib.grid(h, 's', L, W, -500, 500, nan=nan)
    qx = lib.grid(h, 'qx', L, W, -500, 500)
    qy = lib.grid(h, 'qy', L, W, -500, 500)
    gamma = h.real('gamma', 0, 1) if gamma is None else gamma
    dry = h.real('dry', 0, 1)
    cts = lib.igrid(h, 'ct', L, W, -1, 2) if ct else None
    p = lib.params(h, pt, depth, stage, qx, qy, ct=cts, model=model,
                   gamma=gamma, theta=theta, dry_depth=dry)
    P = pt.Particles(p)
    w = P.weight
    h.check(tuple(w.shape) == (L, W, 9), 'one weight per cell and option')
    for i in range(L):
        for j in range(W):
            ws = [lib.zn(h, w[i, j, k]) for k in range(9)]
            if i in (0, L - 1) or j in (0, W - 1):
                h.check(h.And(*[x == 0 for x in ws]),
                        'no weight on the outermost row or column')
                continue
            h.check(h.And(*[x >= 0 for x in ws]), 'weights are non-negative')
            h.check(h.Or(*[x > 0 for x in ws]),
                    'an interior cell has an option')
            dk = [depth[i + a][j + b] for a, b in NB]
            land = [h.Or(d <= dry, (cts[i + a][j + b] == 2) if ct else
                         (h.And(d < dry, 0 < i + a, i + a < L - 1,
                                0 < j + b, j + b < W - 1)))
                    for d, (a, b) in zip(dk, NB)]
            top = h.max(*dk)
            # in a dead end exactly the deepest cells, equally
            dead = h.And(*[h.ite(d == top, x == 1, x == 0)
                           for d, x in zip(dk, ws)])
            for x, l in zip(ws, land):
                h.check(h.Or(h.Not(l), x == 0, dead),
                        'land or dry option weightless unless dead end')
            if strict:
                so = stage[i][j]
                undef = h.Or(h.isnan(so), depth[i][j] == 0)
                pos = []
                for k, (a, b) in enumerate(NB):
                    sk, d = stage[i + a][j + b], dk[k]
                    if model == 'DeltaRCM':
                        pr = qx[i][j] * a + qy[i][j] * b
                    else:
                        # rows point down, y up
                        pr = -qy[i][j] * a + qx[i][j] * b
                    if (a, b) == (0, 0):
                        pos.append(False)
                        continue
                    c = h.Or(h.And(gamma > 0, so > sk),
                             h.And(gamma < 1, pr > 0))
                    pos.append(h.And(h.Not(undef), h.Not(h.isnan(sk)),
                                     h.Not(land[k]), c))
                any_ = h.Or(*pos)
                h.check(h.Or(any_, dead),
                        'a dead end selects exactly the deepest cells')
                for k, x in enumerate(ws):
                    h.check(h.implies(pos[k], x > 0),
                            'every admissible downstream option is open')
                    for m in range(9):
                        if m != k and m != 4:
                            h.check(h.implies(
                                h.And(pos[m], h.Not(pos[k])), x == 0),
                                'only admissible downstream options are '
                                'open')
    h.observe('w', w)


def configs(tier):
    out = []

    def add(name, **kw):
        out.append(dict(name=name, fn=weights, kw=kw))
    add('3x3-strict', L=3, W=3, strict=True)
    add('3x4', L=3, W=4)
    add('4x3-theta2', L=4, W=3, theta=2.0)
    add('3x3-theta.5', L=3, W=3, theta=0.5, strict=True)
    add('3x3-theta0', L=3, W=3, theta=0.0, strict=True)
    add('3x3-xy', L=3, W=3, model=None, strict=True)
    add('3x3-defaultct', L=3, W=3, ct=False, strict=True)
    add('3x3-nan', L=3, W=3, nan=True, strict=True)
    add('3x3-gamma.25', L=3, W=3, gamma=0.25, strict=True)
    add('3x3-gamma0', L=3, W=3, gamma=0.0, strict=True, theta=0.0)
    add('3x3-gamma1', L=3, W=3, gamma=1.0, strict=True, theta=0.0)
    add('3x5', L=3, W=5)
    add('4x4', L=4, W=4)
    if tier == 'thorough':
        add('3x4-strict', L=3, W=4, strict=True)
        add('4x3-strict', L=4, W=3, strict=True, model=None)
        add('4x4-nan', L=4, W=4, nan=True)
        add('4x5-defaultct', L=4, W=5, ct=False)
        add('5x5', L=5, W=5)
        add('4x6', L=4, W=6, theta=0.5)
        add('3x3-theta3', L=3, W=3, theta=3.0, strict=True)
        add('5x4-xy', L=5, W=4, model=None, theta=2.0)
    return out
