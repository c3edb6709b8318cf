"""A step stays in the domain and moves to an adjacent cell."""
from . import lib
from .lib import NB
from .C03 import share

BOUNDS = ('every start cell of 3x3, 3x5, 4x4 and 5x3 grids; arbitrary '
          'routing weights in [0, 1000] or undefined at the cell, '
          'arbitrary cell types in {-1,0,1,2} around it, every draw; '
          'cells of 13x17 and 16x12 grids; three or four particles at '
          'once with one free cell type each; one step, with and without '
          'a target time')
ASSUMPTIONS = ['cells on the outermost row or column carry no weight '
               '(decided by C01)']


def step(h, L=3, W=5, cells=None, target=False, undefined=False, cts=True,
         corner=True):
    pt = h.load('particle_track')
    c = lib.const
    i, j = h.pick('cell', cells or [(a, b) for a in range(L)
                                    for b in range(W)])
    ct = c(L, W, 0)
    near = [(i + a, j + b) for a, b in NB
            if 0 <= i + a < L and 0 <= j + b < W]
    far = [(a, b) for a in range(L) for b in range(W) if (a, b) not in near]
    for a, b in near:
        if cts:
            ct[a][b] = h.int('ct%d_%d' % (a, b), -1, 2)
    for a, b in far:
        ct[a][b] = -1           # edges elsewhere do not matter
    p = lib.params(h, pt, c(L, W, 2.0), c(L, W, 1.0), c(L, W, 1.0),
                   c(L, W, 0.5), ct=ct, diff_coeff=0.0)
    P = pt.Particles(p)
    w = [0.0] * 9
    if 0 < i < L - 1 and 0 < j < W - 1:
        w = [h.real('w%d' % q, 0, 1000, nan=undefined) for q in range(9)]
    W0 = P.weight
    for q in range(9):
        W0[i, j, q] = w[q]
    P.generate_particles(1, [i], [j], method='exact')
    n = len(h.c.draws if h.symbolic else h.draws)
    if target:
        wd = P.run_iteration(target_time=0.06, max_iter=1)
    else:
        wd = P.run_iteration()
    xs, ys = wd['xinds'][0], wd['yinds'][0]
    h.check(len(xs) <= 2 and len(xs) == len(ys), 'at most one step')
    h.check(h.And(xs[0] == i, ys[0] == j), 'the start is kept')
    x, y = int(xs[-1]), int(ys[-1])
    h.check(0 <= x < L and 0 <= y < W, 'inside the grid')
    at = (x - i, y - j)
    h.check(at in NB, 'the particle is at its cell or at an adjacent one')
    edge = h.any([ct[a][b] == -1 for a, b in near])
    moved = at != (0, 0)
    h.check(h.implies(edge, not moved), 'no move on or next to an edge cell')
    z = [lib.zn(h, q) for q in w]
    k = NB.index(at) if at in NB else 4
    if moved:
        h.cover('moved')
        h.check(z[k] > 0, 'the option has weight')
        share(h, z, k, 'step', n)
    else:
        h.cover('stayed')
        # it may only stay at an edge, without weight, or if staying is drawn
        dr = (h.c.draws if h.symbolic else h.draws)[n:]
        if dr:
            kind, low, high, v = dr[0]
            tot = sum(z)
            rng = high - low
            tol = (1e-6 if h.symbolic else 6e-7) * tot * rng
            b = sum(z[:4])
            ok = h.And((v - low) * tot >= b * rng - tol,
                       (v - low) * tot <= (b + z[4]) * rng + tol)
        else:
            ok = sum(z) <= 0
        h.check(h.Or(edge, ok), 'a selected move is carried out')
    h.observe('at', [x, y])


def field(h, L=3, W=4, cells=((1, 1),), free_qy=False):
    """a step on real routing weights"""
    pt = h.load('particle_track')
    c = lib.const
    i, j = h.pick('cell', list(cells))
    depth = [[1.0 + 0.25 * ((3 * a + b) % 4) for b in range(W)]
             for a in range(L)]
    stage = [[2.0 - 0.5 * a for b in range(W)] for a in range(L)]
    for a, b in ((i - 1, j), (i, j + 1), (i + 1, j - 1)):
        depth[a % L][b % W] = h.real('d%d_%d' % (a % L, b % W), 0, 3)
    qx, qy = c(L, W, 0.5), c(L, W, 0.25)
    qx[i][j] = h.real('qx', -2, 2)
    if free_qy:
        qy[i][j] = h.real('qy', -2, 2)
    p = lib.params(h, pt, depth, stage, qx, qy, ct=c(L, W, 0),
                   diff_coeff=0.0, gamma=0.5)
    P = pt.Particles(p)
    P.generate_particles(1, [i], [j], method='exact')
    wd = P.run_iteration()
    x, y = int(wd['xinds'][0][-1]), int(wd['yinds'][0][-1])
    h.check(0 <= x < L and 0 <= y < W, 'inside the grid')
    at = (x - i, y - j)
    h.check(at in NB, 'adjacent')
    if at in NB:
        k = NB.index(at)
        if at == (0, 0):
            h.check(not (0 < i < L - 1 and 0 < j < W - 1) or
                    P.weight[i, j, 4] > 0, 'stays only if staying has weight')
        else:
            h.check(P.weight[i, j, k] > 0, 'the option has weight')
    h.observe('at', [x, y])


def several(h, cells=((1, 1), (2, 3), (1, 3)), L=4, W=5, target=False):
    """particles of one run are each held at their own edge"""
    pt = h.load('particle_track')
    c = lib.const
    ct = c(L, W, 0)
    for n, (a, b) in enumerate(cells):
        # one cell near each particle may be an edge
        q = h.choose('at%d' % n, 2)
        di, dj = ((-1, 0), (0, 1), (1, -1))[(n + q) % 3]
        ct[a + di][b + dj] = h.int('ct%d' % n, -1, 0)
    h.fix_draws(0.4375)
    p = lib.params(h, pt, c(L, W, 2.0), c(L, W, 1.0), c(L, W, 1.0),
                   c(L, W, 0.5), ct=ct, diff_coeff=0.0)
    P = pt.Particles(p)
    P.generate_particles(len(cells), [a for a, b in cells],
                         [b for a, b in cells], method='exact')
    if target:
        wd = P.run_iteration(target_time=0.06, max_iter=1)
    else:
        wd = P.run_iteration()
    for n, (i, j) in enumerate(cells):
        x, y = wd['xinds'][n][-1], wd['yinds'][n][-1]
        edge = h.any([ct[i + a][j + b] == -1 for a, b in NB])
        moved = h.Not(h.And(x == i, y == j))
        h.check(h.implies(edge, h.Not(moved)),
                'no move on or next to an edge cell')
        h.check(h.implies(h.Not(edge), moved), 'the others move')
        h.check(h.And(h.abs(x - i) <= 1, h.abs(y - j) <= 1), 'adjacent')


def configs(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('any-3x3', step, L=3, W=3)
    add('inner-3x5', step, L=3, W=5, cells=[(1, 1), (1, 3)])
    add('border-3x5', step, L=3, W=5,
        cells=[(a, b) for a in range(3) for b in range(5)
               if a in (0, 2) or b in (0, 4)])
    add('inner-undefined-4x4', step, L=4, W=4, cells=[(2, 1)],
        undefined=True)
    add('target-3x5', step, L=3, W=5, cells=[(1, 2)], target=True)
    add('target-border-4x3', step, L=4, W=3, target=True,
        cells=[(a, b) for a in range(4) for b in range(3)
               if a in (0, 3) or b in (0, 2)])
    add('large', step, L=13, W=17, cells=[(11, 4), (2, 15)])
    add('large-border', step, L=16, W=12, cts=False,
        cells=[(15, 7), (9, 11), (15, 11), (0, 10)])
    add('several', several)
    add('several-target', several, target=True)
    add('several-reverse', several, cells=((1, 3), (2, 1), (1, 1), (1, 3)))
    add('field-3x4', field)
    add('field-border', field, L=3, W=3,
        cells=[(0, 0), (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1),
               (2, 2)])
    if tier == 'thorough':
        add('any-5x3', step, L=5, W=3)
        add('inner-4x4', step, L=4, W=4,
            cells=[(1, 1), (1, 2), (2, 1), (2, 2)])
        add('target-any-4x4', step, L=4, W=4, target=True)
        add('undefined-5x5', step, L=5, W=5, undefined=True,
            cells=[(1, 1), (2, 2), (3, 3), (1, 3)])
        add('field-3x4-qy', field, free_qy=True)
        add('field-4x4', field, L=4, W=4, cells=((1, 1), (2, 2), (1, 2)))
    return out
