"""Exposure time accounts for all travel time, half at crossings."""
import warnings
from . import lib

BOUNDS = ('0 to 4 particles with 1 to 7 records each on grids up to 3x4; '
          'any positions, any region of zeros and ones, any '
          'non-decreasing times in [0, 10^6] (and arbitrary times for the '
          'sum itself); up to 25 records and 12 particles on grids up to '
          '5x7 with mostly fixed records, in regions of up to four free cells')
ASSUMPTIONS = ['the region is a grid of zeros and ones']


def walks(h, lens, L, W, mono=True, tag='', free=None):
    """free: the (particle, record) pairs that are symbolic (None: all)"""
    wd = dict(xinds=[], yinds=[], travel_times=[])
    for i, n in enumerate(lens):
        if free is not None:
            def sel(m, f, c):
                return f(m) if (i, m) in free else c(m)
            wd['xinds'].append([sel(m, lambda m: h.int(
                '%sx%d_%d' % (tag, i, m), 0, L - 1),
                lambda m: (m // 3 + 2 * i) % L) for m in range(n)])
            wd['yinds'].append([sel(m, lambda m: h.int(
                '%sy%d_%d' % (tag, i, m), 0, W - 1),
                lambda m: (m - m // 4 + i) % W) for m in range(n)])
            t = [sel(m, lambda m: h.real('%st%d_%d' % (tag, i, m), 0, 1e6),
                     lambda m: 3.0 * m + 0.25 * (m % 3) + i)
                 for m in range(n)]
            for m in range(n - 1):
                h.assume(t[m] <= t[m + 1])
            wd['travel_times'].append(t)
            continue
        wd['xinds'].append([h.int('%sx%d_%d' % (tag, i, m), 0, L - 1)
                            for m in range(n)])
        wd['yinds'].append([h.int('%sy%d_%d' % (tag, i, m), 0, W - 1)
                            for m in range(n)])
        t = [h.real('%st%d_%d' % (tag, i, m), 0, 1e6) for m in range(n)]
        if mono:
            for m in range(n - 1):
                h.assume(t[m] <= t[m + 1])
        wd['travel_times'].append(t)
    return wd


def look(h, g, x, y):
    """g[x][y] without forking"""
    if not h.symbolic:
        return g[int(x)][int(y)]
    r = g[0][0]
    for i in range(len(g)):
        for j in range(len(g[0])):
            if (i, j) != (0, 0):
                r = h.ite(h.And(x == i, y == j), g[i][j], r)
    return r


def clone(wd):
    return {k: [list(q) for q in v] for k, v in wd.items()}


def run(h, lens=(3,), L=2, W=3, mono=True, dt='i', comp=True, extra=False,
        free=None, cells=((0, 1), (2, 3)), rest=None):
    pt = h.load('particle_track')
    wd = walks(h, lens, L, W, mono, free=free)
    if free is None:
        R = lib.igrid(h, 'r', L, W, 0, 1)
    else:
        R = [[h.int('r%d_%d' % (a, b), 0, 1) if (a, b) in cells
              else (a * 3 + b * b) // 2 % 2 if rest is None else rest
              for b in range(W)]
             for a in range(L)]
    if extra:
        wd['roi_flag'] = [[0] * n for n in lens]
        wd['depth'] = [[1.5] * n for n in lens]
    keep = clone(wd)
    reg = lib.arr(h, R, dt)
    e = pt.exposure_time(wd, reg)
    h.check(len(e) == len(lens), 'one value per particle')
    f = None
    if comp:
        C = [[1 - q for q in r] for r in R]
        f = pt.exposure_time(clone(keep), lib.arr(h, C, dt))
    for i, n in enumerate(lens):
        t = keep['travel_times'][i]
        ins = [look(h, R, keep['xinds'][i][m], keep['yinds'][i][m]) == 1
               for m in range(n)]
        ref = 0.0
        for m in range(1, n):
            d = t[m] - t[m - 1]
            ref = ref + h.ite(h.And(ins[m], ins[m - 1]), d,
                              h.ite(h.Or(ins[m], ins[m - 1]), 0.5 * d, 0.0))
        tot = t[-1] - t[0]
        tol = 1e-7 * (1 + h.max(*[h.abs(q) for q in t]))
        h.check(h.abs(e[i] - ref) <= tol,
                'sum of the step times, half at crossings')
        if mono:
            h.check(h.And(e[i] >= 0, e[i] <= tot + tol),
                    'between zero and the total travel time')
        if comp:
            h.check(h.abs(e[i] + f[i] - tot) <= tol,
                    'a region and its complement share all travel time')
        h.observe('e%d' % i, e[i])
    for k in keep:
        h.check(h.all([a == b for p, q in zip(wd[k], keep[k])
                       for a, b in zip(p, q)]) and
                [len(q) for q in wd[k]] == list(lens),
                'the walk data is unchanged')
    h.check(h.all([a == b for a, b in zip(h.items(reg), lib.flat(R))]),
            'the region is unchanged')


def alone(h, lens=(3, 2), L=2, W=2):
    """a particle's exposure does not depend on the others"""
    pt = h.load('particle_track')
    wd = walks(h, lens, L, W)
    R = lib.igrid(h, 'r', L, W, 0, 1)
    e = pt.exposure_time(wd, lib.arr(h, R, 'i'))
    for i in range(len(lens)):
        one = {k: [list(wd[k][i])] for k in wd}
        g = pt.exposure_time(one, lib.arr(h, R, 'i'))
        h.check(len(g) == 1, 'one value per particle')
        h.check(h.close(g[0], e[i], scale=1 + h.abs(e[i])),
                'particles do not influence each other')


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    add('one-1', lens=(1,))
    add('one-2', lens=(2,))
    add('one-3', lens=(3,))
    add('one-4', lens=(4,))
    add('one-5', lens=(5,), L=2, W=2)
    add('any-times', lens=(4,), mono=False)
    add('wide', lens=(3,), L=3, W=4)
    add('float-region', lens=(3,), dt='f', extra=True)
    add('two', lens=(3, 2))
    add('three', lens=(1, 2, 3), comp=False)
    add('none', lens=())
    add('alone', alone)
    add('long', lens=(25, 4), L=5, W=7, free=((0, 7), (1, 3)))
    add('many', lens=(2, 3) * 6, L=5, W=4, free=((10, 1), (11, 2)))
    add('long-away', lens=(25,), L=5, W=7, free=(), rest=0,
        cells=((0, 2), (1, 4), (3, 1), (3, 0)))
    add('long-inside', lens=(3, 21), L=5, W=7, free=((1, 4),), rest=1,
        cells=((1, 3), (1, 4), (4, 5)))
    if tier == 'thorough':
        add('one-6', lens=(6,), L=2, W=2)
        add('one-7', lens=(7,), L=2, W=2, comp=False)
        add('four', lens=(3, 1, 2, 3), comp=False)
        add('tall', lens=(4,), L=4, W=2)
        add('alone-3', alone, lens=(2, 3, 2))
    return out
