"""Nourishment time averages the occupation time per visit."""
from . import lib
from .C12 import walks, clone

BOUNDS = ('up to three particles with up to seven records in total (any '
          'cells, any non-decreasing times in [0, 10^6]), grids up to '
          '3x2, clipping percentiles 50, 75, 99.5 and 100, smoothing '
          'widths 0, 0.125, 0.7 and 2; up to 18 records and 12 particles '
          'on 3x4 grids with mostly fixed records')
ASSUMPTIONS = ['the Gaussian filter is the one of scipy (its linear '
               'operator)']


def field(h, wd, L, W):
    """mean occupation time, zero where never (inside a history) visited"""
    num, cnt, mean = [], [], []
    for i in range(L):
        for j in range(W):
            n, s = 0.0, 0.0
            for xs, ys, ts in zip(wd['xinds'], wd['yinds'],
                                  wd['travel_times']):
                for m in range(1, len(xs) - 1):
                    at = h.And(xs[m] == i, ys[m] == j)
                    n = n + h.ite(at, 1.0, 0.0)
                    s = s + h.ite(at, 0.5 * ((ts[m] - ts[m - 1]) +
                                             (ts[m + 1] - ts[m])), 0.0)
            num.append(s)
            cnt.append(n)
            mean.append(h.ite(n > 0, s / h.ite(n > 0, n, 1.0), 0.0))
    return num, cnt, mean


def run(h, lens=(4,), L=2, W=2, sigma=0, clip=100, pos=None, free=None):
    pt = h.load('particle_track')
    wd = walks(h, lens, L, W, free=free)
    if pos is not None:
        # fixed route, symbolic times
        for i, r in enumerate(pos):
            wd['xinds'][i] = [q[0] for q in r]
            wd['yinds'][i] = [q[1] for q in r]
    keep = clone(wd)
    num, cnt, mean = field(h, wd, L, W)
    v = h.quantile(mean, clip / 100.0)
    cl = [h.min(x, v) for x in mean]
    kw = {}
    if sigma != 'default':
        kw['sigma'] = sigma
    else:
        sigma = 0.7
    if clip != 99.5:
        kw['clip'] = clip
    r = pt.nourishment_time(wd, (L, W), **kw)
    h.check(tuple(r.shape) == (L, W), 'shape of the raster')
    r = h.items(r)
    big = 1 + h.max(*[h.max(*t) for t in keep['travel_times'] if t] + [0.0])
    for x in r:
        h.check(h.Or(h.isnan(x), x >= -1e-9), 'values are not negative')
    if sigma:
        f = h.items(h.gauss(h.mkarray(cl, (L, W), 'f'), sigma))
        lo, hi = h.min(*f), h.max(*f)
        h.assume(hi > lo + 1e-6)
        for x, g in zip(r, f):
            h.check(h.implies(g > lo + 1e-9 * big, h.Not(h.isnan(x))),
                    'only the smallest smoothed value is undefined')
            h.check(h.Or(h.isnan(x), h.abs(x - g) <= 1e-7 * big),
                    'smoothed mean occupation time')
    else:
        for x, c, n, s in zip(r, cl, cnt, num):
            h.check(h.implies(h.Or(n == 0, s == 0), h.isnan(x)),
                    'undefined where never visited or without time')
            h.check(h.implies(c > 0, h.Not(h.isnan(x))),
                    'defined where visited for some time')
            h.check(h.Or(h.isnan(x), h.abs(x - c) <= 1e-7 * big),
                    'mean occupation time per visit, clipped')
        h.observe('nan', [h.isnan(x) for x in r])
    for k in keep:
        h.check(h.all([a == b for p, q in zip(wd[k], keep[k])
                       for a, b in zip(p, q)]) and
                [len(q) for q in wd[k]] == list(lens),
                'the walk data is unchanged')


R1 = [[(0, 0), (0, 1), (1, 1), (0, 1), (1, 2), (1, 1)]]
R2 = [[(1, 1), (0, 0), (0, 1), (0, 0), (1, 2)],
      [(0, 2), (0, 1), (1, 1), (0, 1)]]


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    for c in (100, 99.5, 75):
        add('plain-%s' % c, clip=c, lens=(4,))
    add('plain-50', clip=50, lens=(5,), L=1, W=3)
    add('short', lens=(1, 2, 3), clip=100)
    add('wide', lens=(4,), L=2, W=3, clip=100)
    add('two', lens=(4, 3), clip=100, L=2, W=2)
    add('route', lens=(6,), L=2, W=3, pos=R1, clip=100)
    add('route-90', lens=(6,), L=2, W=3, pos=R1, clip=90)
    add('route-two', lens=(5, 4), L=2, W=3, pos=R2, clip=99.5)
    add('smooth', sigma='default', lens=(3,), clip=99.5)
    add('smooth-route', sigma='default', lens=(6,), L=2, W=3, pos=R1,
        clip=99.5)
    add('smooth-2', sigma=2, lens=(3,), L=3, W=2, clip=100)
    add('smooth-fine', sigma=0.125, lens=(3,), L=2, W=3, clip=100)
    add('long', lens=(18, 3), L=3, W=4, clip=100, free=((0, 6),))
    add('many', lens=(3, 4) * 6, L=3, W=4, clip=99.5, free=((11, 1),))
    if tier == 'thorough':
        add('smooth-4', sigma='default', lens=(4,), clip=99.5)
        add('five', lens=(5,), L=2, W=2, clip=75)
        add('six', lens=(6,), L=2, W=2, clip=100)
        add('two-b', lens=(4, 4), clip=90, L=2, W=3)
        add('square', lens=(4,), L=3, W=3, clip=99.5)
    return out
