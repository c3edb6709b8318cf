"""Nourishment area counts visits, normalised to one."""
from . import lib
from .C12 import walks, clone

BOUNDS = ('up to three particles with up to five visits in total (any '
          'cells), grids up to 3x3, clipping percentiles 50, 75, 90, 99.5 '
          'and 100, smoothing widths 0, 0.125, 0.7 and 2; up to 20 '
          'records and 12 particles on 3x4 and 4x3 grids with mostly '
          'fixed records')
ASSUMPTIONS = ['at least one cell has a positive clipped count (otherwise '
               'there is nothing to normalise by)',
               'the Gaussian filter is the one of scipy (its linear operator)']


def counts(h, wd, L, W, inner=False):
    c = []
    for i in range(L):
        for j in range(W):
            n = 0.0
            for xs, ys in zip(wd['xinds'], wd['yinds']):
                for x, y in zip(xs, ys):
                    n = n + h.ite(h.And(x == i, y == j), 1.0, 0.0)
            c.append(n)
    return c


def run(h, lens=(3,), L=2, W=2, sigma=0, clip=100, fixed=0, dt=float,
        reorder=False, free=None):
    pt = h.load('particle_track')
    wd = walks(h, lens, L, W, free=free)
    keep = clone(wd)
    n = counts(h, wd, L, W)
    v = h.quantile(n, clip / 100.0)
    top = h.max(*n)
    h.assume(v > 0)
    cl = [h.min(x, v) for x in n]
    kw = {}
    if sigma != 'default':
        kw['sigma'] = sigma
    else:
        sigma = 0.7
    if clip != 99.5:
        kw['clip'] = clip
    r = pt.nourishment_area(wd, (L, W), **kw)
    h.check(tuple(r.shape) == (L, W), 'shape of the raster')
    r = h.items(r)
    if sigma:
        f = h.items(h.gauss(h.mkarray(cl, (L, W), 'f'), sigma))
        lo, hi = h.min(*f), h.max(*f)
        h.assume(hi > lo + 1e-6)
        for x, g in zip(r, f):
            h.check(h.implies(g > lo + 1e-9, h.Not(h.isnan(x))),
                    'only the smallest smoothed value is undefined')
            h.check(h.Or(h.isnan(x), h.And(x >= -1e-9, x <= 1 + 1e-9)),
                    'values lie in [0, 1]')
            h.check(h.Or(h.isnan(x), h.close(x, g / hi)),
                    'smoothed clipped counts, normalised')
        h.check(h.any([h.And(h.Not(h.isnan(x)), h.close(x, 1.0))
                       for x in r]), 'the largest value is one')
    else:
        m = h.max(*cl)
        for x, c in zip(r, cl):
            h.check(h.iff(h.isnan(x), c == 0),
                    'undefined exactly where never visited')
            h.check(h.Or(h.isnan(x), h.And(x >= 0, x <= 1)),
                    'values lie in [0, 1]')
            h.check(h.Or(h.isnan(x), h.close(x, c / m)),
                    'clipped visit counts over the largest one')
        h.check(h.any([h.And(h.Not(h.isnan(x)), h.close(x, 1.0))
                       for x in r]), 'the largest value is one')
        h.observe('r', r)
    if reorder:
        w2 = {k: [list(reversed(q)) for q in reversed(q2)]
              for k, q2 in keep.items()}
        s = h.items(pt.nourishment_area(w2, (L, W), **kw))
        h.check(h.all([h.Or(h.And(h.isnan(a), h.isnan(b)),
                            h.abs(a - b) <= 1e-6) for a, b in zip(r, s)]),
                'order does not matter')
    for k in keep:
        h.check(h.all([a == b for p, q in zip(wd[k], keep[k])
                       for a, b in zip(p, q)]) and
                [len(q) for q in wd[k]] == list(lens),
                'the walk data is unchanged')


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    for c in (100, 99.5, 75, 50):
        add('plain-%s' % c, clip=c, lens=(3,), reorder=c == 75)
    add('two', lens=(2, 2), clip=90)
    add('wide', lens=(2, 1), L=2, W=3, clip=99.5)
    add('tall', lens=(3,), L=3, W=1, clip=75)
    add('smooth', sigma='default', lens=(2, 1), clip=99.5)
    add('smooth-wide', sigma=0.7, lens=(2,), L=2, W=3, clip=100)
    add('smooth-2', sigma=2, lens=(2,), L=3, W=2, clip=100)
    add('smooth-fine', sigma=0.125, lens=(3,), clip=90)
    add('smooth-clipped', sigma=0.5, lens=(4,), clip=75)
    add('smooth-half', sigma=1, lens=(3, 2), L=2, W=3, clip=50,
        free=((0, 1), (1, 0)))
    add('smooth-many', sigma=0.25, lens=(9,), L=3, W=2, clip=80,
        free=((0, 4),))
    add('four', lens=(4,), L=2, W=2, clip=90)
    add('long', lens=(20, 3), L=3, W=4, clip=90, free=((0, 6),))
    add('many', lens=(1, 2) * 6, L=4, W=3, clip=99.5, free=((11, 1),))
    if tier == 'thorough':
        add('five', lens=(3, 2), L=2, W=3, clip=90)
        add('smooth-square', sigma='default', lens=(3,), L=3, W=3, clip=100)
        add('square', lens=(4,), L=3, W=3, clip=99.5)
        add('six', lens=(6,), L=2, W=3, clip=90)
        add('seven', lens=(3, 3, 1), L=2, W=2, clip=75)
        add('big', lens=(5,), L=3, W=4, clip=90)
        add('smooth-six', sigma=0.7, lens=(3, 3), L=2, W=3, clip=90)
        add('smooth-big', sigma=1, lens=(4,), L=3, W=4, clip=99.5)
    return out
