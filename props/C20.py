"""Outlier filter and percentile maps are exact and ordered."""
import types
import numpy as np
from . import lib

BOUNDS = ('filter: maps up to 3x3 with windows 1 to 5 cells wide, up to '
          'five free values (any may be undefined), multiples 1 to 5; '
          'curves of up to six values; percentile maps of up to 2x3 '
          'windows with up to eight exposure times, of which up to three '
          'are free, and any density with its mass at up to four grid '
          'positions; maps of 5x7 and 8x4 with one free value; up to 40 '
          'fixed exposure times')
ASSUMPTIONS = ['a window reaches half its size, rounded down, to each '
               'side; multiples of at least one',
               'the kernel density estimate of scipy is replaced by an '
               'arbitrary non-negative density with four free masses']


def mad(h, R=1, K=3, win=3, thr=3, free=None, nan=True, base=None):
    sp = h.load('spatial')
    d = [[float((base or [2, 7, 1, 8, 2, 8, 1, 8, 2])[(i * K + j) % 9])
          for j in range(K)] for i in range(R)]
    for (i, j) in (free or [(i, j) for i in range(R) for j in range(K)]):
        d[i][j] = h.real('d%d_%d' % (i, j), -10, 10, nan=nan)
    D = lib.arr(h, d)
    out = sp.median_absolute_deviation_filter(D, win, thr)
    h.check(tuple(out.shape) == (R, K), 'shape')
    w2 = win // 2
    for i in range(R):
        for j in range(K):
            g = h.at(out, i, j)
            if bool(h.isnan(d[i][j])):
                h.check(h.isnan(g), 'undefined cells stay undefined')
                continue
            w = [d[a][b] for a in range(max(i - w2, 0), min(i + w2 + 1, R))
                 for b in range(max(j - w2, 0), min(j + w2 + 1, K))]
            w = [x for x in w if not bool(h.isnan(x))]
            m = h.quantile(w, 0.5)
            dev = [h.abs(x - m) for x in w]
            md = h.quantile(dev, 0.5)
            keep = [e <= thr * md for e in dev]
            n = sum(h.ite(k, 1, 0) for k in keep)
            s = sum(h.ite(k, x, 0.0) for k, x in zip(keep, w))
            h.check(h.Not(h.isnan(g)), 'defined cells stay defined')
            h.check(h.ite(md == 0, h.close(g, m, 1e-9, scale=11),
                          h.close(g * n, s, 1e-9, scale=100)),
                    'mean of the values near the median')
    h.check(h.all([h.same(a, b) for a, b in zip(h.items(D), lib.flat(d))]),
            'the map is unchanged')


def curve(h, n=4):
    sp = h.load('spatial')
    x, c = [], []
    for k in range(n):
        x.append(h.real('x%d' % k, 0, 1000))
        c.append(h.real('c%d' % k, 0, 1))
        if k:
            h.assume(h.And(x[k] > x[k - 1], c[k] >= c[k - 1]))
    p = h.real('p', 0, 1)
    g = sp.percentile_from_cdf(h.mkarray(c, (n,), 'f'),
                               h.mkarray(x, (n,), 'f'), p)
    h.check(h.implies(c[-1] < p, h.isnan(g)), 'never reached is undefined')
    for k in range(n):
        first = h.And(c[k] >= p, *([c[k - 1] < p] if k else []))
        h.check(h.implies(first, g == x[k]), 'first value reaching it')


class Kde(object):
    """some density: zero except at four positions of the grid"""
    pos = (0.0, 0.3, 0.62, 1.0)

    def __init__(self, h, log, dataset):
        self.h = h
        self.rec = dict(data=list(dataset), calls=[])
        log.append(self.rec)
        n = len(log)
        if not hasattr(h, 'masses'):
            h.masses = {}
        self.m = []
        for k in range(len(self.pos)):
            if (n, k) not in h.masses:
                h.masses[n, k] = h.real('m%d_%d' % (n, k), 0.01, 1, py=False)
            self.m.append(h.masses[n, k])

    def __call__(self, x):
        xs = self.h.items(x)
        f = [0.0] * len(xs)
        at = [int(round(p * (len(xs) - 1))) for p in self.pos]
        for k, m in zip(at, self.m):
            f[k] = m
        self.rec['calls'].append([(xs[k], f[k]) for k in sorted(set(at))])
        return self.h.mkarray(f, (len(f),), 'f')

    evaluate = pdf = __call__


def same_bag(h, a, b):
    if len(a) != len(b):
        return False
    return h.all([x == y for x, y in zip(h.sorted(a), h.sorted(b))])


def maps(h, rows=2, cols=2, f=1, data=(), unit='sym', kind='list'):
    """data: per window None (undefined) or a list of numbers, 'n' (nan) or
    's' (free)"""
    log = []
    st = types.ModuleType('scipy.stats')
    st.gaussian_kde = lambda dataset, *a, **k: Kde(h, log, dataset)
    sp = h.load('spatial', extra={'scipy.stats': st})
    exp, ref = [], []
    n = 0
    for w in data:
        if w is None:
            exp.append(float('nan'))
            ref.append(None)
            continue
        l = []
        for v in w:
            if v == 'n':
                l.append(float('nan'))
            elif v == 's':
                l.append(h.real('e%d' % n, 0, 100, py=False))
                n += 1
            else:
                l.append(float(v))
        exp.append(l)
        ref.append(list(l))
    E = h.mkarray([0.0] * (rows * cols), (rows, cols), 'f')
    td = h.real('td', 0.5, 100) if unit == 'sym' else unit
    out = sp.compute_thresholds(exp, E, td, f, window_size=1)
    h.check(len(out) == 3, 'three maps')
    shape = (rows // f, cols // f)
    for o in out:
        h.check(tuple(o.shape) == shape, 'one entry per window')
    vals = [h.items(o) for o in out]
    used = 0
    for k, l in enumerate(ref):
        g = [v[k] for v in vals]
        nz = []
        for x in (l or []):
            if not bool(h.isnan(x)) and bool(x != 0):
                nz.append(x)
        distinct = []
        for x in nz:
            if not any(bool(x == y) for y in distinct):
                distinct.append(x)
        if len(distinct) < 5:
            h.check(h.all([h.isnan(x) for x in g]),
                    'undefined below five distinct times')
            continue
        h.cover('defined')
        h.check(h.Not(h.any([h.isnan(x) for x in g])), 'defined otherwise')
        h.check(h.And(g[0] <= g[1], g[1] <= g[2]), 'maps are ordered')
        lo, hi = h.min(*nz), h.max(*nz)
        h.check(h.And(*[h.And(x * td >= lo - 1e-6, x * td <= hi + 1e-6)
                        for x in g]), 'within the range of the times')
        h.check(used < len(log), 'the density of the window is estimated')
        if used >= len(log):
            break
        rec = log[used]
        used += 1
        h.check(same_bag(h, rec['data'], nz),
                'estimated from the non-zero times')
        if len(rec['calls']) != 1:
            continue
        # where the mass is: cumulative share at each of its grid positions
        at = rec['calls'][0]
        tot = sum(m for _, m in at)
        for p, x in zip((0.5, 0.75, 0.9), g):
            c = 0.0
            for xx, m in at:
                before, c = c, c + m
                hit = h.And(before < (p - 1e-9) * tot,
                            c > (p + 1e-9) * tot)
                h.check(h.implies(hit, h.close(x * td, xx, 1e-9,
                                               scale=101)),
                        'grid value where the curve reaches the level')
    for l, m in zip(exp, ref):
        if m is not None:
            h.check(len(l) == len(m) and
                    h.all([h.same(a, b) for a, b in zip(l, m)]),
                    'the exposure times are unchanged')


def smooth(h, rows=2, cols=2, data=(), win=3, thr=3, default=False):
    """the maps are the outlier-filtered unsmoothed maps"""
    log = []
    st = types.ModuleType('scipy.stats')
    st.gaussian_kde = lambda dataset, *a, **k: Kde(h, log, dataset)
    sp = h.load('spatial', extra={'scipy.stats': st})
    E = h.mkarray([0.0] * (rows * cols), (rows, cols), 'f')

    def fresh():
        del log[:]
        return [float('nan') if w is None else [float(x) for x in w]
                for w in data]
    h.masses = {(n, k): 0.25 + (5 * n + 3 * k) % 4
                for n in range(1, len(data) + 1) for k in range(4)}
    h.masses[2, 1] = h.real('m', 0.01, 9, py=False)
    raw = sp.compute_thresholds(fresh(), E, 2.0, 1, window_size=1)
    if default:
        out = sp.compute_thresholds(fresh(), E, 2.0, 1)
        win, thr = 5, 3
    else:
        out = sp.compute_thresholds(fresh(), E, 2.0, 1, window_size=win,
                                    threshold=thr)
    h.check(len(out) == 3, 'three maps')
    for a, b in zip(raw, out):
        ref = sp.median_absolute_deviation_filter(a, win, thr)
        h.check(tuple(b.shape) == (rows, cols), 'one entry per window')
        for x, y in zip(h.items(b), h.items(ref)):
            h.check(h.same(x, y), 'maps are filtered')


def configs(tier):
    out = []

    def add(name, fn=mad, **kw):
        cov = ['defined'] if fn is maps else []
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True),
                        covers=kw.pop('covers', cov)))
    add('row3', R=1, K=3, win=3, thr=3)
    add('row3-tight', R=1, K=3, win=3, thr=1, nan=False)
    add('row4', R=1, K=4, win=3, thr=2, free=[(0, 1), (0, 2)])
    add('col4', R=4, K=1, win=3, thr=1.5, free=[(1, 0), (3, 0)])
    add('2x2', R=2, K=2, win=3, thr=1, free=[(0, 0), (0, 1), (1, 0)])
    add('3x3', R=3, K=3, win=3, thr=3, free=[(1, 1)])
    add('3x2-wide', R=3, K=2, win=5, thr=2, free=[(0, 0), (2, 1)])
    add('row5', R=1, K=5, win=5, thr=2, free=[(0, 0), (0, 3)])
    add('one', R=2, K=2, win=1, thr=3)
    add('row5-even', R=1, K=5, win=2, thr=2, free=[(0, 0), (0, 3)])
    add('col4-even', R=4, K=1, win=4, thr=2, free=[(1, 0), (3, 0)])
    add('large', R=5, K=7, win=3, thr=2, free=[(3, 5)], nan=False)
    add('large-seven', R=8, K=4, win=7, thr=1, free=[(7, 1)], nan=False)
    for w, t, n in ((3, 1, 'tight'), (2, 3, 'even'), (0, 0, 'default')):
        add('smooth-' + n, fn=smooth, win=w, thr=t, default=not w,
            data=[[1, 2, 3, 4, 5], None, [9, 8, 2, 5, 1], [3, 7, 1, 2, 4]])
    add('smooth-default-row', fn=smooth, cols=5, rows=4, default=True,
        data=[[(k * q) % 11 + c for q in range(1, 6)]
              for k, c in ((1 + (3 * i) % 7, (i * i * i) % 23 *
                            (1 + 7 * (i % 6 == 4))) for i in range(20))])
    add('curve', fn=curve, n=4)
    add('curve1', fn=curve, n=1)
    add('maps-22', fn=maps, rows=2, cols=2, f=1,
        data=[[1, 2, 3, 4, 5], None, [1, 2, 3, 0, 'n'], []])
    add('maps-dup', fn=maps, rows=2, cols=3, f=2, unit=3600.,
        data=[[4, 4, 9, 1, 's', 7, 0, 'n']])
    add('maps-five', fn=maps, rows=3, cols=3, f=3, unit=60.,
        data=[[5, 's', 1, 9, 3]])
    add('maps-many', fn=maps, rows=4, cols=4, f=2, unit=2.,
        data=[[6, 5, 0, 3, 2, 5], [10, 20, 30, 40, 's'], None,
              [1, 1, 1, 1, 1, 2]])
    add('maps-long', fn=maps, rows=1, cols=5, f=1, unit=60.,
        data=[[(7 * i) % 41 for i in range(40)], None, [3] * 12,
              [0] * 7 + [(5 * i) % 4 for i in range(24)], ['n'] * 9])
    if tier == 'thorough':
        add('row5-free', R=1, K=5, win=3, thr=2)
        add('3x3-more', R=3, K=3, win=3, thr=2,
            free=[(0, 0), (1, 1), (2, 0), (1, 2)])
        add('3x3-wide', R=3, K=3, win=5, thr=1, free=[(0, 0), (2, 2)])
        add('curve6', fn=curve, n=6)
        add('maps-free', fn=maps, rows=1, cols=2, f=1, unit='sym',
            data=[[2, 's', 's', 8, 6], [9, 7, 's', 3, 1, 'n']])
    return out
