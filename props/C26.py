"""Heat maps and percentile maps are drawn to scale."""
import types
from . import lib
from .C18 import data, unchanged
from .env import Env

BOUNDS = ('heat maps of 1x3 up to 3x3 and 4x7 cells with up to four free '
          'values (any of which may be undefined), any least opacity, with '
          'and without a background, seed, colour bar and open figure; '
          'percentile maps of up to 2x3 windows over grids of up to 9x7 '
          'with free values, any upper limit, 2 to 7 levels; values positive')
ASSUMPTIONS = ['the drawing calls are recorded, not executed; matplotlib\'s '
               'linear scale is modelled (the replay uses the real one)',
               'a colour scale given by the caller stands for any']


class Norm(object):
    """matplotlib.colors.Normalize for symbolic arrays"""
    h = None

    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax, self.clip = vmin, vmax, clip

    def __call__(self, v, clip=None):
        np = self.h.np
        v = np.asarray(v)
        lo = v.min() if self.vmin is None else self.vmin
        hi = v.max() if self.vmax is None else self.vmax
        self.vmin, self.vmax = lo, hi
        if bool(lo == hi):
            return np.zeros(v.shape)
        if bool(lo > hi):
            raise ValueError("minvalue must be less than or equal to "
                             "maxvalue")
        if self.clip if clip is None else clip:
            v = np.clip(v, lo, hi)
        return (v - lo) / (hi - lo)


class Map(object):
    """a colour scale that keeps its argument in the first channel"""
    name = 'given'
    N = 256

    def __init__(self, h):
        self.h = h

    def __call__(self, x, *a, **k):
        v = self.h.items(x)
        o = []
        for q in v:
            o += [q, 0.25, 0.5, 1.0]
        return self.h.mkarray(o, tuple(x.shape) + (4,), 'f')


class Maps(dict):
    def __missing__(self, k):
        return self.cm


def setup(h, env, figs):
    cm = Map(h)
    if h.symbolic:
        N = type('Normalize', (Norm,), {'h': h})
        B = None
    else:
        from matplotlib.colors import Normalize as N
    mp = env.w.stubs['matplotlib']

    def bn(rec, boundaries, *a, **k):
        r = types.SimpleNamespace(boundaries=boundaries, a=a, k=k)
        return r
    mp._ret['BoundaryNorm'] = bn
    mp.colors.Normalize = N
    ms = Maps()
    ms.cm = cm
    mp.colormaps = ms
    env.w.plt.Normalize = N
    env.w.plt._ret['get_fignums'] = lambda rec: list(range(figs))
    return cm


def heat(h, which='area', R=1, K=3, free=None, base=None, nan=True,
         bg=False, seed=True, walk=True, figs=0, sigma=None, low=None,
         bar=True, named=False):
    with Env(h) as env:
        cm = setup(h, env, figs)
        rt = h.load('routines')
        base = base or [0.9, 0.2, 1.0, 0.4, 0.6, 0.3, 0.7]
        d = [[float(base[(i * K + j) % len(base)]) for j in range(K)]
             for i in range(R)]
        for (i, j) in (free or [(i, j) for i in range(R)
                                for j in range(K)]):
            d[i][j] = h.real('m%d_%d' % (i, j), 1e-6,
                             1 if which == 'area' else 1000, nan=nan)
        v = lib.flat(d)
        there = [h.Not(h.isnan(x)) for x in v]
        h.assume(h.any(there))
        M = lib.arr(h, d)
        kw = dict(cmap=cm)
        if named:
            kw['cmap'] = 'viridis'
        G = None
        if bg:
            G = [float((3 * k) % 5) for k in range(R * K)]
            kw['grid'] = h.mkarray(G, (R, K), 'f')
        wd = None
        if walk:
            wd = data(h, (2, 3), ())
            keep = {k: [list(q) for q in x] for k, x in wd.items()}
            kw['walk_data'] = wd
        if not seed:
            kw['show_seed'] = False
        ma = {'area': 0, 'time': 0.3}[which]
        if low is not None:
            ma = h.real('low', 0, 1) if low == 's' else low
            kw['min_alpha'] = ma
        if which == 'area' and sigma is not None:
            kw['sigma'] = sigma
        if which == 'time':
            kw['show_colorbar'] = bar
        (rt.show_nourishment_area if which == 'area' else
         rt.show_nourishment_time)(M, **kw)
        pics = env.calls('imshow')
        h.check(len(pics) == (2 if bg else 1), 'the pictures')
        if len(pics) != (2 if bg else 1):
            return
        if bg:
            b = pics[0][2][0]
            h.check(tuple(b.shape) == (R, K) and
                    h.all([x == y for x, y in zip(h.items(b), G)]),
                    'the background is the grid')
            h.check(h.all([x == y for x, y in zip(h.items(kw['grid']), G)]),
                    'the grid is unchanged')
        p = pics[-1][2][0]
        k = pics[-1][3]
        if len(p.shape) == 3:
            h.check(tuple(p.shape) == (R, K, 4), 'picture as large as the '
                    'map')
            if tuple(p.shape) != (R, K, 4):
                return
            f = h.items(p)
            col, al = f[0::4], f[3::4]
        else:
            h.check(tuple(p.shape) == (R, K) and 'norm' in k, 'picture as '
                    'large as the map')
            if tuple(p.shape) != (R, K) or 'norm' not in k:
                return
            col = h.items(k['norm'](p))
            al = h.items(k['alpha']) if 'alpha' in k else [1.0] * len(v)
        defd = [bool(t) for t in there]
        w = [x for x, t in zip(v, defd) if t]
        lo = h.min(*w)
        hi = 1.0 if which == 'area' else h.max(*w)
        for x, c, a, t in zip(v, col, al, defd):
            if not t:
                h.check(h.Or(h.isnan(c), h.isnan(a), a == 0),
                        'undefined cells stay blank')
                continue
            h.check(h.And(h.Not(h.isnan(c)), h.Not(h.isnan(a))),
                    'defined cells are shown')
            h.check(h.ite(lo == hi, h.close(c, 0.0, 1e-9),
                          h.close(c * (hi - lo), x - lo, 1e-9,
                                  scale=1000)),
                    'colours run linearly over the values')
            h.check(h.And(a >= ma - 1e-9, a <= 1 + 1e-9), 'opacity range')
            h.check(h.implies(x == h.max(*w), h.close(a, 1.0, 1e-9)),
                    'the largest value is opaque')
        on = [(x, a) for x, a, t in zip(v, al, defd) if t]
        h.check(h.all([h.implies(x < y, a <= b + 1e-9)
                       for x, a in on for y, b in on if x is not y]),
                'opacity grows with the value')
        s = env.calls('scatter')
        h.check(len(s) == (1 if walk and seed else 0), 'the seed marker')
        if walk and seed and len(s) == 1:
            a = s[0][2]
            h.check(h.And(a[0] == keep['yinds'][0][0],
                          a[1] == keep['xinds'][0][0]),
                    'the seed is the first location')
        if which == 'time':
            c = env.calls('colorbar')
            h.check(len(c) == (1 if bar else 0), 'the colour bar')
            sm = env.calls('ScalarMappable')
            if bar and len(c) == 1 and len(sm) == 1:
                n = sm[0][3].get('norm', sm[0][2][0] if sm[0][2] else None)
                h.check(h.And(n.vmin == lo, n.vmax == hi),
                        'the colour bar has the scale of the map')
                h.check(sm[0][3].get('cmap', cm) is cm, 'the colour bar '
                        'has the colours of the map')
        new = env.calls('subplots', 'figure')
        h.check((len(new) > 0) == (figs == 0), 'an open figure is used')
        h.check(h.all([h.same(a, b) for a, b in zip(h.items(M), v)]),
                'the map is unchanged')
        if walk:
            unchanged(h, wd, keep)


def maps(h, R=2, K=3, big=(7, 5), nlev=4, free=2, hi=None):
    with Env(h) as env:
        setup(h, env, 0)
        h.load('routines')
        sp = h.load('spatial')
        E = []
        for m in range(3):
            d = [[float((5 * m + 3 * i + 2 * j) % 11) for j in range(K)]
                 for i in range(R)]
            for q in range(free):
                d[(q + m) % R][(2 * q + m) % K] = h.real(
                    'm%d_%d' % (m, q), 0, 1000, nan=True)
            E.append(d)
        A = [lib.arr(h, d) for d in E]
        Z = [[h.real('z%d' % j, -5, 5) if i == 0 and j < 2 else
              float((i + 2 * j) % 7) for j in range(big[1])]
             for i in range(big[0])]
        top = h.real('top', 0.5, 1000) if hi is None else hi
        ZA = lib.arr(h, Z)
        sp.plot_spatial(A, ZA, top, nlev, Map(h), 'days')
        pics = env.calls('imshow')
        g = []
        for i, n, a, k in pics:
            if tuple(a[0].shape) == tuple(big) and 'norm' not in k:
                h.check(h.all([h.same(x, y) for x, y in
                               zip(h.items(a[0]), lib.flat(Z))]),
                        'the elevation beneath')
                kind = 'z'
            else:
                kind = 'e'
            e = [float(x) for x in k.get('extent', (0,) * 4)]
            up = k.get('origin', 'upper') == 'upper'
            h.check(e == [0.0, float(big[1]), float(big[0]), 0.0] and up,
                    'rows count downwards over the whole domain')
            g.append((kind, a[0], k, n))
        h.check([q[0] for q in g] == ['z', 'e'] * 3, 'each map over the '
                'elevation')
        if [q[0] for q in g] != ['z', 'e'] * 3:
            return
        lev = [top * q / (nlev - 1) for q in range(nlev)]
        for m in range(3):
            k, a, kw, n = g[2 * m + 1]
            h.check(tuple(a.shape) == (R, K) and
                    h.all([h.same(x, y) for x, y in
                           zip(h.items(a), lib.flat(E[m]))]),
                    'the maps in order')
            b = h.items(h.np.array(kw['norm'].boundaries))
            h.check(len(b) == nlev and
                    h.all([h.close(x, y, 1e-9, scale=1000)
                           for x, y in zip(b, lev)]),
                    'levels run evenly up to the limit')
        t = env.calls('text')
        lab = [[q for q in c[2] if isinstance(q, str)] for c in t]
        pos = [c[2][0] for c in t]
        h.check([l[0] for l in lab] == ['$E_{50}$', '$E_{75}$', '$E_{90}$']
                and pos == sorted(pos), 'labels in the order of the maps')
        tk = env.calls('set_ticks')
        h.check(len(tk) == 1 and
                h.all([h.close(x, y, 1e-9, scale=1000) for x, y in
                       zip(h.items(h.np.array(tk[0][2][0])), lev)]),
                'ticks at the levels')
        h.check(h.all([h.same(x, y) for a, d in zip(A, E)
                       for x, y in zip(h.items(a), lib.flat(d))]),
                'the maps are unchanged')
        h.check(h.all([h.same(x, y) for x, y in
                       zip(h.items(ZA), lib.flat(Z))]),
                'the elevation is unchanged')


def configs(tier):
    out = []

    def add(name, fn=heat, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    add('area')
    add('area-background', R=2, K=2, bg=True, figs=1, low='s',
        free=[(0, 1), (1, 0)])
    add('area-unsmoothed', R=2, K=3, sigma=0, free=[(0, 0), (1, 1)],
        seed=False)
    add('area-3x3', R=3, K=3, free=[(0, 0), (1, 2)], bg=True,
        sigma=0.125, walk=False)
    add('area-large', R=4, K=7, free=[(3, 5)], figs=2, named=True, bg=True)
    add('time', which='time')
    add('time-background', which='time', R=2, K=2, bg=True, figs=1,
        low='s', bar=False, free=[(0, 1), (1, 0)])
    add('time-noseed', which='time', R=2, K=3, seed=False,
        free=[(0, 0), (1, 1)], base=[10, 500, 3, 80, 8])
    add('time-large', which='time', R=4, K=6, free=[(0, 5)], low=0,
        base=[10, 500, 3], walk=False, named=True, bg=True)
    add('maps', fn=maps)
    add('maps-row', fn=maps, R=1, K=4, big=(3, 9), nlev=2)
    add('maps-fine', fn=maps, R=3, K=2, big=(9, 7), nlev=7, free=3)
    if tier == 'thorough':
        add('area-free', R=2, K=2)
        add('time-free', which='time', R=2, K=2, bg=True)
    return out
