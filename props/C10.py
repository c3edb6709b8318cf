"""Equivalent model inputs give the same hydrodynamic state."""
import warnings
from . import lib
from .lib import zn

BOUNDS = ('2x3 and 3x2 grids, every cell with its own symbolic or fixed '
          'value, and grids of 11x16, 14x9 and 9x12 with one or two '
          'symbolic cells; depth in [0, 20] or undefined, stage and bed elevation in '
          '[-20, 20] or undefined, flow components in [-10, 10] or '
          'undefined, all 256 combinations of given and omitted inputs')
ASSUMPTIONS = ['given depths are not negative',
               'flow components below 1e-8 count as 1e-8 (documented floor)']
FL = 1e-8


def field(h, name, L, W, sym, lo, hi, nan=True):
    out = []
    for i in range(L):
        out.append([])
        for j in range(W):
            if (i, j) in sym:
                out[-1].append(h.real('%s%d_%d' % (name, i, j), lo, hi,
                                      nan=nan))
            else:
                out[-1].append(lo + (hi - lo) * (
                    (3 * i + 5 * j + len(name)) % 7 + 0.5) / 8.0)
    return out


def cells(L, W):
    return [(i, j) for i in range(L) for j in range(W)]


def water(h, L=2, W=3, how='depth-stage', sym=None, nan=True):
    """depth, stage, topography"""
    pt = h.load('particle_track')
    sym = sym or cells(L, W)
    p = pt.modelParams()
    p.dx = 1.0
    D = field(h, 'd', L, W, sym, 0, 20, nan)
    S = field(h, 'st', L, W, sym, -20, 20, nan)
    T = field(h, 'to', L, W, sym, -20, 20, nan)
    if 'depth' in how:
        p.depth = lib.arr(h, D)
    if 'stage' in how:
        p.stage = lib.arr(h, S)
    if 'topo' in how:
        p.topography = lib.arr(h, T)
    p.u = lib.arr(h, lib.const(L, W, 0.5))
    p.v = lib.arr(h, lib.const(L, W, 0.25))
    P = pt.Particles(p)
    h.check(tuple(P.depth.shape) == (L, W) and
            tuple(P.stage.shape) == (L, W), 'shapes')
    for i, j in cells(L, W):
        if 'depth' in how:
            d = zn(h, D[i][j])
        else:
            x = S[i][j] - T[i][j]
            d = h.ite(h.isnan(x), 0.0, h.ite(x < 0, 0.0, x))
        h.check(P.depth[i, j] == d, 'depth')
        if 'stage' in how:
            s = S[i][j]
        else:
            s = T[i][j] + D[i][j]
        s = h.ite(d == 0, float('nan'), s)
        g = P.stage[i, j]
        h.check(h.iff(h.isnan(g), h.isnan(s)), 'stage is defined on water')
        h.check(h.Or(h.isnan(s), h.isnan(g), h.close(g, s, 1e-9)), 'stage')
        h.check(h.close(P.qx[i, j], -0.25 * d, 1e-9), 'discharge from depth')
        h.check(h.close(P.qy[i, j], 0.5 * d, 1e-9), 'discharge from depth')
        h.observe('d%d%d' % (i, j), P.depth[i, j])


def flow(h, L=2, W=3, kind='u', model='DeltaRCM', sym=((0, 0), (1, 2)),
         nan=True, dlo=0, both=False):
    pt = h.load('particle_track')
    p = pt.modelParams()
    p.dx = 1.0
    D = field(h, 'd', L, W, sym, dlo, 20, False)
    S = lib.const(L, W, 1.0)
    X = field(h, 'x', L, W, sym, -10, 10, nan)
    Y = field(h, 'yy', L, W, sym, -10, 10, nan)
    p.depth, p.stage = lib.arr(h, D), lib.arr(h, S)
    if kind == 'u':
        p.u, p.v = lib.arr(h, X), lib.arr(h, Y)
    else:
        p.qx, p.qy = lib.arr(h, X), lib.arr(h, Y)
    if model is not None:
        p.model = model
    P = pt.Particles(p)
    for i, j in cells(L, W):
        x, y, d = zn(h, X[i][j]), zn(h, Y[i][j]), D[i][j]
        a, b = (x, y) if model == 'DeltaRCM' else (-1 * y, x)
        gu, gv, gs = P.u[i, j], P.v[i, j], P.velocity[i, j]
        ga = P.velocity_angle[i, j]
        h.check(h.all([h.isfinite(q) for q in (gu, gv, gs, ga)]),
                'flow is defined everywhere')
        h.check(gs > 0, 'speed is positive everywhere')
        if kind == 'u':
            h.check(h.And(h.close(gu, a, 5e-8), h.close(gv, b, 5e-8)),
                    'velocity components')
            h.check(h.And(h.close(P.qx[i, j], a * d, 1e-6),
                          h.close(P.qy[i, j], b * d, 1e-6)),
                    'discharge is velocity times depth')
        else:
            h.check(h.And(P.qx[i, j] == a, P.qy[i, j] == b),
                    'discharge components')
            den = d ** 2 + 1e-8
            for g, q in ((gu, a), (gv, b)):
                h.check(h.close(g, q * d / den, 5e-8),
                        'velocity is discharge over depth')
                if dlo > 0:
                    h.check(h.abs(g * d - q) <= 1e-3 * h.abs(q) + 1e-6,
                            'velocity times depth is the discharge')
        # speed and direction of the (now verified) components
        sq = gu * gu + gv * gv
        h.check(h.abs(gs * gs - sq) <= 1e-9 * (1 + sq), 'speed')
        h.check(h.implies(gv > FL, h.cos(ga) > 0), 'flow direction')
        h.check(h.implies(gv < -FL, h.cos(ga) < 0), 'flow direction')
        ref = h.arctan2(-1.0 * gu, gv)
        h.check(h.And(h.close(h.cos(ga), h.cos(ref)),
                      h.close(h.sin(ga), h.sin(ref))), 'flow direction')
        h.observe('q%d%d' % (i, j), P.qx[i, j])


def given(h):
    """which inputs are required"""
    pt = h.load('particle_track')
    L, W = 2, 3
    names = ['dx', 'depth', 'stage', 'topography', 'qx', 'qy', 'u', 'v']
    has = {k: h.choose('has_' + k, 2) for k in names}
    model = h.pick('model', [None, 'DeltaRCM'])
    p = pt.modelParams()
    for q, k in enumerate(names):
        if has[k]:
            setattr(p, k, 2.0 if k == 'dx' else lib.arr(
                h, [[q + 0.5 * i + j for j in range(W)] for i in range(L)]))
    if model:
        p.model = model
    ok = (has['dx'] and
          (has['depth'] and (has['stage'] or has['topography']) or
           has['stage'] and has['topography']) and
          (has['qx'] and has['qy'] or has['u'] and has['v']))
    r = h.raises(ValueError, pt.Particles, p)
    h.check(r == (not ok), 'accepted exactly when the inputs suffice')


def options(h, L=4, W=5, steep=None):
    """defaults and given options"""
    pt = h.load('particle_track')
    p = pt.modelParams()
    p.dx = h.real('dx', 0, 100, lo_open=True)
    D = lib.const(L, W, 1.0)
    dry = h.real('dry', 0, 1) if h.choose('has_dry', 2) else None
    D[1][2] = h.real('d', 0, 2)
    D[0][3] = h.real('e', 0, 2)
    p.depth = lib.arr(h, D)
    p.stage = lib.arr(h, lib.const(L, W, 1.0))
    p.u = lib.arr(h, lib.const(L, W, 0.5))
    p.v = lib.arr(h, lib.const(L, W, 0.25))
    th = h.real('theta', 0, 3) if h.choose('has_theta', 2) else None
    ga = h.real('gamma', 0, 1) if h.choose('has_gamma', 2) else None
    df = h.real('diff', -2, 4) if h.choose('has_diff', 2) else None
    ct = None
    if h.choose('has_ct', 2):
        ct = [[(i + j) % 2 for j in range(W)] for i in range(L)]
        p.cell_type = lib.arr(h, ct, 'i')
    if dry is not None:
        p.dry_depth = dry
    if th is not None:
        p.theta = th
    if ga is not None:
        p.gamma = ga
    if df is not None:
        p.diff_coeff = df
    if steep is not None:
        p.steepest_descent = steep
    # the weights are the subject of C01 and C02
    h.load('lagrangian_walker').make_weight = lambda q: None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        P = pt.Particles(p)
    h.check(P.dx == p.dx, 'cell size')
    h.check(P.theta == (1.0 if th is None else th), 'theta')
    h.check(P.gamma == (0.05 if ga is None else ga), 'gamma')
    want = (0.0 if steep else 0.2) if df is None else h.max(df, 0)
    h.check(P.diff_coeff == want, 'dispersion coefficient')
    dd = 0.1 if dry is None else dry
    h.check(P.dry_depth == dd, 'dry depth')
    h.check(bool(P.steepest_descent) == bool(steep), 'steepest descent')
    for i in range(L):
        for j in range(W):
            g = P.cell_type[i, j]
            if ct is not None:
                h.check(g == ct[i][j], 'given cell types')
            elif i in (0, L - 1) or j in (0, W - 1):
                h.check(g == -1, 'default cell types')
            else:
                h.check(g == h.ite(D[i][j] < dd, 2, 0), 'default cell types')
    h.observe('ct', [P.cell_type[1, 2], P.cell_type[2, 3]])


def configs(tier):
    out = []

    def add(name, fn=water, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    for how in ('depth-stage', 'stage-topo', 'depth-topo',
                'depth-stage-topo'):
        add(how, how=how)
        add(how + '-3x2', how=how, L=3, W=2, sym=((0, 0), (2, 1)))
    for kind in 'uq':
        for model in ('DeltaRCM', None, 'Anuga'):
            add('flow-%s-%s' % (kind, model), flow, kind=kind, model=model)
            add('flow-%s-%s-3x2' % (kind, model), flow, kind=kind,
                model=model, L=3, W=2, sym=((2, 0),), dlo=0.1)
    add('large', how='depth-topo', L=11, W=16, sym=((9, 13), (4, 2)))
    add('large-stage', how='stage-topo', L=14, W=9, sym=((12, 7),))
    for kind in 'uq':
        for model in ('DeltaRCM', None):
            add('flow-large-%s-%s' % (kind, model), flow, kind=kind,
                model=model, L=9, W=12, sym=((7, 10),), dlo=0.1)
    add('given', given)
    for s in (None, False, True):
        add('options-%s' % s, options, steep=s)
    return out
