"""Building and walking never corrupt the model inputs."""
import warnings
from . import lib
from .lib import zn

BOUNDS = ('2x3 grids with every value symbolic or undefined for '
          'construction, 4x4 and 4x5 grids for walks of up to three steps '
          'with every random draw; weighted and steepest-descent routing, '
          'one or two particles, with and without target time; models built '
          'before or after another one (mirrored, turned, other options, '
          'cell types, distances or one other cell)')
ASSUMPTIONS = ['undefined values of the given fields may be replaced by '
               'zero, as documented']
FIELDS = ['depth', 'stage', 'topography', 'qx', 'qy', 'u', 'v']
STATE = ['depth', 'stage', 'qx', 'qy', 'u', 'v', 'velocity',
         'velocity_angle', 'cell_type', 'distances', 'ivec',
         'jvec', 'iwalk', 'jwalk', 'angles']
SCALARS = ['dx', 'theta', 'gamma', 'diff_coeff', 'dry_depth',
           'steepest_descent']


def copies(h, o, names):
    r = {k: list(h.items(getattr(o, k))) for k in names
         if getattr(o, k, None) is not None}
    # routing choices: the weights (undefined counts as none), for steepest
    # descent the neighbours that carry the maximum
    w = [zn(h, x) for x in h.items(o.weight)]
    if o.steepest_descent:
        out = []
        for n in range(0, len(w), 9):
            z = w[n:n + 9]
            m = h.max(*z)
            out += [h.ite(h.And(z[k] >= m, m > 0), 1.0, 0.0)
                    for k in range(9) if k != 4]
        w = out
    else:
        out = []
        for n in range(0, len(w), 9):
            z = w[n:n + 9]
            t = sum(z)
            out += [h.ite(t > 0, x / h.ite(t > 0, t, 1.0), 0.0) for x in z]
        w = out
    r['weight'] = w
    return r


def alike(h, a, b, what):
    h.check(sorted(a) == sorted(b), what)
    for k in a:
        h.check(len(a[k]) == len(b.get(k, ())), what)
        eq = h.same if k != 'weight' else h.close
        h.check(h.all([eq(x, y) for x, y in zip(a[k], b.get(k, ()))]),
                '%s: %s' % (what, k))


def build(h, how=('depth', 'stage', 'qx', 'qy'), model='DeltaRCM', L=2, W=3,
          roi=False, ct=False, steep=None, names=None, diff=None):
    pt = h.load('particle_track')
    p = pt.modelParams()
    p.dx = 2.0
    vals = {}
    for k in how:
        lo = 0 if k == 'depth' else -9
        vals[k] = lib.flat(lib.grid(h, k, L, W, lo, 9, nan=True))
        setattr(p, k, h.mkarray(vals[k], (L, W), 'f'))
    if model:
        p.model = model
    if ct:
        vals['cell_type'] = lib.flat(lib.igrid(h, 'ct', L, W, -1, 2))
        p.cell_type = h.mkarray(vals['cell_type'], (L, W), 'i')
    if roi:
        vals['roi_grid'] = lib.flat(lib.igrid(h, 'roi', L, W, 0, 1))
        p.roi_grid = h.mkarray(vals['roi_grid'], (L, W), 'i')
    if names is not None:
        p.particle_variables = list(names)
    if steep is not None:
        p.steepest_descent = steep
    if diff is not None:
        p.diff_coeff = diff

    def intact(when):
        for k in vals:
            g = h.items(getattr(p, k))
            h.check(len(g) == L * W, 'inputs keep their size')
            for x, y in zip(vals[k], g):
                h.check(h.Or(h.isnan(x), y == x),
                        'given values are unchanged by %s: %s' % (when, k))
        for k in FIELDS:
            if k not in how:
                h.check(getattr(p, k, None) is None,
                        'omitted inputs stay omitted')
        if names is not None:
            h.check(list(p.particle_variables) == list(names),
                    'the list of tracked variables is unchanged')
        h.check(p.dx == 2.0, 'cell size is unchanged')
    P = pt.Particles(p)
    intact('construction')
    one = copies(h, P, STATE)
    vone = (list(P.particle_variables), list(P.tracked_variables))
    s1 = [getattr(P, k) for k in SCALARS]
    P.generate_particles(2, [1, 0], [1, 2], method='exact')
    P.run_iteration()
    P.run_iteration(target_time=5.0)
    intact('walking')
    alike(h, one, copies(h, P, STATE), 'the model is unchanged by walking')
    Q = pt.Particles(p)
    intact('a second construction')
    alike(h, one, copies(h, Q, STATE), 'same parameters, same model')
    h.check(vone == (list(Q.particle_variables), list(Q.tracked_variables)),
            'same parameters, same tracked variables')
    s2 = [getattr(Q, k) for k in SCALARS]
    h.check(h.all([x == y for x, y in zip(s1, s2)]),
            'same parameters, same settings')
    alike(h, one, copies(h, P, STATE), 'earlier objects are unaffected')


def field(L, W, seed=0):
    D = [[1.0 + 0.25 * ((3 * i + 5 * j + seed) % 4) for j in range(W)]
         for i in range(L)]
    S = [[5.0 - 0.5 * i - 0.125 * ((i + j + seed) % 3) for j in range(W)]
         for i in range(L)]
    Q = [[0.25 * ((i + seed) % 3) for j in range(W)] for i in range(L)]
    R = [[0.5 - 0.25 * ((j + seed) % 3) for j in range(W)] for i in range(L)]
    return D, S, Q, R


def mk(h, pt, L, W, seed, steep, **kw):
    D, S, Q, R = field(L, W, seed)
    ct = lib.edge_ct(L, W)
    p = lib.params(h, pt, D, S, Q, R, ct=ct, dry_depth=0.01, **kw)
    p.steepest_descent = steep
    return p, (D, S, Q, R, ct)


def walk(h, L=5, W=6, steep=False, steps=2, start=(2, 2), other=True,
         target=None, names=None, seed=0):
    """the same draws give the same history whatever else happened"""
    pt = h.load('particle_track')
    p, raw = mk(h, pt, L, W, seed, steep, particle_variables=names)
    P = pt.Particles(p)
    st = copies(h, P, STATE)

    def go(P):
        P.generate_particles(1, [start[0]], [start[1]], method='exact')
        for _ in range(steps):
            if target is None:
                wd = P.run_iteration()
            else:
                wd = P.run_iteration(target_time=target)
        return wd
    n = len(h.alldraws())
    a = go(P)
    rec = list(h.alldraws()[n:])
    alike(h, st, copies(h, P, STATE), 'the model is unchanged by walking')
    if other == 'same':
        # another object on the same parameters, used in between
        R = pt.Particles(p)
    elif other:
        p2, _ = mk(h, pt, L, W, seed + 1, not steep)
        R = pt.Particles(p2)
    if other:
        h.fix_draws(0.25)
        R.generate_particles(2, [1, 3], [2, 3], method='exact')
        R.run_iteration()
        h.fix_draws(None)
    p3, _ = mk(h, pt, L, W, seed, steep, particle_variables=names)
    P2 = P if other == 'self' else pt.Particles(p3)
    if other == 'self':
        a = {k: [list(q) for q in v] for k, v in a.items()}
        P2.clear_walk_data()
    h.replay_draws(rec)
    b = go(P2)
    h.replay_draws([])
    h.check(sorted(a) == sorted(b), 'same draws, same history')
    for k in a:
        h.check(len(a[k]) == len(b[k]), 'same draws, same history')
        for x, y in zip(a[k], b[k]):
            h.check(len(x) == len(y) and
                    h.all([h.same(r, s) for r, s in zip(x, y)]),
                    'same draws, same history: ' + k)
    for k, v in zip(('depth', 'stage', 'qx', 'qy', 'cell_type'), raw):
        h.check(h.all([x == y for x, y in zip(lib.flat(v),
                                              h.items(getattr(p, k)))]),
                'given values are unchanged: ' + k)
    h.observe('xs', a['xinds'])
    h.observe('ys', a['yinds'])


ODD = dict(theta=2.0, gamma=0.5, dry_depth=0.75, diff_coeff=1.0)


def apart(h, kind, L=4, W=5, sym=False, steep=False, cts=False, seed=0):
    """the same model, whatever other model was built and used before"""
    def world():
        return h.load('particle_track', extra={})
    if sym:
        D, S, Q, R = [lib.grid(h, k, L, W, lo, 9) for k, lo in
                      (('d', 0), ('s', -9), ('qx', -9), ('qy', -9))]
    elif seed == 'plain':
        D = [[1.0] * W for i in range(L)]
        S = [[5.0 - 0.5 * j for j in range(W)] for i in range(L)]
        Q = [[0.0] * W for i in range(L)]
        R = [[0.25] * W for i in range(L)]
    else:
        D, S, Q, R = field(L, W, seed)
    ct = lib.edge_ct(L, W) if cts else None

    def first(pt):
        p = lib.params(h, pt, D, S, Q, R, ct=ct, dry_depth=0.25)
        p.steepest_descent = steep
        return pt.Particles(p)

    def other(pt):
        kw, f, t = dict(dry_depth=0.25), (D, S, Q, R), ct
        if kind == 'mirror':
            f = [[list(r)[::-1] for r in g] for g in f]
            f[2] = [[-x for x in r] for r in f[2]]
        elif kind == 'upside':
            f = [[list(r) for r in g][::-1] for g in f]
        elif kind == 'turned':
            f = [[list(r)[::-1] for r in g][::-1] for g in f]
        elif kind == 'one-cell':
            f = [[list(r) for r in g] for g in f]
            f[0][L // 2][W // 2] = f[0][L // 2][W // 2] * 0.125
        elif kind == 'flow':
            f = (D, S, R, Q)
        elif kind == 'options':
            kw = dict(ODD)
        elif kind == 'types':
            t = [[2 if (i + j) % 2 else 0 for j in range(W)]
                 for i in range(L)]
        p = lib.params(h, pt, *f, ct=t, **kw)
        p.steepest_descent = not steep
        if kind == 'distances':
            p.distances = h.mkarray([2.0, 1.0, 2.0, 1.0, 3.0, 1.0, 2.0, 1.0,
                                     2.0], (3, 3), 'f')
        return pt.Particles(p)
    a = copies(h, first(world()), STATE)
    pt = world()
    R_ = other(pt)
    if not sym:
        h.fix_draws(0.25)
        R_.generate_particles(2, [1, 2], [2, 3], method='exact')
        R_.run_iteration()
        h.fix_draws(None)
    P = first(pt)
    alike(h, a, copies(h, P, STATE), 'a model is the same after another one')
    if not sym:
        n = len(h.alldraws())
        for _ in range(2):
            P.generate_particles(1, [1], [2], method='exact')
            P.run_iteration()
        alike(h, a, copies(h, P, STATE),
              'the model is unchanged by walking')
        h.observe('xs', P.walk_data['xinds'])
        h.observe('ys', P.walk_data['yinds'])


def configs(tier):
    out = []

    def add(name, fn=build, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    for m in ('DeltaRCM', None):
        add('q-%s' % m, model=m)
        add('u-%s' % m, model=m, how=('depth', 'stage', 'u', 'v'))
        add('topo-%s' % m, model=m, how=('depth', 'topography', 'u', 'v'))
        add('stage-topo-%s' % m, model=m,
            how=('stage', 'topography', 'qx', 'qy'), ct=True)
    add('options', roi=True, ct=True, names=['depth', 'u'], steep=True)
    add('roi', roi=True, names=[], diff=-1.0)
    add('roi-none', roi=True)
    for o in (True, 'same', 'self'):
        add('walk-%s' % o, walk, other=o)
        add('walk-steep-%s' % o, walk, other=o, steep=True, steps=3, seed=1)
    add('walk-target', walk, target=6.0, names=['depth', 'qx'])
    add('walk-steep-target', walk, target=9.0, steep=True, names=['u'])
    for k in ('mirror', 'upside', 'turned', 'one-cell', 'flow', 'options',
              'types', 'distances'):
        add('after-' + k, apart, kind=k, cts=k == 'turned', L=5,
            steep=k == 'upside')
        add('after-%s-plain' % k, apart, kind=k, L=3, W=4, seed='plain')
        add('after-%s-any' % k, apart, kind=k, L=3, W=4, sym=True,
            steep=k in ('flow', 'one-cell'))
    return out
