"""Coordinates and raster indices convert consistently."""
from . import lib

BOUNDS = ('every origin in [-10^7, 10^7]^2, cell size in [0.01, 10^4], '
          'raster sizes 1 to 10^4 in each direction, every index in the '
          'raster and every point within 20000 cells of the origin (also outside the '
          'raster); 1 to 3 particles with 1 to 3 '
          'records')
ASSUMPTIONS = ['real arithmetic (floating-point rounding is far below half a '
               'cell within these bounds)']


def setup(h, fix=None):
    x0 = h.real('x0', -1e7, 1e7)
    y0 = h.real('y0', -1e7, 1e7)
    cs = h.real('cs', 0.01, 1e4) if fix is None else fix
    L = h.int('L', 1, 10000)
    W = h.int('W', 1, 10000)
    return x0, y0, cs, L, W


def forth(h, lens=(1,), fix=None, names=(), size='tuple'):
    """indices to coordinates and back"""
    pt = h.load('particle_track')
    x0, y0, cs, L, W = setup(h, fix)
    wd = dict(xinds=[], yinds=[], travel_times=[])
    for p, n in enumerate(lens):
        xs = [h.int('i%d_%d' % (p, m), 0, 9999) for m in range(n)]
        ys = [h.int('j%d_%d' % (p, m), 0, 9999) for m in range(n)]
        for x, y in zip(xs, ys):
            h.assume(x < L)
            h.assume(y < W)
        wd['xinds'].append(xs)
        wd['yinds'].append(ys)
        wd['travel_times'].append([0.5 * (m + p) for m in range(n)])
    for k in names:
        wd[k] = [[1.0 * (p + m) for m in range(n)]
                 for p, n in enumerate(lens)]
    keep = {k: [list(q) for q in v] for k, v in wd.items()}
    out = pt.ind2coord(wd, (x0, y0), (L, W), cs)
    h.check('xcoord' in out and 'ycoord' in out, 'coordinates are added')
    h.check(len(out['xcoord']) == len(lens) and
            len(out['ycoord']) == len(lens), 'every particle is converted')
    for p, n in enumerate(lens):
        X, Y = list(out['xcoord'][p]), list(out['ycoord'][p])
        h.check(len(X) == n and len(Y) == n, 'every record is converted')
        for m in range(n):
            i, j = keep['xinds'][p][m], keep['yinds'][p][m]
            h.check(h.close(X[m], x0 + j * cs, 1e-6, scale=1),
                    'columns count rightwards from the origin')
            h.check(h.close(Y[m], y0 + (L - i) * cs, 1e-6, scale=1),
                    'rows count downwards from the top')
        back = pt.coord2ind(list(zip(X, Y)), (x0, y0), (L, W), cs)
        h.check(len(back) == n, 'every point is converted')
        for m in range(n):
            h.check(h.And(back[m][0] == keep['xinds'][p][m],
                          back[m][1] == keep['yinds'][p][m]),
                    'back to the same indices')
    for k in keep:
        h.check(k in out and len(out[k]) == len(lens),
                'other content is kept')
        h.check(h.all([len(a) == len(b) for a, b in zip(out[k], keep[k])]),
                'other content is kept')
        h.check(h.all([a == b for p, q in zip(out[k], keep[k])
                       for a, b in zip(p, q)]), 'other content is kept')


def back(h, n=1, fix=None):
    """points to indices and back"""
    pt = h.load('particle_track')
    x0, y0, cs, L, W = setup(h, fix)
    pts = []
    for m in range(n):
        # position in cells from the origin
        a = h.real('a%d' % m, -20000, 20000)
        b = h.real('b%d' % m, -20000, 20000)
        pts.append((x0 + a * cs, y0 + b * cs))
    inds = pt.coord2ind(pts, (x0, y0), (L, W), cs)
    h.check(len(inds) == n, 'every point is converted')
    wd = dict(xinds=[[q[0]] for q in inds], yinds=[[q[1]] for q in inds],
              travel_times=[[0.0] for q in inds])
    out = pt.ind2coord(wd, (x0, y0), (L, W), cs)
    for m in range(n):
        i, j = inds[m]
        dx = out['xcoord'][m][0] - pts[m][0]
        dy = out['ycoord'][m][0] - pts[m][1]
        lim = 0.5 * cs * (1 + 1e-6) + 1e-7
        h.check(h.And(h.abs(dx) <= lim, h.abs(dy) <= lim),
                'a point moves by at most half a cell')
        if fix is not None:
            h.observe('ij%d' % m, [i, j])


def configs(tier):
    out = []

    def add(name, fn=forth, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('forth')
    add('forth-3', lens=(3,))
    add('forth-particles', lens=(2, 1, 2), names=('depth', 'roi_flag'))
    for c in (1.0, 50.0, 0.25):
        add('forth-%g' % c, fix=c, lens=(1, 2))
        add('back-%g' % c, back, fix=c, n=2)
    add('back', back)
    add('back-3', back, n=3)
    return out
