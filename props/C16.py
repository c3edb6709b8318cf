"""Gridded values interpolate the nearest unstructured data."""
import itertools
import math
from . import lib

BOUNDS = ('fixed layouts of 1 to 7 and of 30 points (regular, scattered, '
          'collinear, with negative coordinates) with any data values, 1 '
          'to 5 and 12 nearest neighbours, several cell sizes, with and '
          'without a boundary (cropped or not, also with a narrow middle); '
          'layouts of 2 or 3 points at any coordinates spanning up to two cells, any values, '
          'nearest neighbour')
ASSUMPTIONS = ['points do not coincide; no grid node lies on the boundary '
               'line; data values are defined; at least as many points as '
               'neighbours', 'a boundary leaves at least one cell']

LAY = {
    'square': [(0, 0), (2, 0), (0, 2), (2, 2)],
    'scatter': [(0.2, 0.1), (1.7, 0.4), (0.9, 1.6), (2.1, 2.3), (0.3, 2.2)],
    'line': [(-3, -1), (-1, -1), (0.5, -1)],
    'column': [(5, 0), (5, 1.5), (5, 3)],
    'two': [(-1.25, 4), (0.5, 5)],
    'wide': [(-2, 10), (3, 10.5), (1, 11), (0, 10.2), (2.5, 11.9), (-1, 11)],
    'tall': [(0, 0), (3, 5), (1, 4), (2, 1)],
    'broad': [(0, 0), (5, 3), (4, 1), (1, 2)],
    'one': [(3.0, 4.0)],
    'utm': [(500000.25, 4200000.5), (500007.0, 4200001.25),
            (500003.5, 4200009.75), (500006.125, 4200006.0)],
    'many': [((37 * i) % 97 / 8.0, (53 * i) % 89 / 8.0 - 6)
             for i in range(30)],
    'cross': [(1, 0), (0, 1), (1, 1), (2, 1), (1, 2)],
}


def dims(pts, cs):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    nx = int(math.ceil((max(xs) - min(xs)) / cs) + 1)
    ny = int(math.ceil((max(ys) - min(ys)) / cs) + 1)
    return min(xs), min(ys), nx, ny


def want(h, pts, vals, x, y, k, got):
    """got is the value of the nearest / inverse-distance weighted mean of
    the k nearest points, ties either way"""
    d = [math.hypot(px - x, py - y) for px, py in pts]
    order = sorted(range(len(d)), key=lambda i: d[i])
    cut = d[order[k - 1]]
    sure = [i for i in order if d[i] < cut - 1e-9]
    tied = [i for i in order if abs(d[i] - cut) <= 1e-9]
    ok = []
    for more in itertools.combinations(tied, k - len(sure)):
        sel = sure + list(more)
        if min(d[i] for i in sel) < 1e-9:
            ref = vals[[i for i in sel if d[i] < 1e-9][0]]
        elif k == 1:
            ref = vals[sel[0]]
        else:
            ws = [1 / d[i] for i in sel]
            ref = sum(w / sum(ws) * vals[i] for w, i in zip(ws, sel))
        ok.append(h.close(got, ref, 1e-6, scale=1000))
    return h.any(ok)


def inside(poly, x, y):
    r = False
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[i - 1]
        if (y1 > y) != (y2 > y) and \
                x < x1 + (x2 - x1) * (y - y1) / (y2 - y1):
            r = not r
    return r


def values(h, n, tag='v'):
    return [h.real('%s%d' % (tag, i), -1000, 1000) for i in range(n)]


def run(h, lay='square', cs=1.0, k=1, boundary=None, crop=True, same=False,
        default=False, form=list, few=False):
    pt = h.load('particle_track')
    pts = LAY[lay]
    n = len(pts)
    v = values(h, n) if not same else [h.real('v', -1000, 1000)] * n
    if few:            # four symbolic values dealt out over the points
        sv = values(h, 4, 's')
        v = [sv[i % 4] + 0.25 * i for i in range(n)]
    q = list(v) if form is list else h.mkarray(v, (n,), 'f')
    kw = {}
    if not default:
        kw['k_nearest_neighbors'] = k
    if boundary is not None:
        kw['boundary'] = [list(b) for b in boundary]
        kw['crop'] = crop
    f, g = pt.unstruct2grid([tuple(p) for p in pts], q, cs, **kw)
    x0, y0, nx, ny = dims(pts, cs)
    node = [[(x0 + c * cs, y0 + (ny - 1 - r) * cs) for c in range(nx)]
            for r in range(ny)]
    ins = [[boundary is None or inside(boundary, *p) for p in r]
           for r in node]
    rows, cols = list(range(ny)), list(range(nx))
    if boundary is not None and crop:
        # the borders that are outside, nothing in between
        a = [r for r in rows if any(ins[r])]
        b = [c for c in cols if any(ins[r][c] for r in range(ny))]
        rows = list(range(a[0], a[-1] + 1))
        cols = list(range(b[0], b[-1] + 1))

    def judge(g, v, what):
        if tuple(g.shape) != (len(rows), len(cols)):
            h.fail(what + ': extent of the points at the cell size')
            return
        lo, hi = h.min(*v), h.max(*v)
        for a, r in enumerate(rows):
            for b, c in enumerate(cols):
                x = g[a, b]
                if not ins[r][c]:
                    h.check(h.isnan(x), what + ': outside is undefined')
                    continue
                h.check(h.And(h.Not(h.isnan(x)), x >= lo - 1e-4,
                              x <= hi + 1e-4),
                        what + ': within the range of the data')
                h.check(want(h, pts, v, node[r][c][0], node[r][c][1], k, x),
                        what + ': value of the nearest points')
    judge(g, v, 'gridded')
    w = values(h, n, 'w') if not same and not few else v
    judge(f(list(w) if form is list else h.mkarray(w, (n,), 'f')), w,
          'interpolator')
    judge(f(h.mkarray(v, (n,), 'f')), v, 'interpolator again')
    h.observe('g', h.items(g) if k == 1 else 0)


def anywhere(h, n=2, span=1.0, cs=1.0):
    """points anywhere, nearest neighbour"""
    pt = h.load('particle_track')
    x0, y0 = h.real('x0', -50, 50), h.real('y0', -50, 50)
    # spans fixed by the first two points, the rest anywhere between
    P = [(x0, y0)]
    for i in range(1, n):
        a = h.real('a%d' % i, 0, span)
        b = h.real('b%d' % i, 0, span)
        P.append((x0 + a, y0 + b))
        h.assume(h.Or(a >= 0.01, b >= 0.01))
    for i in range(2, n):
        h.assume(h.Or(h.abs(P[i][0] - P[1][0]) >= 0.01,
                      h.abs(P[i][1] - P[1][1]) >= 0.01))
    v = values(h, n)
    f, g = pt.unstruct2grid(list(P), list(v), cs, k_nearest_neighbors=1)
    ny, nx = (int(s) for s in g.shape)
    mx = h.max(*[p[0] for p in P]) - x0
    my = h.max(*[p[1] for p in P]) - y0
    e = 1e-9
    h.check(h.And(mx <= (nx - 1) * cs + e, mx > (nx - 2) * cs - e),
            'columns cover the extent')
    h.check(h.And(my <= (ny - 1) * cs + e, my > (ny - 2) * cs - e),
            'rows cover the extent')
    for r in range(ny):
        for c in range(nx):
            x, y = x0 + c * cs, y0 + (ny - 1 - r) * cs
            d = [(x - p[0]) * (x - p[0]) + (y - p[1]) * (y - p[1])
                 for p in P]
            h.check(h.any([h.And(h.close(g[r, c], v[i], 1e-9, scale=1000),
                                 *[d[i] <= d[j] + 1e-7 for j in range(n)])
                           for i in range(n)]),
                    'value of the nearest point')
    w = values(h, n, 'w')
    g2 = f(list(w))
    h.check(tuple(g2.shape) == (ny, nx), 'interpolator gives the same grid')
    for r in range(ny):
        for c in range(nx):
            h.check(h.any([h.And(h.close(g[r, c], v[i], 1e-9, scale=1000),
                                 h.close(g2[r, c], w[i], 1e-9, scale=1000))
                           for i in range(n)]),
                    'interpolator uses the same points')


def wrong(h):
    pt = h.load('particle_track')
    a, b = h.choose('a', 4) + 1, h.choose('b', 5)
    pts = [(1.0 * i, 2.0 * i) for i in range(a)]
    r = h.raises(ValueError, pt.unstruct2grid, pts, [1.0] * b, 1.0, 1)
    h.check(r == (a != b), 'differing lengths are rejected')


TRI = [(-0.6, -0.6), (2.7, -0.4), (-0.4, 2.7)]
BOX = [(0.6, 0.6), (1.55, 0.6), (1.55, 2.85), (0.6, 2.85)]

# narrow in the middle: no node inside on one row / column
WAIST = [(0.1, 1.1), (1.4, 1.3), (2.3, 1.2), (1.6, 3.3), (2.4, 4.4),
         (0.2, 4.3), (1.5, 3.2)]
SIDE = [(y, x) for x, y in WAIST]


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    for lay, css in (('square', (1.0, 0.8)), ('scatter', (1.0, 0.7)),
                     ('line', (1.0,)), ('column', (1,)), ('two', (0.5,)),
                     ('wide', (1.0, 2)), ('cross', (1.0,)),
                     ('one', (1.0,))):
        for cs in css:
            for k in (1, 2, 3, 4):
                if k > len(LAY[lay]) or \
                        k == 4 and (lay, cs) != ('wide', 2):
                    continue
                add('%s-%g-%d' % (lay, cs, k), lay=lay, cs=cs, k=k,
                    form=list if k != 2 else tuple)
    add('many-1', lay='many', cs=2.0, k=1)
    add('many-3', lay='many', cs=6.0, k=3, few=True)
    add('many-12', lay='many', cs=6.0, k=12, same=True)
    add('utm-1', lay='utm', cs=2.0, k=1)
    add('utm-3', lay='utm', cs=2.5, k=3)
    add('default', lay='scatter', k=3, default=True)
    add('constant-1', same=True, k=1, lay='wide')
    add('constant-3', same=True, k=3, lay='wide')
    for k in (1, 3):
        add('tri-%d' % k, lay='scatter', cs=0.7, k=k, boundary=TRI,
            crop=False)
        add('tri-crop-%d' % k, lay='scatter', cs=0.7, k=k, boundary=TRI)
        add('box-crop-%d' % k, lay='scatter', cs=0.7, k=k, boundary=BOX)
        add('box-%d' % k, lay='square', cs=1.0, k=k, boundary=BOX,
            crop=False)
        add('waist-%d' % k, lay='tall', k=k, boundary=WAIST)
        add('waist-side-%d' % k, lay='broad', k=k, boundary=SIDE)
        add('waist-whole-%d' % k, lay='broad', k=k, boundary=SIDE,
            crop=False)
    add('anywhere-2', anywhere)
    add('anywhere-2-wide', anywhere, span=2.0)
    add('anywhere-3', anywhere, n=3, span=1.0)
    add('wrong', wrong)
    if tier == 'thorough':
        add('wide-1-4', lay='wide', k=4)
        add('anywhere-3-wide', anywhere, n=3, span=2.0, cs=1.0)
        add('anywhere-fine', anywhere, n=2, span=1.0, cs=0.5)
        for cs in (0.3, 0.45):
            for k in (1, 2, 5):
                add('scatter-%g-%d' % (cs, k), lay='scatter', cs=cs, k=k)
                add('wide-%g-%d' % (cs, k), lay='wide', cs=cs, k=k)
    return out
