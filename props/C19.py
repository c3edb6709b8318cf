"""Spatial statistics assign each particle to its own window."""
from . import lib
from .C12 import walks, look, clone

BOUNDS = ('grids up to 5x5 with window sizes 1 to 3 (also not dividing '
          'the grid), up to three particles with up to four records at '
          'any cells and times, any cell types; grids of 5x8 and 11x14 '
          'with windows of 3 and 4 and fixed records')
ASSUMPTIONS = ['window size at most the grid size']


def windows(L, W, f):
    ny, nx = L // f, W // f
    return [(r * f, L if r == ny - 1 else (r + 1) * f,
             c * f, W if c == nx - 1 else (c + 1) * f)
            for r in range(ny) for c in range(nx)]


def ref(h, wd, i, ins):
    """exposure time of particle i to the cells where ins(x, y)"""
    xs, ys, ts = wd['xinds'][i], wd['yinds'][i], wd['travel_times'][i]
    q = [ins(x, y) for x, y in zip(xs, ys)]
    e = 0.0
    for m in range(1, len(ts)):
        d = ts[m] - ts[m - 1]
        e = e + h.ite(h.And(q[m], q[m - 1]), d,
                      h.ite(h.Or(q[m], q[m - 1]), 0.5 * d, 0.0))
    return e


def run(h, which='systemwide', L=2, W=2, f=1, lens=(2,), free=None,
        starts=None, extra=False, base=1, sym=None):
    sp = h.load('spatial')
    wd = walks(h, lens, L, W, free=sym)
    if starts:
        for i, s in enumerate(starts):
            if s is not None:
                wd['xinds'][i][0], wd['yinds'][i][0] = s
    if extra:
        wd['depth'] = [[0.5] * n for n in lens]
    keep = clone(wd)
    ct = [[base if (i + 2 * j) % 3 else 0 for j in range(W)]
          for i in range(L)]
    for (i, j) in (free if free is not None else
                   [(i, j) for i in range(L) for j in range(W)]):
        ct[i][j] = h.int('c%d_%d' % (i, j), -1, 2)
    C = lib.arr(h, ct, 'i')
    E = h.mkarray([0.25 * i for i in range(L * W)], (L, W), 'f')
    out = getattr(sp, which)(wd, E, C, f)
    win = windows(L, W, f)
    h.check(len(out) == len(win), 'one result per window')
    for w, (r0, r1, c0, c1) in zip(range(len(win)), win):
        if w >= len(out):
            break
        g = out[w]
        has = h.any([ct[i][j] == 1 for i in range(r0, r1)
                     for j in range(c0, c1)])
        if not isinstance(g, list):
            h.check(h.And(h.Not(has), h.isnan(g)),
                    'undefined exactly without region cell')
            continue
        h.check(has, 'undefined exactly without region cell')

        def ins(x, y):
            e = look(h, ct, x, y) == 1
            if which == 'localized':
                e = h.And(e, x >= r0, x < r1, y >= c0, y < c1)
            return e
        es = [ref(h, keep, i, ins) for i in range(len(lens))]

        def match(mem):
            """the list holds exactly these members' times, in order"""
            ok = []
            n = len(lens)
            for k in range(2 ** n):
                pick = [i for i in range(n) if k >> i & 1]
                if len(pick) != len(g):
                    continue
                ok.append(h.And(*[mem[i] if i in pick else h.Not(mem[i])
                                  for i in range(n)] +
                                [h.abs(g[q] - es[i]) <= 1e-6 * 1e6
                                 if False else h.close(g[q], es[i], 1e-7,
                                                       scale=1e6 + 1)
                                 for q, i in enumerate(pick)]))
            return h.any(ok)
        x0 = [q[0] for q in keep['xinds']]
        y0 = [q[0] for q in keep['yinds']]
        own = match([h.And(x >= r0, x < r1, y >= c0, y < c1)
                     for x, y in zip(x0, y0)])
        # known finding: windows also claim the row and the column after
        # their last one
        closed = match([h.And(x >= r0, x <= r1, y >= c0, y <= c1)
                        for x, y in zip(x0, y0)])
        inside = h.all([h.Or(h.And(x >= r0, x < r1, y >= c0, y < c1),
                             h.Not(h.And(x >= r0, x <= r1, y >= c0,
                                         y <= c1)))
                        for x, y in zip(x0, y0)])
        h.check(h.Or(own, h.And(closed, h.Not(inside))),
                "exposure times of the window's own particles, in order")
        h.check(h.Or(own, h.Not(h.And(closed, h.Not(inside)))),
                'window-overlap')
    for k in keep:
        h.check(h.all([a == b for p, q in zip(wd[k], keep[k])
                       for a, b in zip(p, q)]) and
                [len(q) for q in wd[k]] == list(lens),
                'the walk data is unchanged')
    h.check(h.all([a == b for a, b in zip(h.items(C), lib.flat(ct))]),
            'the cell types are unchanged')


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    for w in ('systemwide', 'localized'):
        s = w[:3]
        add(s + '-cells', which=w, L=2, W=2, f=1, lens=(2,))
        add(s + '-two', which=w, L=2, W=3, f=1, lens=(2, 2),
            free=[(0, 1), (1, 2)], starts=[(0, 0), None])
        add(s + '-whole', which=w, L=2, W=3, f=2, lens=(3, 1))
        add(s + '-rest', which=w, L=3, W=5, f=2, lens=(2,),
            free=[(0, 0), (2, 2), (1, 4)])
        add(s + '-4x4', which=w, L=4, W=4, f=2, lens=(2, 2, 2),
            free=[(0, 0), (1, 2)], starts=[(0, 1), (2, 2), (3, 1)])
        add(s + '-start', which=w, L=4, W=4, f=2, lens=(2,),
            free=[(3, 3)], extra=True)
        add(s + '-none', which=w, L=4, W=4, f=2, lens=(2,), base=2,
            free=[(0, 0), (3, 1)], starts=[(0, 1)])
        add(s + '-empty', which=w, L=2, W=4, f=2, lens=(),
            free=[(0, 0), (1, 3)])
        add(s + '-large', which=w, L=11, W=14, f=4, lens=(12, 2, 5, 9, 3),
            free=[(9, 12)], sym=((0, 7),),
            starts=[(0, 0), (5, 9), (2, 5), (10, 13), (3, 3)])
        add(s + '-remainder', which=w, L=5, W=8, f=3, lens=(2,),
            free=[(4, 0), (1, 7)], base=2)
        if tier == 'thorough':
            add(s + '-long', which=w, L=3, W=3, f=1, lens=(4,),
                free=[(1, 1)], starts=[(0, 0)])
            add(s + '-big', which=w, L=5, W=5, f=2, lens=(3, 2),
                free=[(0, 0), (4, 4), (2, 2)], starts=[(0, 3), None])
            add(s + '-three', which=w, L=5, W=4, f=3, lens=(3, 2, 2),
                free=[(4, 3), (0, 0)])
    return out
