"""Travel time is the projected step over harmonic mean speed."""
import math
from . import lib
from .lib import NB, DIST

BOUNDS = ('one step from each interior cell of 3x3, 3x4 and 5x3 grids in '
          'each of the eight directions; velocity components at origin and '
          'destination in [-4, 4], cell size in (0, 1000], dispersion '
          'coefficient in [0, 2), every draw; discharge and velocity input')
ASSUMPTIONS = ['velocity components below 1e-8 m/s count as 1e-8 m/s']
FL = 1e-8
PI = math.pi
ANG = [3 * PI / 4, PI / 2, PI / 4, PI, 0, 0, 5 * PI / 4, 3 * PI / 2,
       7 * PI / 4]


def step(h, L=3, W=3, cells=((1, 1),), dirs=range(9), diff=True,
         model='DeltaRCM', dx=None, times=1, kind='u', stay=False):
    pt = h.load('particle_track')
    c = lib.const
    i, j = h.pick('cell', list(cells))
    k = h.pick('dir', [d for d in dirs])
    a, b = NB[k]
    X, Y = i + a, j + b
    A = [[0.5 + 0.25 * ((2 * r + q) % 5) for q in range(W)]
         for r in range(L)]
    B = [[-0.75 + 0.5 * ((r + 3 * q) % 4) + 0.01 for q in range(W)]
         for r in range(L)]
    dep = [[1.0 + 0.5 * ((r + q) % 3) for q in range(W)] for r in range(L)]
    # 'A' is the downward (row) and 'B' the rightward (column) component
    A[i][j] = h.real('a0', -4, 4)
    B[i][j] = h.real('b0', -4, 4)
    if (a, b) != (0, 0):
        A[X][Y] = h.real('a1', -4, 4)
        B[X][Y] = h.real('b1', -4, 4)
    p = pt.modelParams()
    p.dx = h.real('dx', 0, 1000, lo_open=True) if dx is None else dx
    p.depth = lib.arr(h, dep)
    p.stage = lib.arr(h, c(L, W, 1.0))
    p.cell_type = lib.arr(h, c(L, W, 0), 'i')
    if model == 'DeltaRCM':
        comp = (A, B)
        p.model = model
    else:
        # user's y component points up
        comp = (B, A)
        A = [[-1 * x for x in r] for r in A]
    if kind == 'u':
        p.u, p.v = lib.arr(h, comp[0]), lib.arr(h, comp[1])
    else:
        p.qx, p.qy = lib.arr(h, comp[0]), lib.arr(h, comp[1])
    dc = h.real('diff', 0, 2, hi_open=True) if diff else 0.0
    p.diff_coeff = dc
    P = pt.Particles(p)
    for q in range(9):
        P.weight[i, j, q] = 1.0 if q == k else 0.0
    P.generate_particles(1, [i], [j], method='exact')
    n = len(h.c.draws if h.symbolic else h.draws)
    wd = P.run_iteration()
    ts = wd['travel_times'][0]
    if k == 4:
        h.check(len(ts) == 1 or h.close(ts[-1], ts[0]),
                'a step that does not move takes no time')
        h.observe('t', ts[-1])
        return
    h.check(len(ts) == 2, 'one step')
    h.check(h.And(wd['xinds'][0][-1] == X, wd['yinds'][0][-1] == Y), 'moved')
    if len(ts) != 2:
        return
    t = ts[1] - ts[0]
    dr = (h.c.draws if h.symbolic else h.draws)[n + 1:]

    def vel(x, y):
        # row / column velocity as the model holds it
        if kind == 'u':
            return A[x][y], B[x][y]
        d = dep[x][y]
        return (A[x][y] * d / (d ** 2 + 1e-8), B[x][y] * d / (d ** 2 + 1e-8))

    def speed(u, v):
        s = h.sqrt(u ** 2 + v ** 2)
        return h.ite(s < FL, FL, s)
    u0, v0 = vel(i, j)
    u1, v1 = vel(X, Y)
    s0, s1 = speed(u0, v0), speed(u1, v1)
    uf = h.ite(h.abs(u0) < FL, FL, u0)
    vf = h.ite(h.abs(v0) < FL, FL, v0)
    # angle between the step and the flow at the origin
    cosv = h.cos(ANG[k] - h.arctan2(-1.0 * uf, vf))
    dist = DIST[k] * p.dx
    proj = dist * h.max(0, cosv)
    per = 1 / s0 + 1 / s1
    base = 0.5 * proj * per
    unit = dist * per
    h.check(h.And(h.isfinite(t), t >= 0), 'finite and never negative')
    # orthogonal or against, decided without trigonometry
    against = uf * a + vf * b <= 0
    h.check(h.implies(against, h.abs(t) <= 1e-9 * unit),
            'no time for steps orthogonal to or against the flow')
    if diff and dr:
        r = dr[0][3]
        h.check(h.Or(h.close(t, base * (1 + (0.5 - r) * dc), scale=unit),
                     h.close(t, base * (1 + (r - 0.5) * dc), scale=unit)),
                'time of the step')
    else:
        h.check(h.Or(not diff, dc <= 0), 'dispersion is drawn')
        h.check(h.close(t, base, scale=unit), 'time of the step')
    h.observe('t', t)


def still(h, L=4, W=4, n=2):
    """particles that stay or are held next to an edge cell"""
    pt, lw = h.load('particle_track'), h.load('lagrangian_walker')
    c = lib.const
    A, B = c(L, W, 0.5), c(L, W, 1.5)
    A[1][1], B[1][1] = h.real('a', -4, 4), h.real('b', -4, 4)
    p = pt.modelParams()
    p.dx = h.real('dx', 0, 1000, lo_open=True)
    p.depth = lib.arr(h, c(L, W, 1.0))
    p.stage = lib.arr(h, c(L, W, 1.0))
    ct = lib.igrid(h, 'ct', L, W, -1, 0)
    p.cell_type = lib.arr(h, ct, 'i')
    p.u, p.v, p.model = lib.arr(h, A), lib.arr(h, B), 'DeltaRCM'
    p.diff_coeff = h.real('diff', 0, 2, hi_open=True)
    P = pt.Particles(p)
    k = h.pick('dir', list(range(9)))
    for q in range(9):
        P.weight[1, 1, q] = 1.0 if q == k else 0.0
    held = h.any([ct[r][q] == -1 for r in range(3) for q in range(3)])
    if k != 4:
        h.assume(held)
    t0 = [h.real('t%d' % q, 0, 1000) for q in range(n)]
    new, ts, _ = lw.particle_stepper(P, [[1, 1] for _ in range(n)],
                                     list(t0), {})
    for q in range(n):
        h.check(h.And(new[q][0] == 1, new[q][1] == 1), 'stays')
        h.check(h.close(ts[q], t0[q]),
                'a step that does not move takes no time')
    h.observe('ts', ts)


def chain(h, L=3, W=5):
    """times accumulate over steps, starting at the seed time"""
    pt = h.load('particle_track')
    c = lib.const
    A = c(L, W, 0.0)
    B = [[1.0 for q in range(W)] for r in range(L)]
    s = [h.real('s%d' % q, 0.01, 4) for q in range(4)]
    for q in range(4):
        B[1][q] = s[q]
    t0 = h.real('t0', 0.0, 1000, lo_open=True)
    p = pt.modelParams()
    p.dx = h.real('dx', 0, 1000, lo_open=True)
    p.depth = lib.arr(h, c(L, W, 1.0))
    p.stage = lib.arr(h, c(L, W, 1.0))
    p.cell_type = lib.arr(h, c(L, W, 0), 'i')
    p.u, p.v, p.model = lib.arr(h, A), lib.arr(h, B), 'DeltaRCM'
    p.diff_coeff = 0.0
    p.verbose = None
    P = pt.Particles(p)
    for q in (1, 2):
        for o in range(9):
            P.weight[1, q, o] = 1.0 if o == 5 else 0.0
    P.generate_particles(1, [1], [1], seed_time=t0, method='exact')
    P.run_iteration()
    wd = P.run_iteration()
    ts = wd['travel_times'][0]
    h.check(len(ts) == 3, 'two steps')
    h.check(ts[0] == t0, 'starts at the seed time')
    ref = t0
    for n in (1, 2):
        # u = 0 counts as the floor
        vf = h.ite(h.abs(s[n]) < FL, FL, s[n])
        cs = h.cos(0 - h.arctan2(-1.0 * FL, vf))
        sp = [h.sqrt(x ** 2) for x in (s[n], s[n + 1])]
        sp = [h.ite(x < FL, FL, x) for x in sp]
        per = 1 / sp[0] + 1 / sp[1]
        d = 0.5 * (p.dx * h.max(0, cs)) * per
        h.check(h.close(ts[n] - ts[n - 1], d, scale=p.dx * per),
                'step %d adds its own time' % n)
    h.observe('ts', ts)


def configs(tier):
    out = []

    def add(name, fn=step, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    for k in range(9):
        add('dir%d' % k, dirs=[k], diff=k % 2 == 0)
    add('plain', diff=False, dx=h_const(2.0), dirs=[0, 1, 2, 3])
    add('plain-b', diff=False, dx=h_const(30.0), dirs=[5, 6, 7, 8])
    add('xy-3x4', model=None, L=3, W=4, cells=((1, 2),), dirs=[0, 1, 5],
        diff=False)
    add('xy-5x3', model=None, L=5, W=3, cells=((2, 1),), dirs=[6, 7, 3],
        diff=False)
    add('discharge', kind='q', dirs=[2, 7], diff=False)
    add('discharge-xy', kind='q', model=None, dirs=[0, 5], diff=False)
    add('chain', chain)
    add('still', still)
    add('still-3x3', still, L=3, W=3, n=1)
    if tier == 'thorough':
        for k in range(9):
            add('all-dir%d' % k, dirs=[k], L=4, W=4,
                cells=((1, 1), (1, 2), (2, 1), (2, 2)),
                model=None if k % 2 else 'DeltaRCM')
            add('q-dir%d' % k, dirs=[k], kind='q',
                model='DeltaRCM' if k % 2 else None)
    return out


def h_const(v):
    return v
