"""Steepest descent takes a maximal-weight option or stays."""
import types
from . import lib
from .lib import NB

BOUNDS = ('nine options with arbitrary weights in [0, 10], up to four of them possibly '
          'undefined, every draw, two consecutive choices at the same cell; '
          'one iteration of a particle on a 4x4 and 3x5 grid')
ASSUMPTIONS = ['when the stay option ties with a neighbour, either is '
               'accepted']


def verdict(h, z, k, what, draws):
    k = int(k)
    h.check(0 <= k < 9, what + ': an option is selected')
    mx = h.max(*z)
    if k == 4:
        h.check(h.Or(mx <= 0, z[4] >= mx),
                what + ': stays only if the cell itself carries the maximum')
        return
    h.check(z[k] > 0, what + ': an option without weight is never taken')
    h.check(z[k] >= mx, what + ': the option taken has maximal weight')
    h.cover('neighbour')
    # ties: equal share of the draws (when the cell itself is not tied)
    if len(draws) == 1:
        kind, low, high, v = draws[0]
        tied = [h.ite(h.And(x >= mx, True), 1.0, 0.0) for x in z]
        tied[4] = 0.0
        tot = sum(tied)
        before = sum(tied[:k]) if k else 0.0
        rng, e = high - low, 1e-6 * (high - low)
        # case split on the (small) counts keeps the claim linear
        for m in range(1, 9):
            h.check(h.Or(z[4] >= mx, h.all([
                h.implies(h.And(tot >= m - 0.5, tot <= m + 0.5,
                                before >= b - 0.5, before <= b + 0.5),
                          h.And((v - low) * m >= b * rng - e,
                                (v - low) * m <= (b + 1) * rng + e))
                for b in range(m)])),
                    what + ': ties are broken with equal chance')
    else:
        tied = h.any([h.And(z[a] >= mx, z[b] >= mx)
                      for a in range(9) for b in range(a)])
        h.check(h.Not(tied), what + ': one draw for a tie')


def _dr(h):
    return h.draws if not h.symbolic else h.c.draws


def pick(h, undefined=True, tie=None):
    lw = h.load('lagrangian_walker')
    w = [h.real('w%d' % i, 0, 10, nan=undefined is True or
                undefined is not False and i in undefined) for i in range(9)]
    if tie:
        for a in tie[1:]:
            w[a] = w[tie[0]]
    z = [lib.zn(h, x) for x in w]
    k = lw.steep_descent(h.mkarray(w, (9,), 'f'))
    verdict(h, z, k, 'choice', _dr(h))
    h.observe('k', k)


def again(h, undefined=True, free=range(9)):
    lw = h.load('lagrangian_walker')
    w = [h.real('w%d' % i, 0, 10, nan=undefined) if i in free
         else [0.0, 0.25, 2.0][i % 3] for i in range(9)]
    z = [lib.zn(h, x) for x in w]
    i, j = h.choose('i', 2), h.choose('j', 2)
    full = []
    for a in range(2):
        for b in range(2):
            full += w if (a, b) == (i, j) else \
                [float(1 + (a + b + q) % 3) for q in range(9)]
    P = types.SimpleNamespace(weight=h.mkarray(full, (2, 2, 9), 'f'),
                              steepest_descent=True)
    k = lw.get_weight(P, (i, j))
    verdict(h, z, k, 'first choice', list(_dr(h)))
    n = len(_dr(h))
    k2 = lw.get_weight(P, (i, j))
    verdict(h, z, k2, 'second choice', list(_dr(h))[n:])
    h.check(h.iff(k == 4, k2 == 4), 'the same choice is offered again')
    h.observe('k', [k, k2])


def walk(h, L=4, W=4, cell=(1, 2), undefined=True):
    """a particle that walks under steepest descent"""
    pt = h.load('particle_track')
    c = lib.const
    p = lib.params(h, pt, c(L, W, 2.0), c(L, W, 1.0), c(L, W, 1.0),
                   c(L, W, 0.5), ct=c(L, W, 0), steepest_descent=True)
    P = pt.Particles(p)
    w = [h.real('w%d' % i, 0, 10, nan=undefined) for i in range(9)]
    z = [lib.zn(h, x) for x in w]
    W0 = P.weight
    for q in range(9):
        W0[cell[0], cell[1], q] = w[q]
    P.generate_particles(1, [cell[0]], [cell[1]], method='exact')
    n = len(_dr(h))
    wd = P.run_iteration()
    xs, ys = wd['xinds'][0], wd['yinds'][0]
    at = (int(xs[-1]) - cell[0], int(ys[-1]) - cell[1])
    h.check(at in NB, 'adjacent')
    verdict(h, z, NB.index(at), 'walk', list(_dr(h))[n:n + 1])
    h.observe('at', list(at))


def configs(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('nine', pick, undefined=False)
    add('nine-undefined', pick, undefined=(0, 4, 7))
    add('some-undefined', pick, undefined=(2, 4, 5, 6), tie=[0, 1, 3, 7])
    add('tie-3', pick, tie=[0, 5, 7])
    add('tie-stay', pick, tie=[4, 6])
    add('again', again, undefined=False, free=(1, 4, 8))
    add('again-b', again, free=(0, 4, 7))
    add('walk', walk, undefined=False)
    add('walk-3x5', walk, L=3, W=5, cell=(1, 3), undefined=False)
    if tier == 'thorough':
        add('all-undefined', pick)
        add('nine-undefined-b', pick, undefined=(1, 3, 8))
        add('again-all', again, undefined=False)
        add('again-undefined', again)
        add('walk-undefined', walk)
        add('tie-all', pick, tie=list(range(9)))
        add('tie-neighbours', pick, tie=[0, 1, 2, 3, 5, 6, 7, 8])
    return out
