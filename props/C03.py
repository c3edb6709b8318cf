"""Random selection is proportional to weight, never weightless."""
import types
from . import lib

BOUNDS = ('one selection among nine options with arbitrary weights in '
          '[0, 10] or undefined (any subset), every draw; selection at each '
          'cell of a 2x3 array of weights; seeding lists of up to 7 '
          'locations, every draw')
ASSUMPTIONS = ['one uniform draw per selection, mapped in option order']


def share(h, ws, k, what, lo=None):
    """the single draw falls into the interval of option k"""
    dr = h.draws if not h.symbolic else h.c.draws
    dr = dr[lo or 0:]
    h.check(len(dr) == 1, what + ': one draw')
    if len(dr) != 1:
        return
    kind, low, high, v = dr[0]
    tot = sum(ws)
    pos = (v - low) * tot           # compare r * total without dividing
    rng = high - low
    before = sum(ws[:k]) if k else 0.0
    tol = (1e-6 if h.symbolic else 6e-7) * tot * rng
    h.check(h.And(pos >= before * rng - tol,
                  pos <= (before + ws[k]) * rng + tol),
            what + ': share of the draws equals the share of the weight')


def pick(h, undefined=True, n=9, via='pick', hi=10):
    lw = h.load('lagrangian_walker')
    w = [h.real('w%d' % i, 0, hi, nan=undefined) for i in range(n)]
    z = [lib.zn(h, x) for x in w]
    if via == 'pick':
        k = lw.random_pick(h.mkarray(w, (n,), 'f'))
    else:
        L, W = 2, 3
        i, j = h.choose('i', L), h.choose('j', W)
        full = []
        for a in range(L):
            for b in range(W):
                full += w if (a, b) == (i, j) else \
                    [float(1 + (a + b + q) % 3) for q in range(n)]
        P = types.SimpleNamespace(weight=h.mkarray(full, (L, W, n), 'f'),
                                  steepest_descent=False)
        k = lw.get_weight(P, (i, j))
    tot = sum(z)
    k = int(k)
    h.check(0 <= k < n, 'an option is selected')
    if k == 4 and bool(tot <= 0):
        h.cover('no weight')
        return
    h.check(tot > 0, 'without any weight the particle stays')
    h.check(z[k] > 0, 'an option without weight is never selected')
    h.cover('option %d' % k)
    share(h, z, k, 'selection')
    h.observe('k', k)


def seed(h, n=4, probs=False):
    lw = h.load('lagrangian_walker')
    ch = [h.int('c%d' % i, -3, 50) for i in range(n)]
    if probs:
        p = [h.real('p%d' % i, 0, 5, lo_open=True) for i in range(n)]
        r = lw.random_pick_seed(ch, p)
    else:
        p = [1.0] * n
        r = lw.random_pick_seed(ch)
    h.check(h.any([r == c for c in ch]), 'a listed location is picked')
    # the draw that belongs to location k yields location k
    dr = h.draws if not h.symbolic else h.c.draws
    h.check(len(dr) == 1, 'seeding: one draw')
    kind, low, high, v = dr[0]
    tot = sum(p)
    acc = 0.0
    for k in range(n):
        a, b = acc, acc + p[k]
        acc = b
        x = (v - low) * tot
        e = 1e-6 * tot * (high - low)
        inside = h.And(x > a * (high - low) + e, x < b * (high - low) - e)
        h.check(h.implies(inside, r == ch[k]),
                'location %d is picked on its share of the draws' % k)
    h.observe('r', r)


def configs(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('nine', pick, undefined=False)
    add('nine-undefined', pick)
    add('small-weights', pick, hi=1e-6)
    add('at-cell', pick, via='cell')
    for n in (1, 2, 3, 5):
        add('seed-%d' % n, seed, n=n)
    add('seed-weighted-3', seed, n=3, probs=True)
    if tier == 'thorough':
        for n in (4, 6, 7):
            add('seed-%d' % n, seed, n=n)
        for n in (2, 4, 5):
            add('seed-weighted-%d' % n, seed, n=n, probs=True)
    return out
