"""Flux-proportional seeding is exact and proportional."""
from . import lib

BOUNDS = ('1 to 5 discharge values in [-10^4, 10^4] as row, column or '
          'list, any total from 0 to 10^4 (symbolic) and up to 10^6 '
          '(fixed); 14 to 25 fixed values and totals up to 1000')
ASSUMPTIONS = ['ties between equal fractional shares may be broken either '
               'way']


def run(h, n=2, form='row', total=None, steps=None, zero=(), sym=None,
        span=(-1e4, 1e4)):
    pt = h.load('particle_track')
    q = [0.0 if i in zero else
         (7.0 * i * i) % 31 - 11.5 if sym is not None and i not in sym else
         h.real('q%d' % i, *span) for i in range(n)]
    N = h.int('N', 0, 10000) if total is None else total
    if form == 'row':
        Q = h.mkarray(q, (n,), 'f')
    elif form == 'column':
        Q = h.mkarray(q, (n, 1), 'f')
    elif form == 'row2':
        Q = h.mkarray(q, (1, n), 'f')
    else:
        Q = list(q)
    ks = n if steps is None else steps
    a = [h.abs(x) for x in q]
    tot = sum(a[1:], a[0])
    try:
        r = pt.flux_proportional_seeding(Q, N, ks)
    except ValueError:
        h.check(h.Or(n < ks, tot == 0), 'valid input is accepted')
        h.cover('rejected')
        return
    h.check(h.And(n >= ks, tot > 0), 'invalid input is rejected')
    r = h.items(r)
    h.check(len(r) == n, 'one count per step')
    s = 0
    for x in r:
        h.check(x >= 0, 'counts are not negative')
        h.check(x == int(x) if not h.symbolic else
                h.floor(x) == x, 'whole numbers')
        s = s + x
    h.check(s == N, 'counts add up to the total')
    # exact shares N * |q_i| / sum, compared without division
    eps = 1e-6 * tot
    fr = []
    for x, b in zip(r, a):
        d = N * b - x * tot           # (share - count) * tot
        h.check(h.And(d < tot + eps, d > -tot - eps),
                'within one of the exact share')
        fr.append(d)
    # a step with a larger fractional share is served first: if i was given
    # a leftover (count above share) and j was not, j's share is not larger
    for i in range(n):
        for j in range(n):
            if i != j:
                # frac = d + tot when rounded up, d otherwise
                h.check(h.implies(
                    h.And(fr[i] < -eps, fr[j] > eps),
                    fr[j] <= fr[i] + tot + eps),
                    'leftovers go to the largest fractional shares')
    if total is not None or n <= 2:
        h.observe('r', r)


def configs(tier):
    out = []

    def add(name, fn=run, **kw):
        out.append(dict(name=name, fn=fn, kw=kw))
    add('one', n=1)
    for t in (0, 1, 2, 3, 7, 100):
        add('two-%d' % t, n=2, total=t)
        add('two-col-%d' % t, n=2, total=t, form='column')
    for t in (1, 2, 3, 4, 7):
        add('three-%d' % t, n=3, total=t,
            form=['row', 'column', 'list', 'row2'][t % 4])
    add('two', n=2)
    add('few', n=2, steps=3, total=5)
    add('more', n=3, steps=2, total=2)
    add('zero', n=2, zero=(0, 1), total=4)
    add('zero-some', n=3, zero=(1,), total=3)
    add('four-2', n=4, total=2, zero=(1,))
    add('many', n=6, total=20, sym=(4,), span=(3, 5))
    add('many-fixed', n=14, total=50, sym=())
    add('many-col', n=25, total=9, sym=(), form='column')
    add('many-more', n=18, total=1000, sym=(), steps=12)
    if tier == 'thorough':
        add('three', n=3)
        add('four-3', n=4, total=3)
        for t in (2, 5, 8):
            add('four-col-%d' % t, n=4, total=t, form='column')
        for t in (2, 3):
            add('five-%d' % t, n=5, total=t)
    return out
