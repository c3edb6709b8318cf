"""State queries return the right entry of each history."""
from . import lib

BOUNDS = ('0 to 3 particles with 1 to 6 records each (different lengths), '
          'every recorded value symbolic, up to three tracked variables, '
          'every iteration from 0 to beyond the longest history, every '
          'target time in [-100, 10^6]; up to 25 records and 13 particles '
          'with mostly fixed or few values')
ASSUMPTIONS = ['recorded times never decrease (C07)']


def data(h, lens, names, mono=True, sym=None):
    """sym: the particles with symbolic records (None: all)"""
    wd = dict(xinds=[], yinds=[], travel_times=[])
    for v in names:
        wd[v] = []
    for i, n in enumerate(lens):
        if sym is not None and i not in sym:
            wd['xinds'].append([(3 * i + m) % 7 for m in range(n)])
            wd['yinds'].append([(i + 2 * m) % 9 for m in range(n)])
            wd['travel_times'].append([2.0 * (i % 2) + 30.5 * m * m
                                       for m in range(n)])
            for q, v in enumerate(names):
                wd[v].append([0.5 * i - m * q for m in range(n)])
            continue
        wd['xinds'].append([h.int('x%d_%d' % (i, m), 0, 500)
                            for m in range(n)])
        wd['yinds'].append([h.int('y%d_%d' % (i, m), 0, 500)
                            for m in range(n)])
        t = [h.real('t%d_%d' % (i, m), 0, 1e6) for m in range(n)]
        if mono:
            for a, b in zip(t, t[1:]):
                h.assume(a <= b)
        wd['travel_times'].append(t)
        for q, v in enumerate(names):
            wd[v].append([h.real('v%d_%d_%d' % (q, i, m), -50, 50)
                          for m in range(n)])
    return wd


def unchanged(h, wd, keep):
    h.check(list(wd) == list(keep), 'the walk data is unchanged')
    for k in keep:
        h.check([len(q) for q in wd[k]] == [len(q) for q in keep[k]],
                'the walk data is unchanged')
        h.check(h.all([a == b for p, q in zip(wd[k], keep[k])
                       for a, b in zip(p, q)]), 'the walk data is unchanged')


def parts(h, out, names, lens):
    h.check(len(out) == (4 if names else 3), 'position, time and variables')
    cols = {'xinds': out[0], 'yinds': out[1], 'travel_times': out[2]}
    if names and len(out) > 3:
        h.check(sorted(out[3]) == sorted(names), 'every tracked variable')
        for v in names:
            cols[v] = out[3].get(v, [])
    for k in cols:
        h.check(len(cols[k]) == len(lens), 'one entry per particle')
    return cols


def at(h, lens=(3,), names=(), default=False, form=int):
    r = h.load('routines')
    wd = data(h, lens, names)
    keep = {k: [list(q) for q in v] for k, v in wd.items()}
    if default:
        it = -1
        out = r.get_state(wd)
    else:
        it = h.choose('iteration', max(list(lens) + [1]) + 2)
        out = r.get_state(wd, form(it))
    cols = parts(h, out, names, lens)
    for k in cols:
        for i, n in enumerate(lens):
            m = n - 1 if it < 0 or it >= n else it
            h.check(cols[k][i] == keep[k][i][m],
                    'the record at the iteration, or the last one: ' + k)
    unchanged(h, wd, keep)
    h.observe('x', cols['xinds'])


def when(h, lens=(3,), names=(), equal=False, sym=None):
    r = h.load('routines')
    wd = data(h, lens, names, sym=sym)
    if equal:
        for t in wd['travel_times']:
            if len(t) > 2:
                h.assume(t[1] == t[2])
    keep = {k: [list(q) for q in v] for k, v in wd.items()}
    T = h.real('T', -100, 1e6)
    out = r.get_time_state(wd, T)
    cols = parts(h, out, names, lens)
    for i, n in enumerate(lens):
        t = keep['travel_times'][i]
        g = cols['travel_times'][i]
        d = h.abs(g - T)
        h.check(h.all([d <= h.abs(q - T) + 1e-9 for q in t]),
                'the time nearest to the target')
        h.check(h.any([h.And(*[cols[k][i] == keep[k][i][m] for k in cols])
                       for m in range(n)]), 'one record of the particle')
    unchanged(h, wd, keep)


def configs(tier):
    out = []

    def add(name, fn=at, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    V = ('depth', 'roi_flag', 'stage')
    for lens in ((), (1,), (3,), (1, 4), (4, 2, 1)):
        s = '-'.join(map(str, lens))
        add('at-' + s, lens=lens)
        add('at-vars-' + s, lens=lens, names=V[:2])
        add('last-' + s, lens=lens, default=True, names=V[2:])
        add('when-' + s, when, lens=lens)
        add('when-vars-' + s, when, lens=lens, names=V[:1])
    add('at-float', lens=(3, 2), form=float)
    add('at-text', lens=(2, 1), form=str)
    add('when-equal', when, lens=(4, 3), equal=True)
    add('when-6', when, lens=(6,))
    add('at-large', lens=(14, 3) + (2,) * 9, names=V[:1])
    add('last-large', lens=(25,) + (2, 3) * 6, default=True, names=V[:1])
    add('when-large', when, lens=(12, 2))
    add('when-many', when, lens=(2, 3) * 6, sym=(11,), names=V[:1])
    if tier == 'thorough':
        add('when-long', when, lens=(8,), names=V)
        add('when-three', when, lens=(4, 3, 5), names=V)
        add('at-many', lens=(5, 1, 3, 6), names=V)
    return out
