"""Exposure-time curves are valid distributions."""
import re
from . import lib
from .env import Env, number

BOUNDS = ('one to four particles with any exposure times (of which up to '
          'three are free) and any end times, 3 to 6 points on the smooth '
          'curves, time units 1 s to 1 day and odd ones; up to 25 '
          'particles with one free exposure time')
ASSUMPTIONS = ['the drawing, saving and logging calls are recorded, not '
               'executed', 'travel times are positive']


def walk(h, ends, extra):
    n = len(ends)
    wd = {'xinds': [[1, 2]] * n, 'yinds': [[1, 1]] * n,
          'travel_times': [[0.0, e] for e in ends]}
    if extra:
        wd['depth'] = [[0.5, 0.25]] * n
    return wd


def xy(h, call):
    i, n, a, k = call
    return h.items(a[0]), h.items(a[1])


def run(h, times=('s',), ends=('s',), td=1, nb=3, uniform=False, save=True,
        show=False, which='plot_exposure_time', extra=False, cwd=False,
        hi=100):
    with Env(h, cwd=cwd) as env:
        rt = h.load('routines')
        E = [h.real('e%d' % i, 0, hi) if t == 's' else float(t)
             for i, t in enumerate(times)]
        T = [h.real('t%d' % i, 0.5, hi) if t == 's' else float(t)
             for i, t in enumerate(ends)]
        n = len(T)
        wd = walk(h, T, extra)
        kw = dict(timedelta=td, nbins=nb, save_output=save,
                  uniform_timesteps=uniform)
        if not cwd and save:
            kw['folder_name'] = env.dir + '/out'
        if show:
            kw['show_thresholds'] = True
        getattr(rt, which)(wd, list(E), **kw)
        end = (h.max if uniform else h.min)(*T)
        inc = [h.And(e > 1e-6, e < 0.99 * end) for e in E]
        # the path decides which of them are on the curve
        pts = h.sorted([e for e, c in zip(E, inc) if bool(c)])
        m = len(pts)
        full = [0.0] + pts + [end]
        frac = [float(k) / n for k in range(m + 1)] + [float(m) / n]
        full_curve = which == 'plot_exposure_time'
        lines = env.calls('step')
        plots = env.calls('plot')
        if full_curve:
            h.check(len(lines) == 1 and len(plots) == 2, 'the three curves')
            if len(lines) != 1 or len(plots) != 2:
                return
            x, y = xy(h, lines[0])
            h.check(len(x) == m + 2 and len(y) == m + 2, 'number of rises')
            if len(x) == m + 2 and len(y) == m + 2:
                h.check(h.all([h.close(a * td, b, 1e-9, scale=1 + hi)
                               for a, b in zip(x, full)]),
                        'rises at the exposure times')
                h.check(h.all([h.close(a, b, 1e-9)
                               for a, b in zip(y, frac)]),
                        'one over the number of particles each')
            h.check(lines[0][3].get('where') == 'post',
                    'steps up at the time')
        else:
            h.check(len(plots) == 1, 'the curve')
            if len(plots) != 1:
                return
        grid = [end * k / (nb - 1) for k in range(nb)]
        x, y = xy(h, plots[0])
        h.check(len(x) == nb and len(y) == nb, 'number of points')
        if len(x) == nb and len(y) == nb:
            h.check(h.all([h.close(a * td, b, 1e-9, scale=1 + hi)
                           for a, b in zip(x, grid)]),
                    'evenly spaced to the end time')
            h.check(h.all([a <= b for a, b in zip(y, y[1:])]),
                    'never decreases')
            for k in range(nb):
                lo = sum(h.ite(p <= grid[k] * (1 - 1e-9), 1, 0)
                         for p in pts)
                up = sum(h.ite(p <= grid[k] * (1 + 1e-9), 1, 0)
                         for p in pts)
                h.check(h.And(y[k] * n >= lo - 1e-9, y[k] * n <= up + 1e-9),
                        'share of particles up to the time')
        if full_curve:
            x, y = xy(h, plots[1])
            h.check(len(x) == nb and len(y) == nb, 'number of points')
            if len(x) == nb and len(y) == nb:
                h.check(h.all([h.close(a * td, b, 1e-9, scale=1 + hi)
                               for a, b in zip(x, grid)]),
                        'evenly spaced to the end time')
                # where several rises fall on one time, any value between
                # the ends of the jump is on the curve
                lo, up = [], []
                for k, v in enumerate(grid):
                    if k in (0, nb - 1):
                        lo.append(frac[-1] if k else 0.0)
                        up.append(lo[-1])
                        continue
                    i = 0
                    while i < m and bool(full[i + 1] < v):
                        i += 1
                    j = i
                    while j < m and bool(full[j + 1] <= v):
                        j += 1
                    lo.append(frac[i] + (frac[i + 1] - frac[i]) /
                              (full[i + 1] - full[i]) * (v - full[i]))
                    up.append(lo[-1] if j == i else
                              h.ite(full[j] == v, frac[j], lo[-1]))
                dt = end / (nb - 1)
                tol = 1e-7 * (1 + td)
                for k in range(nb):
                    a, b = max(k - 1, 0), min(k + 1, nb - 1)
                    d = y[k] * dt * (b - a)
                    h.check(h.And(d >= (lo[b] - up[a]) * td - tol,
                                  d <= (up[b] - lo[a]) * td + tol),
                            'derivative of the linear curve')
        if show or not full_curve:
            thresholds(h, env, full, frac, x if full_curve else x, td, m, n,
                       plots[0], full_curve)
        for c in env.calls('set_xlabel', 'xlabel'):
            unit = {1: '[s]', 60: '[m]', 3600: '[hr]',
                    86400: '[day]'}.get(td, '[%s s]' % td)
            h.check(unit in c[2][0], 'labelled with the time unit')
        if save and full_curve:
            rel = ('data', 'exposure_times.txt')
            doc = env.saved(*(rel if cwd else ('out',) + rel))
            h.check(doc is not None and len(doc) == len(E) and
                    h.all([a == b for a, b in zip(doc or [], E)]),
                    'saves the exposure times')
        h.check(h.all([a[-1] == b for a, b in
                       zip(wd['travel_times'], T)]), 'walk data unchanged')


def thresholds(h, env, full, frac, grid, td, m, n, plot, exact):
    """the reported times at which the curve reaches the levels"""
    xs, ys = xy(h, plot)
    for lv in (50, 75, 90):
        rep = [re.match(r'E%d: (.*)$' % lv, s).group(1)
               for s in env.log.lines if s.startswith('E%d: ' % lv)]
        h.check(len(rep) == 1, 'every level reported once')
        if len(rep) != 1:
            continue
        # the number of rises that reaches the level
        k = -(-lv * n // 100)
        if 'not reached' in rep[0]:
            h.check(m < k, 'not reached only if so')
            continue
        h.check(m >= k, 'not reached only if so')
        if m < k:
            continue
        t = number(h, rep[0])
        if exact:
            h.check(h.And(t * td >= full[k] * 0.99 - 1e-9,
                          t * td <= full[k] * 1.01 + 1e-9),
                    'time at which the level is reached')
        else:
            # first point of the curve at or after it, whole time units
            for i in range(len(xs)):
                first = h.And(ys[i] * 100 >= lv,
                              *([ys[i - 1] * 100 < lv - 1e-9] if i else []))
                h.check(h.implies(first, h.And(t <= xs[i] + 1e-6,
                                               t > xs[i] - 1 - 1e-6)),
                        'time at which the level is reached')


def configs(tier):
    out = []

    def add(name, **kw):
        out.append(dict(name=name, fn=run, kw=kw, opts=dict(sel=True)))
    T = 'plot_exposure_time_thresholds'
    add('one', times=('s',), ends=('s',))
    add('two', times=('s', 's'), ends=('s', 40), td=60, nb=3)
    add('two-uniform', times=('s', 5), ends=('s', 40), td=3600, nb=4,
        uniform=True, extra=True)
    add('three', times=('s', 7, 's'), ends=(50, 60, 55), td=86400, nb=4,
        save=False)
    add('ties', times=('s', 's', 3), ends=(20, 30, 40), td=10, nb=3,
        uniform=True)
    add('shown', times=('s', 's', 8, 2), ends=(50, 50, 60, 50), nb=3,
        show=True, save=False)
    add('shown-all', times=(3, 's'), ends=(50, 50), nb=3, show=True,
        td=60, cwd=True)
    add('thresholds-max', times=('s', 's'), ends=('s', 40), nb=3, which=T,
        save=False, uniform=True)
    add('thresholds', times=('s', 's'), ends=(50, 's'), nb=4, which=T,
        save=False)
    add('thresholds-four', times=('s', 3, 's', 8), ends=(50, 60, 50, 50),
        nb=4, which=T, td=2, extra=True)
    add('thresholds-ten', times=(1, 2, 3, 4, 5, 6, 7, 's', 8, 9),
        ends=(10.5,) * 10, nb=5, which=T, uniform=True)
    add('many', times=tuple((7 * i) % 29 for i in range(24)) + ('s',),
        ends=(50,) * 25, nb=7, show=True, save=False)
    add('thresholds-many', times=tuple((5 * i) % 31 for i in range(19)) +
        ('s',), ends=(40, 60) * 10, nb=9, which=T, uniform=True, td=60)
    for td in (60, 3600, 86400, 7):
        add('thresholds-%d' % td, times=('s', 3), ends=(400000, 500000),
            hi=300000, nb=3, which=T, td=td)
        add('unit-%d' % td, times=('s', 3), ends=(400000, 500000),
            hi=300000, nb=3, td=td, save=False)
    if tier == 'thorough':
        add('three-free', times=('s', 's', 's'), ends=('s', 60, 55),
            nb=4)
        add('fine', times=('s', 's'), ends=('s', 60), nb=6, extra=True)
        add('thresholds-three', times=('s', 's', 's', 4), nb=6, which=T,
            ends=(50, 50, 50, 50))
    return out
