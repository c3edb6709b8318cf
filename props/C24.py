"""Path and state plots show the recorded positions."""
import os
from . import lib
from .C18 import data, unchanged
from .env import Env

BOUNDS = ('up to three particles with one to twelve records each (different '
          'lengths), every recorded position and time symbolic, intervals '
          '1 to 4, tails 1 to 4, iterations and any target time')
ASSUMPTIONS = ['the drawing calls are recorded, not executed']


def lines(h, env):
    """the polylines drawn, in order, as lists of (column, row)"""
    out = []
    for i, n, a, k in env.calls('LineCollection', 'plot'):
        if n.endswith('LineCollection'):
            for s in (a[0] if a else k.get('segments', [])):
                out.append((i, points(h, s)))
        else:
            out.append((i, list(zip(h.items(h.np.array(a[0])),
                                    h.items(h.np.array(a[1]))))))
    return out


def points(h, s):
    if hasattr(s, 'shape'):
        f = h.items(s)
        return [(f[q], f[q + 1]) for q in range(0, len(f), 2)]
    return [(p[0], p[1]) for p in s]


def eqline(h, a, b):
    return len(a) == len(b) and h.all([h.And(p[0] == q[0], p[1] == q[1])
                                       for p, q in zip(a, b)])


def background(h, env, G, frames=1):
    c = env.calls('imshow')
    h.check(len(c) == frames, 'the grid is shown')
    for q in c:
        v = h.items(q[2][0])
        h.check(len(v) == len(G) and h.all([x == y for x, y in zip(v, G)]),
                'the grid is shown')


def paths(h, lens=(3, 2), follow='all', interval=1, names=(), legend=False,
          cwd=True):
    with Env(h, cwd=cwd) as env:
        rt = h.load('routines')
        wd = data(h, lens, names)
        keep = {k: [list(q) for q in v] for k, v in wd.items()}
        h.fix_draws(0.5)
        G = [0.5, 1.0, 1.5, 2.0]
        kw = {}
        if interval != 1:
            kw['interval'] = interval
        if follow != 'all':
            kw['particles_to_follow'] = list(follow)
        if legend:
            kw['plot_legend'] = True
        name = 'travel_paths.png' if cwd else env.dir + '/p.png'
        if not cwd:
            kw['output_file'] = name
        rt.draw_travel_path(h.mkarray(G, (2, 2), 'f'), wd, **kw)
        sel = list(range(len(lens))) if follow == 'all' else list(follow)
        got = lines(h, env)
        h.check(len(got) == len(sel), 'one line per selected particle')
        for (i, g), p in zip(got, sel):
            want = list(zip(keep['yinds'][p], keep['xinds'][p]))[::interval]
            h.check(eqline(h, g, want),
                    'recorded positions, in order, at the interval')
        background(h, env, G)
        s = env.calls('savefig')
        h.check(len(s) == 1 and
                os.path.basename(str(s[0][2][0])) == os.path.basename(name),
                'saved to the given file')
        if legend:
            lg = env.calls('legend')
            h.check(len(lg) == 1 and [str(x) for x in lg[0][2][1]] ==
                    [str(p) for p in sel], 'legend names the particles')
        unchanged(h, wd, keep)


def one_state(h, lens=(3, 2), mode='time', names=()):
    with Env(h) as env:
        rt = h.load('routines')
        wd = data(h, lens, names)
        keep = {k: [list(q) for q in v] for k, v in wd.items()}
        G = [0.5, 1.0, 1.5, 2.0]
        grid = h.mkarray(G, (2, 2), 'f')
        it = None
        if mode == 'time':
            T = h.real('T', -100, 1e6)
            rt.plot_state(grid, wd, target_time=T)
        elif mode == 'last':
            rt.plot_state(grid, wd)
        elif mode == 'zero':
            T = 0
            rt.plot_state(grid, wd, target_time=0)
        else:
            it = h.choose('iteration', max(lens) + 2)
            rt.plot_state(grid, wd, it)
        c = env.calls('scatter')
        h.check(len(c) == 1, 'the positions are drawn')
        if len(c) != 1:
            return
        a = list(c[0][2]) + [c[0][3][q] for q in 'xy' if q in c[0][3]]
        u = h.items(h.np.array(a[0]))
        v = h.items(h.np.array(a[1]))
        h.check(len(u) == len(lens) and len(v) == len(lens),
                'one position per particle')
        if len(u) != len(lens) or len(v) != len(lens):
            return
        for p, n in enumerate(lens):
            X, Y = keep['xinds'][p], keep['yinds'][p]
            t = keep['travel_times'][p]
            if mode in ('time', 'zero'):
                ok = h.any([h.And(u[p] == Y[k], v[p] == X[k],
                                  *[h.abs(t[k] - T) <= h.abs(t[m] - T)
                                    for m in range(n)]) for k in range(n)])
                h.check(ok, 'position at the time')
            else:
                k = n - 1 if it is None else min(it, n - 1)
                h.check(h.And(u[p] == Y[k], v[p] == X[k]),
                        'position at the iteration')
        background(h, env, G)
        unchanged(h, wd, keep)


def snakes(h, lens=(6, 4), steps=3, interval=2, tail=2, names=(), cwd=False):
    with Env(h, cwd=cwd) as env:
        rt = h.load('routines')
        wd = data(h, lens, names, mono=False)
        keep = {k: [list(q) for q in v] for k, v in wd.items()}
        G = [0.5, 1.0, 1.5, 2.0]
        kw = dict(interval=interval, tail_length=tail)
        if not cwd:
            kw['folder_name'] = env.dir + '/out'
        rt.snake_plots(h.mkarray(G, (2, 2), 'f'), wd, steps, **kw)
        frames = []
        for ii in range(interval, steps * interval, interval):
            if not any(n >= ii for n in lens):
                break
            frames.append(ii)
        saves = env.calls('savefig')
        h.check(len(saves) == len(frames), 'one frame per interval')
        if len(saves) != len(frames):
            return
        L = lines(h, env)
        last = -1
        for s, ii in zip(saves, frames):
            h.check(os.path.basename(str(s[2][0])) == 'snakefig%d.png' % ii,
                    'frames are numbered')
            segs = [g for i, g in L if last < i < s[0]]
            last = s[0]
            there = [p for p, n in enumerate(lens) if n >= ii]
            h.check(len(segs) > 0, 'frames show segments')
            for g in segs:
                ok = []
                for p in there:
                    rec = list(zip(keep['yinds'][p], keep['xinds'][p]))
                    for a in range(0, ii):
                        b = a + interval
                        if len(g) == 2 and (b < ii or (a, b) == (0, 1)):
                            ok.append(eqline(h, g, [rec[a], rec[b]]))
                        if len(g) == 2 and a == 0 and len(rec) > 1 and \
                                interval != 1:
                            ok.append(eqline(h, g, rec[0:2]))
                        if len(g) < 2:
                            ok.append(eqline(h, g, rec[a:a + 1]))
                h.check(h.any(ok), 'segments of recorded positions')
            if ii > interval:
                for p in there:
                    rec = list(zip(keep['yinds'][p], keep['xinds'][p]))
                    h.check(h.any([eqline(h, g, [rec[ii - 1 - interval],
                                                 rec[ii - 1]])
                                   for g in segs]),
                            'the newest segment is drawn')
        unchanged(h, wd, keep)


def configs(tier):
    out = []

    def add(name, fn=paths, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    add('paths')
    add('paths-some', lens=(4, 1, 3), follow=(2, 0), names=('depth',))
    add('paths-interval', lens=(5, 7), interval=3, cwd=False, legend=True)
    add('paths-two', lens=(1, 6, 2), interval=2, follow=(1, 2), legend=True)
    add('paths-none', lens=(2,), follow=())
    add('state-time', fn=one_state, names=('depth',))
    add('state-time-three', fn=one_state, lens=(1, 3, 2))
    add('state-zero', fn=one_state, lens=(3, 1), mode='zero')
    add('state-last', fn=one_state, lens=(3, 1, 2), mode='last',
        names=('u', 'v'))
    add('state-it', fn=one_state, lens=(4, 2, 3), mode='it')
    add('snakes', fn=snakes)
    add('snakes-one', fn=snakes, lens=(4,), steps=5, interval=1, tail=3)
    add('snakes-long', fn=snakes, lens=(12, 9, 3), steps=4, interval=4,
        tail=3, names=('depth',))
    add('snakes-cwd', fn=snakes, lens=(7, 9), steps=4, interval=3, tail=1,
        cwd=True)
    add('paths-large', lens=(25, 3, 14), interval=5, follow=(2, 0))
    add('paths-twelve', lens=(2, 3) * 6, interval=1)
    add('state-large', fn=one_state, lens=(11, 2) + (3,) * 9, mode='last')
    add('state-large-it', fn=one_state, lens=(11, 2) + (13,) * 3, mode='it')
    add('snakes-large', fn=snakes, lens=(2, 30) + (3,) * 6, steps=11,
        interval=3, tail=5)
    if tier == 'thorough':
        add('state-many', fn=one_state, lens=(5, 4, 5))
        add('snakes-many', fn=snakes, lens=(16, 11, 13), steps=6,
            interval=3, tail=4, names=('depth',))
        add('paths-many', lens=(12, 9, 11), interval=2)
    return out
