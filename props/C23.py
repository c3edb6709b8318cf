"""Simulation drivers advance, save and return the same history."""
import copy
import os
from . import lib
from .C11 import mk, field
from .env import Env

BOUNDS = ('one to three particles and one to three iterations or time steps '
          'on 5x6 and 6x6 grids, every random draw, weighted and '
          'steepest-descent routing; fields read as csv, npy or npz')
ASSUMPTIONS = ['the drawing calls are recorded, not executed; field files '
               'are read through a stand-in that returns the fields of the '
               'harness; at least one iteration']


def pairs(h, v):
    f = h.items(v)
    return [(f[i], f[i + 1]) for i in range(0, len(f), 2)]


def shown(h, call):
    """the (column, row) positions of a drawing call"""
    i, n, a, k = call
    if n.endswith('scatter'):
        a = list(a) + [k[q] for q in ('x', 'y') if q in k]
        return list(zip(h.items(h.np.array(a[0])), h.items(h.np.array(a[1]))))
    return pairs(h, a[0])


def pictures(h, env, states, colors=False):
    saves = env.calls('savefig')
    h.check(len(saves) == len(states), 'one picture per iteration')
    if len(saves) != len(states):
        return
    last = -1
    for i, (s, (xs, ys, ts)) in enumerate(zip(saves, states)):
        h.check(os.path.basename(str(s[2][0])) == 'output%d.png' % i,
                'pictures are numbered')
        draws = [c for c in env.calls('scatter', 'set_offsets')
                 if last < c[0] < s[0]]
        ok = []
        for c in draws:
            p = shown(h, c)
            if len(p) == len(xs):
                ok.append(h.all([h.And(a == y, b == x) for (a, b), x, y in
                                 zip(p, xs, ys)]))
        h.check(h.any(ok), 'pictures show the current positions')
        if colors:
            ok = []
            for c in env.calls('scatter', 'set_array'):
                if not last < c[0] < s[0]:
                    continue
                v = c[3].get('c') if c[1].endswith('scatter') else c[2][0]
                if v is None or isinstance(v, str):
                    continue
                v = h.items(h.np.array(v))
                if len(v) == len(ts):
                    ok.append(h.all([a == b for a, b in zip(v, ts)]))
            h.check(h.any(ok), 'coloured by the current times')
        last = s[0]


def equal(h, a, b, label):
    h.check(sorted(a) == sorted(b), label)
    for k in b:
        if k not in a:
            continue
        h.check(len(a[k]) == len(b[k]), label)
        for p, q in zip(a[k], b[k]):
            h.check(len(p) == len(q) and
                    h.all([h.same(x, y) for x, y in zip(p, q)]), label)


def state(wd):
    return [[q[-1] for q in wd[k]] for k in ('xinds', 'yinds',
                                             'travel_times')]


def steady(h, which='steady_plots', steps=2, starts=((2, 2),), steep=False,
           names=None, seed=0, save=True, cwd=False, prior=0, L=5, W=6):
    with Env(h, cwd=cwd) as env:
        pt = h.load('particle_track')
        rt = h.load('routines')

        def model():
            p, _ = mk(h, pt, L, W, seed, steep, particle_variables=names)
            P = pt.Particles(p)
            P.generate_particles(len(starts), [a for a, b in starts],
                                 [b for a, b in starts], method='exact')
            h.fix_draws(0.375)
            for _ in range(prior):
                P.run_iteration()
            h.fix_draws(None)
            return P
        P = model()
        kw = {}
        if not cwd and save:
            kw['folder_name'] = env.dir + '/out'
        if not save:
            kw['save_output'] = False
        n = len(h.alldraws())
        out = getattr(rt, which)(P, steps, **kw)
        rec = list(h.alldraws()[n:])
        S = model()
        h.replay_draws(rec)
        states = []
        for _ in range(steps):
            wd = S.run_iteration()
            states.append(state(wd))
        left = len(h.queue or [])
        h.replay_draws([])
        h.check(left == 0, 'the requested iterations')
        equal(h, out, wd, 'the requested iterations')
        equal(h, P.walk_data, wd, 'the particles have advanced')
        if save:
            rel = ('data', 'data.txt')
            doc = env.saved(*(rel if cwd else ('out',) + rel))
            h.check(doc is not None, 'the walk data is saved')
            if doc is not None:
                equal(h, doc, wd, 'saves the history it returns')
            pictures(h, env, states, which == 'time_plots')
        else:
            h.check(not env.calls('savefig') and
                    os.listdir(env.dir) == [], 'nothing is saved')


def unsteady(h, kind='npy', steps=2, files=2, dt=4.0, starts=((2, 2),),
             free=(), n=1, listing='up', cwd=False, L=6, W=6,
             fixed=None):
    with Env(h, cwd=cwd, listing=listing) as env:
        pt = h.load('particle_track')
        rt = h.load('routines')
        F = []
        for i in range(files):
            D, S, Q, R = field(L, W, i)
            for (a, b) in free:
                D[a][b] = h.real('d%d_%d_%d' % (i, a, b), 0.5, 3)
            # non-DeltaRCM orientation: flow to larger rows
            F.append(dict(depth=D, stage=S, qx=R,
                          qy=[[-0.5 - x for x in r] for r in Q]))
        for i in range(files):
            A = {k: lib.arr(h, v) for k, v in F[i].items()}
            if kind == 'npz':
                env.put('in/data%02d.npz' % i, A)
            else:
                for k, v in A.items():
                    env.put('in/%s%02d.%s' % (k, i, kind), v)
        kw = {}
        if not cwd:
            kw['folder_name'] = env.dir + '/out'
        if fixed is not None:
            h.fix_draws(fixed)
        n0 = len(h.alldraws())
        sx, sy = [a for a, b in starts], [b for a, b in starts]
        out = rt.unsteady_plots(2.0, n, list(sx), list(sy), steps, dt,
                                env.dir + '/in', kind, **kw)
        rec = list(h.alldraws()[n0:])
        h.replay_draws(rec)
        states, wd = [], None
        for i in range(min(steps, files)):
            p = pt.modelParams()
            p.dx = 2.0
            for k, v in F[i].items():
                setattr(p, k, lib.arr(h, v))
            S = pt.Particles(p)
            if i == 0:
                S.generate_particles(n, list(sx), list(sy))
            else:
                S.generate_particles(0, [], [], previous_walk_data=wd)
            wd = S.run_iteration(target_time=dt * (i + 1))
            states.append(state(wd))
        left = len(h.queue or [])
        h.replay_draws([])
        h.check(left == 0, 'the requested time steps')
        equal(h, out, wd, 'each step on its own fields up to its time')
        rel = ('data', 'data.txt')
        doc = env.saved(*(rel if cwd else ('out',) + rel))
        h.check(doc is not None, 'the walk data is saved')
        if doc is not None:
            equal(h, doc, wd, 'saves the history it returns')
        pictures(h, env, states)
        back = [c for c in env.calls('imshow', 'set_data')]
        for i in range(min(steps, files)):
            sv = env.calls('savefig')
            if len(sv) != min(steps, files):
                break
            b = [c for c in back if c[0] < sv[i][0]]
            v = h.items(b[-1][2][0]) if b else []
            w = lib.flat(F[i]['depth'])
            h.check(len(v) == len(w) and
                    h.all([x == y for x, y in zip(v, w)]),
                    'background shows the depth of the step')


def configs(tier):
    out = []

    def add(name, fn=steady, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    T = 'time_plots'
    add('steady', names=['depth'])
    add('steady-prior', prior=2, steps=1)
    add('time-first', which=T, steps=1)
    add('steady-two', starts=((2, 2), (3, 3)), steep=True, steps=2,
        seed=1)
    add('steady-dry', save=False, steep=True)
    add('steady-cwd', cwd=True, steps=1, names=['u', 'qx'])
    add('steady-stuck', starts=((1, 1), (2, 3)), steep=True, prior=1)
    add('time', which=T)
    add('time-prior', which=T, prior=2, starts=((4, 3), (5, 5)), L=9, W=12,
        steep=True)
    add('time-prior-one', which=T, prior=1, steps=1, starts=((4, 3),), L=9,
        W=12)
    add('steady-prior-two', prior=2, starts=((4, 3), (5, 5)), L=9, W=12,
        steep=True)
    add('time-two', which=T, starts=((2, 2), (3, 3)), steep=True, steps=2,
        names=['depth'], seed=2)
    add('time-cwd', which=T, cwd=True, steep=True, steps=3)
    for k in ('npy', 'csv', 'npz'):
        add('unsteady-' + k, fn=unsteady, kind=k, listing='down')
    add('unsteady-one', fn=unsteady, steps=1, files=3, cwd=True,
        listing='mixed')
    add('unsteady-more', fn=unsteady, steps=4, files=2, dt=2.5)
    for k, x in enumerate((0.125, 0.5, 0.875)):
        add('unsteady-pair-%d' % k, fn=unsteady, n=2, dt=1.0, L=9, W=9,
            starts=((3, 4), (3, 4)), fixed=x)
        add('unsteady-long-%d' % k, fn=unsteady, n=2, dt=1.5, L=14, W=9,
            steps=4, files=5, starts=((3, 4), (2, 3)), fixed=x)
    if tier == 'thorough':
        add('steady-three', steps=3, steep=False, starts=((2, 2),))
        add('time-three', which=T, steps=3, seed=1)
        add('unsteady-two', fn=unsteady, n=2, starts=((2, 2), (3, 2)))
        add('unsteady-three', fn=unsteady, steps=3, files=3, dt=3.0)
        add('unsteady-free', fn=unsteady, free=((3, 2),))
    return out
