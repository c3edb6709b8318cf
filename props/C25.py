"""The deprecated verbosity switch maps onto log levels."""
import types
from . import lib
from .C23 import field
from .env import Env

BOUNDS = ('histories of up to four calls (level set by name, switch on, off '
          'or unset, in any order), any initial level, zero to two handlers '
          'attached before, with and without a given one; messages of any '
          'level')
ASSUMPTIONS = ['the logging library is replaced by a logger that keeps the '
               'level and the handlers; a message appears if its level is '
               'at least the logger\'s']
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40,
          'CRITICAL': 50}


class Handler(object):
    level = 0

    def __init__(self, *a, **k):
        self.fmt = None

    def setFormatter(self, f):
        self.fmt = f

    def setLevel(self, x):
        self.level = x


class Logger(object):
    def __init__(self, level, n, above=None):
        self.level = level
        # the logger above (the root logger of the program)
        self.parent = above
        self.handlers = [Handler() for _ in range(n)]
        self.propagate = True
        self.name = 'dorado'
        self.shown = []
        self.events = []

    def setLevel(self, x):
        if isinstance(x, str):
            x = LEVELS[x]
        self.level = x

    def addHandler(self, x):
        if x not in self.handlers:
            self.handlers.append(x)

    def removeHandler(self, x):
        if x in self.handlers:
            self.handlers.remove(x)

    def hasHandlers(self):
        return len(self.handlers) > 0 or (
            self.parent is not None and self.propagate
            and self.parent.hasHandlers())

    def isEnabledFor(self, x):
        return x >= self.level

    def getEffectiveLevel(self):
        return self.level

    def _at(self, x, msg, a):
        on = bool(self.isEnabledFor(x))
        self.events.append((x, on))
        if on:
            self.shown.append(msg % a if a else str(msg))

    def log(self, x, msg, *a, **k):
        self._at(x, msg, a)

    def info(self, msg, *a, **k):
        self._at(20, msg, a)

    def warning(self, msg, *a, **k):
        self._at(30, msg, a)

    def error(self, msg, *a, **k):
        self._at(40, msg, a)

    def debug(self, msg, *a, **k):
        self._at(10, msg, a)


def world(h, handlers, above=0):
    """the package with a recorded logging library"""
    root = Logger(30, above)
    root.name = 'root'
    lg = Logger(h.int('initial', 1, 60), handlers, root)
    m = types.ModuleType('logging')
    for n, v in LEVELS.items():
        setattr(m, n, v)
    m.NOTSET = 0
    m.WARN, m.FATAL = 30, 50
    m.root = root
    m.getLogger = lambda name=None: lg if name else root
    m.StreamHandler = m.Handler = m.NullHandler = Handler
    m.Formatter = lambda *a, **k: types.SimpleNamespace(a=a)
    m._nameToLevel = dict(LEVELS)
    m.getLevelNamesMapping = lambda: dict(LEVELS)
    m.getLevelName = lambda x: LEVELS.get(x, x)
    warned = []

    def warn(msg, category=UserWarning, *a, **k):
        warned.append((msg, category))
    w = types.ModuleType('warnings')
    w.warn = warn
    h.make_world(extra={'logging': m, 'warnings': w})
    return lg, warned


def history(h, n=3, handlers=0, given=False, above=0):
    lg, warned = world(h, handlers, above)
    root = lg.parent
    top = (root.level, list(root.handlers))
    lc = h.load('logging_config')
    want = lg.level
    hd = Handler()
    first = list(lg.handlers)
    own = None
    used = False
    for k in range(n):
        op = h.pick('op%d' % k, ['on', 'off', 'unset', 'INFO', 'error',
                                 'Critical', 'default'][:7])
        before = len(warned)
        if op in ('on', 'off', 'unset'):
            lc.handle_verbose_deprecation(
                {'on': True, 'off': False, 'unset': None}[op])
            if op != 'unset':
                want = 20 if op == 'on' else 40
            h.check(len(warned) - before == (0 if op == 'unset' else 1),
                    'warns once if and only if the switch is set')
            h.check(all(c is DeprecationWarning
                        for m, c in warned[before:]),
                    'a deprecation warning')
        else:
            a = [] if op == 'default' else [op]
            if given:
                if own is None and not first and not used:
                    own = hd
                lc.setup_logging(*a, handler=hd)
            else:
                lc.setup_logging(*a)
            want = 30 if op == 'default' else LEVELS[op.upper()]
            h.check(len(warned) == before, 'setting up does not warn')
        if op != 'unset':
            used = True
        h.check(lg.level == want, 'level')
        h.check((root.level, root.handlers) == top,
                'the loggers of the program are left alone')
        h.check(len(lg.handlers) == (max(len(first), 1) if used
                                     else len(first)),
                'one handler, however often it is set up')
        if own is not None:
            h.check(lg.handlers == [own], 'the given handler is used')
        else:
            h.check(lg.handlers[:len(first)] == first, 'handlers kept')
    x = h.int('message', 0, 70)
    lg.log(x, 'text')
    h.check(h.iff(bool(lg.shown), x >= want), 'messages from the level on')


def refused(h):
    """an unknown level name is refused and changes nothing"""
    lg, warned = world(h, 0)
    lc = h.load('logging_config')
    old = lg.level
    name = h.pick('name', ['LOUD', 'verbose!', 'INF'])
    h.check(h.raises(ValueError, lc.setup_logging, name), 'refused')
    h.check(lg.level == old, 'nothing changed')
    h.check(lg.handlers == [], 'nothing changed')


def note(h, how='get_state'):
    """the note about particles with a shorter history follows the switch"""
    lg, warned = world(h, 0)
    rt = h.load('routines')
    v = h.pick('switch', [True, False, None])
    old = lg.level
    wd = {'xinds': [[1, 2], [1]], 'yinds': [[1, 1], [2]],
          'travel_times': [[0.0, 2.0], [0.0]]}
    if how == 'get_state':
        rt.get_state(wd, 1, verbose=v)
    else:
        rt.get_time_state(wd, 1.5, verbose=v)
    on = {True: True, False: False, None: old <= 20}[v]
    h.check(h.iff(bool(lg.shown), on), 'the note is shown if switched on')
    h.check(len(warned) == (0 if v is None else 1), 'warns if set')


def routine(h, which='unsteady', again=False):
    """routines with the switch: unset changes nothing, on and off decide
    which of their own messages appear"""
    with Env(h) as env:
        lg = Logger(h.int('initial', 1, 60), 0)
        warned = []
        w = types.ModuleType('warnings')
        w.warn = lambda msg, category=UserWarning, *a, **k: \
            warned.append((msg, category))
        m = env.w.mods['dorado.logging_config']
        m.logger = lg
        m.warnings = w
        pt, rt = h.load('particle_track'), h.load('routines')
        if hasattr(pt, 'warnings'):
            pt.warnings = w
        h.fix_draws(0.4)
        L = W = 6
        D, S, Q, R = field(L, W)
        v = h.pick('switch', [True, False, None])
        f = env.dir + ('' if again else '/out')
        p = pt.modelParams()
        p.dx, p.depth, p.stage = 2.0, lib.arr(h, D), lib.arr(h, S)
        p.qx, p.qy = lib.arr(h, Q), lib.arr(h, R)
        wd = {'xinds': [[1, 2, 3], [1, 2, 2]], 'yinds': [[1, 1, 1], [2, 2, 2]],
              'travel_times': [[0.0, 2.0, 4.0], [0.0, 1.0, 5.0]]}
        if which in ('steady_plots', 'time_plots'):
            P = pt.Particles(p)
            P.generate_particles(1, [2], [2])
        lg.events = []
        del warned[:]
        old = lg.level
        if which == 'unsteady':
            for k, x in zip(('depth', 'stage', 'qx', 'qy'), (D, S, R, Q)):
                env.put('in/%s0.npy' % k, lib.arr(h, x))
            rt.unsteady_plots(2.0, 1, [2], [2], 2 if again else 1, 3.0,
                              env.dir + '/in', 'npy', folder_name=f,
                              verbose=v)
        elif which == 'Particles':
            p.verbose = v
            pt.Particles(p)
        elif which == 'exposure_time':
            roi = lib.const(L, W, 1 if again else 0)
            pt.exposure_time(wd, lib.arr(h, roi, 'i'), verbose=v)
        elif which.startswith('plot_exposure'):
            getattr(rt, which)(wd, [1.0, 2.0] if again else [0.0, 0.0],
                               folder_name=f, verbose=v)
        elif which == 'snake_plots':
            rt.snake_plots(lib.arr(h, D), wd, 2, interval=1, folder_name=f,
                           verbose=v)
        else:
            getattr(rt, which)(P, 1, folder_name=f, verbose=v)
        dep = [c for _, c in warned if c is DeprecationWarning]
        if v is None:
            h.check(lg.level == old, 'unset changes nothing')
            h.check(dep == [], 'unset does not warn')
            h.check(h.all([h.iff(on, x >= old) for x, on in lg.events]),
                    'messages from the level on')
        else:
            want = 20 if v else 40
            h.check(lg.level == (want if dep else old),
                    'level as switched, with a warning')
            if which != 'Particles':
                h.check(h.all([on == (x >= want) for x, on in lg.events]),
                        'messages as switched')


def configs(tier):
    out = []

    def add(name, fn=history, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, opts=dict(sel=True)))
    add('calls')
    add('calls-attached', handlers=1)
    add('calls-two', handlers=2, n=2)
    add('calls-given', given=True)
    add('calls-given-attached', given=True, handlers=1, n=2)
    add('calls-program', above=1, n=2)
    add('calls-program-given', above=2, given=True, n=2)
    add('refused', fn=refused)
    add('note', fn=note)
    add('note-time', fn=note, how='get_time_state')
    for a in (False, True):
        for f in ('unsteady', 'steady_plots', 'time_plots', 'Particles',
                  'exposure_time', 'plot_exposure_time', 'snake_plots',
                  'plot_exposure_time_thresholds'):
            add('%s%s' % (f, '-again' if a else ''), fn=routine, which=f,
                again=a)
    if tier == 'thorough':
        add('calls-four', n=4)
        add('calls-given-four', n=4, given=True)
    return out
