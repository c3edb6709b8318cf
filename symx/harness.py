"""Harness contexts (symbolic / concrete), path explorer and replay."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import types
import warnings
import numpy as np
import z3
from . import core as C
from . import nparr as A
from . import npshim
from . import shims
from . import sci
from .core import (Sym, SymNum, SymBool, Limitation, PathAbort, Budget,
                   Fraction, rv, iv)
from .loader import World, PKG

TOL = 1e-6


class Cut(Exception):
    """harness abandons this path (assumption false)"""


class ReplayTimeout(BaseException):
    pass


def _real_path():
    from matplotlib.path import Path
    return Path


class Base(object):
    symbolic = False

    def _setup(self):
        self.rng = shims.RandomStub(self)
        self.seeds = []
        self.failures = []
        self.checks = 0
        self.worlds = []

    fixed = None

    fixed_kinds = ('uniform', 'random', 'randint')

    def fix_draws(self, f, kinds=('uniform', 'random', 'randint')):
        """draws take the given fraction of their range from now on (for
        claims in which their value cannot matter), a tuple: in turns;
        None: free again"""
        self.fixed = f
        self.turn = 0
        self.fixed_kinds = kinds

    queue = None

    def replay_draws(self, draws):
        """the following draws repeat the given recorded ones"""
        self.queue = [list(d) for d in draws]

    def queued(self, kind):
        if not self.queue:
            return None
        k, low, high, v = self.queue.pop(0)
        return v

    def alldraws(self):
        return self.c.draws if self.symbolic else self.draws

    def fixed_draw(self, kind, low, high):
        f = self.fixed
        if isinstance(f, tuple):
            f = f[self.turn % len(f)]
            self.turn += 1
        if kind == 'randint':
            return int(low) + int(f * (int(high) - int(low)))
        return low + (high - low) * f

    def make_world(self, extra=None):
        rng = self.rng
        if self.symbolic:
            npm = npshim.NumpyProxy(rng)
            over = dict(shims.SYM_BUILTINS)
        else:
            npm = shims.ConcNumpy(rng)
            over = {}
        stubs = {'numpy': npm, 'numpy.random': rng,
                 'tqdm': shims.TqdmModule(),
                 'random': shims.PyRandomStub(rng)}
        if self.symbolic:
            stubs['math'] = shims.MathProxy()
            stubs.update(sci.modules())
        plt = shims.Recorder('plt')
        rec = shims.Recorder('mpl', plt._log)
        stubs.update({'matplotlib': rec, 'matplotlib.pyplot': plt,
                      'mpl_toolkits': shims.Recorder('mplt')})
        rec.pyplot = plt
        rec.path = types.SimpleNamespace(
            Path=sci.Path if self.symbolic else _real_path())
        if extra:
            stubs.update(extra)
        w = World(stubs, over)
        if self.symbolic:
            stubs['builtins'] = shims.BuiltinsProxy(w.builtins)
        w.np = npm
        w.plt = plt
        self.worlds.append(w)
        return w

    def load(self, name, extra=None):
        if not self.worlds or extra is not None:
            self.make_world(extra)
        return self.worlds[-1].load(name)

    @property
    def np(self):
        if not self.worlds:
            self.make_world()
        return self.worlds[-1].np

    def seeded(self, s):
        self.seeds.append(s)

    # logical helpers usable in both modes
    def all(self, xs):
        return self.And(*list(xs))

    def any(self, xs):
        return self.Or(*list(xs))

    def ite(self, c, a, b):
        if isinstance(c, Sym):
            return C.n_ite(c, a, b)
        return a if c else b

    def And(self, *xs):
        return C.s_and(*xs)

    def Or(self, *xs):
        return C.s_or(*xs)

    def Not(self, x):
        return C.s_not(x)

    def implies(self, a, b):
        return C.s_or(C.s_not(a), b)

    def iff(self, a, b):
        return C.s_or(C.s_and(a, b), C.s_and(C.s_not(a), C.s_not(b)))

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = C.n_max(r, x) if isinstance(r, Sym) or isinstance(x, Sym) \
                else (x if x > r else r)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = C.n_min(r, x) if isinstance(r, Sym) or isinstance(x, Sym) \
                else (x if x < r else r)
        return r

    def abs(self, x):
        return C.n_abs(x) if isinstance(x, Sym) else abs(x)

    def isnan(self, x):
        if isinstance(x, Sym):
            return C.n_isnan(x)
        try:
            return bool(x != x)
        except Exception:
            return False

    def isfinite(self, x):
        if isinstance(x, Sym):
            return C.n_isfinite(x)
        return bool(math.isfinite(x))

    def sqrt(self, x):
        if isinstance(x, Sym):
            return C.n_sqrt(x)
        return math.sqrt(x)

    def arctan2(self, y, x):
        if isinstance(x, Sym) or isinstance(y, Sym):
            return C.n_arctan2(y, x)
        return math.atan2(y, x)

    def sin(self, x):
        return C.n_sin(x)

    def cos(self, x):
        return C.n_cos(x)

    def pow(self, x, e):
        if isinstance(x, Sym):
            return C.n_pow(x, e)
        return x ** e

    def gauss(self, arr, sigma):
        """the Gaussian filter itself"""
        if self.symbolic:
            return sci.gaussian_filter(arr, sigma)
        from scipy.ndimage import gaussian_filter
        return gaussian_filter(arr, sigma)

    def sorted(self, xs):
        """ascending order without forking"""
        xs = list(xs)
        if not any(isinstance(x, Sym) for x in xs):
            return sorted(xs)
        return npshim.net_sorted(xs)

    def quantile(self, xs, q):
        """linearly interpolated quantile, q in [0, 1] concrete"""
        s = self.sorted(xs)
        pos = q * (len(s) - 1)
        k = int(math.floor(pos))
        fr = pos - k
        if k + 1 >= len(s) or fr == 0:
            return s[min(k, len(s) - 1)]
        return s[k] + (s[k + 1] - s[k]) * fr

    def floor(self, x):
        return C.n_floor_i(x)

    def close(self, a, b, tol=None, scale=None):
        """|a-b| <= tol*scale (scale 1+|b| if concrete, given otherwise)"""
        t = tol if tol is not None else TOL
        if not self.symbolic:
            t = t * 0.6
        d = self.abs(a - b)
        if scale is None:
            if not isinstance(b, Sym):
                scale = 1 + abs(float(b))
            elif not isinstance(a, Sym):
                scale = 1 + abs(float(a))
            else:
                scale = 1
            if not self.symbolic:
                scale = 1 + abs(float(b))
        return d <= t * scale

    def same(self, a, b):
        """equal or both nan"""
        return self.Or(self.And(self.isnan(a), self.isnan(b)), a == b)

    def items(self, arr):
        """flat list of elements of an array"""
        if isinstance(arr, A.MaskedSel):
            arr = arr.materialize()
        if isinstance(arr, A.SymArray):
            return arr.elems()
        return np.asarray(arr).ravel().tolist()

    def at(self, arr, *ix):
        r = arr[ix if len(ix) > 1 else ix[0]]
        return r

    def check_all(self, conds, label):
        for c in conds:
            self.check(c, label)

    def raises(self, exc, f, *a, **k):
        """True iff f raises one of exc"""
        try:
            f(*a, **k)
        except exc:
            return True
        return False


class SymH(Base):
    symbolic = True

    def __init__(self, cx):
        self.c = cx
        self._setup()
        self.names = set()

    def _reg(self, name, t, kind, nanflag=None):
        if name in self.names:
            raise Limitation("duplicate input " + name)
        self.names.add(name)
        self.c.inputs.append((name, t, kind, nanflag))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             nan=False, py=True):
        t = z3.Real(name)
        fl = z3.Bool(name + '?nan') if nan else False
        self.c.ranges[name] = (lo, hi)
        self._reg(name, t, 'r', fl if nan else None)
        if lo is not None:
            self.c.add(t > rv(lo) if lo_open else t >= rv(lo))
        if hi is not None:
            self.c.add(t < rv(hi) if hi_open else t <= rv(hi))
        return SymNum(t, 'f', nan=fl, py=py)

    def int(self, name, lo, hi, py=True):
        t = z3.Int(name)
        self.c.ranges[name] = (lo, hi)
        self._reg(name, t, 'i')
        self.c.add(t >= lo)
        self.c.add(t <= hi)
        return SymNum(t, 'i', py=py)

    def bool(self, name):
        t = z3.Bool(name)
        self._reg(name, t, 'b')
        return SymBool(t)

    def choose(self, name, n):
        """concrete int in range(n), all explored"""
        return int(self.int(name, 0, n - 1))

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def arr(self, a, dtype=None):
        return A.as_sym(np.array(a) if not isinstance(a, np.ndarray) else a,
                        dtype, copy=True)

    def mkarray(self, flat, shape, dtype):
        o = np.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            o[i] = x
        o = o.reshape(shape)
        l = A.norm_dtype(dtype) or A.infer_ldt(o)
        for ix in np.ndindex(o.shape):
            o[ix] = A.cast_scalar(o[ix], l)
            if isinstance(o[ix], SymNum) and o[ix].py:
                s = o[ix]
                o[ix] = SymNum(s.t, s.k, s.nan, s.pinf, s.ninf, False, s.ang)
        return A.mk(o, l)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.c.add(c.b)
        elif not c:
            raise PathAbort()

    def draw(self, kind, low, high):
        i = len(self.c.draws)
        if self.queue:
            v = self.queued(kind)
            self.c.draws.append((kind, low, high, v))
            return v
        if self.fixed is not None and kind in self.fixed_kinds:
            v = self.fixed_draw(kind, low, high)
            self.c.draws.append((kind, low, high, v))
            return v
        name = 'rng!%d' % i
        if kind == 'randint':
            lo, hi = int(low), int(high)
            v = self.int(name, lo, hi - 1)
        elif kind == 'normal':
            v = self.real(name, -8, 8)
            v = low + v * high
        else:
            t = z3.Real(name)
            self._reg(name, t, 'r')
            v = SymNum(t, 'f', py=True)
            lo_, hi_ = C._parts(low), C._parts(high)
            if (lo_[2] is not False or hi_[2] is not False or
                    hi_[3] is not False):
                if bool(C.n_isnan(low)) or bool(C.n_isnan(high)) or \
                        bool(C.n_isinf(high)):
                    raise OverflowError("Range exceeds valid bounds")
            cl = v >= low
            ch = (v < high) if kind == 'random' else (v <= high)
            self.assume(C.s_or(C.s_and(cl, ch),
                               C.s_and(high < low, v <= low, v >= high)))
        self.c.draws.append((kind, low, high, v))
        return v

    def check(self, cond, label):
        self.checks += 1
        b = C.bt(cond)
        self.c.obligations.append((label, b, len(self.c.pc)))

    def cover(self, label):
        self.c.covers.add(label)

    def observe(self, name, v):
        self.c.observed.append((name, v))

    def fail(self, label):
        self.check(False, label)


class ConcH(Base):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self._setup()
        self.ndraw = 0
        self.draws = []
        self.observed = []
        self.covers = set()
        self.used = {}

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             nan=False, py=True):
        v = self.values.get(name)
        if v == 'nan':
            v = float('nan')
        elif v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
            if lo_open:
                v = lo + 1 if hi is None else (lo + hi) / 2.0
        v = float(Fraction(v)) if v == v else v
        self.used[name] = v
        return v if py else np.float64(v)

    def int(self, name, lo, hi, py=True):
        v = self.values.get(name)
        v = lo if v is None else int(Fraction(v))
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.values.get(name, False))
        self.used[name] = v
        return v

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def arr(self, a, dtype=None):
        return np.array(a, dtype={'f': float, 'i': int, 'b': bool}.get(
            dtype, dtype))

    def mkarray(self, flat, shape, dtype):
        l = A.norm_dtype(dtype)
        d = {'f': float, 'i': int, 'b': bool}.get(l)
        return np.array(flat, dtype=d).reshape(shape)

    def assume(self, c):
        if not c:
            raise Cut()

    def draw(self, kind, low, high):
        if self.queue:
            v = self.queued(kind)
            self.ndraw += 1
            self.draws.append((kind, low, high, v))
            return v
        if self.fixed is not None and kind in self.fixed_kinds:
            v = self.fixed_draw(kind, low, high)
            self.ndraw += 1
            self.draws.append((kind, low, high, v))
            return v
        name = 'rng!%d' % self.ndraw
        self.ndraw += 1
        v = self.values.get(name)
        if kind == 'randint':
            v = int(low) if v is None else int(Fraction(v))
            v = min(max(v, int(low)), int(high) - 1)
        elif kind == 'normal':
            v = 0.0 if v is None else float(Fraction(v))
            v = low + v * high
        else:
            lo, hi = float(low), float(high)
            if not (math.isfinite(lo) and math.isfinite(hi)):
                raise OverflowError("Range exceeds valid bounds")
            v = 0.5 * (lo + hi) if v is None else float(Fraction(v))
            if hi >= lo:
                v = min(max(v, lo), hi)
            if kind == 'random' and v >= 1.0:
                v = 1.0 - 2.0 ** -53
        self.draws.append((kind, float(low), float(high), v))
        self.used[name] = v
        return v

    def check(self, cond, label):
        self.checks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not bool(cond):
            self.failures.append(label)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, v):
        self.observed.append((name, v))

    def fail(self, label):
        self.check(False, label)


# ---------------------------------------------------------------- utilities
class Alarm(object):
    def __init__(self, seconds, exc):
        self.s, self.exc = seconds, exc

    def __enter__(self):
        def h(sig, fr):
            raise self.exc()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, max(0.05, self.s), 1.0)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


_funcs = set()
_mon = [False]


def monitor():
    """collect names of the package's functions that are executed"""
    if _mon[0]:
        return
    _mon[0] = True
    M = sys.monitoring
    try:
        M.use_tool_id(4, 'symx')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(PKG):
            q = code.co_qualname
            if q != '<module>':
                _funcs.add(os.path.basename(fn)[:-3] + '.' + q)
        return M.DISABLE
    M.register_callback(4, M.events.PY_START, start)
    M.set_events(4, M.events.PY_START)


def model_inputs(cx, m):
    vals = {}
    for name, t, kind, nanflag in cx.inputs:
        if nanflag is not None:
            if z3.is_true(m.eval(nanflag, model_completion=True)):
                vals[name] = 'nan'
                continue
        v = m.eval(t, model_completion=True)
        if kind == 'b':
            vals[name] = z3.is_true(v)
        elif kind == 'i':
            vals[name] = v.as_long()
        else:
            vals[name] = str(C.model_fraction(m, t))
    return vals


def nicify(cx, extra, m, budget=4.0):
    """move the model to nearby dyadic values where the solver allows it"""
    t0 = time.time()
    pins = []
    cur = m
    for name, t, kind, nanflag in cx.inputs:
        if kind != 'r':
            continue
        if time.time() - t0 > budget:
            break
        v = C.model_fraction(cur, t)
        done = False
        for bits in (0, 3, 10):
            q = Fraction(round(v * 2 ** bits), 2 ** bits)
            if q == v:
                pins.append(t == rv(q))
                done = True
                break
            r, m2 = cx.query(extra + pins + [t == rv(q)], timeout_s=1)
            if r == 'sat':
                pins.append(t == rv(q))
                cur = m2
                done = True
                break
        if not done:
            q = Fraction(float(v))
            r, m2 = cx.query(extra + pins + [t == rv(q)], timeout_s=1)
            if r == 'sat':
                pins.append(t == rv(q))
                cur = m2
    return cur


def diverse(cx, rnd, budget=3.0):
    """another model of the path, with its inputs spread over their ranges"""
    t0 = time.time()
    pins = []
    r, m = cx.query([], timeout_s=3)
    if r != 'sat':
        return None
    inp = list(cx.inputs)
    rnd.shuffle(inp)
    for name, t, kind, nanflag in inp:
        if time.time() - t0 > budget:
            break
        lo, hi = cx.ranges.get(name, (None, None))
        lits = []
        if kind == 'b':
            lits.append(t if rnd.random() < 0.5 else z3.Not(t))
        elif lo is None or hi is None:
            continue
        elif kind == 'i':
            lits.append(t == rnd.randint(int(lo), int(hi)))
        else:
            q = Fraction(round((lo + (hi - lo) * rnd.random()) * 8), 8)
            lits.append(t == rv(q))
            if nanflag is not None:
                lits.append(nanflag if rnd.random() < 0.2
                            else z3.Not(nanflag))
        for l in lits:
            r, m2 = cx.query(pins + [l], timeout_s=1)
            if r == 'sat':
                pins.append(l)
                m = m2
    return m


def run_concrete(fn, kw, values, timeout=20):
    """-> (outcome, ConcH, info); outcome in ok/fail/exc/cut/timeout"""
    old = C.CTX
    C.CTX = None
    h = ConcH(values)
    try:
        with Alarm(timeout, ReplayTimeout), warnings.catch_warnings(), \
                np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(h, **kw)
    except Cut:
        return ('fail' if h.failures else 'cut'), h, ''
    except Limitation as e:
        return 'cut', h, str(e)
    except ReplayTimeout:
        return 'timeout', h, 'did not terminate in %d s' % timeout
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if f.filename.startswith(PKG)]
        if not loc:
            # harness-level failure on values returned by the code
            where = tb[-1]
            return 'exc', h, '%s: %s (harness %s:%d)' % (
                type(e).__name__, e, os.path.basename(where.filename),
                where.lineno)
        return 'exc', h, '%s: %s at %s:%d' % (
            type(e).__name__, e, os.path.basename(loc[-1].filename),
            loc[-1].lineno)
    finally:
        C.CTX = old
    return ('fail' if h.failures else 'ok'), h, ''


def sym_value(m, v):
    """evaluate an observed symbolic value under a model"""
    def ev(b):
        if b is True or b is False:
            return b
        return z3.is_true(m.eval(b, model_completion=True))
    if isinstance(v, SymBool):
        return ev(v.b)
    if isinstance(v, SymNum):
        if ev(v.nan):
            return float('nan')
        if ev(v.pinf):
            return float('inf')
        if ev(v.ninf):
            return -float('inf')
        return float(C.model_fraction(m, v.t))
    if isinstance(v, A.SymArray):
        return [sym_value(m, x) for x in v.elems()]
    if isinstance(v, np.ndarray):
        return v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [sym_value(m, x) for x in v]
    if isinstance(v, dict):
        return {k: sym_value(m, x) for k, x in v.items()}
    return v


def obs_terms(cx):
    out = []

    def go(v):
        if isinstance(v, SymBool):
            if not isinstance(v.b, bool):
                out.append(v.b)
        elif isinstance(v, SymNum):
            out.append(v.t)
            out.extend(b for b in (v.nan, v.pinf, v.ninf)
                       if not isinstance(b, bool))
        elif isinstance(v, A.SymArray):
            for x in v.elems():
                go(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                go(x)
        elif isinstance(v, dict):
            for x in v.values():
                go(x)
    for _, v in cx.observed:
        go(v)
    return out


def exact_for(cx, m, extra=()):
    terms = obs_terms(cx)
    defs = [d for d in cx.cone(cx.pc + terms) if d.exact]
    if defs:
        mm = cx.pinned(list(extra), defs, m, 4)
        if mm is not None:
            return mm
    return m


def plain(v):
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.ravel().tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    return v


def flatten_obs(v, out):
    if isinstance(v, (list, tuple)):
        for x in v:
            flatten_obs(x, out)
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            flatten_obs(v[k], out)
    else:
        out.append(v)
    return out


def agree(a, b):
    x, y = flatten_obs(a, []), flatten_obs(b, [])
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        try:
            p, q = float(p), float(q)
        except (TypeError, ValueError):
            if p != q:
                return False
            continue
        if p != p or q != q:
            if (p != p) != (q != q):
                return False
            continue
        if math.isinf(p) or math.isinf(q):
            if p != q:
                return False
            continue
        if abs(p - q) > 1e-5 * (1 + abs(q)):
            return False
    return True


def _short(o):
    s = json.dumps(o, default=str, sort_keys=True)
    return s if len(s) < 1500 else s[:1500] + '...'


class Result(dict):
    pass


def explore(name, fn, kw, opts):
    """Symbolically execute harness fn over all paths within the budget."""
    monitor()
    t_start = time.time()
    budget = opts.get('budget', 60)
    stats = C.Stats()
    res = Result(config=name, paths=0, infeasible=0, decisions=0,
                 obligations=0, discharged=0, vacuous_paths=0,
                 witnesses=0, witness_match=0, inconclusive=[],
                 violations=[], covers=set(), samples=[], uf=set(),
                 concretised=0, unconfirmed=[], mismatches=[],
                 complete=True)
    work = [[]]
    deadline = t_start + budget
    maxpaths = opts.get('max_paths', 100000)
    nwit = 0
    nspread = 0
    nobatch = []
    cls_seen = set()

    def note(kind, msg):
        l = res['inconclusive']
        if len(l) < 40:
            l.append('%s: %s' % (kind, msg))
        res['n_inconclusive'] = res.get('n_inconclusive', 0) + 1

    def confirm(cx, extra, m, label, tries=3):
        """replay a model; True when the real code shows the violation"""
        tried = []
        for attempt in range(tries):
            if attempt == 1:
                try:
                    m = nicify(cx, extra, m)
                except (Limitation, Budget):
                    continue
            elif attempt == 2:
                # another model away from the first
                lits = []
                for nme, t, kind, nf in cx.inputs:
                    if kind == 'r':
                        v = m.eval(t, model_completion=True)
                        lits.append(t != v)
                try:
                    r, m2 = cx.query(extra + [z3.Or(lits)] if lits
                                     else extra, timeout_s=5)
                    if r != 'sat':
                        break
                    m = nicify(cx, extra, m2)
                except (Limitation, Budget):
                    break
            try:
                vals = model_inputs(cx, m)
            except Limitation:
                continue
            out, h, info = run_concrete(fn, kw, vals)
            tried.append((out, info))
            if out in ('fail', 'exc', 'timeout'):
                lab = h.failures[0] if h.failures else (
                    'no-exception' if out == 'exc' else 'termination')
                return dict(config=name, label=lab, sym_label=label,
                            info=info or ', '.join(
                                sorted(set(h.failures))[:6]),
                            values=vals, draws=len(h.draws))
        return None

    def run_path(prefix):
        nonlocal nwit
        cx = C.Ctx(prefix, stats, dict(opts, deadline=deadline))
        C.CTX = cx
        h = SymH(cx)
        status, err = 'ok', None
        try:
            with Alarm(min(opts.get('path_s', 120),
                           max(1, deadline - time.time())), Budget), \
                    warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn(h, **kw)
        except PathAbort:
            status = 'infeasible'
        except Cut:
            status = 'infeasible'
        except Limitation as e:
            status, err = 'limit', str(e)
        except Budget:
            status, err = 'budget', 'time budget'
        except RecursionError as e:
            status, err = 'limit', 'recursion'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(PKG)] or tb
            status = 'exc'
            err = '%s: %s at %s:%d' % (type(e).__name__, e,
                                       os.path.basename(loc[-1].filename),
                                       loc[-1].lineno)
            if opts.get('debug'):
                traceback.print_exc()
        res['decisions'] += len(cx.trace)
        if status == 'infeasible':
            res['infeasible'] += 1
            return cx
        res['paths'] += 1
        res['covers'] |= cx.covers
        res['uf'] |= cx.uf_used
        if cx.concretized:
            res['concretised'] += 1
        if status == 'budget':
            note('budget', err)
            res['complete'] = False
            return cx
        try:
            finish(cx, h, status, err)
        except Budget:
            note('budget', 'during solving')
            res['complete'] = False
        except Limitation as e:
            note('limit', str(e))
        return cx

    def finish(cx, h, status, err):
        cx.deadline = max(deadline, time.time() + 20)
        if witness(cx, h, status, err):
            if status == 'limit' and not res['violations']:
                # decide what was claimed before the encoding gave up, and
                # try further inputs that take this path on the real code
                obligations(cx)
                spread(cx)
            return
        obligations(cx)

    def spread(cx):
        nonlocal nspread
        rnd = random.Random(1)
        for _ in range(6):
            if nspread >= 40 or time.time() > deadline or res['violations']:
                return
            nspread += 1
            try:
                m = diverse(cx, rnd)
                if m is None:
                    return
                vals = model_inputs(cx, m)
            except (Limitation, Budget):
                return
            out, ch, info = run_concrete(fn, kw, vals)
            if out in ('exc', 'fail', 'timeout'):
                lab = ch.failures[0] if ch.failures else (
                    'no-exception' if out == 'exc' else 'termination')
                if lab not in cls_seen:
                    cls_seen.add(lab)
                    res['violations'].append(dict(
                        config=name, label=lab, sym_label='path model',
                        info=info or ', '.join(sorted(set(ch.failures))),
                        values=vals, draws=len(ch.draws)))
                return

    def rounding(vals):
        """does a failure vanish next to values that floats cannot hold?"""
        for up in (0, 1):
            near, any_ = {}, False
            for k, v in vals.items():
                near[k] = v
                if isinstance(v, str) and v != 'nan':
                    f = Fraction(v)
                    q = Fraction(math.floor(f * 4096) + up, 4096)
                    if f.denominator > 2 ** 20 or \
                            f.denominator & (f.denominator - 1):
                        near[k] = str(q)
                        any_ = True
            if not any_:
                return False
            if run_concrete(fn, kw, near)[0] == 'ok':
                return True
        return False

    def witness(cx, h, status, err):
        """replay a model of the path; True when the path needs no more"""
        nonlocal nwit
        # --- witness
        if nwit >= opts.get('max_witness', 60) and status == 'ok':
            return False
        nwit += 1
        r, m = cx.get_model(terms=obs_terms(cx))
        if r == 'unsat':
            res['vacuous_paths'] += 1
            res['paths'] -= 1
            res['infeasible'] += 1
            return True
        if m is None:
            if status != 'ok':
                note(status, err)
            else:
                note('unknown', 'no witness for path')
            return status != 'ok'
        vals = model_inputs(cx, m)
        out, ch, info = run_concrete(fn, kw, vals)
        if out in ('exc', 'fail', 'timeout'):
            lab = ch.failures[0] if ch.failures else (
                'no-exception' if out == 'exc' else 'termination')
            # Is this the claim failing, or float rounding next to a
            # boundary of the real-number model?  Try a dyadic model too.
            m2 = nicify(cx, [], m)
            vals2 = model_inputs(cx, m2)
            out2, ch2, info2 = run_concrete(fn, kw, vals2)
            if out2 in ('exc', 'fail', 'timeout') and status == 'ok' and \
                    rounding(vals2):
                # the model sits on a boundary that floats cannot hit; the
                # obligations of the path are still decided exactly
                note('witness', 'rounding on a boundary')
                return False
            if out2 in ('exc', 'fail', 'timeout'):
                lab = ch2.failures[0] if ch2.failures else (
                    'no-exception' if out2 == 'exc' else 'termination')
                if lab not in cls_seen:
                    cls_seen.add(lab)
                    res['violations'].append(dict(
                        config=name, label=lab, sym_label='witness',
                        info=info2 or ', '.join(sorted(set(ch2.failures))),
                        values=vals2, draws=len(ch2.draws)))
                return True
            out, ch, info, vals, m = out2, ch2, info2, vals2, m2
        if status != 'ok':
            note(status, err)
            return True
        res['witnesses'] += 1
        if out == 'cut':
            note('witness', 'concrete run left the assumptions')
            return False
        ok = True
        if cx.observed:
            try:
                sv = [(n, sym_value(m, v)) for n, v in cx.observed]
                ok = agree([v for _, v in sv],
                           [plain(v) for _, v in ch.observed])
            except Limitation:
                ok = True
            if not ok:
                m2 = exact_for(cx, nicify(cx, [], m))
                vals2 = model_inputs(cx, m2)
                out, ch, info = run_concrete(fn, kw, vals2)
                sv = [(n, sym_value(m2, v)) for n, v in cx.observed]
                ok = out == 'ok' and agree(
                    [v for _, v in sv], [plain(v) for _, v in ch.observed])
                vals = vals2
        if ok:
            res['witness_match'] += 1
            if len(res['samples']) < 2:
                res['samples'].append(dict(config=name, values={
                    k: vals[k] for k in list(vals)[:12]},
                    observed=_short(plain([o for o in ch.observed[:3]]))))
        else:
            if len(res['mismatches']) < 5:
                res['mismatches'].append(dict(
                    values=vals, sym=_short(sv),
                    conc=_short([(n, plain(v)) for n, v in ch.observed])))
            note('mismatch', 'symbolic and concrete observations differ')
        return status != 'ok'

    def obligations(cx):
        # --- obligations
        obl = [(l, b) for l, b, _ in cx.obligations]
        res['obligations'] += len(obl)
        pend = []
        for l, b in obl:
            if b is True:
                res['discharged'] += 1
                continue
            if b is not False:
                b = z3.simplify(b)
                if z3.is_true(b):
                    res['discharged'] += 1
                    continue
            pend.append((l, b))
        violated = False
        if pend:
            bad = C.b_or(*[C.b_not(b) for _, b in pend])
            stats.queries += 1
            batch = opts.get('batch', True) and not nobatch
            r = 'unknown'
            if batch:
                r, m = cx.query([bad], timeout_s=opts.get('assert_s', 20))
                if r == 'unknown':
                    nobatch.append(1)
            if r == 'unsat':
                res['discharged'] += len(pend)
                if opts.get('cross'):
                    stats.cross += 1
                    fs = list(cx.pc) + [C.b_term(bad)]
                    for d in cx.cone(fs):
                        fs += d.axioms + d.exact
                    if C.cvc5_check(fs, 30) == 'sat':
                        stats.cross_bad += 1
            else:
                if r == 'sat':
                    for l, b in pend:
                        if b is False or z3.is_false(
                                m.eval(b, model_completion=True)):
                            break
                    if l not in cls_seen:
                        v = confirm(cx, [C.b_term(bad)], m, l)
                        if v:
                            violated = True
                            cls_seen.add(l)
                            cls_seen.add(v['label'])
                            res['violations'].append(v)
                for l, b in pend:
                    if l in cls_seen:
                        continue
                    stats.queries += 1
                    nb = C.b_term(C.b_not(b))
                    r, m = cx.query([nb], timeout_s=opts.get('assert_s', 20))
                    if r == 'unsat':
                        res['discharged'] += 1
                    elif r == 'sat':
                        v = confirm(cx, [nb], m, l)
                        if v:
                            violated = True
                            cls_seen.add(l)
                            cls_seen.add(v['label'])
                            res['violations'].append(v)
                        else:
                            res['unconfirmed'].append(l)
                            note('unconfirmed', l)
                            if opts.get('debug'):
                                print('UNCONFIRMED', l, model_inputs(cx, m))
                    else:
                        # undecided: the solver's best candidate may still
                        # be a real counterexample
                        g = cx.guess
                        v = confirm(cx, [nb], g, l, tries=1) \
                            if g is not None else None
                        if v:
                            cls_seen.add(l)
                            cls_seen.add(v['label'])
                            res['violations'].append(v)
                        else:
                            note('unknown', l)

    while work:
        if time.time() > deadline or res['paths'] >= maxpaths:
            res['complete'] = False
            note('budget', '%d pending branches' % len(work))
            break
        if len(res['violations']) >= 3:
            break
        prefix = work.pop()
        cx = run_path(prefix)
        C.CTX = None
        work.extend(cx.alts)
    res['wall'] = time.time() - t_start
    res['queries'] = stats.queries
    res['branch_queries'] = stats.branch_queries
    res['exact_queries'] = stats.exact_queries
    res['solver_s'] = stats.solver_s
    res['unknown'] = stats.unknown
    res['cross'] = stats.cross
    res['cross_bad'] = stats.cross_bad
    res['functions'] = sorted(_funcs)
    res['covers'] = sorted(res['covers'])
    res['uf'] = sorted(res['uf'])
    return dict(res)
