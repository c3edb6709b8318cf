"""Stand-ins for the environment of the code under test (both modes):
random numbers, builtins, math, tqdm, plotting."""
import builtins
import math
import os
import types
import numpy as np
from . import core as C
from . import nparr as A
from .core import Sym, SymNum, SymBool, Limitation


# ------------------------------------------------------------------- random
class RandomStub(types.ModuleType):
    """numpy.random whose draws are inputs of the harness."""

    def __init__(self, h):
        types.ModuleType.__init__(self, 'numpy.random')
        self.__dict__['h'] = h
        self.__dict__['Generator'] = RandomStub
        self.__dict__['RandomState'] = lambda seed=None: self._stream(seed)
        self.__dict__['default_rng'] = lambda seed=None: self._stream(seed)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Limitation("numpy.random." + n)

    def _stream(self, seed):
        self.h.seeded(seed)
        return self

    def _many(self, f, size):
        if size is None:
            return f()
        sh = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        n = int(np.prod(sh))
        return self.h.mkarray([f() for _ in range(n)], sh, None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if A.isinstance_array(low) or A.isinstance_array(high):
            lo, hi = np.broadcast_arrays(A.as_sym(low), A.as_sym(high)) \
                if self.h.symbolic else np.broadcast_arrays(low, high)
            return self.h.mkarray(
                [self.h.draw('uniform', lo.flat[i], hi.flat[i])
                 for i in range(lo.size)], lo.shape, None)
        return self._many(lambda: self.h.draw('uniform', low, high), size)

    def random(self, size=None):
        return self._many(lambda: self.h.draw('random', 0, 1), size)

    def random_sample(self, size=None):
        return self.random(size)

    ranf = sample = random_sample

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._many(lambda: self.h.draw('randint', low, high), size)

    def integers(self, low, high=None, size=None, dtype=int,
                 endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return self._many(lambda: self.h.draw('randint', low, high), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(lambda: self.h.draw('normal', loc, scale), size)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape if shape else None)

    def choice(self, a, size=None, replace=True, p=None):
        def one():
            seq = list(range(int(a))) if isinstance(a, (int, np.integer)) \
                else list(a)
            if p is None:
                return seq[int(self.h.draw('randint', 0, len(seq)))]
            ps = list(p)
            u = self.h.draw('random', 0, 1)
            acc = 0
            for x, w in zip(seq, ps):
                acc = acc + w
                if u < acc:
                    return x
            return seq[-1]
        return self._many(one, size)

    def shuffle(self, x):
        n = len(x)
        for i in range(n - 1, 0, -1):
            j = int(self.h.draw('randint', 0, i + 1))
            x[i], x[j] = x[j], x[i]

    def permutation(self, x):
        l = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(l)
        return self.h.mkarray(l, (len(l),), None)

    def seed(self, s=None):
        self.h.seeded(s)

    def spawn(self, n):
        return [self for _ in range(n)]

    def get_state(self, *a, **k):
        return ('STUB',)

    def set_state(self, *a, **k):
        return None

    class SeedSequence(object):
        def __init__(self, entropy=None, **k):
            self.entropy = entropy

        def spawn(self, n):
            return list(range(n))

        def generate_state(self, n, dtype=None):
            return np.arange(n)


class PyRandomStub(object):
    def __init__(self, rs):
        self.rs = rs

    def random(self):
        return self.rs.random()

    def uniform(self, a, b):
        return self.rs.uniform(a, b)

    def randint(self, a, b):
        return self.rs.randint(a, b + 1)

    def randrange(self, a, b=None):
        return self.rs.randint(a, b)

    def choice(self, s):
        return self.rs.choice(list(s))

    def seed(self, s=None):
        self.rs.seed(s)


class ConcNumpy(types.ModuleType):
    """real numpy with scripted random draws"""

    def __init__(self, random):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['random'] = random

    def __getattr__(self, n):
        return getattr(np, n)


# ----------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.k == 'f'
        return isinstance(x, float)

    def __subclasscheck__(cls, x):
        return issubclass(x, float)

    def __call__(cls, x=0.0):
        if isinstance(x, A.SymArray) and x.size == 1:
            x = x.elems()[0]
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, SymNum):
            return x.real().aspy()
        return float(x)

    def __getattr__(cls, n):
        return getattr(float, n)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    _symx_ldt = 'f'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.k == 'i' and x.py
        return isinstance(x, int)

    def __subclasscheck__(cls, x):
        return issubclass(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, A.SymArray) and x.size == 1:
            x = x.elems()[0]
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, SymNum):
            r = C.n_trunc(x)
            return r.aspy() if isinstance(r, SymNum) else r
        return int(x, *a)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    _symx_ldt = 'i'


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __call__(cls, x=False):
        return bool(x)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class SBool(metaclass=_BoolMeta):
    _symx_ldt = 'b'


def _ext(real, less):
    def f(*args, **kw):
        if kw.get('key') is not None:
            return real(*args, **kw)
        xs = args
        if len(args) == 1:
            xs = list(args[0])
            args = (xs,)
        if not any(isinstance(x, Sym) for x in xs):
            return real(*args, **kw)
        it = list(xs)
        r = it[0]
        for x in it[1:]:
            c = less(r, x)
            if isinstance(c, (SymBool, bool, np.bool_)):
                r = C.n_ite(c, x, r)
            else:
                r = x if c else r
        return r
    return f


s_max = _ext(max, lambda a, b: b > a)
s_min = _ext(min, lambda a, b: b < a)


def s_round(x, nd=None):
    if isinstance(x, SymNum):
        if nd is None:
            r = C.n_round(x)
            return r.aspy()
        return C.n_round(x, nd)
    return round(x) if nd is None else round(x, nd)


def s_abs(x):
    return C.n_abs(x) if isinstance(x, Sym) else abs(x)


def s_anyb(it):
    return any(it)


def s_type(*a):
    if len(a) == 1 and isinstance(a[0], SymNum):
        return SFloat if a[0].k == 'f' else SInt
    return type(*a)


class SymSet(object):
    """a set with symbolic members; forks on the equality of members"""
    __hash__ = None

    def __init__(self, it=()):
        self.l = []
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.l.append(x)

    def __contains__(self, x):
        for y in self.l:
            if y is x:
                return True
            c = (y == x)
            if c is NotImplemented or c is False:
                continue
            if bool(c):
                return True
        return False

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(list(self.l))

    def discard(self, x):
        for i, y in enumerate(self.l):
            if y is x or bool(y == x):
                del self.l[i]
                return

    def remove(self, x):
        n = len(self.l)
        self.discard(x)
        if len(self.l) == n:
            raise KeyError(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self.l)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def difference(self, o):
        o = SymSet(o)
        return SymSet(x for x in self.l if x not in o)

    __sub__ = difference

    def __rsub__(self, o):
        return SymSet(o) - self

    def intersection(self, o):
        o = SymSet(o)
        return SymSet(x for x in self.l if x in o)

    __and__ = __rand__ = intersection

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self.l)

    __le__ = issubset

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, SymSet))

    def __call__(cls, it=()):
        it = list(it)
        if any(isinstance(x, Sym) for x in it):
            return SymSet(it)
        return set(it)

    def __getattr__(cls, n):
        return getattr(set, n)

    def __eq__(cls, o):
        return o is cls or o is set

    def __hash__(cls):
        return hash(set)


class SSet(metaclass=_SetMeta):
    pass


SYM_BUILTINS = {'float': SFloat, 'int': SInt, 'bool': SBool, 'max': s_max,
                'min': s_min, 'round': s_round, 'abs': s_abs,
                'set': SSet}


class BuiltinsProxy(types.ModuleType):
    def __init__(self, d):
        types.ModuleType.__init__(self, 'builtins')
        self.__dict__['_d'] = d

    def __getattr__(self, n):
        try:
            return self._d[n]
        except KeyError:
            raise AttributeError(n)


# --------------------------------------------------------------------- math
def _m1(real, f):
    def g(x):
        if isinstance(x, A.SymArray) and x.size == 1:
            x = x.elems()[0]
        if isinstance(x, Sym):
            if isinstance(x, SymBool):
                x = x.num()
            r = f(x)
            return r.aspy() if isinstance(r, SymNum) else r
        return real(x)
    return g


def _msqrt(x):
    if bool(x < 0):
        raise ValueError("math domain error")
    return C.n_sqrt(x)


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        d = self.__dict__
        d['sqrt'] = _m1(math.sqrt, _msqrt)
        d['cos'] = _m1(math.cos, C.n_cos)
        d['sin'] = _m1(math.sin, C.n_sin)
        d['fabs'] = _m1(math.fabs, C.n_abs)
        d['floor'] = _m1(math.floor, C.n_floor_i)
        d['ceil'] = _m1(math.ceil, lambda a: -C.n_floor_i(-a))
        d['trunc'] = _m1(math.trunc, C.n_trunc)
        d['isnan'] = _m1(math.isnan, C.n_isnan)
        d['isinf'] = _m1(math.isinf, C.n_isinf)
        d['isfinite'] = _m1(math.isfinite, C.n_isfinite)
        d['exp'] = _m1(math.exp, lambda a: C.uf('exp', a))

        def atan2(y, x):
            if isinstance(y, Sym) or isinstance(x, Sym):
                return C.n_arctan2(y, x)
            return math.atan2(y, x)
        d['atan2'] = atan2

        def hypot(*xs):
            if any(isinstance(x, Sym) for x in xs):
                s = 0
                for x in xs:
                    s = s + x * x
                return C.n_sqrt(s)
            return math.hypot(*xs)
        d['hypot'] = hypot

        def pow_(a, b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return C.n_pow(a, b)
            return math.pow(a, b)
        d['pow'] = pow_

        def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
            if isinstance(a, Sym) or isinstance(b, Sym):
                d_ = abs(a - b)
                return C.s_or(d_ <= rel_tol * s_max(s_abs(a), s_abs(b)),
                              d_ <= abs_tol)
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d['isclose'] = isclose

        def fsum(xs):
            return sum(xs)
        d['fsum'] = fsum

    def __getattr__(self, n):
        return getattr(math, n)


# --------------------------------------------------------------- misc stubs
class TqdmModule(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'tqdm')
        self.__dict__['tqdm'] = self._t
        self.__dict__['trange'] = lambda *a, **k: range(*[int(x) for x in a])

    @staticmethod
    def _t(it=None, *a, **k):
        return it


class Recorder(types.ModuleType):
    """absorbs any attribute access / call; logs calls by dotted name"""

    def __init__(self, name='', log=None, ret=None):
        types.ModuleType.__init__(self, name or 'rec')
        self.__dict__['_n'] = name
        self.__dict__['_log'] = log if log is not None else []
        self.__dict__['_ret'] = ret or {}
        self.__dict__['_c'] = {}

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        c = self._c.get(n)
        if c is None:
            c = Recorder((self._n + '.' + n) if self._n else n, self._log,
                         self._ret)
            self._c[n] = c
        return c

    def __setattr__(self, n, v):
        self._c[n] = v

    def __call__(self, *a, **k):
        self._log.append((self._n, a, k))
        if self._n.endswith('savefig') and a and isinstance(a[0], str):
            d = os.path.dirname(a[0])      # drawing does not make folders
            if d and not os.path.isdir(d):
                raise FileNotFoundError(2, 'No such file or directory', a[0])
        f = self._ret.get(self._n) or self._ret.get(
            self._n.split('.')[-1])
        if f is not None:
            return f(self, *a, **k)
        return Recorder(self._n + '()', self._log, self._ret)

    def __iter__(self):
        return iter((Recorder(self._n + '[0]', self._log, self._ret),
                     Recorder(self._n + '[1]', self._log, self._ret)))

    def __getitem__(self, k):
        return Recorder(self._n + '[%s]' % (k,), self._log, self._ret)

    def __setitem__(self, k, v):
        self._log.append((self._n + '.__setitem__', (k, v), {}))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __len__(self):
        return 2

    def _arith(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _arith
    __truediv__ = __rtruediv__ = __neg__ = _arith

    def __bool__(self):
        return True

    def __float__(self):
        return 1.0

    def __mro_entries__(self, bases):
        return (object,)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return '<rec %s>' % self._n
