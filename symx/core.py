"""Symbolic scalars, path exploration and solver access.

The real code is executed by the ordinary Python interpreter on operands of
the classes below.  A branch on a symbolic condition is decided by the solver;
when both sides are feasible the path forks (by re-execution with a decision
prefix).  Floats are modelled as reals (plus explicit nan/inf flags), ints as
mathematical integers.

Non-linear terms (products, quotients, square roots, non-integer powers of
symbolic values) are named by fresh variables.  The incremental solver only
sees sign/monotonicity axioms about them (an over-approximation, linear); the
exact defining equations are added when the over-approximation is satisfiable.
"""
import math
import time
import fractions
import numpy as _np
import z3

Fraction = fractions.Fraction
INF = float('inf')


class Limitation(BaseException):
    """The engine cannot encode something; the path is inconclusive."""


class PathAbort(BaseException):
    """The path is infeasible / cut."""


class Budget(BaseException):
    """Time budget exhausted."""


CTX = None     # current context


def ctx():
    if CTX is None:
        raise Limitation("symbolic value used outside a path")
    return CTX


# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if len(out) <= 4:
        out = _dedupe(out)
        if out is None:
            return False
    return out[0] if len(out) == 1 else z3.And(out)


def _dedupe(xs):
    """distinct terms, None if two are complementary"""
    seen, res = {}, []
    for x in xs:
        neg = z3.is_not(x)
        a = x.arg(0) if neg else x
        q = seen.get(a.get_id())
        if q is None:
            seen[a.get_id()] = (neg, a)
            res.append(x)
        elif q[0] != neg:
            return None
    return res


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if len(out) <= 4:
        out = _dedupe(out)
        if out is None:
            return True
    return out[0] if len(out) == 1 else z3.Or(out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    return z3.If(c, a, b)


def b_term(b):
    if b is True:
        return z3.BoolVal(True)
    if b is False:
        return z3.BoolVal(False)
    return b


_realcache = {}


def rv(x):
    """exact z3 Real numeral of a finite python number"""
    if isinstance(x, (float, _np.floating)):
        x = float(x)
    key = (x, 'r')
    r = _realcache.get(key)
    if r is None:
        f = Fraction(x) if not isinstance(x, Fraction) else x
        r = z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) \
            if f.denominator != 1 else z3.RealVal(f.numerator)
        _realcache[key] = r
    return r


def iv(x):
    key = (int(x), 'i')
    r = _realcache.get(key)
    if r is None:
        r = z3.IntVal(int(x))
        _realcache[key] = r
    return r


class Sym(object):
    __slots__ = ()
    __array_ufunc__ = None


def isbool(x):
    return isinstance(x, (bool, _np.bool_))


class SymBool(Sym):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().decide(self.b)

    def __and__(self, o):
        if not isinstance(o, (SymBool, bool, _np.bool_)):
            if _isarr(o):
                return _arrop('bitwise_and', self, o)
            if isinstance(o, (int, _np.integer)):
                return self.num() & o
            return NotImplemented
        return mkb(b_and(self.b, bt(o)))
    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (SymBool, bool, _np.bool_)):
            return _arrop('bitwise_or', self, o)
        return mkb(b_or(self.b, bt(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if not isinstance(o, (SymBool, bool, _np.bool_)):
            return NotImplemented
        return mkb(b_ite(bt(o), b_not(self.b), self.b))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(b_not(self.b))

    def num(self):
        return SymNum(z3.If(self.b, iv(1), iv(0)), 'i')

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            ob = bt(o)
            return mkb(b_ite(ob, self.b, b_not(self.b)))
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return '<symbool>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def astype(self, dt):
        return self.num()

    def item(self):
        return self


def _boolarith(name):
    def f(self, o):
        return getattr(self.num(), name)(o)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
           '__rmul__', '__truediv__', '__rtruediv__', '__lt__', '__le__',
           '__gt__', '__ge__', '__neg__'):
    if _n == '__neg__':
        setattr(SymBool, _n, lambda self: -self.num())
    else:
        setattr(SymBool, _n, _boolarith(_n))


def mkb(b):
    """python bool when constant, else SymBool"""
    if b is True or b is False:
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def bt(x):
    """z3-or-python bool of a truth value (no forking)"""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, SymNum):
        return (x != 0).b if isinstance(x != 0, SymBool) else bool(x != 0)
    if x is True or x is False:
        return x
    return bool(x)


def s_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def s_and(*xs):
    return mkb(b_and(*[bt(x) for x in xs]))


def s_or(*xs):
    return mkb(b_or(*[bt(x) for x in xs]))


def s_implies(a, b):
    return s_or(s_not(a), b)


# ----------------------------------------------------------------- numbers
def isnum(x):
    return isinstance(x, (int, float, _np.integer, _np.floating, _np.bool_,
                          Fraction))


def _parts(x):
    """(term, kind, nan, pinf, ninf) of any scalar, or None"""
    if isinstance(x, SymNum):
        return x.t, x.k, x.nan, x.pinf, x.ninf
    if isinstance(x, SymBool):
        x = x.num()
        return x.t, 'i', False, False, False
    if isinstance(x, (bool, _np.bool_)):
        return iv(int(x)), 'i', False, False, False
    if isinstance(x, (int, _np.integer)):
        return iv(int(x)), 'i', False, False, False
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return rv(0), 'f', True, False, False
        if x == INF:
            return rv(0), 'f', False, True, False
        if x == -INF:
            return rv(0), 'f', False, False, True
        return rv(x), 'f', False, False, False
    if isinstance(x, Fraction):
        return rv(x), 'f', False, False, False
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return _parts(x.item() if x.dtype != object else x[()])
    return None


def toreal(t, k):
    if k != 'i':
        return t
    if z3.is_int_value(t):
        return rv(t.as_long())
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and \
            z3.is_int_value(t.arg(2)):
        return z3.If(t.arg(0), rv(t.arg(1).as_long()),
                     rv(t.arg(2).as_long()))
    return z3.ToReal(t)


def _coerce(p, q):
    """terms of common sort"""
    if p[1] == q[1]:
        return p[0], q[0], p[1]
    return toreal(p[0], p[1]), toreal(q[0], q[1]), 'f'


def numeral(t):
    """Fraction if t is a numeral, else None"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class SymNum(Sym):
    __slots__ = ('t', 'k', 'nan', 'pinf', 'ninf', 'py', 'ang')

    def __init__(self, t, k, nan=False, pinf=False, ninf=False, py=False,
                 ang=None):
        self.t = t
        self.k = k
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.py = py
        self.ang = ang

    # --- info
    def flagged(self):
        return not (self.nan is False and self.pinf is False
                    and self.ninf is False)

    def fin(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    def aspy(self):
        return SymNum(self.t, self.k, self.nan, self.pinf, self.ninf, True,
                      self.ang)

    def real(self):
        """same value with kind 'f'"""
        if self.k == 'f':
            return self
        return SymNum(toreal(self.t, 'i'), 'f', py=self.py)

    # --- arithmetic
    def __add__(self, o):
        return n_add(self, o)

    def __radd__(self, o):
        return n_add(o, self)

    def __sub__(self, o):
        return n_sub(self, o)

    def __rsub__(self, o):
        return n_sub(o, self)

    def __mul__(self, o):
        return n_mul(self, o)

    def __rmul__(self, o):
        return n_mul(o, self)

    def __truediv__(self, o):
        return n_div(self, o)

    def __rtruediv__(self, o):
        return n_div(o, self)

    def __floordiv__(self, o):
        return n_floordiv(self, o)

    def __rfloordiv__(self, o):
        return n_floordiv(o, self)

    def __mod__(self, o):
        return n_mod(self, o)

    def __rmod__(self, o):
        return n_mod(o, self)

    def __divmod__(self, o):
        return n_floordiv(self, o), n_mod(self, o)

    def __rdivmod__(self, o):
        return n_floordiv(o, self), n_mod(o, self)

    def __pow__(self, o):
        return n_pow(self, o)

    def __rpow__(self, o):
        return n_pow(o, self)

    def __neg__(self):
        r = SymNum(-self.t, self.k, self.nan, self.ninf, self.pinf, self.py)
        if self.ang is not None:
            c, s = self.ang
            r.ang = (c, n_neg(s))
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        return n_abs(self)

    def __lt__(self, o):
        return n_lt(self, o)

    def __le__(self, o):
        return n_le(self, o)

    def __gt__(self, o):
        return n_lt(o, self, True)

    def __ge__(self, o):
        return n_le(o, self, True)

    def __eq__(self, o):
        return n_eq(self, o)

    def __ne__(self, o):
        if _isarr(o):
            return _arrop('not_equal', self, o)
        r = n_eq(self, o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __bool__(self):
        return bool(self != 0)

    def __and__(self, o):
        return int(self) & o

    def __hash__(self):
        if self.k == 'i':
            return hash(int(self))
        c = ctx()
        try:
            return hash(c.concretize(self))
        except Limitation:
            # compared with the other symbolic keys only (reported)
            c.concretized.append('hash')
            return 7

    def __index__(self):
        if self.k != 'i':
            raise TypeError("symbolic float cannot be interpreted as an "
                            "integer")
        return ctx().fork_int(self)

    def __int__(self):
        return ctx().fork_int(n_trunc(self))

    def __float__(self):
        return float(ctx().concretize(self))

    def __trunc__(self):
        return n_trunc(self)

    def __floor__(self):
        return n_floor_i(self)

    def __ceil__(self):
        return -n_floor_i(-self)

    def __round__(self, nd=None):
        return n_round(self, nd)

    def __complex__(self):
        raise Limitation("complex of symbolic")

    def __repr__(self):
        return '<sym>'

    def __str__(self):
        return self.__format__('')

    def __format__(self, spec):
        t = ctx().tokens
        t.append(self)
        return '<sym%d>' % (len(t) - 1)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Limitation("pickling a symbolic value")

    # numpy scalar-ish API
    def item(self):
        return self.aspy()

    def astype(self, dt):
        from . import nparr
        return nparr.cast_scalar(self, nparr.norm_dtype(dt))

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self
    max = min = mean = sum

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def is_integer(self):
        return mkb(z3.IsInt(toreal(self.t, self.k)))

    def conjugate(self):
        return self


def _py2(a, b):
    """python (ZeroDivisionError) semantics apply iff no numpy scalar is
    involved"""
    def f(x):
        if isinstance(x, SymNum):
            return x.py
        return not isinstance(x, (_np.generic, _np.ndarray))
    return f(a) and f(b)


def _num(x):
    p = _parts(x)
    return p


def conc_pair(a, b):
    return not isinstance(a, Sym) and not isinstance(b, Sym)


def _zero(x):
    return not isinstance(x, Sym) and x == 0


def _one(x):
    return not isinstance(x, Sym) and x == 1


def _mkres(t, k, nan, pinf, ninf, py):
    return SymNum(t, k, nan, pinf, ninf, py)


def _isarr(x):
    return isinstance(x, (_np.ndarray, list, tuple)) or \
        hasattr(x, '_symx_deferred')


def _arrop(name, a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        if hasattr(a, '_symx_deferred') or hasattr(b, '_symx_deferred'):
            return NotImplemented
        from . import nparr
        return nparr.ufunc_call(name, (a, b))
    return NotImplemented


def n_add(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('add', a, b)
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return NotImplemented
    py = _py2(a, b)
    ang = None
    if isinstance(a, SymNum) and a.ang is not None and not isinstance(b, Sym):
        ang = ang_shift(a.ang, b)
    elif isinstance(b, SymNum) and b.ang is not None and \
            not isinstance(a, Sym):
        ang = ang_shift(b.ang, a)
    if _zero(a) and isinstance(b, SymNum):
        return b if (p[1] == 'i' or b.k == 'f') and b.py == py else \
            SymNum(toreal(b.t, b.k) if p[1] == 'f' else b.t,
                   'f' if p[1] == 'f' else b.k, b.nan, b.pinf, b.ninf, py,
                   b.ang)
    if _zero(b) and isinstance(a, SymNum):
        return a if (q[1] == 'i' or a.k == 'f') and a.py == py else \
            SymNum(toreal(a.t, a.k) if q[1] == 'f' else a.t,
                   'f' if q[1] == 'f' else a.k, a.nan, a.pinf, a.ninf, py,
                   a.ang)
    x, y, k = _coerce(p, q)
    if p[2] is False and p[3] is False and p[4] is False and \
            q[2] is False and q[3] is False and q[4] is False:
        return SymNum(x + y, k, py=py, ang=ang)
    nan = b_or(p[2], q[2], b_and(p[3], q[4]), b_and(p[4], q[3]))
    nn = b_not(nan)
    return SymNum(x + y, k, nan, b_and(nn, b_or(p[3], q[3])),
                  b_and(nn, b_or(p[4], q[4])), py)


def n_neg(x):
    if isinstance(x, Sym):
        return -x
    return -x


def n_sub(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('subtract', a, b)
    if isinstance(b, SymBool):
        b = b.num()
    if a is b and isinstance(a, SymNum) and not a.flagged():
        return 0 if a.k == 'i' else 0.0
    return n_add(a, -b if isinstance(b, Sym) or isnum(b) and
                 not isbool(b) else -int(b) if isbool(b) else b)


def n_sign_const(x):
    if isinstance(x, Sym):
        return None
    return (x > 0) - (x < 0)


def n_mul(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('multiply', a, b)
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return NotImplemented
    py = _py2(a, b)
    fl = not (p[2] is False and p[3] is False and p[4] is False and
              q[2] is False and q[3] is False and q[4] is False)
    k = 'i' if p[1] == q[1] == 'i' else 'f'
    if not fl:
        if _zero(a) or _zero(b):
            return 0 if k == 'i' else 0.0
        if _one(a):
            return SymNum(toreal(q[0], q[1]) if k == 'f' else q[0], k, py=py,
                          ang=getattr(b, 'ang', None))
        if _one(b):
            return SymNum(toreal(p[0], p[1]) if k == 'f' else p[0], k, py=py,
                          ang=getattr(a, 'ang', None))
        x, y, k = _coerce(p, q)
        r = SymNum(t_mul(x, y), k, py=py)
        if isinstance(a, SymNum) and a.ang is not None and not \
                isinstance(b, Sym) and b == -1:
            r.ang = (a.ang[0], n_neg(a.ang[1]))
        elif isinstance(b, SymNum) and b.ang is not None and not \
                isinstance(a, Sym) and a == -1:
            r.ang = (b.ang[0], n_neg(b.ang[1]))
        return r
    x, y, k = _coerce(p, q)

    def z(t, f):
        return b_and(f, t == 0)
    fa = b_not(b_or(p[2], p[3], p[4]))
    fb = b_not(b_or(q[2], q[3], q[4]))
    ia, ib = b_or(p[3], p[4]), b_or(q[3], q[4])
    nan = b_or(p[2], q[2], b_and(ia, z(y, fb)), b_and(ib, z(x, fa)))
    nn = b_not(nan)
    apos = b_or(p[3], b_and(fa, x > 0))
    bpos = b_or(q[3], b_and(fb, y > 0))
    aneg = b_or(p[4], b_and(fa, x < 0))
    bneg = b_or(q[4], b_and(fb, y < 0))
    inf = b_and(nn, b_or(ia, ib))
    pinf = b_and(inf, b_or(b_and(apos, bpos), b_and(aneg, bneg)))
    ninf = b_and(inf, b_or(b_and(apos, bneg), b_and(aneg, bpos)))
    return SymNum(t_mul(x, y), k, nan, pinf, ninf, py)


def n_div(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('true_divide', a, b)
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return NotImplemented
    py = _py2(a, b)
    x, y = toreal(p[0], p[1]), toreal(q[0], q[1])
    cy = numeral(y)
    if py and not (cy is not None and cy != 0):
        if bool(n_eq(b, 0)):
            raise ZeroDivisionError("division by zero")
        bz = False
    else:
        bz = (y == 0) if cy is None else (cy == 0)
        if bz is True and q[2] is False and q[3] is False and q[4] is False:
            # x / 0 (numpy semantics; sign of zero taken as +)
            fa = b_not(b_or(p[2], p[3], p[4]))
            return SymNum(rv(0), 'f',
                          b_or(p[2], b_and(fa, x == 0)),
                          b_or(p[3], b_and(fa, x > 0)),
                          b_or(p[4], b_and(fa, x < 0)), py)
        if bz is not False and ctx().known(b_not(bz)):
            bz = False
    fl = not (p[2] is False and p[3] is False and p[4] is False and
              q[2] is False and q[3] is False and q[4] is False)
    if not fl and bz is False:
        if _zero(a):
            return 0.0
        if _one(b):
            return SymNum(x, 'f', py=py)
        return SymNum(t_div(x, y), 'f', py=py)
    fa = b_not(b_or(p[2], p[3], p[4]))
    fb = b_not(b_or(q[2], q[3], q[4]))
    ia, ib = b_or(p[3], p[4]), b_or(q[3], q[4])
    bz = b_and(fb, bz)
    az = b_and(fa, x == 0)
    nan = b_or(p[2], q[2], b_and(ia, ib), b_and(az, bz))
    nn = b_not(nan)
    apos = b_or(p[3], b_and(fa, x > 0))
    aneg = b_or(p[4], b_and(fa, x < 0))
    bneg = b_or(q[4], b_and(fb, y < 0))
    binf = b_and(nn, b_or(ia, bz))
    pinf = b_and(binf, b_or(b_and(apos, b_not(bneg)), b_and(aneg, bneg)))
    ninf = b_and(binf, b_or(b_and(apos, bneg), b_and(aneg, b_not(bneg))))
    val = t_div(x, y)
    if ib is not False:
        val = z3.If(b_term(ib), rv(0), val)
    return SymNum(val, 'f', nan, pinf, ninf, py)


def _cmp(a, b, op):
    if _isarr(a) or _isarr(b):
        return _arrop({'lt': 'less', 'le': 'less_equal',
                       'eq': 'equal'}[op], a, b)
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return NotImplemented
    x, y, _ = _coerce(p, q)
    if op == 'lt':
        r = x < y
    elif op == 'le':
        r = x <= y
    else:
        r = x == y
    r = z3.simplify(r) if False else r
    if p[2] is False and p[3] is False and p[4] is False and \
            q[2] is False and q[3] is False and q[4] is False:
        return mkb(r)
    nn = b_not(b_or(p[2], q[2]))
    fin = b_not(b_or(p[3], p[4], q[3], q[4]))
    if op == 'lt':
        return mkb(b_and(nn, b_or(b_and(p[4], b_not(q[4])),
                                  b_and(q[3], b_not(p[3])),
                                  b_and(fin, r))))
    if op == 'le':
        return mkb(b_and(nn, b_or(p[4], q[3], b_and(fin, r))))
    return mkb(b_and(nn, b_or(b_and(p[3], q[3]), b_and(p[4], q[4]),
                              b_and(fin, r))))


def n_lt(a, b, refl=False):
    if a is b and isinstance(a, SymNum):
        return False
    return _cmp(a, b, 'lt')


def n_le(a, b, refl=False):
    return _cmp(a, b, 'le')


def n_eq(a, b):
    if b is None or isinstance(b, str) or a is None:
        return False
    r = _cmp(a, b, 'eq')
    return r


def n_ite(c, a, b):
    """if c then a else b for scalar c"""
    c = bt(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool, _np.bool_)) and \
            isinstance(b, (SymBool, bool, _np.bool_)):
        return mkb(b_ite(c, bt(a), bt(b)))
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        # not numeric: must fork
        return a if ctx().decide(c) else b
    if conc_pair(a, b) and p[1] == q[1] and a == b:
        return a
    x, y, k = _coerce(p, q)
    if p[2] is True or p[3] is True or p[4] is True:
        t = y          # value of a irrelevant: flagged
    elif q[2] is True or q[3] is True or q[4] is True:
        t = x
    elif x.eq(y):
        t = x
    else:
        t = z3.If(c, x, y)
    return SymNum(t, k, b_ite(c, p[2], q[2]), b_ite(c, p[3], q[3]),
                  b_ite(c, p[4], q[4]), _py2(a, b))


def n_abs(a):
    if isinstance(a, SymBool):
        return a.num()
    if not isinstance(a, Sym):
        return abs(a)
    return SymNum(z3.If(a.t >= 0, a.t, -a.t), a.k, a.nan,
                  b_or(a.pinf, a.ninf), False, a.py)


def n_max(a, b):
    """numpy maximum semantics: nan propagates"""
    if conc_pair(a, b):
        if a != a:
            return a
        if b != b:
            return b
        return a if a >= b else b
    p, q = _parts(a), _parts(b)
    r = n_ite(n_le(b, a), a, b)      # nan -> picks b
    nan = b_or(p[2], q[2])
    if nan is False:
        return r
    return n_ite(mkb(nan), float('nan'), r)


def n_min(a, b):
    if conc_pair(a, b):
        if a != a:
            return a
        if b != b:
            return b
        return a if a <= b else b
    p, q = _parts(a), _parts(b)
    r = n_ite(n_le(a, b), a, b)
    nan = b_or(p[2], q[2])
    if nan is False:
        return r
    return n_ite(mkb(nan), float('nan'), r)


def n_isnan(a):
    if isinstance(a, SymNum):
        return mkb(a.nan)
    if isinstance(a, SymBool):
        return False
    return a != a


def n_isinf(a):
    if isinstance(a, SymNum):
        return mkb(b_or(a.pinf, a.ninf))
    if isinstance(a, SymBool):
        return False
    return abs(a) == INF


def n_isfinite(a):
    return s_not(s_or(n_isnan(a), n_isinf(a)))


def n_floor_i(a):
    """floor as integer kind"""
    if not isinstance(a, Sym):
        return math.floor(a)
    if a.k == 'i':
        return a
    return SymNum(z3.ToInt(a.t), 'i', py=a.py)


def n_trunc(a):
    if not isinstance(a, Sym):
        return int(a)
    if isinstance(a, SymBool):
        return a.num()
    if a.k == 'i':
        return a
    if a.flagged():
        if ctx().decide(b_term(b_not(a.fin()))):
            raise ValueError("cannot convert float NaN/inf to integer")
    return SymNum(z3.If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)), 'i',
                  py=a.py)


def n_round(a, nd=None):
    """python round / numpy rint: half to even"""
    if not isinstance(a, Sym):
        return round(a) if nd is None else round(a, nd)
    if a.k == 'i':
        return a
    if nd is not None:
        m = 10 ** int(nd)
        r = n_round(a * m)
        return r.real() / m
    if a.flagged():
        if ctx().decide(b_term(b_not(a.fin()))):
            raise ValueError("cannot convert float NaN/inf to integer")
    c = ctx()
    key = ('round', a.t.get_id())
    n = c.memo.get(key)
    if n is None:
        fl = z3.ToInt(a.t)
        fr = a.t - z3.ToReal(fl)
        half = rv(Fraction(1, 2))
        n = (z3.If(z3.Or(fr > half, z3.And(fr == half, fl % 2 == 1)),
                   fl + 1, fl), a.t)
        c.memo[key] = n
    return SymNum(n[0], 'i', py=a.py)


def n_floordiv(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('floor_divide', a, b)
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return NotImplemented
    if p[1] == 'i' and q[1] == 'i':
        if isinstance(b, Sym):
            if bool(n_eq(b, 0)):
                raise ZeroDivisionError
            b = int(b) if False else b
        cb = numeral(q[0])
        if cb is None:
            bb = ctx().fork_int(b)
            return n_floordiv(a, bb)
        if cb == 0:
            raise ZeroDivisionError
        if cb > 0:
            return SymNum(p[0] / q[0], 'i', py=_py2(a, b))
        return SymNum((-p[0]) / iv(-int(cb)), 'i', py=_py2(a, b))
    r = n_div(a, b)
    if not isinstance(r, Sym):
        return math.floor(r)
    return n_floor_i(r).real()


def n_mod(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('remainder', a, b)
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return NotImplemented
    f = n_floordiv(a, b)
    return a - f * b


def n_sqrt(a):
    if not isinstance(a, Sym):
        a = float(a)
        return math.sqrt(a) if a >= 0 else float('nan')
    a = a.real()
    s = t_sqrt(a.t)
    neg = b_and(a.fin(), a.t < 0)
    if neg is not False and ctx().known(b_not(neg)):
        neg = False
    return SymNum(s, 'f', b_or(a.nan, a.ninf, neg), a.pinf, False, a.py)


def n_hypot(a, b):
    return n_sqrt(n_add(n_mul(a, a), n_mul(b, b)) if not conc_pair(a, b)
                  else a * a + b * b)


def n_pow(a, b):
    if _isarr(a) or _isarr(b):
        return _arrop('power', a, b)
    if isinstance(b, SymNum):
        if b.k == 'i' and not isinstance(a, Sym):
            n = ctx().fork_int(b)
            return a ** n
        return uf('pow', a, b)
    if not isinstance(a, Sym):
        return a ** b
    e = float(b)
    if e == int(e) and abs(e) <= 8:
        n = int(abs(e))
        if n == 0:
            return 1.0 if (a.k == 'f' or e != b) else 1
        r = a
        for _ in range(n - 1):
            r = n_mul(r, a)
        if isinstance(b, (float, _np.floating)) and r.k == 'i':
            r = r.real()
        if e < 0:
            return n_div(1.0 if a.py else _np.float64(1.0), r)
        return r
    if e == 0.5:
        return n_sqrt(a)
    if e == 1.5:
        return n_mul(a, n_sqrt(a))
    a = a.real()
    t = t_pow(a.t, e)
    neg = b_and(a.fin(), a.t < 0)
    if neg is not False and ctx().known(b_not(neg)):
        neg = False
    return SymNum(t, 'f', b_or(a.nan, neg), a.pinf, False, a.py)


def uf(name, *args):
    """uninterpreted real function of scalars (congruence only)"""
    if not any(isinstance(x, Sym) for x in args):
        raise Limitation("uf on concrete")
    ts = []
    for x in args:
        p = _parts(x)
        ts.append(toreal(p[0], p[1]))
    c = ctx()
    c.uf_used.add(name)
    f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(ts) + 1)))
    return SymNum(f(*ts), 'f')


# ------------------------------------------------------------ angles
def ang_shift(ang, d):
    """(cos, sin) of angle + concrete d"""
    c, s = ang
    cd, sd = math.cos(d), math.sin(d)
    return (n_sub(c * cd, s * sd), n_add(s * cd, c * sd))


def n_arctan2(y, x):
    if conc_pair(y, x):
        return math.atan2(y, x)
    c = ctx()
    py_, px_ = _parts(y), _parts(x)
    for p in (py_, px_):
        if not (p[2] is False and p[3] is False and p[4] is False):
            bad = b_or(p[2], p[3], p[4])
            if not c.known(b_not(bad)) and bool(SymBool(bad)):
                if bool(SymBool(b_or(py_[2], px_[2]))):
                    return float('nan')
                raise Limitation("arctan2 of infinite values")
    ty, tx = toreal(py_[0], py_[1]), toreal(px_[0], px_[1])
    key = ('atan2', ty.get_id(), tx.get_id())
    m = c.memo.get(key)
    if m is None:
        r = t_sqrt(t_mul(tx, tx) + t_mul(ty, ty))
        # cos = x/r, sin = y/r (r == 0: angle 0)
        co = c.fresh('cos')
        si = c.fresh('sin')
        rr = c.fresh('atan')
        c.define([co, si], [tx, ty, r],
                 axioms=[co <= 1, co >= -1, si <= 1, si >= -1,
                         z3.Implies(tx > 0, co > 0),
                         z3.Implies(tx < 0, co < 0),
                         z3.Implies(z3.And(tx == 0, ty != 0), co == 0),
                         z3.Implies(ty > 0, si > 0),
                         z3.Implies(ty < 0, si < 0),
                         z3.Implies(z3.And(ty == 0, tx > 0), co == 1),
                         z3.Implies(z3.And(ty == 0, tx < 0), co == -1),
                         z3.Implies(z3.And(tx == 0, ty > 0), si == 1),
                         z3.Implies(z3.And(tx == 0, ty < 0), si == -1),
                         z3.Implies(z3.And(tx == 0, ty == 0), co == 1),
                         z3.Implies(ty == 0, si == 0)],
                 exact=[z3.If(r == 0, z3.And(co == 1, si == 0),
                              z3.And(co * r == tx, si * r == ty))],
                 op=('atan2', [(co, r, tx, r != 0), (si, r, ty, r != 0)]))
        pi = rv(math.pi)
        c.define([rr], [tx, ty],
                 axioms=[rr <= pi, rr >= -pi], exact=[])
        m = (co, si, rr, ty, tx)
        c.memo[key] = m
    return SymNum(m[2], 'f', ang=(SymNum(m[0], 'f'), SymNum(m[1], 'f')))


def n_cos(a):
    if not isinstance(a, Sym):
        return math.cos(a)
    if a.ang is not None:
        r = a.ang[0]
        return r
    return uf_bounded('cos', a)


def n_sin(a):
    if not isinstance(a, Sym):
        return math.sin(a)
    if a.ang is not None:
        return a.ang[1]
    return uf_bounded('sin', a)


def uf_bounded(name, a):
    r = uf(name, a)
    ctx().add_axiom(z3.And(r.t <= 1, r.t >= -1))
    return r


# ------------------------------------------------------- non-linear naming
def t_mul(x, y):
    cx, cy = numeral(x), numeral(y)
    if cx is not None or cy is not None:
        if cx is not None and cy is not None:
            f = cx * cy
            return rv(f) if z3.is_real(x) else iv(f)
        return x * y
    c = ctx()
    if x.get_id() > y.get_id():
        x, y = y, x
    key = ('mul', x.get_id(), y.get_id())
    m = c.memo.get(key)
    if m is not None:
        return m[0]
    real = z3.is_real(x)
    p = c.fresh('mul', real)
    ax = [z3.Implies(z3.And(x > 0, y > 0), p > 0),
          z3.Implies(z3.And(x < 0, y < 0), p > 0),
          z3.Implies(z3.And(x > 0, y < 0), p < 0),
          z3.Implies(z3.And(x < 0, y > 0), p < 0),
          z3.Implies(z3.Or(x == 0, y == 0), p == 0)]
    if x.eq(y):
        ax = [p >= 0, (p == 0) == (x == 0)]
    c.define([p], [x, y], ax, [p == x * y],
             op=('mul', [(x, y, p, None)]))
    c.memo[key] = (p, x, y)
    return p


def t_div(x, y):
    cy = numeral(y)
    if cy is not None and cy != 0:
        cx = numeral(x)
        if cx is not None:
            return rv(cx / cy)
        return x * rv(1 / cy)
    c = ctx()
    key = ('div', x.get_id(), y.get_id())
    m = c.memo.get(key)
    if m is not None:
        return m[0]
    q = c.fresh('div')
    ax = [z3.Implies(z3.And(x > 0, y > 0), q > 0),
          z3.Implies(z3.And(x < 0, y < 0), q > 0),
          z3.Implies(z3.And(x > 0, y < 0), q < 0),
          z3.Implies(z3.And(x < 0, y > 0), q < 0),
          z3.Implies(z3.And(x == 0, y != 0), q == 0),
          z3.Implies(z3.And(y > 0, x <= y), q <= 1),
          z3.Implies(z3.And(y > 0, x >= y), q >= 1)]
    c.define([q], [x, y], ax, [z3.Implies(y != 0, q * y == x)],
             op=('div', [(q, y, x, y != 0)]))
    c.memo[key] = (q, x, y)
    return q


def t_sqrt(x):
    cx = numeral(x)
    c = ctx()
    if cx is not None and cx >= 0:
        return rv(math.sqrt(cx))
    key = ('sqrt', x.get_id())
    m = c.memo.get(key)
    if m is not None:
        return m[0]
    s = c.fresh('sqrt')
    ax = [s >= 0, z3.Implies(x > 0, s > 0), z3.Implies(x == 0, s == 0),
          z3.Implies(x >= 1, z3.And(s >= 1, s <= x)),
          z3.Implies(z3.And(x >= 0, x <= 1), z3.And(s <= 1, s >= x))]
    c.define([s], [x], ax, [z3.Implies(x >= 0, s * s == x)],
             op=('sqrt', [(s, s, x, x >= 0)]))
    c.memo[key] = (s, x)
    return s


def t_pow(x, e):
    c = ctx()
    key = ('pow', x.get_id(), e)
    m = c.memo.get(key)
    if m is not None:
        return m[0]
    s = c.fresh('pow')
    ax = [z3.Implies(x > 0, s > 0), z3.Implies(x == 1, s == 1)]
    if e > 0:
        ax += [z3.Implies(x == 0, s == 0)]
        # monotone w.r.t. every previous instance of the same exponent
        for k2, m2 in list(c.memo.items()):
            if k2[0] == 'pow' and k2[2] == e:
                s2, x2 = m2
                ax.append(z3.Implies(z3.And(x >= 0, x2 >= 0),
                                     z3.And((x < x2) == (s < s2),
                                            (x == x2) == (s == s2))))
    # rational exponents with small denominator can be made exact
    f = Fraction(e).limit_denominator(8)
    ex = []
    if float(f) == e and f > 0 and f.numerator <= 8:
        num = x
        for _ in range(f.numerator - 1):
            num = num * x
        den = s
        for _ in range(f.denominator - 1):
            den = den * s
        ex = [z3.Implies(x >= 0, z3.And(s >= 0, den == num))]
    else:
        c.uf_used.add('pow%g' % e)
    c.define([s], [x], ax, ex)
    c.memo[key] = (s, x)
    return s


# ------------------------------------------------------------------- context
class Def(object):
    __slots__ = ('vars', 'deps', 'axioms', 'exact', 'op')

    def __init__(self, vars, deps, axioms, exact, op=None):
        self.vars, self.deps = vars, deps
        self.axioms, self.exact = axioms, exact
        # (kind, [(a, b, c, guard)]): a*b == c under guard
        self.op = op


def term_vars(t, acc, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
        else:
            stack.extend(x.children())


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.exact_queries = 0
        self.cross = 0
        self.cross_bad = 0


def cvc5_check(assertions, timeout):
    """second opinion through SMT-LIB text; 'sat'/'unsat'/'unknown'"""
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(assertions)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(
        l for l in txt.splitlines() if not l.startswith('(set-info'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write(txt)
        f.flush()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000),
                                f.name], capture_output=True, text=True,
                               timeout=timeout + 5)
        except Exception:
            return 'unknown'
    o = p.stdout.strip().split('\n')[0] if p.stdout else ''
    return o if o in ('sat', 'unsat') else 'unknown'


class Ctx(object):
    def __init__(self, prefix, stats, opts):
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set('timeout', int(opts.get('branch_ms', 4000)))
        self.pc = []
        self.defs = []
        self.def_of = {}
        self.memo = {}
        self.nfresh = 0
        self.inputs = []
        self.ranges = {}
        self.draws = []       # rng draws in order (kind, SymNum or value)
        self.concretized = []
        self.uf_used = set()
        self.model = None
        self.guess = None
        self.deadline = opts.get('deadline')
        self.obligations = []
        self.observed = []
        self.covers = set()
        self.limit_dec = opts.get('max_decisions', 4000)
        self.tokens = []      # terms formatted into text
        self.keep = []        # keeps terms alive so ids stay unique

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()

    def fresh(self, base, real=True):
        self.nfresh += 1
        n = '%s!%d' % (base, self.nfresh)
        return z3.Real(n) if real else z3.Int(n)

    def define(self, vars, deps, axioms, exact, op=None):
        d = Def(vars, deps, axioms, exact, op)
        self.defs.append(d)
        for v in vars:
            self.def_of[v.decl().name()] = d
        for a in axioms:
            self.solver.add(a)
        self.keep.append(deps)
        self.model = self.model if not axioms else \
            (self.model if self._model_ok(axioms) else None)

    def _model_ok(self, cs):
        if self.model is None:
            return False
        for c in cs:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                return False
        return True

    def add_axiom(self, a):
        self.add(a)

    def add(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None and not self._model_ok([c]):
            self.model = None

    # -- solver access
    def _check(self, extra, timeout_ms):
        t0 = time.time()
        self.solver.set('timeout', int(timeout_ms))
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        return r

    def cone(self, formulas):
        acc, seen = set(), set()
        for f in formulas:
            term_vars(f, acc, seen)
        out, done = [], set()
        work = list(acc)
        while work:
            v = work.pop()
            d = self.def_of.get(v)
            if d is None or id(d) in done:
                continue
            done.add(id(d))
            out.append(d)
            new = set()
            for t in d.deps:
                term_vars(t, new, seen)
            for w in new:
                if w not in acc:
                    acc.add(w)
                    work.append(w)
            for v2 in d.vars:
                n = v2.decl().name()
                if n not in acc:
                    acc.add(n)
        return out

    def query(self, extra, timeout_s=None, exact=True):
        """('sat', model) / ('unsat', None) / ('unknown', None)"""
        self.tick()
        extra = [b_term(e) for e in extra]
        to = timeout_s if timeout_s else self.opts.get('query_s', 10)
        r = self._check(extra, 1000 * to)
        self.guess = None
        if r == z3.unsat:
            return 'unsat', None
        defs = [d for d in self.cone(self.pc + extra) if d.exact]
        if r == z3.sat:
            m = self.guess = self.solver.model()
            if not defs or not exact:
                return 'sat', m
            ok = True
            for d in defs:
                for e in d.exact:
                    if not z3.is_true(m.eval(e, model_completion=True)):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return 'sat', m
        elif not exact:
            return 'unknown', None
        # --- incremental linearisation: refine with valid lemmas at the
        # spurious model; try the model's own inputs exactly as well
        t0 = time.time()
        if exact:
            pins = 0
            for rnd in range(self.opts.get('lin_rounds', 14)):
                if time.time() - t0 > 0.5 * to:
                    break
                if r == z3.sat:
                    m = self.guess = self.solver.model()
                    if defs and rnd in (0, 1, 4):
                        mm = self.pinned(extra, defs, m)
                        if mm is not None:
                            self.stats.solver_s += time.time() - t0
                            return 'sat', mm
                    lem = self.lemmas(defs, m)
                    if lem is None:
                        return 'sat', m
                    if not lem:
                        break
                    self.solver.add(lem)
                r = self._check(extra, 500 * to)
                if r == z3.unsat:
                    return 'unsat', None
                if r != z3.sat:
                    break
        # exact non-linear query
        self.stats.exact_queries += 1
        t0 = time.time()
        fs = self.pc + extra
        for d in defs:
            fs = fs + d.axioms + d.exact
        res, model = 'unknown', None
        for which, frac in (('smt', 0.2), ('nlsat', 0.5)):
            try:
                if which == 'smt':
                    s = z3.Solver()
                else:
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                                'elim-uncnstr', 'purify-arith',
                                'qfnra-nlsat').solver()
                s.set('timeout', int(1000 * to * frac))
                s.add(fs)
                rr = s.check()
            except z3.Z3Exception:
                continue
            if rr == z3.unsat:
                res = 'unsat'
                break
            if rr == z3.sat:
                res, model = 'sat', s.model()
                break
        if res == 'unknown' and self.opts.get('cvc5_s'):
            o = cvc5_check(fs, self.opts['cvc5_s'])
            if o == 'unsat':
                res = 'unsat'
        self.stats.solver_s += time.time() - t0
        if res == 'unknown':
            self.stats.unknown += 1
        return res, model

    def pinned(self, extra, defs, m, timeout=1.5):
        """an exact model with (nearly) the same inputs, or None"""
        for bits in (None, 6):
            s = z3.Solver()
            s.set('timeout', int(1000 * timeout))
            for name, t, kind, nanflag in self.inputs:
                v = m.eval(t, model_completion=True)
                if kind == 'r':
                    if bits is not None:
                        try:
                            f = model_fraction(m, t)
                        except Limitation:
                            continue
                        v = rv(Fraction(round(f * 2 ** bits), 2 ** bits))
                s.add(t == v)
                if nanflag is not None:
                    s.add(nanflag == m.eval(nanflag, model_completion=True))
            s.add(self.pc)
            s.add(extra)
            for d in defs:
                s.add(d.axioms)
                s.add(d.exact)
            try:
                if s.check() == z3.sat:
                    return s.model()
            except z3.Z3Exception:
                pass
        return None

    def lemmas(self, defs, m):
        """valid lemmas violated by the model; None if nothing violated"""
        def val(t):
            f = model_fraction(m, t)
            return f
        out, cong = [], []
        bad = False
        groups = {}
        for d in defs:
            if d.op is None:
                if any(not z3.is_true(m.eval(e, model_completion=True))
                       for e in d.exact):
                    bad = True
                continue
            kind, prods = d.op
            for (a, b, c, g) in prods:
                if g is not None and not z3.is_true(
                        m.eval(g, model_completion=True)):
                    continue
                try:
                    A_, B_, C_ = val(a), val(b), val(c)
                except Limitation:
                    bad = True
                    continue
                groups.setdefault('mul' if kind == 'mul' else 'div',
                                  []).append((a, b, c, g, A_, B_, C_))
                if A_ * B_ == C_:
                    continue
                bad = True
                P, Q = A_, B_
                if max(P.denominator, Q.denominator) > 2 ** 40:
                    P = Fraction(round(P * 2 ** 30), 2 ** 30)
                    Q = Fraction(round(Q * 2 ** 30), 2 ** 30)
                p, q, pq = rv(P), rv(Q), rv(P * Q)
                if z3.is_int(a):
                    continue
                lin = q * a + p * b - pq
                ls = [z3.Implies(a == p, c == p * b),
                      z3.Implies(b == q, c == q * a)]
                if a.eq(b):
                    ls.append(c >= 2 * p * a - rv(P * P))
                elif A_ * B_ < C_:
                    ls.append(z3.Implies(
                        z3.Or(z3.And(a >= p, b <= q),
                              z3.And(a <= p, b >= q)), c <= lin))
                else:
                    ls.append(z3.Implies(
                        z3.Or(z3.And(a >= p, b >= q),
                              z3.And(a <= p, b <= q)), c >= lin))
                l = z3.And(ls)
                out.append(l if g is None else z3.Implies(g, l))
        for kind, es in groups.items():
            for i in range(len(es)):
                for j in range(i):
                    x, y = es[i], es[j]
                    l = None
                    if kind == 'mul':
                        for (b1, B1, a1, A1) in ((y[1], y[5], y[0], y[4]),
                                                 (y[0], y[4], y[1], y[5])):
                            for (b0, B0, a0, A0) in (
                                    (x[1], x[5], x[0], x[4]),
                                    (x[0], x[4], x[1], x[5])):
                                if B0 == B1 and (
                                        (A0 - A1) * B0 * (x[6] - y[6]) < 0
                                        or (A0 == A1 and x[6] != y[6])):
                                    l = z3.Implies(b0 == b1, z3.And(
                                        z3.Implies(a0 == a1, x[2] == y[2]),
                                        z3.Implies(
                                            z3.And(b0 > 0, a0 < a1),
                                            x[2] < y[2]),
                                        z3.Implies(
                                            z3.And(b0 > 0, a0 > a1),
                                            x[2] > y[2])))
                                    break
                            if l is not None:
                                break
                    elif x[5] == y[5] and x[5] != 0 and not x[0].eq(x[1]) \
                            and not y[0].eq(y[1]):
                        # same divisor
                        dn = (x[6] - y[6]) / x[5]
                        dq = x[4] - y[4]
                        if (dn > 0) != (dq > 0) or (dn < 0) != (dq < 0):
                            l = z3.Implies(
                                z3.And(x[1] == y[1], x[1] != 0), z3.And(
                                    z3.Implies(x[2] == y[2], x[0] == y[0]),
                                    z3.Implies(
                                        z3.And(x[1] > 0, x[2] < y[2]),
                                        x[0] < y[0]),
                                    z3.Implies(
                                        z3.And(x[1] > 0, x[2] > y[2]),
                                        x[0] > y[0])))
                    if l is not None:
                        cong.append(l)
                if len(cong) > 150:
                    break
        if not bad:
            return None
        return cong + out if len(cong) < 8 else cong

    def known(self, c):
        """is c entailed (cheap, linear abstraction)?"""
        if c is True:
            return True
        if c is False:
            return False
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_false(v):
                return False
        key = ('known', c.get_id(), len(self.pc))
        if key in self.memo:
            return self.memo[key][0]
        self.stats.branch_queries += 1
        r = self._check([z3.Not(c)], 1000) == z3.unsat
        self.memo[key] = (r, c)
        return r

    def decide(self, c):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        i = len(self.trace)
        if i >= self.limit_dec:
            raise Limitation("decision limit")
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(c if d else z3.Not(c))
            return d
        can = {}
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                can[True] = True
            elif z3.is_false(v):
                can[False] = True
        for side in (True, False):
            if side in can:
                continue
            self.stats.branch_queries += 1
            f = c if side else z3.Not(c)
            r, m = self.query([f], timeout_s=self.opts.get('branch_s', 3))
            can[side] = (r != 'unsat')
            if r == 'sat' and self.model is None:
                self.model = m if self._chk(m) else None
        if not can[True] and not can[False]:
            raise PathAbort()
        if can[True] and can[False]:
            d = True
            self.alts.append(self.trace + [False])
        else:
            d = can[True]
        self.trace.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def _chk(self, m):
        return m is not None

    def get_model(self, exact=True, terms=()):
        r, m = self.query([], timeout_s=self.opts.get('query_s', 10),
                          exact=exact)
        if m is not None and terms:
            # make the model exact for the observed terms as well
            defs = [d for d in self.cone(self.pc + terms) if d.exact]
            if defs and not all(
                    z3.is_true(m.eval(e, model_completion=True))
                    for d in defs for e in d.exact):
                mm = self.pinned([], defs, m, 4)
                if mm is not None:
                    m = mm
        return r, m

    def fork_int(self, x):
        """concrete value of integer x, forking over feasible values"""
        if not isinstance(x, Sym):
            return int(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        for n in range(200):
            m = self.model
            if m is None:
                r, m = self.query([], timeout_s=self.opts.get('branch_s', 3))
                if r == 'unsat':
                    raise PathAbort()
                if m is None:
                    raise Limitation("cannot enumerate integer")
                self.model = m
            i = len(self.trace)
            if i < len(self.prefix) and not isinstance(self.prefix[i], bool):
                v, d = self.prefix[i]
            else:
                vt = m.eval(t, model_completion=True)
                if not z3.is_int_value(vt):
                    raise Limitation("non-integer value")
                v = vt.as_long()
                d = None
            c = (t == v)
            if d is None:
                # we hold a model with t == v; other values possible?
                self.stats.branch_queries += 1
                r, _ = self.query([z3.Not(c)],
                                  timeout_s=self.opts.get('branch_s', 3))
                if r != 'unsat':
                    self.alts.append(self.trace + [(v, False)])
                d = True
            self.trace.append((v, d))
            self.add(c if d else z3.Not(c))
            if d:
                return v
        raise Limitation("too many integer values")

    def concretize(self, x):
        """pick one value (under-approximation, reported)"""
        if not isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return bool(x)
        if x.k == 'i':
            return self.fork_int(x)
        if x.flagged():
            if self.decide(b_term(x.nan)):
                return float('nan')
            if self.decide(b_term(x.pinf)):
                return INF
            if self.decide(b_term(x.ninf)):
                return -INF
        t = z3.simplify(x.t)
        f = numeral(t)
        if f is not None:
            return float(f)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            r, m = self.query([], timeout_s=self.opts.get('branch_s', 3))
            if r == 'unsat':
                raise PathAbort()
            if m is None:
                raise Limitation("cannot concretize")
            v = model_fraction(m, t)
            v = Fraction(float(v))
            r2, _ = self.query([t == rv(v)])
            if r2 == 'unsat':
                v = model_fraction(m, t)
        self.trace.append(v)
        self.concretized.append(str(float(v)))
        self.add(t == rv(v))
        return float(v)


def model_fraction(m, t):
    v = m.eval(t, model_completion=True)
    f = numeral(v)
    if f is not None:
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    f = numeral(v)
    if f is None:
        raise Limitation("model value %s" % v)
    return f
