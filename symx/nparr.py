"""Object arrays of symbolic scalars with numpy semantics."""
import math
import builtins
import numpy as np
from . import core as C
from .core import (Sym, SymNum, SymBool, Limitation, n_ite, n_max, n_min,
                   s_and, s_or, s_not)

NAN = float('nan')


# ------------------------------------------------------------------ dtypes
def norm_dtype(dt):
    """-> 'f','i','b','O' or None"""
    if dt is None:
        return None
    if isinstance(dt, str) and dt in ('f', 'i', 'b', 'O'):
        return dt
    if hasattr(dt, '_symx_ldt'):
        return dt._symx_ldt
    if dt is float:
        return 'f'
    if dt is int:
        return 'i'
    if dt is bool:
        return 'b'
    if dt is object:
        return 'O'
    d = np.dtype(dt)
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(d.kind, 'O')


def scalar_ldt(x):
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    return 'O'


_ORD = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def join_ldt(*ls):
    ls = [l for l in ls if l is not None]
    if not ls:
        return 'f'
    return builtins.max(ls, key=lambda l: _ORD[l])


def cast_scalar(x, ldt):
    if ldt == 'O' or ldt is None:
        return x
    if isinstance(x, Sym):
        if ldt == 'f':
            if isinstance(x, SymBool):
                x = x.num()
            return x.real()
        if ldt == 'i':
            if isinstance(x, SymBool):
                return x.num()
            if x.k == 'i':
                return x
            return C.n_trunc(x)
        if isinstance(x, SymBool):
            return x
        return C.s_not(x == 0)
    if x is None:
        if ldt == 'f':
            return NAN
        raise TypeError("cannot cast None to %s" % ldt)
    if isinstance(x, np.ndarray) and x.size == 1:
        return cast_scalar(x.reshape(-1)[0] if not isinstance(x, SymArray)
                           else x.elems()[0], ldt)
    if ldt == 'f':
        return float(x)
    if ldt == 'i':
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return -9223372036854775808
        return int(x)
    return bool(x)


def out_scalar(x, ldt):
    """scalar handed to the program from an array element"""
    if isinstance(x, Sym):
        return x
    if ldt == 'f':
        return np.float64(x)
    if ldt == 'i':
        return np.int64(x)
    if ldt == 'b':
        return np.bool_(x)
    return x


# ------------------------------------------------------- scalar operations
def _np2(fn):
    def f(a, b):
        with np.errstate(all='ignore'):
            return fn(np.asarray(a), np.asarray(b))[()].item()
    return f


def _conc(a, b):
    return not isinstance(a, Sym) and not isinstance(b, Sym)


def _mk2(npf, symf):
    def f(a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            with np.errstate(all='ignore'):
                r = npf(a, b)
            return r.item() if isinstance(r, np.generic) else r
        if type(a) is float:
            a = np.float64(a)
        if type(b) is float:
            b = np.float64(b)
        if type(a) is int:
            a = np.int64(a)
        if type(b) is int:
            b = np.int64(b)
        # elementwise operations have numpy semantics
        if type(a) is SymNum and a.py:
            a = SymNum(a.t, a.k, a.nan, a.pinf, a.ninf, False, a.ang)
        if type(b) is SymNum and b.py:
            b = SymNum(b.t, b.k, b.nan, b.pinf, b.ninf, False, b.ang)
        r = symf(a, b)
        if r is NotImplemented:
            raise Limitation("array op on %r %r" % (type(a), type(b)))
        return r
    return f


def _mk1(npf, symf):
    def f(a):
        if not isinstance(a, Sym):
            with np.errstate(all='ignore'):
                r = npf(a)
            return r.item() if isinstance(r, np.generic) else r
        return symf(a)
    return f


def _lim(name):
    def f(*a):
        raise Limitation("symbolic " + name)
    return f


def _uf1(name):
    return lambda a: C.uf(name, a)


def _sign(a):
    return n_ite(a > 0, 1.0, n_ite(a < 0, -1.0, 0.0))


def _fmax(a, b):
    r = n_max(a, b)
    return n_ite(C.n_isnan(a), b, n_ite(C.n_isnan(b), a, r))


def _fmin(a, b):
    r = n_min(a, b)
    return n_ite(C.n_isnan(a), b, n_ite(C.n_isnan(b), a, r))


def _isclose2(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


OPS2 = {
    'add': _mk2(np.add, C.n_add),
    'subtract': _mk2(np.subtract, C.n_sub),
    'multiply': _mk2(np.multiply, C.n_mul),
    'true_divide': _mk2(np.true_divide, C.n_div),
    'divide': _mk2(np.true_divide, C.n_div),
    'floor_divide': _mk2(np.floor_divide, C.n_floordiv),
    'remainder': _mk2(np.remainder, C.n_mod),
    'mod': _mk2(np.remainder, C.n_mod),
    'power': _mk2(np.power, C.n_pow),
    'float_power': _mk2(np.float_power, C.n_pow),
    'maximum': _mk2(np.maximum, n_max),
    'minimum': _mk2(np.minimum, n_min),
    'fmax': _mk2(np.fmax, _fmax),
    'fmin': _mk2(np.fmin, _fmin),
    'hypot': _mk2(np.hypot, C.n_hypot),
    'arctan2': _mk2(np.arctan2, C.n_arctan2),
    'less': _mk2(np.less, lambda a, b: C.n_lt(a, b)),
    'less_equal': _mk2(np.less_equal, lambda a, b: C.n_le(a, b)),
    'greater': _mk2(np.greater, lambda a, b: C.n_lt(b, a)),
    'greater_equal': _mk2(np.greater_equal, lambda a, b: C.n_le(b, a)),
    'equal': _mk2(np.equal, lambda a, b: C.n_eq(a, b)),
    'not_equal': _mk2(np.not_equal, lambda a, b: s_not(C.n_eq(a, b))),
    'logical_and': _mk2(np.logical_and, lambda a, b: s_and(_tb(a), _tb(b))),
    'logical_or': _mk2(np.logical_or, lambda a, b: s_or(_tb(a), _tb(b))),
    'logical_xor': _mk2(np.logical_xor,
                        lambda a, b: C.mkb(C.b_ite(C.bt(_tb(a)),
                                                   C.b_not(C.bt(_tb(b))),
                                                   C.bt(_tb(b))))),
    'copysign': _mk2(np.copysign, _lim('copysign')),
}
OPS2['bitwise_and'] = _mk2(np.bitwise_and, lambda a, b: a & b)
OPS2['bitwise_or'] = _mk2(np.bitwise_or, lambda a, b: a | b)
OPS2['bitwise_xor'] = _mk2(np.bitwise_xor, lambda a, b: a ^ b)

_BOOLOUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
            'not_equal', 'logical_and', 'logical_or', 'logical_xor',
            'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
_FLOATOUT = {'true_divide', 'divide', 'hypot', 'arctan2', 'sqrt', 'cos',
             'sin', 'tan', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1',
             'arccos', 'arcsin', 'arctan', 'floor', 'ceil', 'rint', 'trunc',
             'radians', 'degrees', 'deg2rad', 'rad2deg', 'reciprocal',
             'float_power', 'cbrt'}


def _tb(a):
    if isinstance(a, SymNum):
        return a != 0
    return a


def _f_real(fn):
    def f(a):
        r = fn(a)
        if isinstance(r, SymNum) and r.k == 'i':
            return r.real()
        return r
    return f


OPS1 = {
    'negative': _mk1(np.negative, lambda a: -a),
    'positive': _mk1(np.positive, lambda a: a),
    'absolute': _mk1(np.absolute, lambda a: C.n_abs(a)),
    'fabs': _mk1(np.fabs, lambda a: C.n_abs(a)),
    'sqrt': _mk1(np.sqrt, C.n_sqrt),
    'square': _mk1(np.square, lambda a: a * a),
    'reciprocal': _mk1(np.reciprocal, lambda a: np.float64(1.0) / a),
    'cos': _mk1(np.cos, C.n_cos),
    'sin': _mk1(np.sin, C.n_sin),
    'tan': _mk1(np.tan, _uf1('tan')),
    'exp': _mk1(np.exp, _uf1('exp')),
    'log': _mk1(np.log, _uf1('log')),
    'log10': _mk1(np.log10, _uf1('log10')),
    'log2': _mk1(np.log2, _uf1('log2')),
    'log1p': _mk1(np.log1p, _uf1('log1p')),
    'expm1': _mk1(np.expm1, _uf1('expm1')),
    'floor': _mk1(np.floor, _f_real(C.n_floor_i)),
    'ceil': _mk1(np.ceil, _f_real(lambda a: -C.n_floor_i(-a))),
    'trunc': _mk1(np.trunc, _f_real(C.n_trunc)),
    'rint': _mk1(np.rint, _f_real(C.n_round)),
    'sign': _mk1(np.sign, _sign),
    'isnan': _mk1(np.isnan, C.n_isnan),
    'isinf': _mk1(np.isinf, C.n_isinf),
    'isfinite': _mk1(np.isfinite, C.n_isfinite),
    'logical_not': _mk1(np.logical_not, lambda a: s_not(_tb(a))),
    'invert': _mk1(np.invert, lambda a: ~a),
    'bitwise_not': _mk1(np.invert, lambda a: ~a),
    'conjugate': _mk1(np.conjugate, lambda a: a),
    'deg2rad': _mk1(np.deg2rad, lambda a: a * (math.pi / 180)),
    'radians': _mk1(np.deg2rad, lambda a: a * (math.pi / 180)),
    'rad2deg': _mk1(np.rad2deg, lambda a: a * (180 / math.pi)),
    'degrees': _mk1(np.rad2deg, lambda a: a * (180 / math.pi)),
    'cbrt': _mk1(np.cbrt, _uf1('cbrt')),
    'arctan': _mk1(np.arctan, _uf1('arctan')),
    'arccos': _mk1(np.arccos, _uf1('arccos')),
    'arcsin': _mk1(np.arcsin, _uf1('arcsin')),
}


def _out_ldt(name, ldts):
    if name in _BOOLOUT:
        return 'b'
    j = join_ldt(*ldts)
    if name in _FLOATOUT:
        return 'f' if j != 'O' else 'O'
    if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
        return j
    if j == 'b' and name in ('negative', 'power'):
        return 'i'
    return j


# -------------------------------------------------------------------- array
def raw(a):
    """plain object ndarray view/copy of anything array-like"""
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a
        return obj_of(a)
    return None


def obj_of(a):
    o = np.empty(a.shape, dtype=object)
    fl = a.ravel().tolist()
    of = o.reshape(-1)
    for i in range(len(fl)):
        of[i] = fl[i]
    return o


def mk(objarr, ldt):
    r = objarr.view(SymArray)
    r.ldt = ldt
    return r


def empty(shape, ldt):
    return mk(np.empty(shape, dtype=object), ldt)


def full(shape, v, ldt):
    o = np.empty(shape, dtype=object)
    o.fill(v)
    return mk(o, ldt)


def infer_ldt(o):
    l = None
    for x in o.reshape(-1):
        s = scalar_ldt(x)
        l = s if l is None else join_ldt(l, s)
        if l == 'O':
            break
    return l or 'f'


def as_sym(a, dtype=None, copy=False):
    """SymArray of any array-like"""
    ldt = norm_dtype(dtype)
    if isinstance(a, SymArray):
        if ldt is None or ldt == a.ldt:
            return a.copy() if copy else a
        return a.astype(ldt)
    if isinstance(a, MaskedSel):
        a = a.materialize()
        return as_sym(a, dtype, copy)
    if isinstance(a, np.ndarray):
        if a.dtype.kind in 'fiub':
            r = mk(obj_of(a), norm_dtype(a.dtype))
        elif a.dtype == object:
            r = mk(a.copy() if copy else a, infer_ldt(a))
        else:
            return np.array(a) if copy else a
        return r if ldt is None else as_sym(r, ldt)
    if isinstance(a, Sym) or np.isscalar(a) or a is None:
        o = np.empty((), dtype=object)
        o[()] = a
        r = mk(o, scalar_ldt(a) if ldt is None else ldt)
        if ldt is not None:
            o[()] = cast_scalar(a, ldt)
        return r
    # sequences
    if isinstance(a, (range, map, filter, zip)) or hasattr(a, '__next__'):
        a = list(a)
    if isinstance(a, np.flatiter):
        a = [a[i] for i in range(len(a))]
    if isinstance(a, (set, dict)):
        o = np.empty((), dtype=object)
        o[()] = a
        return mk(o, 'O')
    a = list(a)
    shape, flat, ls = _nest(a)
    if flat is None:
        o = np.empty(len(a), dtype=object)
        for i, x in enumerate(a):
            o[i] = x
        if norm_dtype(dtype) == 'O':
            return mk(o, 'O')
        raise ValueError("setting an array element with a sequence. The "
                         "requested array has an inhomogeneous shape")
    o = np.empty(len(flat), dtype=object)
    l = None
    strs = False
    for i, x in enumerate(flat):
        if isinstance(x, str):
            strs = True
        s = scalar_ldt(x)
        l = s if l is None else join_ldt(l, s)
    if strs:
        return np.array(a)
    l = l or 'f'
    if ldt is not None:
        l = ldt
    for i, x in enumerate(flat):
        o[i] = cast_scalar(x, l)
    return mk(o.reshape(shape), l)


def _nest(a):
    """(shape, flat list, _) of nested sequences; flat None if ragged"""
    if isinstance(a, MaskedSel):
        a = a.materialize()
    if isinstance(a, np.ndarray):
        return a.shape, (a.elems() if isinstance(a, SymArray)
                         else a.ravel().tolist()), None
    if isinstance(a, (list, tuple)):
        if len(a) == 0:
            return (0,), [], None
        parts = [_nest(x) for x in a]
        sh = parts[0][0]
        fl = []
        for p in parts:
            if p[1] is None or p[0] != sh:
                return (), None, None
            fl.extend(p[1])
        return (len(a),) + tuple(sh), fl, None
    return (), [a], None


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        self.ldt = getattr(obj, 'ldt', 'f')

    # ----- helpers
    def elems(self):
        v = self.view(np.ndarray)
        return [v[i] for i in np.ndindex(v.shape)] if v.ndim != 1 else \
            list(v)

    def has_sym(self):
        return builtins.any(isinstance(x, Sym) for x in self.elems())

    def concrete(self):
        """real numpy array (concretises)"""
        d = {'f': float, 'i': np.int64, 'b': bool, 'O': object}[self.ldt]
        o = np.empty(self.shape, dtype=d)
        for ix in np.ndindex(self.shape):
            x = self.view(np.ndarray)[ix]
            if isinstance(x, Sym):
                x = C.ctx().concretize(x)
            o[ix] = x
        return o

    # ----- indexing
    def _ix(self, key):
        """(kind, key') : 'np' plain key; 'mask' symbolic mask;
        'sel' symbolic scalar index"""
        if isinstance(key, tuple):
            ks = key
        else:
            ks = (key,)
        # single boolean mask
        if len(ks) == 1:
            k = ks[0]
            if isinstance(k, list) and k and not builtins.any(
                    isinstance(e, (slice, type(None))) for e in k):
                k = as_sym(k)
            if isinstance(k, MaskedSel):
                k = k.materialize()
            if isinstance(k, SymArray) and k.ldt == 'b':
                if k.has_sym():
                    return 'mask', k
                return 'np', k.concrete()
            if isinstance(k, SymBool):
                k = bool(k)
            if isinstance(k, SymArray):
                if self.ndim == 1:
                    v = self._ixv((k,))
                    if v is not None:
                        return 'selv', v
                return 'np', int_index(k)
            if isinstance(k, SymNum):
                if self.ndim == 1:
                    return 'sel', k
                return 'np', k.__index__()
            return 'np', key if not isinstance(key, tuple) else (k,)
        if len(ks) == self.ndim and self.size <= 64 and \
                builtins.all(isinstance(k, (int, np.integer, SymNum)) and
                             not isinstance(k, bool) for k in ks) and \
                builtins.any(isinstance(k, SymNum) for k in ks) and \
                C.ctx().opts.get('sel'):
            return 'selm', ks
        if len(ks) == self.ndim:
            v = self._ixv(ks)
            if v is not None:
                return 'selv', v
        out = []
        for k in ks:
            if isinstance(k, MaskedSel):
                k = k.materialize()
            if isinstance(k, list) and k:
                k = as_sym(k)
            if isinstance(k, SymArray):
                if k.ldt == 'b':
                    k = np.array([bool(x) for x in k.elems()],
                                 dtype=bool).reshape(k.shape)
                else:
                    k = int_index(k)
            elif isinstance(k, SymNum):
                k = k.__index__()
            elif isinstance(k, SymBool):
                k = bool(k)
            out.append(k)
        return 'np', tuple(out)

    def _ixv(self, ks):
        """full index by integer arrays with symbolic entries: list of index
        tuples, else None"""
        if self.size > 64 or not C.ctx().opts.get('sel'):
            return None
        ks = [as_sym(k) if isinstance(k, list) and k else k for k in ks]
        n, sym = None, False
        for k in ks:
            if isinstance(k, np.ndarray):
                if k.ndim != 1 or (not isinstance(k, SymArray) and
                                   k.dtype.kind not in 'iu'):
                    return None
                if isinstance(k, SymArray):
                    if k.ldt != 'i':
                        return None
                    sym = sym or k.has_sym()
                if n is not None and n != len(k):
                    return None
                n = len(k)
            elif isinstance(k, SymNum):
                if k.k != 'i':
                    return None
                sym = True
            elif not isinstance(k, (int, np.integer)) or \
                    isinstance(k, bool):
                return None
        if n is None or not sym or n == 0:
            return None
        return [tuple(k.view(np.ndarray)[i] if isinstance(k, np.ndarray)
                      else k for k in ks) for i in range(n)]

    def __getitem__(self, key):
        kind, k = self._ix(key)
        if kind == 'mask':
            return MaskedSel(self.copy(), k.copy())
        if kind == 'selv':
            o = np.empty(len(k), dtype=object)
            for i, q in enumerate(k):
                o[i] = self[q if len(q) > 1 else q[0]]
            return mk(o, self.ldt)
        if kind == 'sel':
            return select(self, k)
        if kind == 'selm':
            r = None
            base = self.view(np.ndarray)
            for ix, hit in sel_cells(self, k):
                r = base[ix] if r is None else n_ite(hit, base[ix], r)
            return out_scalar(r, self.ldt)
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, SymArray):
            return r
        if isinstance(r, np.ndarray):
            return mk(r, self.ldt)
        return out_scalar(r, self.ldt)

    def __setitem__(self, key, val):
        kind, k = self._ix(key)
        if kind == 'mask':
            store_mask(self, k, val)
            return
        if kind == 'selv':
            if isinstance(val, MaskedSel):
                val = val.materialize()
            if isinstance(val, (list, tuple, range)):
                val = as_sym(val)
            many = isinstance(val, np.ndarray) and val.ndim == 1
            if isinstance(val, np.ndarray) and not many and val.ndim:
                raise Limitation("store of a matrix by index arrays")
            for i, q in enumerate(k):
                self[q if len(q) > 1 else q[0]] = val[i % len(val)] if many \
                    else val
            return
        if kind == 'sel':
            n = len(self)
            v = cast_scalar(val, self.ldt)
            base = self.view(np.ndarray)
            for i in range(n):
                base[i] = n_ite(s_or(k == i, k == i - n), v, base[i])
            return
        if kind == 'selm':
            v = cast_scalar(val, self.ldt)
            base = self.view(np.ndarray)
            for ix, hit in list(sel_cells(self, k)):
                base[ix] = n_ite(hit, v, base[ix])
            return
        if isinstance(val, MaskedSel):
            val = val.materialize()
        if isinstance(val, (list, tuple, range)):
            val = as_sym(val)
        if isinstance(val, np.ndarray):
            if not isinstance(val, SymArray):
                val = as_sym(val)
            if val.ldt != self.ldt and self.ldt != 'O':
                val = val.astype(self.ldt)
            np.ndarray.__setitem__(self, k, val.view(np.ndarray))
            return
        v = cast_scalar(val, self.ldt)
        tgt = self.view(np.ndarray)
        sub = tgt[k]
        if isinstance(sub, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = v
            tgt[k] = o
        else:
            tgt[k] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(any_(self == x))

    def __bool__(self):
        if self.size == 1:
            return bool(self.elems()[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python "
                            "scalars")
        return float(self.elems()[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python "
                            "scalars")
        return int(self.elems()[0])

    def __index__(self):
        if self.size != 1 or self.ldt != 'i':
            raise TypeError("only integer scalar arrays can be converted to "
                            "a scalar index")
        return int(self.elems()[0])

    def __repr__(self):
        return '<symarray %s>' % (self.shape,)
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Limitation("pickling a symbolic array")

    # ----- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == '__call__':
            where = kw.pop('where', True)
            kw.pop('casting', None)
            dt = kw.pop('dtype', None)
            kw.pop('order', None)
            kw.pop('subok', None)
            if kw:
                raise Limitation("ufunc kwargs %s" % list(kw))
            if name == 'matmul':
                from . import npshim
                return npshim.matmul(*inputs)
            if name in ('divmod', 'modf', 'frexp'):
                if name == 'divmod':
                    return (ufunc_call('floor_divide', inputs),
                            ufunc_call('remainder', inputs))
                raise Limitation(name)
            if out is not None:
                out = out[0] if isinstance(out, tuple) else out
            r = ufunc_call(name, inputs, out=out, where=where)
            if dt is not None and out is None:
                r = as_sym(r, dt)
            return r
        from . import npshim
        return npshim.ufunc_method(name, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        f = npshim.OVERRIDE.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return npshim.fallback(func, args, kwargs)

    # ----- in-place operators with scalar operands numpy would give up on
    def _iop(self, name, o):
        if isinstance(o, MaskedSel):
            o = o.materialize()
        ufunc_call(name, (self, o), out=self)
        return self

    # ----- methods
    def copy(self, order='C'):
        return mk(self.view(np.ndarray).copy(), self.ldt)

    def astype(self, dtype, *a, **k):
        ldt = norm_dtype(dtype)
        src = self.view(np.ndarray)
        o = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(self.shape):
            o[ix] = cast_scalar(src[ix], ldt)
        return mk(o, ldt)

    def tolist(self):
        def py(x):
            if isinstance(x, SymNum):
                return x.aspy()
            if self.ldt == 'f' and isinstance(x, int):
                return float(x)
            return x.item() if isinstance(x, np.generic) else x
        if self.ndim == 0:
            return py(self.elems()[0])
        if self.ndim == 1:
            return [py(x) for x in self.elems()]
        return [self[i].tolist() for i in range(self.shape[0])]

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a "
                                 "Python scalar")
            x = self.elems()[0]
        else:
            x = self.view(np.ndarray).item(*a)
        return x.aspy() if isinstance(x, SymNum) else x

    def fill(self, v):
        v = cast_scalar(v, self.ldt)
        np.ndarray.fill(self, v)

    def flatten(self, order='C'):
        return mk(self.view(np.ndarray).flatten(order), self.ldt)

    def ravel(self, order='C'):
        return mk(self.view(np.ndarray).ravel(order), self.ldt)

    @property
    def dtype(self):
        return _DT[self.ldt]

    @property
    def flat(self):
        return FlatView(self)

    @flat.setter
    def flat(self, v):
        FlatView(self)[:] = v

    def _r(self, name, *a, **k):
        from . import npshim
        return npshim.OVERRIDE[name](self, *a, **k)


_DT = {'f': np.dtype(float), 'i': np.dtype(np.int64), 'b': np.dtype(bool),
       'O': np.dtype(object)}

for _m in ('sum', 'mean', 'max', 'min', 'any', 'all', 'cumsum', 'cumprod',
           'argmax', 'argmin', 'argsort', 'prod', 'std', 'var', 'ptp',
           'searchsorted', 'clip', 'round', 'nonzero', 'dot', 'compress'):
    def _f(self, *a, _m=_m, **k):
        return self._r(_m, *a, **k)
    _f.__name__ = _m
    setattr(SymArray, _m, _f)


for _d, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'),
               ('truediv', 'true_divide'), ('floordiv', 'floor_divide'),
               ('mod', 'remainder'), ('pow', 'power'), ('and', 'bitwise_and'),
               ('or', 'bitwise_or'), ('xor', 'bitwise_xor')):
    def _f(self, o, _u=_u):
        return self._iop(_u, o)
    setattr(SymArray, '__i%s__' % _d, _f)


def _sort_inplace(self, axis=-1, **k):
    from . import npshim
    self[...] = npshim.OVERRIDE['sort'](self, axis=axis)


SymArray.sort = _sort_inplace


class FlatView(object):
    def __init__(self, a):
        self.a = a

    def __len__(self):
        return self.a.size

    def __iter__(self):
        for x in self.a.elems():
            yield out_scalar(x, self.a.ldt)

    def __getitem__(self, k):
        f = mk(self.a.view(np.ndarray).ravel(), self.a.ldt)
        return f[k]

    def __setitem__(self, k, v):
        f = mk(self.a.view(np.ndarray).ravel(), self.a.ldt)
        f[k] = v
        b = self.a.view(np.ndarray)
        b[...] = f.view(np.ndarray).reshape(b.shape)

    def __array__(self, *a, **k):
        raise Limitation("flat to array")

    def copy(self):
        return self.a.flatten()


def int_index(k):
    """concrete integer index array (forks on symbolic entries)"""
    if k.ldt == 'f' and k.size:
        raise IndexError("arrays used as indices must be of integer (or "
                         "boolean) type")
    o = np.empty(k.shape, dtype=np.intp)
    src = k.view(np.ndarray)
    for ix in np.ndindex(k.shape):
        o[ix] = int(src[ix])
    return o


def sel_cells(arr, ks):
    """(cell, condition that the symbolic full index means it)"""
    for k, n in zip(ks, arr.shape):
        if isinstance(k, SymNum):
            if k.k != 'i':
                raise IndexError("only integers, slices ... are valid")
            if not bool(s_and(k >= -n, k < n)):
                raise IndexError("index out of bounds")
    for ix in np.ndindex(arr.shape):
        hit = True
        for k, i, n in zip(ks, ix, arr.shape):
            hit = s_and(hit, s_or(k == i, k == i - n))
        if hit is False:
            continue
        yield ix, hit


def select(arr, k):
    """1-D arr[k] for symbolic integer k"""
    if k.k != 'i':
        raise IndexError("only integers, slices ... are valid indices")
    n = len(arr)
    if not bool(s_and(k >= -n, k < n)):
        raise IndexError("index out of bounds")
    el = arr.elems()
    r = el[0]
    for i in range(1, n):
        r = n_ite(s_or(k == i, k == i - n), el[i], r)
    return out_scalar(r, arr.ldt)


def bcast_mask(mask, shape):
    """expand a mask over leading dims to shape"""
    m = mask.view(np.ndarray)
    if m.shape != shape:
        if m.shape != shape[:m.ndim]:
            raise IndexError("boolean index did not match indexed array")
        m = m.reshape(m.shape + (1,) * (len(shape) - m.ndim))
        m = np.broadcast_to(m, shape)
    return m


def store_mask(arr, mask, val):
    m = bcast_mask(mask, arr.shape)
    base = arr.view(np.ndarray)
    if isinstance(val, MaskedSel):
        if val._pin is not None or not same_mask(val.mask, mask):
            val = val.materialize()
        else:
            src = val.full.view(np.ndarray)
            for ix in np.ndindex(arr.shape):
                base[ix] = n_ite(m[ix], cast_scalar_m(src[ix], arr.ldt,
                                                      m[ix]), base[ix])
            return
    if isinstance(val, (list, tuple)):
        val = as_sym(val)
    if isinstance(val, np.ndarray) and val.size != 1:
        # compressed values: fork on the mask
        bm = np.array([bool(x) for x in mask.elems()],
                      dtype=bool).reshape(mask.shape)
        arr[bm] = val
        return
    if isinstance(val, np.ndarray):
        val = as_sym(val).elems()[0]
    v = cast_scalar(val, arr.ldt)
    for ix in np.ndindex(arr.shape):
        base[ix] = n_ite(m[ix], v, base[ix])


def cast_scalar_m(x, ldt, cond):
    return cast_scalar(x, ldt)


def same_mask(a, b):
    if a is b:
        return True
    if a.shape != b.shape:
        return False
    for x, y in zip(a.elems(), b.elems()):
        if isinstance(x, SymBool) and isinstance(y, SymBool):
            if x is y or x.b.eq(y.b):
                continue
            return False
        if isinstance(x, Sym) or isinstance(y, Sym) or bool(x) != bool(y):
            return False
    return True


class MaskedSel(object):
    """arr[mask] with a symbolic mask: elementwise operations act on the full
    array; assignment back through the same mask selects with if-then-else."""
    __array_ufunc__ = None
    _symx_deferred = True

    def __init__(self, full, mask):
        self.mask = mask
        m = bcast_mask(mask, full.shape)
        self.m = m
        self.full = full if isinstance(full, SymArray) else as_sym(full)
        self.ldt = self.full.ldt
        # the compressed array, once its elements have been changed in place
        self._pin = None

    def copy(self):
        if self._pin is not None:
            return self._pin.copy()
        return MaskedSel(self.full.copy(), self.mask)

    def pin(self):
        if self._pin is None:
            self._pin = self.materialize()
        return self._pin

    def _op(self, name, o, refl=False):
        if self._pin is not None:
            if isinstance(o, MaskedSel):
                o = o.materialize()
            a = self._pin
            return ufunc_call(name, (o, a) if refl else (a, o))
        if isinstance(o, MaskedSel):
            if o._pin is not None or not same_mask(o.mask, self.mask):
                return ufunc_call(name, (self.materialize(),
                                         o.materialize()))
            b = o.full
        elif isinstance(o, np.ndarray) and o.size != 1:
            a = self.materialize()
            return ufunc_call(name, (o, a) if refl else (a, o))
        else:
            b = o
        r = ufunc_call(name, (b, self.full) if refl else (self.full, b))
        return MaskedSel(r, self.mask)

    def materialize(self):
        if self._pin is not None:
            return self._pin
        bm = np.array([bool(x) for x in self.mask.elems()],
                      dtype=bool).reshape(self.mask.shape)
        return self.full[bm]

    def _un(self, name):
        if self._pin is not None:
            return ufunc_call(name, (self._pin,))
        return MaskedSel(ufunc_call(name, (self.full,)), self.mask)

    def __neg__(self):
        return self._un('negative')

    def __abs__(self):
        return self._un('absolute')

    def __invert__(self):
        return self._un('invert')

    def astype(self, dt):
        if self._pin is not None:
            return self._pin.astype(dt)
        return MaskedSel(self.full.astype(dt), self.mask)

    # reductions that need no compression
    def sum(self, *a, **k):
        if a or k or self._pin is not None:
            return self.materialize().sum(*a, **k)
        o = self.full.copy()
        b = o.view(np.ndarray)
        z = 0.0 if o.ldt == 'f' else 0
        for ix in np.ndindex(o.shape):
            b[ix] = n_ite(self.m[ix], b[ix], z)
        return o.sum()

    def any(self, *a, **k):
        if self._pin is not None:
            return self._pin.any(*a, **k)
        return s_or(*[s_and(self.m[ix], self.full.view(np.ndarray)[ix])
                      for ix in np.ndindex(self.full.shape)])

    def all(self, *a, **k):
        if self._pin is not None:
            return self._pin.all(*a, **k)
        return s_and(*[s_or(s_not(self.m[ix]),
                            self.full.view(np.ndarray)[ix])
                       for ix in np.ndindex(self.full.shape)])

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name in ('sort', 'fill', 'put', 'partition', 'itemset', 'resize',
                    'flat', 'view', 'T', 'ravel', 'reshape', 'transpose',
                    'squeeze', 'swapaxes', 'byteswap', 'setfield'):
            return getattr(self.pin(), name)
        return getattr(self.materialize(), name)

    def __setitem__(self, k, v):
        self.pin()[k] = v

    def __len__(self):
        return len(self.materialize())

    def __iter__(self):
        return iter(self.materialize())

    def __getitem__(self, k):
        # (slices of an array are views of it)
        return self.pin()[k]

    def __array__(self, *a, **k):
        raise Limitation("masked selection to array")


def _mkop(name, refl):
    def f(self, o):
        return self._op(name, o, refl)
    return f


for _d, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'),
               ('truediv', 'true_divide'), ('floordiv', 'floor_divide'),
               ('mod', 'remainder'), ('pow', 'power'), ('and', 'bitwise_and'),
               ('or', 'bitwise_or'), ('xor', 'bitwise_xor')):
    setattr(MaskedSel, '__%s__' % _d, _mkop(_u, False))
    setattr(MaskedSel, '__r%s__' % _d, _mkop(_u, True))
for _d, _u in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'),
               ('ge', 'greater_equal'), ('eq', 'equal'),
               ('ne', 'not_equal')):
    setattr(MaskedSel, '__%s__' % _d, _mkop(_u, False))
MaskedSel.__hash__ = None


# ------------------------------------------------------------ ufunc engine
def _oparr(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray), x.ldt
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fiub':
            return obj_of(x), norm_dtype(x.dtype)
        if x.dtype == object:
            return x, infer_ldt(x)
        raise Limitation("ufunc on dtype %s" % x.dtype)
    if isinstance(x, Sym) or isinstance(x, (bool, int, float, np.generic)):
        return None, scalar_ldt(x)
    if x is None:
        return None, 'O'
    if isinstance(x, (list, tuple, range)):
        a = as_sym(x)
        if not isinstance(a, SymArray):
            raise Limitation("ufunc on strings")
        return a.view(np.ndarray), a.ldt
    raise Limitation("ufunc operand %r" % type(x))


def ufunc_call(name, inputs, out=None, where=True):
    ms = [x for x in inputs if isinstance(x, MaskedSel)]
    if ms:
        if len(inputs) == 1:
            return inputs[0]._un(name)
        a, b = inputs
        if isinstance(a, MaskedSel):
            return a._op(name, b)
        return b._op(name, a, True)
    if len(inputs) == 1:
        f = OPS1.get(name)
        if f is None:
            raise Limitation("ufunc " + name)
        a, la = _oparr(inputs[0])
        lo = _out_ldt(name, (la,))
        if a is None:
            x = inputs[0]
            r = f(x)
            res = out_scalar(cast_scalar(r, lo), lo)
            if out is None:
                return res
            shape = out.shape
            o = np.empty(shape, dtype=object)
            o.fill(res)
        else:
            o = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(a.shape):
                o[ix] = cast_scalar(f(a[ix]), lo)
        res = mk(o, lo)
    else:
        f = OPS2.get(name)
        if f is None:
            raise Limitation("ufunc " + name)
        a, la = _oparr(inputs[0])
        b, lb = _oparr(inputs[1])
        if la == 'b' and lb == 'b':
            if name == 'add':
                f = OPS2['logical_or']
            elif name == 'multiply':
                f = OPS2['logical_and']
            elif name == 'subtract':
                raise TypeError("numpy boolean subtract not supported")
        lo = _out_ldt(name, (la, lb))
        if a is None and b is None:
            r = f(inputs[0], inputs[1])
            return out_scalar(cast_scalar(r, lo), lo)
        x = a if a is not None else inputs[0]
        y = b if b is not None else inputs[1]
        if a is None:
            shape = b.shape
        elif b is None:
            shape = a.shape
        else:
            shape = np.broadcast_shapes(a.shape, b.shape)
        o = np.empty(shape, dtype=object)
        if a is not None:
            xa = np.broadcast_to(a, shape)
        if b is not None:
            ya = np.broadcast_to(b, shape)
        for ix in np.ndindex(shape):
            o[ix] = cast_scalar(f(xa[ix] if a is not None else x,
                                  ya[ix] if b is not None else y), lo)
        res = mk(o, lo)
    if where is not True:
        w = as_sym(where)
        wb = np.broadcast_to(w.view(np.ndarray), res.shape)
        if out is None:
            base = full(res.shape, 0.0 if res.ldt == 'f' else 0, res.ldt)
        else:
            base = as_sym(out)
        ro, bo = res.view(np.ndarray), base.view(np.ndarray)
        for ix in np.ndindex(res.shape):
            ro[ix] = n_ite(wb[ix], ro[ix], bo[ix])
    if out is not None:
        if isinstance(out, MaskedSel):
            out.pin()[...] = res
            return out
        if isinstance(out, SymArray):
            if out.ldt == 'i' and res.ldt == 'f' or \
                    (out.ldt == 'b' and res.ldt != 'b'):
                raise TypeError("Cannot cast ufunc output")
            out[...] = res
            return out
        c = np.empty(res.shape, dtype=out.dtype)
        for ix in np.ndindex(res.shape):
            x = res.view(np.ndarray)[ix]
            if isinstance(x, Sym):
                raise Limitation("symbolic value stored in a plain array")
            c[ix] = x
        out[...] = c
        return out
    if res.ndim == 0:
        return out_scalar(res.elems()[0], res.ldt)
    return res


def any_(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return a
    if isinstance(a, SymArray):
        return s_or(*[_tb(x) for x in a.elems()])
    return bool(np.any(a))


def isinstance_array(x):
    return isinstance(x, (np.ndarray, MaskedSel, list, tuple))
