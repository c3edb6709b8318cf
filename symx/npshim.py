"""The numpy namespace seen by the code under test in symbolic mode."""
import math
import types
import builtins
import functools
import inspect
import numpy as np
from . import core as C
from . import nparr as A
from .core import (Sym, SymNum, SymBool, Limitation, n_ite, n_max, n_min,
                   s_and, s_or, s_not)
from .nparr import (SymArray, MaskedSel, as_sym, mk, raw, out_scalar,
                    norm_dtype, join_ldt, ufunc_call)

NAN = float('nan')
OVERRIDE = {}


IGNORED = ('copy', 'subok', 'like', 'kind', 'stable', 'device', 'order',
           'assume_unique', 'casting', 'overwrite_input')


def strict(f):
    """options that the encoding does not know make the path inconclusive"""
    sig = inspect.signature(f).parameters
    if builtins.all(p.kind != p.VAR_KEYWORD for p in sig.values()) or \
            f.__name__ in ('vectorize', 'apply_along_axis'):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        for n, v in k.items():
            if n not in sig and n not in IGNORED and v is not None and \
                    v is not False and v is not np._NoValue:
                raise Limitation("%s(%s=...)" % (f.__name__, n))
        return f(*a, **k)
    return g


def ov(*names):
    def d(f):
        f = strict(f)
        for n in names:
            OVERRIDE[n] = f
        if not names:
            OVERRIDE[f.__name__] = f
        return f
    return d


def is_plain(x):
    """no symbolic machinery anywhere inside x"""
    if isinstance(x, (Sym, SymArray, MaskedSel)):
        return False
    if isinstance(x, np.ndarray):
        return x.dtype != object
    if isinstance(x, (list, tuple)):
        return builtins.all(is_plain(e) for e in x)
    return True


def wrap_out(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fiubO':
            return as_sym(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap_out(x) for x in r)
    if isinstance(r, list):
        return [wrap_out(x) for x in r]
    return r


def unwrap_in(x):
    if isinstance(x, MaskedSel):
        x = x.materialize()
    if isinstance(x, SymArray):
        if x.has_sym():
            return x.view(np.ndarray)
        return x.concrete()
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(unwrap_in(e) for e in x)
    if isinstance(x, list):
        return [unwrap_in(e) for e in x]
    if isinstance(x, dict):
        return {k: unwrap_in(v) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, '_symx_ldt'):
        return {'f': float, 'i': np.int64, 'b': bool, 'O': object}[
            x._symx_ldt]
    return x


def conc_in(x):
    """fully concrete arguments (concretises symbolic ones)"""
    if isinstance(x, MaskedSel):
        x = x.materialize()
    if isinstance(x, SymArray):
        return x.concrete()
    if isinstance(x, Sym):
        return C.ctx().concretize(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return as_sym(x).concrete()
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(conc_in(e) for e in x)
    if isinstance(x, list):
        return [conc_in(e) for e in x]
    if isinstance(x, dict):
        return {k: conc_in(v) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, '_symx_ldt'):
        return unwrap_in(x)
    return x


STRUCTURAL = {'tile', 'repeat', 'pad', 'concatenate', 'stack', 'vstack',
              'hstack', 'dstack', 'column_stack', 'flipud', 'fliplr', 'flip',
              'roll', 'rot90', 'transpose', 'swapaxes', 'moveaxis',
              'expand_dims', 'squeeze', 'ravel', 'reshape', 'broadcast_to',
              'broadcast_arrays', 'append', 'delete', 'insert', 'split',
              'array_split', 'hsplit', 'vsplit', 'meshgrid', 'ix_', 'take',
              'diag', 'resize', 'atleast_1d', 'atleast_2d', 'atleast_3d',
              'tril', 'triu', 'block', 'trim_zeros', 'rollaxis',
              'take_along_axis', 'diagonal', 'row_stack'}


def _ldt_of(x):
    if isinstance(x, SymArray):
        return x.ldt
    if isinstance(x, np.ndarray):
        return norm_dtype(x.dtype) if x.dtype != object else A.infer_ldt(x)
    if isinstance(x, (list, tuple)):
        ls = [_ldt_of(e) for e in x]
        ls = [l for l in ls if l]
        return join_ldt(*ls) if ls else None
    return None


def fallback(func, args, kwargs):
    name = func.__name__
    if name in STRUCTURAL:
        src = [args[0]] if args else []
        if name in ('append', 'insert') and len(args) > 1:
            src.append(args[-1])
        ldt = _ldt_of(list(src))

        def u(x):
            if isinstance(x, MaskedSel):
                x = x.materialize()
            if isinstance(x, SymArray):
                return x.view(np.ndarray)
            if isinstance(x, (list, tuple)):
                return type(x)(u(e) for e in x)
            if isinstance(x, Sym):
                return int(x) if x.__class__ is SymNum and x.k == 'i' else x
            return x
        def d(x):
            # data: symbolic numbers stay as they are
            if isinstance(x, Sym):
                o = np.empty((), dtype=object)
                o[()] = x
                return o
            if isinstance(x, (list, tuple)):
                if builtins.any(isinstance(e, Sym) for e in x):
                    o = np.empty(len(x), dtype=object)
                    for i, e in enumerate(x):
                        o[i] = e
                    return o
                return type(x)(d(e) for e in x)
            return u(x)
        if name in ('ix_', 'take', 'delete', 'take_along_axis', 'split',
                    'array_split', 'roll', 'repeat', 'tile'):
            a2 = [d(args[0])] if name != 'ix_' else [unwrap_ix(args[0])]
            a2 += [unwrap_ix(x) if isinstance(x, SymArray) else u(x)
                   for x in args[1:]]
            if name == 'ix_':
                return func(*a2)
        else:
            nd = {'append': (0, 1), 'insert': (0, 2)}.get(name, (0,))
            a2 = [d(x) if i in nd else u(x) for i, x in enumerate(args)]
        r = func(*a2, **{k: u(v) for k, v in kwargs.items()})

        def w(r):
            if isinstance(r, np.ndarray):
                if r.dtype == object:
                    return mk(r.view(np.ndarray), ldt or A.infer_ldt(r))
                return as_sym(r)
            if isinstance(r, tuple):
                return tuple(w(x) for x in r)
            if isinstance(r, list):
                return [w(x) for x in r]
            return r
        return w(r)
    if builtins.all(is_conc(x) for x in args) and \
            builtins.all(is_conc(x) for x in kwargs.values()):
        r = func(*[conc_in(x) for x in args],
                 **{k: conc_in(v) for k, v in kwargs.items()})
        return wrap_out(r)
    # unknown function of symbolic data: concretise (under-approximation)
    C.ctx().uf_used.add('concretised:' + name)
    r = func(*[conc_in(x) for x in args],
             **{k: conc_in(v) for k, v in kwargs.items()})
    return wrap_out(r)


def unwrap_ix(x):
    if isinstance(x, SymArray):
        if x.ldt == 'b':
            return np.array([bool(e) for e in x.elems()],
                            dtype=bool).reshape(x.shape)
        return A.int_index(x)
    return x


def is_conc(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, MaskedSel):
        return False
    if isinstance(x, SymArray):
        return not x.has_sym()
    if isinstance(x, (list, tuple)):
        return builtins.all(is_conc(e) for e in x)
    return True


# ------------------------------------------------------------- reductions
def _axes(axis, nd):
    if axis is None:
        return None
    if isinstance(axis, (list, tuple)):
        return tuple(int(a) % nd for a in axis)
    return (int(axis) % nd,)


def reduce_with(fn, a, axis, keepdims=False, ldt=None):
    """fn: list of scalars -> scalar"""
    a = as_sym(a)
    o = a.view(np.ndarray)
    ldt = ldt or a.ldt
    ax = _axes(axis, a.ndim)
    if ax is None:
        r = fn(a.elems())
        if keepdims:
            return as_sym(np.array(r, dtype=object).reshape((1,) * a.ndim))
        return out_scalar(A.cast_scalar(r, ldt), ldt)
    rest = [i for i in range(a.ndim) if i not in ax]
    t = o.transpose(rest + list(ax))
    sh = tuple(o.shape[i] for i in rest)
    t = t.reshape(sh + (-1,))
    res = np.empty(sh, dtype=object)
    for ix in np.ndindex(sh):
        res[ix] = A.cast_scalar(fn([t[ix + (j,)]
                                    for j in range(t.shape[-1])]), ldt)
    if keepdims:
        res = res.reshape(tuple(1 if i in ax else o.shape[i]
                                for i in range(a.ndim)))
    if res.ndim == 0:
        return out_scalar(res[()], ldt)
    return mk(res, ldt)


_add = A.OPS2['add']
_mul = A.OPS2['multiply']
_max2 = A.OPS2['maximum']
_min2 = A.OPS2['minimum']


def l_sum(xs):
    r = None
    cs = 0
    for x in xs:
        if isinstance(x, (bool, SymBool)):
            x = x * 1
        if isinstance(x, Sym):
            r = x if r is None else _add(r, x)
        else:
            cs = cs + x
    if r is None:
        return cs
    return _add(r, cs) if cs != 0 else r


def l_prod(xs):
    r = 1
    for x in xs:
        r = _mul(r, x) if not (isinstance(r, int) and r == 1) else x
    return r


def _nz(x):
    """nan -> 0"""
    return n_ite(C.n_isnan(x), 0.0, x)


def l_nansum(xs):
    return l_sum([_nz(x) for x in xs])


def l_max(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum "
                         "which has no identity")
    r = xs[0]
    for x in xs[1:]:
        r = _max2(r, x)
    return r


def l_min(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum "
                         "which has no identity")
    r = xs[0]
    for x in xs[1:]:
        r = _min2(r, x)
    return r


def l_nanmax(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation fmax which "
                         "has no identity")
    r = xs[0]
    for x in xs[1:]:
        r = A._fmax(r, x) if not (isinstance(r, float) and r != r) else x
    return r


def l_nanmin(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation fmin which "
                         "has no identity")
    r = xs[0]
    for x in xs[1:]:
        r = A._fmin(r, x) if not (isinstance(r, float) and r != r) else x
    return r


def l_mean(xs):
    if not xs:
        return NAN
    return A.OPS2['true_divide'](l_sum(xs), len(xs))


def l_nanmean(xs):
    n = l_sum([n_ite(C.n_isnan(x), 0, 1) for x in xs])
    return A.OPS2['true_divide'](l_nansum(xs), n)


def l_any(xs):
    return s_or(*[A._tb(x) for x in xs])


def l_all(xs):
    return s_and(*[A._tb(x) for x in xs])


def l_var(ddof):
    def f(xs):
        m = l_mean(xs)
        return A.OPS2['true_divide'](
            l_sum([_mul(x - m, x - m) for x in xs]), len(xs) - ddof)
    return f


def l_argbest(better, nan_first=True):
    def f(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        best, idx = xs[0], 0
        for i, x in enumerate(xs[1:], 1):
            c = better(x, best)
            if nan_first:
                bn = C.n_isnan(best)
                c = s_and(s_not(bn), s_or(c, C.n_isnan(x)))
            else:
                c = s_and(s_not(C.n_isnan(x)), s_or(c, C.n_isnan(best)))
            idx = n_ite(c, i, idx)
            best = n_ite(c, x, best)
        return idx
    return f


def l_count(xs):
    return l_sum([n_ite(C.mkb(C.bt(A._tb(x))), 1, 0) for x in xs])


def fork_sorted(xs):
    """ascending order of indices (stable), forking on comparisons;
    nan last"""
    def lt(i, j):
        a, b = xs[i], xs[j]
        an, bn = C.n_isnan(a), C.n_isnan(b)
        c = s_or(s_and(s_not(an), bn),
                 s_and(s_not(an), s_not(bn), A.OPS2['less'](a, b)))
        return bool(c)

    def cmp(i, j):
        return -1 if lt(i, j) else (1 if lt(j, i) else 0)
    # insertion sort: compares only when needed, keeps stability
    order = []
    for i in range(len(xs)):
        p = len(order)
        while p > 0 and lt(i, order[p - 1]):
            p -= 1
        order.insert(p, i)
    return order


def net_sorted(xs):
    """ascending values by a compare-exchange network (no forks, no nan)"""
    xs = list(xs)
    n = len(xs)

    def cx(i, j):
        a, b = xs[i], xs[j]
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if b < a:
                xs[i], xs[j] = b, a
            return
        c = A.OPS2['less'](b, a)
        xs[i], xs[j] = C.n_ite(c, b, a), C.n_ite(c, a, b)
    # odd-even merge sort (Batcher), any n
    p = 1
    while p < n:
        k = p
        while k >= 1:
            for j in range(k % p, n - k, 2 * k):
                for i in range(builtins.min(k, n - j - k)):
                    if (i + j) // (2 * p) == (i + j + k) // (2 * p):
                        cx(i + j, i + j + k)
            k //= 2
        p *= 2
    return xs


def l_quant(q, nan=False, method='linear'):
    """q in [0,1] concrete or symbolic"""
    def f(xs):
        ys = xs
        if nan:
            ys = [x for x in xs if not bool(C.n_isnan(x))]
            if not ys:
                return NAN
        elif bool(l_any([C.n_isnan(x) for x in xs])):
            return NAN
        if C.ctx().opts.get('sel') and len(ys) <= 16:
            s = net_sorted(ys)
        else:
            o = fork_sorted(ys)
            s = [ys[i] for i in o]
        n = len(s)
        if isinstance(q, Sym):
            pos = q * (n - 1)
            k = int(C.n_floor_i(pos))
            k = builtins.min(builtins.max(k, 0), n - 1)
            fr = pos - k
        else:
            pos = q * (n - 1)
            k = int(math.floor(pos))
            fr = pos - k
        if method in ('lower',):
            return s[k]
        if method in ('higher',):
            return s[builtins.min(k + (1 if fr else 0), n - 1)]
        if method != 'linear':
            raise Limitation("percentile method")
        if k + 1 >= n:
            return s[n - 1]
        if not isinstance(fr, Sym) and fr == 0:
            return s[k]
        return _add(s[k], _mul(s[k + 1] - s[k], fr))
    return f


def _red(name, fn, ldt=None):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=None, **k):
        if isinstance(a, MaskedSel):
            if axis is None and name in ('sum', 'any', 'all'):
                return getattr(a, name)()
            a = a.materialize()
        if out is not None or where is not None or k:
            kk = {x: v for x, v in k.items() if v not in (None, False)}
            if out is not None or kk:
                raise Limitation(name + " kwargs")
            w = as_sym(where)
            a = as_sym(a)
            if name in ('sum', 'nansum'):
                a = where_f(w, a, 0)
            else:
                raise Limitation(name + " where")
        a = as_sym(a)
        l = ldt(a.ldt) if callable(ldt) else (ldt or a.ldt)
        if dtype is not None:
            l = norm_dtype(dtype)
        fx = fn
        if initial is not None:
            def fx(xs):
                return fn([initial] + list(xs))
        if isinstance(keepdims, types.ModuleType) or keepdims is np._NoValue:
            keepdims = False
        return reduce_with(fx, a, axis, keepdims, l)
    f.__name__ = name
    OVERRIDE[name] = f
    OVERRIDE.setdefault({'max': 'amax', 'min': 'amin'}.get(name, name), f)
    return f


def _num_ldt(l):
    return 'i' if l == 'b' else l


_red('sum', l_sum, _num_ldt)
_red('nansum', l_nansum, _num_ldt)
_red('prod', l_prod, _num_ldt)
_red('max', l_max)
_red('min', l_min)
_red('nanmax', l_nanmax)
_red('nanmin', l_nanmin)
_red('mean', l_mean, 'f')
_red('nanmean', l_nanmean, 'f')
_red('any', l_any, 'b')
_red('all', l_all, 'b')
_red('count_nonzero', l_count, 'i')
OVERRIDE['amax'] = OVERRIDE['max']
OVERRIDE['amin'] = OVERRIDE['min']
OVERRIDE['sometrue'] = OVERRIDE['any']
OVERRIDE['alltrue'] = OVERRIDE['all']


@ov()
def ptp(a, axis=None):
    return OVERRIDE['max'](a, axis) - OVERRIDE['min'](a, axis)


@ov()
def var(a, axis=None, ddof=0, **k):
    return reduce_with(l_var(ddof), a, axis, ldt='f')


@ov()
def std(a, axis=None, ddof=0, **k):
    v = l_var(ddof)
    return reduce_with(lambda xs: A.OPS1['sqrt'](v(xs)), a, axis, ldt='f')


@ov()
def argmax(a, axis=None, **k):
    return reduce_with(l_argbest(lambda x, y: A.OPS2['greater'](x, y)), a,
                       axis, ldt='i')


@ov()
def argmin(a, axis=None, **k):
    return reduce_with(l_argbest(lambda x, y: A.OPS2['less'](x, y)), a, axis,
                       ldt='i')


@ov()
def nanargmax(a, axis=None, **k):
    return reduce_with(l_argbest(lambda x, y: A.OPS2['greater'](x, y), False),
                       a, axis, ldt='i')


@ov()
def nanargmin(a, axis=None, **k):
    return reduce_with(l_argbest(lambda x, y: A.OPS2['less'](x, y), False),
                       a, axis, ldt='i')


def _quantile(a, q, axis, scale, nan, method='linear', keepdims=False):
    if isinstance(q, (list, tuple, np.ndarray)):
        qs = as_sym(q)
        rs = [_quantile(a, x, axis, scale, nan, method) for x in qs]
        return as_sym(rs)
    return reduce_with(l_quant(q / scale if not isinstance(q, Sym)
                               else q / scale, nan, method), a, axis,
                       keepdims, 'f')


@ov()
def percentile(a, q, axis=None, out=None, overwrite_input=False,
               method='linear', keepdims=False, **k):
    return _quantile(a, q, axis, 100.0, False, k.get('interpolation',
                                                     method), keepdims)


@ov()
def nanpercentile(a, q, axis=None, out=None, overwrite_input=False,
                  method='linear', keepdims=False, **k):
    return _quantile(a, q, axis, 100.0, True, k.get('interpolation', method),
                     keepdims)


@ov()
def quantile(a, q, axis=None, out=None, overwrite_input=False,
             method='linear', keepdims=False, **k):
    return _quantile(a, q, axis, 1.0, False, method, keepdims)


@ov()
def nanquantile(a, q, axis=None, out=None, overwrite_input=False,
                method='linear', keepdims=False, **k):
    return _quantile(a, q, axis, 1.0, True, method, keepdims)


@ov()
def median(a, axis=None, **k):
    return reduce_with(l_quant(0.5), a, axis, ldt='f')


@ov()
def nanmedian(a, axis=None, **k):
    return reduce_with(l_quant(0.5, True), a, axis, ldt='f')


@ov()
def average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return OVERRIDE['mean'](a, axis)
    a, w = as_sym(a), as_sym(weights)
    return OVERRIDE['sum'](a * w, axis) / OVERRIDE['sum'](w, axis)


# ------------------------------------------------------------ accumulations
def _accum(op, a, axis=None, ldt=None):
    a = as_sym(a)
    l = ldt or ('i' if a.ldt == 'b' else a.ldt)
    if axis is None:
        xs = a.elems()
        o = np.empty(len(xs), dtype=object)
        r = None
        for i, x in enumerate(xs):
            x = A.cast_scalar(x, l)
            r = x if r is None else op(r, x)
            o[i] = r
        return mk(o, l)
    ax = int(axis) % a.ndim
    o = np.moveaxis(a.view(np.ndarray), ax, 0).copy()
    for ix in np.ndindex(o.shape[1:]):
        r = None
        for i in range(o.shape[0]):
            x = A.cast_scalar(o[(i,) + ix], l)
            r = x if r is None else op(r, x)
            o[(i,) + ix] = r
    return mk(np.moveaxis(o, 0, ax).copy(), l)


@ov()
def cumsum(a, axis=None, dtype=None, out=None):
    return _accum(_add, a, axis, norm_dtype(dtype))


@ov()
def nancumsum(a, axis=None, **k):
    return _accum(_add, nan_to_num(a), axis)


@ov()
def cumprod(a, axis=None, **k):
    return _accum(_mul, a, axis)


@ov()
def diff(a, n=1, axis=-1, **k):
    a = as_sym(a)
    if n != 1:
        return diff(diff(a, n - 1, axis), 1, axis)
    ax = axis % a.ndim
    s1 = [slice(None)] * a.ndim
    s2 = [slice(None)] * a.ndim
    s1[ax] = slice(1, None)
    s2[ax] = slice(None, -1)
    return a[tuple(s1)] - a[tuple(s2)]


@ov()
def trapz(y, x=None, dx=1.0, axis=-1):
    y = as_sym(y)
    if x is None:
        return OVERRIDE['sum']((y[1:] + y[:-1]) * (dx / 2.0))
    x = as_sym(x)
    return OVERRIDE['sum']((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2.0)


OVERRIDE['trapezoid'] = trapz


def ufunc_method(name, method, inputs, out, kw):
    a = inputs[0]
    if method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        t = {'add': 'sum', 'maximum': 'max', 'minimum': 'min',
             'multiply': 'prod', 'logical_and': 'all', 'logical_or': 'any',
             'fmax': 'nanmax', 'fmin': 'nanmin', 'bitwise_or': 'any',
             'bitwise_and': 'all'}.get(name)
        if t:
            return OVERRIDE[t](a, axis=axis, keepdims=keep)
    if method == 'accumulate':
        op = A.OPS2.get(name)
        if op:
            return _accum(op, a, kw.get('axis', 0))
    if method == 'outer':
        x, y = as_sym(inputs[0]), as_sym(inputs[1])
        xs = x.reshape(x.shape + (1,) * y.ndim)
        return ufunc_call(name, (xs, y))
    if method == 'at':
        arr, idx = inputs[0], inputs[1]
        arr_ = arr
        op = A.OPS2[name]
        val = as_sym(inputs[2]) if len(inputs) > 2 else None
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = [A.int_index(as_sym(i)) for i in idx]
        idx = np.broadcast_arrays(*idx)
        v = np.broadcast_to(val.view(np.ndarray), idx[0].shape)
        for ix in np.ndindex(idx[0].shape):
            k = tuple(int(i[ix]) for i in idx)
            arr_[k] = op(arr_[k], v[ix])
        return None
    raise Limitation("ufunc %s.%s" % (name, method))


# ----------------------------------------------------------------- creation
def _shape(s):
    if isinstance(s, np.ndarray):
        s = s.tolist()
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return (int(s),)


def _dt(dtype, default='f'):
    d = norm_dtype(dtype)
    return d or default


@ov()
def zeros(shape, dtype=None, order='C', **k):
    l = _dt(dtype)
    return A.full(_shape(shape), {'f': 0.0, 'i': 0, 'b': False}.get(l, 0), l)


@ov()
def ones(shape, dtype=None, order='C', **k):
    l = _dt(dtype)
    return A.full(_shape(shape), {'f': 1.0, 'i': 1, 'b': True}.get(l, 1), l)


@ov()
def empty(shape, dtype=None, order='C', **k):
    l = _dt(dtype)
    # arbitrary content: reading it before writing is a visible nan / junk
    return A.full(_shape(shape), {'f': NAN, 'i': -987654321,
                                  'b': False}.get(l, None), l)


@ov()
def full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, np.ndarray) and fill_value.size > 1:
        r = empty(shape, fill_value.dtype)
        r[...] = fill_value
        return r
    l = norm_dtype(dtype) or A.scalar_ldt(fill_value)
    return A.full(_shape(shape), A.cast_scalar(fill_value, l), l)


def _like(maker):
    def f(a, *args, dtype=None, **k):
        a = as_sym(a)
        k.pop('order', None)
        k.pop('subok', None)
        sh = k.pop('shape', None) or a.shape
        return maker(sh, *args, dtype=dtype if dtype is not None else a.ldt)
    return f


OVERRIDE['zeros_like'] = _like(zeros)
OVERRIDE['ones_like'] = _like(ones)
OVERRIDE['empty_like'] = _like(empty)
OVERRIDE['full_like'] = _like(full)


@ov('array')
def array(a, dtype=None, copy=True, order=None, ndmin=0, subok=False,
          **k):
    r = as_sym(a, dtype, copy=True)
    if isinstance(r, SymArray) and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


@ov('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray')
def asarray(a, dtype=None, **k):
    return as_sym(a, dtype)


@ov('copy')
def copy_(a, **k):
    return as_sym(a).copy()


@ov()
def arange(*a, dtype=None, **k):
    a = [C.ctx().concretize(x) if isinstance(x, Sym) else x for x in a]
    r = as_sym(np.arange(*a))
    return r if dtype is None else r.astype(dtype)


def _is_scalar0(x):
    return isinstance(x, Sym) or np.ndim(x) == 0


@ov()
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    if not (_is_scalar0(start) and _is_scalar0(stop)):
        # element by element, the samples along the first axis
        a, b = asarray(start, dtype=float), asarray(stop, dtype=float)
        d = (b - a)
        rest = tuple(d.shape)
        av, bv = [np.broadcast_to(as_sym(q).view(np.ndarray), rest)
                  for q in (a, b)]
        o = np.empty((num,) + rest, dtype=object)
        for k in np.ndindex(*rest):
            c = as_sym(linspace(av[k], bv[k], num, endpoint))
            for i in range(num):
                o[(i,) + k] = c.view(np.ndarray)[i]
        if axis != 0:
            o = np.moveaxis(o, 0, axis)
        res = mk(o, 'f')
        if dtype is not None:
            res = res.astype(dtype)
        return (res, d / div if div else NAN) if retstep else res
    o = np.empty(num, dtype=object)
    step = None
    if not isinstance(start, Sym) and not isinstance(stop, Sym):
        r = np.linspace(start, stop, num, endpoint=endpoint)
        for i in range(num):
            o[i] = float(r[i])
        step = (stop - start) / div if div else NAN
    else:
        d = stop - start
        step = d / div if div else NAN
        for i in range(num):
            o[i] = A.cast_scalar(start + d * (i / div) if div else start,
                                 'f')
    res = mk(o, 'f')
    if dtype is not None:
        res = res.astype(dtype)
    return (res, step) if retstep else res


@ov()
def eye(n, m=None, k=0, dtype=None, **kw):
    r = as_sym(np.eye(int(n), m, k))
    return r if dtype is None else r.astype(dtype)


OVERRIDE['identity'] = eye


# ------------------------------------------------------------------ selects
def where_f(cond, x=None, y=None):
    if isinstance(cond, MaskedSel):
        cond = cond.materialize()
    cond = as_sym(cond)
    if x is None and y is None:
        return nonzero(cond)
    x, y = as_sym(x), as_sym(y)
    l = join_ldt(x.ldt, y.ldt)
    sh = np.broadcast_shapes(cond.shape, x.shape, y.shape)
    c = np.broadcast_to(cond.view(np.ndarray), sh)
    xb = np.broadcast_to(x.view(np.ndarray), sh)
    yb = np.broadcast_to(y.view(np.ndarray), sh)
    o = np.empty(sh, dtype=object)
    for ix in np.ndindex(sh):
        o[ix] = n_ite(C.mkb(C.bt(A._tb(c[ix]))), A.cast_scalar(xb[ix], l),
                      A.cast_scalar(yb[ix], l))
    r = mk(o, l)
    if sh == ():
        return out_scalar(r.elems()[0], l)
    return r


OVERRIDE['where'] = where_f


@ov()
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where_f(c, v, r)
    return r


@ov()
def nonzero(a):
    a = as_sym(a)
    b = np.array([bool(A._tb(x)) for x in a.elems()],
                 dtype=bool).reshape(a.shape)
    return tuple(as_sym(x) for x in np.nonzero(b))


@ov()
def flatnonzero(a):
    return nonzero(as_sym(a).ravel())[0]


@ov()
def argwhere(a):
    a = as_sym(a)
    b = np.array([bool(A._tb(x)) for x in a.elems()],
                 dtype=bool).reshape(a.shape)
    return as_sym(np.argwhere(b))


@ov()
def extract(cond, a):
    return as_sym(a).ravel()[as_sym(cond).ravel()]


@ov()
def compress(cond, a, axis=None):
    if isinstance(cond, SymArray) and not isinstance(a, SymArray):
        pass
    return as_sym(a)[as_sym(cond)]


@ov()
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    if min is not None:
        a_min = min
    if max is not None:
        a_max = max
    r = a
    if a_min is not None:
        r = ufunc_call('maximum', (r, a_min))
    if a_max is not None:
        r = ufunc_call('minimum', (r, a_max))
    if out is not None:
        out[...] = r
        return out
    return r


@ov()
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    if isinstance(a, Sym) or np.isscalar(a):
        return n_ite(C.n_isnan(a), nan, a)
    a = as_sym(a)
    r = where_f(ufunc_call('isnan', (a,)), nan, a)
    if not copy:
        a[...] = r
        return a
    return r


@ov('round', 'around', 'round_')
def round_f(a, decimals=0, out=None):
    if isinstance(a, (Sym,)) or np.isscalar(a):
        if not isinstance(a, Sym):
            return np.round(a, decimals)
        if decimals == 0:
            r = C.n_round(a)
            return r.real() if a.k == 'f' else r
        return C.n_round(a, decimals)
    a = as_sym(a)
    if decimals == 0:
        return a.copy() if a.ldt == 'i' else ufunc_call('rint', (a,))
    m = 10.0 ** decimals
    return ufunc_call('rint', (a * m,)) / m


@ov('fix')
def fix(a, out=None):
    return ufunc_call('trunc', (a,))


@ov()
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, (list, tuple)):
        a = as_sym(a)
    if isinstance(b, (list, tuple)):
        b = as_sym(b)
    d = ufunc_call('absolute', (ufunc_call('subtract', (a, b)),))
    t = ufunc_call('add', (atol, ufunc_call(
        'multiply', (rtol, ufunc_call('absolute', (b,))))))
    r = ufunc_call('less_equal', (d, t))
    if equal_nan:
        r = r | (ufunc_call('isnan', (a,)) & ufunc_call('isnan', (b,)))
    return r


@ov()
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(A.any_(s_not_arr(isclose(a, b, rtol, atol,
                                         equal_nan)))) is False


def s_not_arr(x):
    if isinstance(x, SymArray):
        return ufunc_call('logical_not', (x,))
    return s_not(x)


@ov()
def array_equal(a, b, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return s_and(*[A.OPS2['equal'](x, y) if not equal_nan else
                   s_or(A.OPS2['equal'](x, y),
                        s_and(C.n_isnan(x), C.n_isnan(y)))
                   for x, y in zip(a.elems(), b.elems())])


@ov()
def isin(a, test, invert=False, **k):
    a = as_sym(a)
    t = as_sym(list(test) if isinstance(test, set) else test).elems()
    o = np.empty(a.shape, dtype=object)
    src = a.view(np.ndarray)
    for ix in np.ndindex(a.shape):
        c = s_or(*[A.OPS2['equal'](src[ix], y) for y in t])
        o[ix] = s_not(c) if invert else c
    return mk(o, 'b')


OVERRIDE['in1d'] = isin


# ------------------------------------------------------------------ sorting
@ov()
def argsort(a, axis=-1, kind=None, order=None, **k):
    a = as_sym(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if a.ndim == 1:
        return as_sym(fork_sorted(a.elems()), 'i') if a.size else \
            A.empty((0,), 'i')
    ax = axis % a.ndim
    o = np.moveaxis(a.view(np.ndarray), ax, -1)
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape[:-1]):
        s = fork_sorted(list(o[ix]))
        for i, v in enumerate(s):
            r[ix + (i,)] = v
    return mk(np.moveaxis(r, -1, ax), 'i')


@ov()
def sort(a, axis=-1, kind=None, **k):
    a = as_sym(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ax = axis % a.ndim
    o = np.moveaxis(a.view(np.ndarray), ax, -1)
    r = np.empty(o.shape, dtype=object)
    for ix in np.ndindex(o.shape[:-1]):
        l = list(o[ix])
        if C.ctx().opts.get('sel') and len(l) <= 16 and \
                builtins.any(isinstance(v, Sym) for v in l) and \
                builtins.all(C.n_isnan(v) is False for v in l):
            for i, v in enumerate(net_sorted(l)):
                r[ix + (i,)] = v
            continue
        for i, v in enumerate(fork_sorted(l)):
            r[ix + (i,)] = l[v]
    return mk(np.moveaxis(r, -1, ax), a.ldt)


OVERRIDE['msort'] = sort


@ov('argpartition')
def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


@ov('partition')
def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


@ov()
def lexsort(keys, axis=-1):
    ks = [as_sym(x).elems() for x in keys]
    n = len(ks[0])
    order = list(range(n))
    for k in ks:
        vals = [k[i] for i in order]
        order = [order[j] for j in fork_sorted(vals)]
    return as_sym(order, 'i')


@ov()
def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **k):
    if axis is not None:
        return fallback(np.unique, (a,), dict(
            return_index=return_index, return_inverse=return_inverse,
            return_counts=return_counts, axis=axis))
    a = as_sym(a)
    xs = a.elems()
    o = fork_sorted(xs)
    out, first, inv, cnt = [], [], [0] * len(xs), []
    for i in o:
        if out and bool(A.OPS2['equal'](out[-1], xs[i])):
            cnt[-1] += 1
        else:
            out.append(xs[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(out) - 1
    r = as_sym(out, a.ldt) if out else A.empty((0,), a.ldt)
    res = (r,)
    if return_index:
        res += (as_sym(first, 'i'),)
    if return_inverse:
        res += (as_sym(inv, 'i'),)
    if return_counts:
        res += (as_sym(cnt, 'i'),)
    return res if len(res) > 1 else r


@ov()
def searchsorted(a, v, side='left', sorter=None):
    a = as_sym(a)
    if sorter is not None:
        a = a[as_sym(sorter)]
    xs = a.elems()

    def one(key):
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = lo + ((hi - lo) >> 1)
            if side == 'left':
                c = A.OPS2['less'](xs[mid], key)
            else:
                c = A.OPS2['less_equal'](xs[mid], key)
            if bool(c):
                lo = mid + 1
            else:
                hi = mid
        return lo
    if isinstance(v, (np.ndarray, list, tuple)):
        v = as_sym(v)
        if v.ndim:
            return as_sym([one(x) for x in v.elems()], 'i').reshape(v.shape)
        v = v.elems()[0]
    return np.int64(one(v))


@ov()
def ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Limitation("ediff1d options")
    return OVERRIDE['diff'](as_sym(a).ravel())


@ov()
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


@ov()
def bincount(x, weights=None, minlength=0):
    idx = A.int_index(as_sym(x))
    n = builtins.max(int(minlength), (int(idx.max()) + 1) if idx.size else 0)
    if weights is None:
        return as_sym(np.bincount(idx, minlength=n))
    w = as_sym(weights).elems()
    r = zeros(n)
    for i, j in enumerate(idx.tolist()):
        r[j] = _add(r[j], w[i])
    return r


@ov()
def histogram(a, bins=10, range=None, density=None, weights=None):
    if not is_conc(a) and isinstance(bins, (list, np.ndarray)) and \
            not density and weights is None:
        e = as_sym(bins)
        el = e.elems()
        xs = as_sym(a).elems()
        out = []
        for i in builtins.range(len(el) - 1):
            last = i == len(el) - 2
            out.append(l_sum([n_ite(s_and(
                A.OPS2['greater_equal'](x, el[i]),
                (A.OPS2['less_equal'] if last else A.OPS2['less'])(
                    x, el[i + 1])), 1, 0) for x in xs]))
        return as_sym(out, 'i'), e
    return fallback(np.histogram, (a,), dict(bins=bins, range=range,
                                             density=density,
                                             weights=weights))


@ov()
def interp(x, xp, fp, left=None, right=None, period=None):
    xs, ys = as_sym(xp).elems(), as_sym(fp).elems()

    def one(v):
        n = len(xs)
        if bool(A.OPS2['less'](v, xs[0])):
            return ys[0] if left is None else left
        if bool(A.OPS2['greater_equal'](v, xs[n - 1])):
            if bool(A.OPS2['greater'](v, xs[n - 1])) and right is not None:
                return right
            return ys[n - 1]
        lo, hi = 0, n - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if bool(A.OPS2['less_equal'](xs[mid], v)):
                lo = mid
            else:
                hi = mid
        sl = A.OPS2['true_divide'](ys[hi] - ys[lo], xs[hi] - xs[lo])
        return _add(ys[lo], _mul(sl, v - xs[lo]))
    if isinstance(x, (np.ndarray, list, tuple)):
        x = as_sym(x)
        return as_sym([one(v) for v in x.elems()], 'f').reshape(x.shape)
    return out_scalar(one(x), 'f')


# ------------------------------------------------------------------- linalg
@ov('dot', 'matmul')
def matmul(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    l = join_ldt(a.ldt, b.ldt)
    if a.ndim == 1 and b.ndim == 1:
        return out_scalar(l_sum([_mul(x, y) for x, y in
                                 zip(a.elems(), b.elems())]), l)
    if a.ndim == 2 and b.ndim == 1:
        return as_sym([matmul(r, b) for r in a], l)
    if a.ndim == 1 and b.ndim == 2:
        return as_sym([matmul(a, c) for c in b.T], l)
    if a.ndim == 2 and b.ndim == 2:
        return as_sym([[matmul(r, c) for c in b.T] for r in a], l)
    raise Limitation("matmul rank")


@ov()
def outer(a, b, out=None):
    return ufunc_method('multiply', 'outer', (as_sym(a).ravel(),
                                              as_sym(b).ravel()), None, {})


@ov()
def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '->' not in spec or '.' in spec:
        raise Limitation("einsum " + spec)
    ins, o = spec.split('->')
    ins = ins.split(',')
    ops = [as_sym(x) for x in ops]
    dims = {}
    for s, x in zip(ins, ops):
        for c, n in zip(s, x.shape):
            dims[c] = n
    summed = [c for c in dims if c not in o]
    l = join_ldt(*[x.ldt for x in ops])
    res = np.empty(tuple(dims[c] for c in o), dtype=object)
    for ix in np.ndindex(res.shape):
        env = dict(zip(o, ix))
        terms = []
        for jx in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, jx))
            terms.append(l_prod([x.view(np.ndarray)[
                tuple(env[c] for c in s)] for s, x in zip(ins, ops)]))
        res[ix] = l_sum(terms)
    return mk(res, l)


@ov()
def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        w = as_sym(where)
        dst[...] = where_f(w, src, dst)


@ov()
def putmask(a, mask, values):
    a[...] = where_f(mask, values, a)


@ov()
def put(a, ind, v, mode='raise'):
    f = a.ravel()
    f[as_sym(ind)] = v
    a[...] = f.reshape(a.shape)


@ov()
def fill_diagonal(a, v):
    for i in range(builtins.min(a.shape)):
        a[i, i] = v


@ov()
def shape(a):
    if isinstance(a, (SymArray, np.ndarray)):
        return a.shape
    if isinstance(a, Sym):
        return ()
    return as_sym(a).shape if isinstance(a, (list, tuple)) else np.shape(a)


@ov()
def size(a, axis=None):
    s = shape(a)
    if axis is not None:
        return s[axis]
    return int(np.prod(s)) if s else 1


@ov()
def ndim(a):
    return len(shape(a))


@ov()
def isscalar(a):
    return isinstance(a, Sym) or np.isscalar(a)


@ov()
def unravel_index(i, shp, order='C'):
    if isinstance(i, SymNum):
        i = int(i)
    return fallback(np.unravel_index, (i, shp), {})


@ov()
def ravel_multi_index(mi, dims, **k):
    r = 0
    for x, d in zip(mi, dims):
        r = r * d + x
    return r


@ov()
def iscomplexobj(x):
    return False


@ov()
def vectorize(f, *a, **k):
    def g(*args):
        args = [as_sym(x) for x in args]
        sh = np.broadcast_shapes(*[x.shape for x in args])
        bs = [np.broadcast_to(x.view(np.ndarray), sh) for x in args]
        o = np.empty(sh, dtype=object)
        for ix in np.ndindex(sh):
            o[ix] = f(*[out_scalar(b[ix], x.ldt)
                        for b, x in zip(bs, args)])
        return mk(o, A.infer_ldt(o)) if sh else o[()]
    return g


@ov()
def apply_along_axis(f, axis, a, *args, **k):
    a = as_sym(a)
    ax = axis % a.ndim
    t = mk(np.moveaxis(a.view(np.ndarray), ax, -1), a.ldt)
    sh = t.shape[:-1]
    res = {}
    for ix in np.ndindex(sh):
        res[ix] = f(t[ix], *args, **k)
    first = next(iter(res.values()))
    if isinstance(first, np.ndarray):
        o = np.empty(sh + first.shape, dtype=object)
        for ix in res:
            o[ix] = as_sym(res[ix]).view(np.ndarray)
        return mk(np.moveaxis(o, -1, ax), A.infer_ldt(o))
    o = np.empty(sh, dtype=object)
    for ix in res:
        o[ix] = res[ix]
    return mk(o, A.infer_ldt(o))


# ---------------------------------------------------------------- namespace
class _ErrState(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.k == cls._symx_ldt and not x.py
        if isinstance(x, SymBool):
            return cls._symx_ldt == 'b'
        return isinstance(x, cls._real)

    def __call__(cls, x=0, *a):
        if isinstance(x, (Sym,)):
            return A.cast_scalar(x, cls._symx_ldt)
        if isinstance(x, (list, tuple, np.ndarray)):
            return as_sym(x, cls._symx_ldt)
        return cls._real(x, *a)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _mktype(name):
    real = getattr(np, name)
    return _TypeMeta(name, (), {'_real': real,
                                '_symx_ldt': norm_dtype(real)})


TYPES = {n: _mktype(n) for n in
         ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8',
          'uint8', 'uint16', 'uint32', 'uint64', 'intp', 'bool_', 'double')}


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, MaskedSel))

    def __getattr__(cls, n):
        return getattr(np.ndarray, n)


class NDArrayType(metaclass=_NDMeta):
    pass


class SymUfunc(object):
    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__
        self.nin = real.nin
        self.identity = real.identity

    def __call__(self, *a, out=None, where=True, dtype=None, **k):
        n = self.nin
        if len(a) > n:
            out = a[n]
            a = a[:n]
        if isinstance(out, tuple):
            out = out[0]
        name = self.real.__name__
        if name == 'divmod':
            return (ufunc_call('floor_divide', a), ufunc_call('remainder', a))
        if name == 'modf':
            t = ufunc_call('trunc', a)
            return a[0] - t, t
        if name == 'matmul':
            return matmul(*a)
        r = ufunc_call(name, a, out=out, where=where)
        if dtype is not None and out is None and isinstance(r, SymArray):
            r = r.astype(dtype)
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
        return ufunc_method(self.__name__, 'reduce', (as_sym(a),), None,
                            {'axis': axis, 'keepdims': keepdims})

    def accumulate(self, a, axis=0, **k):
        return ufunc_method(self.__name__, 'accumulate', (as_sym(a),), None,
                            {'axis': axis})

    def outer(self, a, b, **k):
        return ufunc_method(self.__name__, 'outer', (a, b), None, {})

    def at(self, a, idx, b=None):
        return ufunc_method(self.__name__, 'at', (a, idx, b), None, {})


class Linalg(object):
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            raise Limitation("norm ord")
        x = as_sym(x)
        return ufunc_call('sqrt', (OVERRIDE['sum'](x * x, axis,
                                                   keepdims=keepdims),))

    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        return lambda *a, **k: fallback(real, a, k)


class NumpyProxy(types.ModuleType):
    """numpy for symbolic runs"""

    def __init__(self, random):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['random'] = random
        self.__dict__['errstate'] = _ErrState
        self.__dict__['ndarray'] = NDArrayType
        self.__dict__['linalg'] = Linalg()
        self.__dict__['seterr'] = lambda **k: {}
        self.__dict__['float_'] = TYPES['float64']
        self.__dict__['__version__'] = np.__version__
        self.__dict__['testing'] = np.testing
        for n, t in TYPES.items():
            self.__dict__[n] = t

    def __getattr__(self, name):
        f = OVERRIDE.get(name)
        if f is not None:
            return f
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            u = SymUfunc(real)
            self.__dict__[name] = u
            return u
        if isinstance(real, type) or not callable(real):
            return real

        @functools.wraps(real)
        def g(*a, **k):
            return fallback(real, a, k)
        g.__name__ = name
        self.__dict__[name] = g
        return g
