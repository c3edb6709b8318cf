"""scipy routines the package calls, by contract, for symbolic runs.

gaussian_filter   the linear operator of the real filter (obtained from it by
                  unit impulses) applied to the symbolic field
interp1d          kinds 'previous' and 'linear' on sorted abscissae
gaussian_kde      a density supplied by the harness (kde_factory), since no
                  claim depends on its values
cKDTree, NearestNDInterpolator
                  exact nearest neighbours by squared distance
"""
import builtins
import types
import numpy as np
from . import core as C
from . import nparr as A
from .core import Sym, Limitation
from .nparr import as_sym, mk, SymArray

_ops = {}


def _operator(shape, args):
    key = (shape, repr(args))
    m = _ops.get(key)
    if m is None:
        from scipy.ndimage import gaussian_filter as gf
        n = int(np.prod(shape))
        m = np.zeros((n, n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.0
            m[:, i] = gf(e.reshape(shape), **args).ravel()
        _ops[key] = m
    return m


def gaussian_filter(input, sigma, order=0, output=None, mode='reflect',
                    cval=0.0, truncate=4.0, **k):
    if output is not None or k:
        raise Limitation("gaussian_filter options")
    a = as_sym(input)
    if not a.has_sym():
        from scipy.ndimage import gaussian_filter as gf
        return as_sym(gf(a.concrete(), sigma, order=order, mode=mode,
                         cval=cval, truncate=truncate))
    if isinstance(sigma, Sym):
        raise Limitation("symbolic sigma")
    m = _operator(a.shape, dict(sigma=sigma, order=order, mode=mode,
                                cval=cval, truncate=truncate))
    v = a.elems()
    nan = C.s_or(*[C.n_isnan(x) for x in v])
    if nan is not False and bool(nan):
        raise Limitation("gaussian_filter of nan")
    o = np.empty(len(v), dtype=object)
    for i in range(len(v)):
        r = 0.0
        for j in range(len(v)):
            if m[i, j] != 0:
                r = r + float(m[i, j]) * v[j]
        o[i] = r
    return mk(o.reshape(a.shape), 'f')


class interp1d(object):
    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=float('nan'),
                 assume_sorted=False):
        self.x, self.y = as_sym(x), as_sym(y)
        if self.x.ndim != 1 or self.y.ndim != 1:
            raise Limitation("interp1d dimensions")
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along "
                             "interpolation axis.")
        if bounds_error is not None or kind not in ('previous', 'linear'):
            raise Limitation("interp1d options")
        self.kind = kind
        if not assume_sorted:
            xs = self.x.elems()
            for a, b in zip(xs, xs[1:]):
                if not bool(a <= b):
                    raise Limitation("interp1d on unsorted abscissae")

    def __call__(self, t):
        t = as_sym(t)
        xs, ys = self.x.elems(), self.y.elems()
        o = np.empty(t.shape, dtype=object)
        for ix in np.ndindex(t.shape):
            o[ix] = self._one(t.view(np.ndarray)[ix], xs, ys)
        return mk(o, 'f')

    def _one(self, v, xs, ys):
        if bool(v < xs[0]) or bool(v > xs[-1]):
            raise ValueError("A value in x_new is outside the interpolation "
                             "range.")
        n = len(xs)
        if self.kind == 'previous':
            r = ys[0]
            for i in range(1, n):
                r = C.n_ite(xs[i] <= v, ys[i], r)
            return r
        # as np.interp, which the real class calls here: on repeated
        # abscissae the last of them counts
        k = 0
        while k + 1 < n and bool(xs[k + 1] <= v):
            k += 1
        if k + 1 == n:
            return ys[k]
        return ys[k] + (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]) * (
            v - xs[k])


class _Nearest(object):
    """indices of the data points by distance (forks on comparisons)"""

    def __init__(self, pts):
        p = as_sym(pts)
        if p.ndim != 2 or p.shape[1] != 2:
            raise Limitation("neighbour search dimensions")
        b = p.view(np.ndarray)
        self.pts = [(b[i, 0], b[i, 1]) for i in range(p.shape[0])]

    def order(self, q, k):
        d = [(q[0] - x) * (q[0] - x) + (q[1] - y) * (q[1] - y)
             for x, y in self.pts]
        out = []
        for i in range(len(d)):
            j = len(out)
            while j > 0 and bool(d[i] < d[out[j - 1]]):
                j -= 1
            if j < k:
                out.insert(j, i)
                out = out[:k]
        return [(d[i], i) for i in out]


def _plain(what, a=(), **k):
    if a or k:
        raise Limitation(what + " options")


class cKDTree(object):
    def __init__(self, data, leafsize=16, compact_nodes=True,
                 copy_data=False, balanced_tree=True, **k):
        _plain("cKDTree", **k)
        self.n = _Nearest(data)

    def query(self, x, k=1, **kw):
        if kw:
            raise Limitation("query options")
        x = as_sym(x)
        b = x.view(np.ndarray)
        m = len(self.n.pts)
        D = np.empty((x.shape[0], k), dtype=object)
        I = np.empty((x.shape[0], k), dtype=object)
        for r in range(x.shape[0]):
            o = self.n.order((b[r, 0], b[r, 1]), k)
            for c in range(k):
                if c < len(o):
                    D[r, c] = C.n_sqrt(o[c][0]) if isinstance(o[c][0], Sym) \
                        else float(np.sqrt(o[c][0]))
                    I[r, c] = o[c][1]
                else:
                    D[r, c] = float('inf')
                    I[r, c] = m
        if k == 1:
            D, I = D[:, 0], I[:, 0]
        return mk(D, 'f'), mk(I, 'i')


class NearestNDInterpolator(object):
    def __init__(self, x, y, rescale=False, **k):
        if rescale is not False:
            raise Limitation("rescaled interpolation")
        _plain("NearestNDInterpolator", **k)
        self.n = _Nearest(x)
        self.y = as_sym(y)

    def __call__(self, *a):
        if len(a) != 1:
            raise Limitation("interpolator call")
        x = as_sym(a[0])
        b = x.view(np.ndarray)
        o = np.empty(x.shape[0], dtype=object)
        ys = self.y.elems()
        for r in range(x.shape[0]):
            o[r] = ys[self.n.order((b[r, 0], b[r, 1]), 1)[0][1]]
        return mk(o, self.y.ldt)


class Path(object):
    """closed polygon; points on its outline are left open by matplotlib,
    harnesses exclude them"""

    def __init__(self, vertices, *a, **k):
        _plain("Path", a, **k)
        v = as_sym(vertices)
        b = v.view(np.ndarray)
        self.v = [(b[i, 0], b[i, 1]) for i in range(v.shape[0])]

    def contains_points(self, points, *a, **k):
        _plain("contains_points", a, **k)
        p = as_sym(points)
        b = p.view(np.ndarray)
        sym = p.has_sym() or builtins.any(isinstance(c, Sym)
                                          for q in self.v for c in q)
        if not sym:
            from matplotlib.path import Path as P
            return as_sym(P(np.array(self.v, dtype=float)).contains_points(
                p.concrete()))
        o = np.empty(p.shape[0], dtype=object)
        n = len(self.v)
        for r in range(p.shape[0]):
            x, y = b[r, 0], b[r, 1]
            ins = False
            for i in range(n):
                (x1, y1), (x2, y2) = self.v[i], self.v[i - 1]
                a_, c_ = y1 > y, y2 > y
                cross = C.s_or(C.s_and(a_, C.s_not(c_)),
                               C.s_and(C.s_not(a_), c_))
                # x < x1 + (x2-x1)*(y-y1)/(y2-y1), without the division
                l, rr = (x - x1) * (y2 - y1), (x2 - x1) * (y - y1)
                left = C.s_or(C.s_and(y2 > y1, l < rr),
                              C.s_and(y2 < y1, l > rr))
                f = C.s_and(cross, left)
                ins = C.s_or(C.s_and(ins, C.s_not(f)),
                             C.s_and(C.s_not(ins), f))
            o[r] = ins
        return mk(o, 'b')


def gaussian_kde(dataset, *a, **k):
    _plain("gaussian_kde", a, **k)
    f = C.ctx().opts.get('kde')
    if f is None:
        raise Limitation("gaussian_kde")
    return f(dataset)


def modules():
    """dotted name -> stub"""
    def m(name, **k):
        o = types.ModuleType(name)
        o.__dict__.update(k)
        return o
    nd = m('scipy.ndimage', gaussian_filter=gaussian_filter)
    it = m('scipy.interpolate', interp1d=interp1d,
           NearestNDInterpolator=NearestNDInterpolator)
    sp = m('scipy.spatial', cKDTree=cKDTree, KDTree=cKDTree)
    st = m('scipy.stats', gaussian_kde=gaussian_kde)
    top = m('scipy', ndimage=nd, interpolate=it, spatial=sp, stats=st)
    return {'scipy': top, 'scipy.ndimage': nd, 'scipy.interpolate': it,
            'scipy.spatial': sp, 'scipy.stats': st}
