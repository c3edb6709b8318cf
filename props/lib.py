"""Helpers shared by the property harnesses (work in both modes)."""
import math

NB = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0),
      (1, 1)]          # options 0..8 as (row, column) offsets
R2 = math.sqrt(2)
DIST = [R2, 1, R2, 1, 1, 1, R2, 1, R2]


def grid(h, name, L, W, lo, hi, nan=False, **k):
    return [[h.real('%s%d_%d' % (name, i, j), lo, hi, nan=nan, **k)
             for j in range(W)] for i in range(L)]


def igrid(h, name, L, W, lo, hi):
    return [[h.int('%s%d_%d' % (name, i, j), lo, hi) for j in range(W)]
            for i in range(L)]


def flat(g):
    return [x for r in g for x in r]


def arr(h, g, dt='f'):
    return h.mkarray(flat(g), (len(g), len(g[0])), dt)


def const(L, W, v):
    return [[v] * W for _ in range(L)]


def params(h, pt, depth, stage, qx, qy, dx=1.0, ct=None, model='DeltaRCM',
           **kw):
    """parameter object in the source model's own orientation"""
    p = pt.modelParams()
    p.dx = dx
    p.depth = arr(h, depth)
    p.stage = arr(h, stage)
    p.qx = arr(h, qx)
    p.qy = arr(h, qy)
    if ct is not None:
        p.cell_type = arr(h, ct, 'i')
    if model:
        p.model = model
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def edge_ct(L, W, inner=0):
    """cell types with an edge ring"""
    return [[-1 if i in (0, L - 1) or j in (0, W - 1) else inner
             for j in range(W)] for i in range(L)]


def zn(h, x):
    """undefined counts as zero"""
    return h.ite(h.isnan(x), 0.0, x)
