# encoding: utf-8
"""C28: utilities for dense arrays"""
from __future__ import division

import itertools as it

import numpy as np

from mpnum import utils
from mpnum.utils import extmath

from .. import gen

PROP = 'C28'
RULE = ('random arrays of all dtypes and memory layouts; every number of '
        'sites and legs up to eight axes, skipped axes, negative axes; '
        'reference: explicit index arithmetic entry by entry. Non-trivial: '
        'more than one site or summand')
QUICK, THOROUGH = 6000, 60000


def array(ctx, shape, dtype=None):
    return gen.layout(ctx, gen.rand_array(
        ctx, shape, dtype or ctx.pick(gen.DTYPES)))


def same(ctx, got, want, msg, **kw):
    ctx.check(np.shape(got) == np.shape(want), msg + ': shape',
              got=np.shape(got), expected=np.shape(want), **kw)
    ctx.check(np.array_equal(got, want), msg + ': values', **kw)


def order(ctx):
    sites = ctx.randint(1, 4)
    legs = ctx.randint(0, 3)
    if ctx.chance(.1):
        sites, legs = ctx.pick([(6, 2), (7, 1), (2, 5), (3, 4), (5, 2),
                                (12, 1), (1, 9)])
        ctx.event('many_axes')
    ls, rs = ctx.randint(0, 2), ctx.randint(0, 2)
    dims = [[1 if ctx.chance(.2) else ctx.randint(2, 3) if sites * legs < 6
             else ctx.randint(1, 2)
             for _ in range(legs)] for _ in range(sites)]
    left = [ctx.randint(1, 3) for _ in range(ls)]
    right = [ctx.randint(1, 3) for _ in range(rs)]
    glob = left + [dims[i][j] for j in range(legs) for i in range(sites)] + \
        right
    loc = left + [dims[i][j] for i in range(sites) for j in range(legs)] + \
        right
    kw = {}
    if ls or ctx.chance(.3):
        kw['left_skip'] = ls
    if rs or ctx.chance(.3):
        kw['right_skip'] = rs
    a = array(ctx, glob)
    keep = np.array(a)
    res = utils.global_to_local(a, sites, **kw)
    ctx.check(res.shape == tuple(loc), 'global_to_local: shape',
              got=res.shape, expected=loc)
    ctx.check(res.dtype == a.dtype, 'global_to_local: dtype')
    index = list(np.ndindex(*glob))
    pick = index if len(index) <= 40 else [index[ctx.randint(0, len(index)
                                                             - 1)]
                                           for _ in range(40)]
    for ix in pick:
        l, mid, r = ix[:ls], ix[ls:len(ix) - rs], ix[len(ix) - rs:]
        jx = l + tuple(mid[j * sites + i] for i in range(sites)
                       for j in range(legs)) + r
        ctx.check(res[jx] == a[ix], 'global_to_local: entry', index=ix,
                  sites=sites, legs=legs, skip=(ls, rs))
    same(ctx, utils.local_to_global(res, sites, **kw), keep,
         'local_to_global is not inverse', sites=sites, legs=legs)
    b = array(ctx, loc)
    res = utils.local_to_global(b, sites, **kw)
    ctx.check(res.shape == tuple(glob), 'local_to_global: shape')
    same(ctx, utils.global_to_local(res, sites, **kw), b,
         'global_to_local is not inverse', sites=sites, legs=legs)
    ctx.check(np.array_equal(a, keep), 'input changed')
    if legs and sites > 1:
        bad = a.reshape(a.shape + (1,))
        ctx.raises(Exception, lambda: utils.global_to_local(bad, sites, **kw),
                   'number of axes')
        ctx.raises(Exception, lambda: utils.local_to_global(bad, sites, **kw),
                   'number of axes')
    ctx.event('order')
    ctx.nontrivial = sites > 1 and legs > 1
    ctx.signature(glob, sites, legs, ls, rs)


def blocks(ctx):
    ndim = ctx.randint(1, 4) if ctx.chance(.9) else ctx.randint(5, 6)
    k = ctx.randint(1, min(ndim, 4))
    axes = [int(x) for x in ctx.rng.permutation(ndim)[:k]]
    count = ctx.randint(1, 4)
    if k < 4 and ctx.chance(.06):
        count = ctx.randint(5, 12)
    common = [ctx.randint(1, 3) for _ in range(ndim)]
    shapes = [[ctx.randint(1, 3) if i in axes else common[i]
               for i in range(ndim)] for _ in range(count)]
    dt = [ctx.pick(gen.DTYPES) for _ in range(count)] if ctx.chance(.5) else \
        [ctx.pick(gen.DTYPES)] * count
    arrs = [array(ctx, s, t) for s, t in zip(shapes, dt)]
    keep = [np.array(x) for x in arrs]
    arg = [x if ctx.chance(.6) else x - ndim for x in axes]
    arg = tuple(arg) if ctx.chance(.5) else arg
    give = arrs if ctx.chance(.5) else tuple(arrs)
    if sorted(axes) == [0, 1] and axes == [0, 1] and ctx.chance(.5):
        res = extmath.block_diag(give)
    else:
        res = extmath.block_diag(give, axes=arg)
    total = [sum(s[i] for s in shapes) if i in axes else common[i]
             for i in range(ndim)]
    want = np.zeros(total, np.result_type(*dt))
    off = [0] * ndim
    for a, s in zip(keep, shapes):
        sel = tuple(slice(off[i], off[i] + s[i]) if i in axes else slice(None)
                    for i in range(ndim))
        want[sel] = a
        for i in axes:
            off[i] += s[i]
    same(ctx, res, want, 'block_diag', axes=arg, shapes=shapes)
    ctx.check(res.dtype == want.dtype, 'block_diag: dtype', got=res.dtype,
              expected=want.dtype)
    for a, b in zip(arrs, keep):
        ctx.check(np.array_equal(a, b), 'block_diag: input changed')
        ctx.check(not np.shares_memory(res, a), 'block_diag: shares memory')
    ctx.event('blocks')
    ctx.event('block_axes:{}'.format(k))
    ctx.nontrivial = count > 1
    ctx.signature(shapes, arg, dt)


def traces(ctx):
    sites = ctx.randint(1, 4)
    dims = [ctx.randint(1, 3) for _ in range(sites)]
    if ctx.chance(.04):
        sites = ctx.randint(5, 6)
        dims = [ctx.randint(1, 2) for _ in range(sites)]
    elif ctx.chance(.04):
        sites = ctx.randint(1, 2)
        dims = [ctx.randint(1, 8) for _ in range(sites)]
    a = array(ctx, dims + dims)
    keep = np.array(a)
    out = [i for i in range(sites) if ctx.chance(.5)]
    arg = out if ctx.chance(.5) else tuple(out)
    res = utils.partial_trace(a, arg)
    rows, cols = list(range(sites)), list(range(sites, 2 * sites))
    for i in out:
        cols[i] = rows[i]
    stay = [i for i in range(sites) if i not in out]
    acc = np.zeros([dims[i] for i in stay] * 2,
                   complex if a.dtype.kind == 'c' else float)
    for ix in it.product(*(range(d) for d in dims)):
        for jx in it.product(*(range(dims[i]) for i in stay)):
            full = list(ix)
            for i, j in zip(stay, jx):
                full[i] = j
            acc[tuple(ix[i] for i in stay) + jx] += keep[ix + tuple(full)]
    single = a.dtype.itemsize // (2 if a.dtype.kind == 'c' else 1) == 4
    ctx.close(res, acc, 'partial_trace', scale=1.,
              rtol=1e-5 if single else 1e-10, traceout=arg)
    ctx.check(np.array_equal(a, keep), 'partial_trace: input changed')
    odd = a.reshape(a.shape + (1,))
    ctx.raises(Exception, lambda: utils.partial_trace(odd, [0]),
               'odd number of axes')
    ctx.event('traces')
    ctx.nontrivial = sites > 1
    ctx.signature(dims, arg)


def products(ctx):
    count = ctx.randint(1, 5) if ctx.chance(.95) else ctx.randint(6, 7)
    mats = [array(ctx, (ctx.randint(1, 3), ctx.randint(1, 3)))
            for _ in range(count)]
    keep = [np.array(m) for m in mats]
    res = utils.mkron(*mats)
    rows = [m.shape[0] for m in mats]
    cols = [m.shape[1] for m in mats]
    ctx.check(res.shape == (int(np.prod(rows)), int(np.prod(cols))),
              'mkron: shape', got=res.shape)
    for _ in range(20):
        i = [ctx.randint(0, r - 1) for r in rows]
        j = [ctx.randint(0, c - 1) for c in cols]
        want = 1
        for m, x, y in zip(keep, i, j):
            want = want * complex(m[x, y])
        got = res[np.ravel_multi_index(i, rows), np.ravel_multi_index(j, cols)]
        ctx.check(abs(got - want) <= 1e-5 * abs(want) + 1e-12, 'mkron: entry',
                  got=got, expected=want)
    vecs = [array(ctx, (ctx.randint(1, 3),), 'f8') for _ in range(count)]
    want = vecs[0]
    for v in vecs[1:]:
        want = np.multiply.outer(want, v).ravel()
    ctx.close(utils.mkron(*vecs), want, 'mkron of vectors')
    for m, k in zip(mats, keep):
        ctx.check(np.array_equal(m, k), 'mkron: input changed')
    # matrix product of arrays
    na, nb = ctx.randint(1, 4), ctx.randint(1, 4)
    d = ctx.randint(1, 4)
    a = array(ctx, [ctx.randint(1, 3) for _ in range(na - 1)] + [d], 'c16')
    b = array(ctx, [d] + [ctx.randint(1, 3) for _ in range(nb - 1)], 'f8')
    want = a.reshape((-1, d)).dot(b.reshape((d, -1))).reshape(
        a.shape[:-1] + b.shape[1:])
    ctx.close(utils.matdot(a, b), want, 'matdot', scale=1.)
    x, y = ctx.randint(0, na - 1), ctx.randint(0, nb - 1)
    b2 = array(ctx, [ctx.randint(1, 3) if i != y else a.shape[x]
                     for i in range(nb)], 'f8')
    ref = np.moveaxis(a, x, -1).reshape((-1, a.shape[x])).dot(
        np.moveaxis(b2, y, 0).reshape((a.shape[x], -1)))
    got = utils.matdot(a, b2, axes=((x,), (y,)))
    ctx.close(got.ravel(), ref.ravel(), 'matdot with axes', scale=1.)
    ctx.event('products')
    ctx.nontrivial = count > 1
    ctx.signature(rows, cols)


SCENARIOS = [('order', order), ('blocks', blocks), ('traces', traces),
             ('products', products)]
REQUIRED = ['order', 'blocks', 'block_axes:1', 'block_axes:2',
            'block_axes:3', 'traces', 'products', 'refusals']
