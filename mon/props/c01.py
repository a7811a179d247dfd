# encoding: utf-8
"""C01: dense arrays survive the conversion to MPArrays and back"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa

PROP = 'C01'
RULE = ('dense arrays and local-tensor chains with random site/leg structure '
        '(1-7 sites, 0-3 legs, leg sizes 1-5, all dtypes, odd memory layouts); '
        'non-trivial: at least two sites and an entry coupling them')
QUICK, THOROUGH = 4000, 40000
FLOATS = ('f8', 'c16', 'f8', 'c16', 'f4', 'c8')


def dense_array(ctx, shape, dtypes=FLOATS):
    dims = tuple(d for s in shape for d in s)
    dtype = ctx.pick(dtypes)
    arr = gen.rand_array(ctx, dims, dtype)
    how = ctx.randint(0, 9)
    if how == 0:
        arr = arr * 0
    elif how == 1:
        big = 30 if np.dtype(dtype).itemsize > 4 and dtype != 'c8' else 8
        arr = (arr * 10.0 ** ctx.randint(-big, big)).astype(dtype)
    elif how in (4, 5) and dims and dtype in ('f8', 'c16'):
        # entries of very different size: small parts are not noise
        ax = ctx.randint(0, len(dims) - 1)
        g = 10.0 ** -(ctx.rng.rand(dims[ax]) * ctx.pick([4, 9]))
        g[ctx.randint(0, dims[ax] - 1)] = 1
        arr = arr * g.reshape((-1,) + (1,) * (len(dims) - ax - 1))
        ctx.event('graded_array')
    elif how == 2:
        arr = arr * (ctx.rng.rand(*dims) < .3).astype(arr.real.dtype)
    elif how == 3 and len(dims) > 1:   # low rank
        arr = gen.rand_array(ctx, dims[:1], dtype).reshape(
            (-1,) + (1,) * (len(dims) - 1)) * gen.rand_array(
                ctx, dims[1:], dtype)[None]
    ctx.signature(shape, np.dtype(dtype).char, how)
    ctx.nontrivial = ctx.nontrivial or (len(shape) > 1 and how != 0)
    return gen.layout(ctx, arr)


def tol(arr):
    return 2e-3 if arr.dtype in (np.dtype('f4'), np.dtype('c8')) else 1e-12


def metadata(ctx, mpa, msg):
    lts = dn.tens(mpa)
    ctx.check(len(mpa) == len(lts), msg + ': len')
    ctx.check(tuple(map(tuple, mpa.shape)) == dn.shape_of(lts), msg + ': shape',
              got=mpa.shape)
    ctx.check(tuple(mpa.ndims) == tuple(t.ndim - 2 for t in lts),
              msg + ': ndims', got=mpa.ndims)
    ctx.check(tuple(mpa.ranks) == dn.ranks_of(lts), msg + ': ranks',
              got=mpa.ranks)
    ctx.check(int(mpa.size) == sum(t.size for t in lts), msg + ': size',
              got=mpa.size)
    ctx.check(tuple(map(tuple, mpa.lt.shape)) ==
              tuple(t.shape for t in lts), msg + ': lt.shape')


def back(ctx, mpa, arr, msg, rtol):
    got = mpa.to_array()
    ctx.close(got, arr, msg + ': to_array', rtol=rtol)
    if arr.dtype.kind == 'c' or got.dtype.kind != 'c':
        ctx.event('round_trips')
    else:
        ctx.fail(msg + ': real array came back complex')


def from_array_int(ctx):
    legs = ctx.randint(1, 3)
    sites = ctx.randint(1, 7 if legs == 1 else 4)
    shape = gen.rand_shape(ctx, sites=sites, min_legs=legs, max_legs=legs,
                           uniform_legs=True)
    arr = dense_array(ctx, shape)
    if sites == 1 and ctx.chance(.5):
        mpa = mp.MPArray.from_array(arr)
    else:
        mpa = mp.MPArray.from_array(arr, ndims=legs)
    expect_mpa(ctx, mpa, arr, shape, 'from_array', rtol=tol(arr))
    defect = dn.claim_defect(mpa)
    ctx.check(defect is None, 'from_array: canonical form', defect=defect)
    metadata(ctx, mpa, 'from_array')
    back(ctx, mpa, arr, 'from_array', tol(arr))


def from_array_iter(ctx):
    shape = gen.rand_shape(ctx, min_legs=1, uniform_legs=False)
    arr = dense_array(ctx, shape)
    ndims = [len(s) for s in shape]
    ndims = ctx.pick([tuple, list, iter])(ndims)
    mpa = mp.MPArray.from_array(arr, ndims=ndims)
    expect_mpa(ctx, mpa, arr, shape, 'from_array(ndims=sequence)',
               rtol=tol(arr))
    metadata(ctx, mpa, 'from_array(ndims=sequence)')
    back(ctx, mpa, arr, 'from_array(ndims=sequence)', tol(arr))


def from_array_virtual(ctx):
    legs = ctx.randint(1, 2)
    shape = gen.rand_shape(ctx, max_sites=4, min_legs=legs, max_legs=legs,
                           uniform_legs=True, max_size=600)
    l, r = ctx.randint(1, 4), ctx.randint(1, 4)
    dims = (l,) + tuple(d for s in shape for d in s) + (r,)
    dtype = ctx.pick(('f8', 'c16'))
    arr = gen.layout(ctx, gen.rand_array(ctx, dims, dtype))
    ctx.signature(shape, l, r, dtype)
    ctx.nontrivial = len(shape) > 1
    mpa = mp.MPArray.from_array(arr, ndims=legs, has_virtual=True)
    lts = dn.tens(mpa)
    ctx.check(lts[0].shape[0] == l and lts[-1].shape[-1] == r,
              'has_virtual: outer legs')
    ctx.check(dn.shape_of(lts) == shape, 'has_virtual: legs')
    ctx.close(dn.dense_virtual(lts), arr, 'has_virtual: wrong array', rtol=1e-9)
    defect = dn.claim_defect(mpa)
    ctx.check(defect is None, 'has_virtual: canonical form', defect=defect)


def global_form(ctx):
    legs = ctx.randint(1, 4)
    sites = ctx.randint(1, 6 if legs == 1 else 4 if legs == 2 else 3)
    shape = gen.rand_shape(ctx, sites=sites, min_legs=legs, max_legs=legs,
                           uniform_legs=True)
    arr = dense_array(ctx, shape)      # local form
    order = [s * legs + l for l in range(legs) for s in range(sites)]
    glob = arr.transpose(order)
    mpa = mp.MPArray.from_array_global(glob, ndims=legs)
    expect_mpa(ctx, mpa, arr, shape, 'from_array_global', rtol=tol(arr))
    ctx.close(mpa.to_array_global(), glob, 'to_array_global', rtol=tol(arr))
    ctx.close(mpa.to_array(), arr, 'to_array', rtol=tol(arr))
    ctx.event('round_trips')


def from_kron(ctx):
    sites = ctx.randint(1, 6)
    shape = gen.rand_shape(ctx, sites=sites)
    dtypes = [ctx.pick(FLOATS) for _ in shape]
    factors = [gen.layout(ctx, gen.rand_array(ctx, s, d))
               for s, d in zip(shape, dtypes)]
    ctx.signature(shape, dtypes)
    ctx.nontrivial = sites > 1
    ref = np.array(1.0)
    for f in factors:
        ref = np.multiply.outer(ref, f)
    arg = ctx.pick([list, tuple, iter])(factors)
    mpa = mp.MPArray.from_kron(arg)
    rtol = max(tol(f) for f in factors)
    expect_mpa(ctx, mpa, ref, shape, 'from_kron', rtol=rtol)
    ctx.check(all(r == 1 for r in mpa.ranks), 'from_kron: rank is not 1')
    metadata(ctx, mpa, 'from_kron')
    ctx.close(mpa.to_array(), ref, 'from_kron: to_array', rtol=rtol)


def to_array(ctx):
    mpa = gen.rand_mpa(ctx)
    lts = dn.tens(mpa)
    ref = dn.dense(lts)
    rtol = 2e-3 if gen.rtol_of(mpa) > 1e-6 else 1e-10
    metadata(ctx, mpa, 'any MPA')
    got = mpa.to_array()
    ctx.close(got, ref, 'to_array', scale=1e-2 * dn.bound(lts), rtol=rtol)
    if lts[0].dtype.kind != 'i':
        ctx.check(np.dtype(mpa.dtype) == np.result_type(*lts),
                  'dtype attribute', got=mpa.dtype)
        ctx.check(got.dtype == np.dtype(mpa.dtype), 'dtype of to_array',
                  got=got.dtype, expected=mpa.dtype)
    n, legs = len(mpa), set(mpa.ndims)
    if len(legs) == 1:
        p = legs.pop()
        order = [s * p + l for l in range(p) for s in range(n)]
        ctx.close(mpa.to_array_global(), ref.transpose(order),
                  'to_array_global', scale=1e-2 * dn.bound(lts), rtol=rtol)
    again = mpa.to_array()
    ctx.check(np.array_equal(got, again), 'to_array is not repeatable')


def changing(ctx):
    """Attributes and conversions follow in-place changes"""
    mpa = gen.rand_mpa(ctx, dtypes=('f8', 'f8', 'c16'), max_size=800)
    for _ in range(ctx.randint(2, 5)):
        lts = dn.tens(mpa)
        scale = 1e-2 * dn.bound(lts)
        metadata(ctx, mpa, 'changing MPA')
        ctx.check(np.dtype(mpa.dtype) == np.result_type(*lts),
                  'dtype attribute of a changing MPA', got=mpa.dtype,
                  expected=np.result_type(*lts))
        ctx.close(mpa.to_array(), dn.dense(lts), 'to_array of a changing MPA',
                  scale=scale, rtol=1e-9)
        if len(set(mpa.ndims)) == 1:
            p, n = mpa.ndims[0], len(mpa)
            order = [s * p + l for l in range(p) for s in range(n)]
            ctx.close(mpa.to_array_global(), dn.dense(lts).transpose(order),
                      'to_array_global of a changing MPA', scale=scale,
                      rtol=1e-9)
        gen.change_in_place(ctx, mpa)
    ctx.event('changing')


def misfits(ctx):
    """Numbers of legs which do not fit are refused"""
    ndim = ctx.randint(2, 7)
    legs = ctx.pick([k for k in range(2, 9) if ndim % k])
    arr = gen.rand_array(ctx, [ctx.randint(1, 3) for _ in range(ndim)],
                         ctx.pick(['f8', 'c16']))
    ctx.signature('misfit', ndim, legs)
    ctx.raises(Exception, lambda: mp.MPArray.from_array(arr, ndims=legs),
               'from_array with legs which do not fit')
    ctx.raises(Exception,
               lambda: mp.MPArray.from_array_global(arr, ndims=legs),
               'from_array_global with legs which do not fit')
    if ndim > 1:
        many = [1] * (ndim - 1) + [2]
        ctx.raises(Exception, lambda: mp.MPArray.from_array(arr, ndims=many),
                   'from_array with too many legs per site')
    ctx.event('misfits')


def long_chain(ctx):
    """Entries of long chains, where the dense array does not fit"""
    n = ctx.randint(10, 24)
    shape = tuple(((1,) if ctx.chance(.75) else (2,)) for _ in range(n))
    while np.prod([s[0] for s in shape]) > 4096:
        k = ctx.randint(0, n - 1)
        shape = shape[:k] + ((1,),) + shape[k + 1:]
    mpa = gen.rand_mpa(ctx, shape=shape, dtypes=('f8', 'c16'), max_rank=6)
    lts = dn.tens(mpa)
    metadata(ctx, mpa, 'long chain')
    arr = mpa.to_array()
    scale = 1e-2 * dn.bound(lts)
    for _ in range(5):
        ix = tuple(ctx.randint(0, s[0] - 1) for s in shape)
        ctx.close(arr[ix], dn.entry(lts, [(i,) for i in ix]),
                  'entry of long chain', scale=scale, rtol=1e-9)
    again = mp.MPArray.from_array(arr, ndims=1)
    expect_mpa(ctx, again, arr, shape, 'long chain from_array', rtol=1e-9)


SCENARIOS = [('misfits', misfits), ('changing', changing),
    ('from_array', from_array_int), ('from_array_iter', from_array_iter),
    ('from_array_virtual', from_array_virtual), ('global_form', global_form),
    ('from_kron', from_kron), ('to_array', to_array),
    ('to_array2', to_array), ('long_chain', long_chain),
]
REQUIRED = ['changing', 'round_trips', 'form:mixed']
