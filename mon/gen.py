# encoding: utf-8
"""Workload generators (independent of mpnum.factory)"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

from . import dense as dn

DTYPES = ('f8', 'c16', 'f8', 'c16', 'f4', 'c8', 'i8')


def rand_array(ctx, shape, dtype='f8'):
    rng = ctx.rng
    dtype = np.dtype(dtype)
    if dtype.kind == 'i':
        return rng.randint(-3, 4, size=shape).astype(dtype)
    a = rng.randn(*shape)
    if dtype.kind == 'c':
        a = a + 1j * rng.randn(*shape)
    return np.asarray(a).astype(dtype)


def layout(ctx, a):
    """Same values, hostile memory layout"""
    how = ctx.randint(0, 7)
    if a.ndim == 0:
        return a
    if how == 0:
        return np.asfortranarray(a)
    if how == 1 and a.ndim:
        big = np.zeros(tuple(2 * d for d in a.shape), a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if how == 2:
        order = ctx.rng.permutation(a.ndim)
        return np.ascontiguousarray(a.transpose(order)).transpose(
            np.argsort(order))
    if how == 3:
        flip = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[flip])[flip]
    if how == 4:
        a = a.copy()
        a.flags.writeable = False
    return a


def rand_legs(ctx, n, max_dim=4, uniform=None):
    one = 0.12
    return tuple(1 if ctx.chance(one) else ctx.randint(2, max_dim)
                 for _ in range(n))


def rand_shape(ctx, sites=None, max_sites=6, min_legs=0, max_legs=3,
               max_size=3000, uniform_legs=None, max_dim=4):
    """Leg dimensions for each site; the dense array has <= max_size entries"""
    if sites is None:
        if max_sites == 6 and max_dim == 4 and min_legs < 2 <= max_legs \
                and max_size >= 500 and ctx.chance(.03):
            return long_shape(ctx, min_legs, uniform_legs, max_size)
        sites = ctx.pick([1] + list(range(2, max_sites + 1)) * 2)
    while True:
        if uniform_legs is None:
            same = ctx.chance(0.5)
        else:
            same = uniform_legs
        base = ctx.randint(max(min_legs, 1 if ctx.chance(.8) else min_legs),
                           max_legs)
        same_dims = ctx.chance(0.25)
        common = rand_legs(ctx, base, max_dim)
        shape = []
        for _ in range(sites):
            legs = base if same else ctx.randint(min_legs, max_legs)
            if same and same_dims:
                shape.append(common)
            else:
                shape.append(rand_legs(ctx, legs, max_dim))
        size = 1
        for s in shape:
            for d in s:
                size *= d
        if size <= max_size:
            if max_dim == 4 and max_size >= 500 and size > 1 \
                    and ctx.chance(.04):
                shape = wide_leg(ctx, shape, max_size)
            return tuple(shape)
        if ctx.chance(0.3) and max_legs > max(1, min_legs):
            max_legs -= 1
        max_dim = max(2, max_dim - (1 if ctx.chance(0.3) else 0))


def long_shape(ctx, min_legs, uniform_legs, max_size):
    """More sites than usual, with small legs"""
    n = ctx.randint(8, 13)
    shape = [(1,) if min_legs or uniform_legs or ctx.chance(.8) else ()
             for _ in range(n)]
    size = 1
    for k in ctx.rng.permutation(n):
        d = ctx.randint(2, 3)
        if len(shape[k]) and size * d <= max_size and ctx.chance(.9):
            shape[k] = (d,)
            size *= d
    ctx.event('long_shape')
    return tuple(shape)


def wide_leg(ctx, shape, max_size):
    """One large leg, most others small"""
    shape = [tuple(min(d, ctx.pick([2, 2, 3])) for d in s) for s in shape]
    k = ctx.pick([i for i, s in enumerate(shape) if len(s)])
    j = ctx.randint(0, len(shape[k]) - 1)
    rest = 1
    for i, s in enumerate(shape):
        for l, d in enumerate(s):
            if (i, l) != (k, j):
                rest *= d
    top = min(40, max_size // rest)
    if top > 4:
        s = list(shape[k])
        s[j] = ctx.randint(5, top)
        shape[k] = tuple(s)
        ctx.event('wide_leg')
    return shape


def rand_ranks(ctx, sites, max_rank=5):
    if sites > 1 and max_rank >= 4 and ctx.chance(.04):
        # One or two large ranks
        ranks = [ctx.randint(1, 3) for _ in range(sites - 1)]
        k = ctx.randint(0, sites - 2)
        ranks[k] = ctx.randint(8, 34)
        if k and ctx.chance(.5):
            ranks[k - 1] = ctx.randint(8, 34)
        ctx.event('large_rank')
        return tuple(ranks)
    if ctx.chance(0.3):
        return (ctx.randint(1, max_rank),) * (sites - 1)
    return tuple(ctx.randint(1, max_rank) for _ in range(sites - 1))


def rand_tensors(ctx, shape, ranks=None, dtype='f8', wild=True, max_rank=5):
    sites = len(shape)
    if ranks is None:
        ranks = rand_ranks(ctx, sites, max_rank)
    r = (1,) + tuple(ranks) + (1,)
    lts = [rand_array(ctx, (r[i],) + tuple(shape[i]) + (r[i + 1],), dtype)
           for i in range(sites)]
    # Keep the magnitude of the represented array around one.
    if np.dtype(dtype).kind != 'i':
        lts = [t / np.sqrt(max(1, t.shape[0])) for t in lts]
        lts = [t.astype(dtype) for t in lts]
    if wild and np.dtype(dtype).kind != 'i':
        what = ctx.randint(0, 11) if sites < 8 else ctx.randint(0, 6)
        if what == 0:   # magnitudes spread over the chain
            e = ctx.rng.randint(-3, 4, size=sites)
            lts = [t * np.array(10.0 ** k).astype(t.real.dtype)
                   for t, k in zip(lts, e)]
        elif what == 1 and sites > 1:  # rank deficient
            k = ctx.randint(0, sites - 2)
            if lts[k].shape[-1] > 1:
                lts[k] = lts[k].copy()
                lts[k][..., -1] = lts[k][..., 0]
        elif what == 2 and ctx.chance(0.5):   # sparse
            k = ctx.randint(0, sites - 1)
            lts[k] = lts[k] * (ctx.rng.rand(*lts[k].shape) < 0.6)
        elif what in (3, 4) and np.dtype(dtype) in (np.dtype('f8'),
                                                    np.dtype('c16')):
            # tiny or huge numbers: nothing may depend on absolute thresholds
            k = ctx.randint(0, sites - 1)
            lts[k] = lts[k] * 10.0 ** (ctx.pick([-1, -1, 1])
                                       * ctx.randint(6, 22))
            ctx.event('extreme_magnitude')
        elif what == 5 and sites > 1:   # quickly decaying singular values
            k = ctx.randint(0, sites - 2)
            step = ctx.pick([.5, 1, 2, 3])
            if np.dtype(dtype) in (np.dtype('f4'), np.dtype('c8')):
                step = .5
            g = 10.0 ** (-step * np.arange(lts[k].shape[-1]))
            lts[k] = lts[k] * g.astype(lts[k].real.dtype)
            if ctx.chance(.5):      # not visible from the magnitudes
                q = np.linalg.qr(ctx.rng.randn(len(g), len(g)))[0]
                lts[k] = np.dot(lts[k], q.astype(lts[k].real.dtype))
            ctx.event('graded_bond')
    return [layout(ctx, t) for t in lts]


def own_canonical(ctx, lts, left, right):
    """Bring local tensors into the given canonical form without mpnum"""
    lts = [np.array(t) for t in lts]
    for i in range(left):
        t = lts[i]
        q, r = np.linalg.qr(t.reshape((-1, t.shape[-1])))
        lts[i] = q.reshape(t.shape[:-1] + (-1,))
        lts[i + 1] = np.tensordot(r, lts[i + 1], axes=(1, 0))
    for i in range(len(lts) - 1, right - 1, -1):
        t = lts[i]
        q, r = np.linalg.qr(t.reshape((t.shape[0], -1)).T)
        lts[i] = q.T.reshape((-1,) + t.shape[1:])
        lts[i - 1] = np.tensordot(lts[i - 1], r.T,
                                  axes=(lts[i - 1].ndim - 1, 0))
    return lts


def rand_cform(ctx, n):
    """Random canonical form (left, right) with left < right"""
    what = ctx.randint(0, 5)
    if n == 1 or what == 0:
        return 0, n
    if what == 1:
        return n - 1, n
    if what == 2:
        return 0, 1
    left = ctx.randint(0, n - 1)
    right = ctx.randint(left + 1, n)
    return left, right


def build(ctx, lts, gauge=True, cls=None):
    """MPArray from local tensors, usually with some canonical form"""
    cls = cls or mp.MPArray
    if gauge and all(t.dtype.kind != 'i' for t in lts) and ctx.chance(0.6):
        form = rand_cform(ctx, len(lts))
        lts = own_canonical(ctx, lts, *form)
        lts = [layout(ctx, t) for t in lts]
        mpa = cls(LocalTensors(lts, cform=form))
    else:
        mpa = cls(lts)
        form = (0, len(lts))
    ctx.event('mpa_built')
    ctx.event('form:' + ('none' if form == (0, len(lts)) else
                         'left' if form == (len(lts) - 1, len(lts)) else
                         'right' if form == (0, 1) else 'mixed'))
    return mpa


def describe(mpa):
    return (tuple(mpa.shape), tuple(mpa.ranks), tuple(mpa.canonical_form),
            ''.join(t.dtype.char for t in mpa.lt))


def rand_mpa(ctx, shape=None, ranks=None, dtype=None, gauge=True, wild=True,
             max_rank=5, dtypes=DTYPES, **kw):
    if shape is None:
        shape = rand_shape(ctx, **kw)
    mixed = dtype is None
    if dtype is None:
        dtype = ctx.pick(dtypes)
    lts = rand_tensors(ctx, shape, ranks, dtype, wild=wild, max_rank=max_rank)
    if mixed and np.dtype(dtype).kind == 'c' and len(lts) > 1 \
            and ctx.chance(.3):
        # Real and complex local tensors in one chain
        real = ctx.rng.rand(len(lts)) < .6
        if ctx.chance(.4):    # the complex ones are in the middle
            real[[0, -1]] = True
        lts = [t.real.copy() if r else t for t, r in zip(lts, real)]
        ctx.event('mixed_dtypes')
    if gauge and len(lts) > 1 and ctx.chance(.06) and \
            all(t.dtype in (np.dtype('f8'), np.dtype('c16')) for t in lts):
        # Almost, but not quite isometries; no canonical form is claimed
        lts = own_canonical(ctx, lts, *rand_cform(ctx, len(lts)))
        eps = 10.0 ** -ctx.randint(4, 7)
        lts = [layout(ctx, t + eps * rand_array(ctx, t.shape, t.dtype))
               for t in lts]
        ctx.event('almost_isometries')
        gauge = False
    mpa = build(ctx, lts, gauge)
    ctx.signature(describe(mpa))
    if len(shape) > 1 and max(mpa.ranks) > 1:
        ctx.nontrivial = True
    return mpa


def wide_mpa(ctx, dtypes=('f8', 'c16')):
    """Few sites with large legs and ranks: the ranks are really needed"""
    r = ctx.randint(35, 75)
    if ctx.chance(.6):
        shape = ((r + ctx.randint(0, 15),), (r + ctx.randint(0, 15),))
        if ctx.chance(.3):
            shape = ((8, 10), (9, 9))
        ranks = (r,)
    else:
        d = ctx.pick([1, 2])
        shape = ((r + ctx.randint(0, 5),), (d,), (r + ctx.randint(0, 5),))
        ranks = (r, ctx.randint(r // d, r))
    ctx.event('wide')
    if ctx.chance(.4):
        # an ill-conditioned bond
        lts = rand_tensors(ctx, shape, ranks, ctx.pick(dtypes), wild=False)
        g = 10. ** -np.linspace(0, ctx.randint(3, 8), lts[0].shape[-1])
        q = np.linalg.qr(ctx.rng.randn(len(g), len(g)))[0]
        lts[0] = np.dot(lts[0] * g, q)
        mpa = build(ctx, lts)
        ctx.signature(describe(mpa))
        ctx.nontrivial = True
        return mpa
    return rand_mpa(ctx, shape=shape, ranks=ranks, dtypes=dtypes,
                    wild=ctx.chance(.3))


def rtol_of(*mpas):
    for m in mpas:
        ts = m.lt if hasattr(m, 'lt') else m
        for t in ts:
            if t.dtype in (np.dtype('f4'), np.dtype('c8')):
                return 2e-3
    return 1e-8


def rand_hermitian(ctx, d, dtype='c16'):
    a = rand_array(ctx, (d, d), dtype)
    return (a + a.conj().T) / 2


def rand_scalar(ctx, cplx=None):
    kind = ctx.randint(0, 9)
    if cplx is False and kind in (2, 5):
        kind = 1
    return [ctx.randint(-4, 5) or 7, float(ctx.rng.randn()),
            complex(ctx.rng.randn(), ctx.rng.randn()),
            np.float64(ctx.rng.randn()), np.int64(ctx.randint(1, 9)),
            np.complex128(complex(ctx.rng.randn(), ctx.rng.randn())),
            -1, 10.0 ** ctx.randint(-6, 6), 2,
            10.0 ** (ctx.pick([-1, 1]) * ctx.randint(10, 20))][kind]


def change_in_place(ctx, mpa):
    """Some in-place change of an MPA which keeps its legs"""
    how = ctx.randint(0, 7)
    if how == 0:
        mpa *= ctx.pick([2., -1., .5, 3.])
    elif how == 1:
        mpa *= ctx.pick([1j, .6 + .8j, 2 - 1j])
    elif how == 2:
        mpa /= ctx.pick([-2., 4., 2j])
    elif how == 3:
        k = ctx.randint(0, len(mpa) - 1)
        mpa.lt[k] = mpa.lt[k] * ctx.pick([3., -1., 1j])
    elif how == 4:
        k = ctx.randint(0, len(mpa) - 1)
        mpa.lt.update(k, rand_array(ctx, mpa.lt[k].shape,
                                    ctx.pick(['f8', 'c16'])))
    elif how == 5:
        left = ctx.randint(0, len(mpa) - 1)
        mpa.canonicalize(left, ctx.randint(left + 1, len(mpa)))
    elif how == 6:
        mpa.compress('svd', rank=ctx.randint(1, 3))
    else:
        mpa.compress('svd', relerr=1e-3)
    ctx.event('changed_in_place')
    return how
