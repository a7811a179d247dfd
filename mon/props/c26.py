# encoding: utf-8
"""C26: truncated and randomized matrix decompositions"""
from __future__ import division

import numpy as np
import scipy.sparse as ssp
from scipy.sparse.linalg import aslinearoperator

from mpnum.utils import extmath
from mpnum.utils.extmath import randomized_svd, truncated_svd

from .. import gen

PROP = 'C26'
RULE = ('matrices with prescribed singular values (full rank, rank '
        'deficient, degenerate, decaying, zero; tall, wide, square; real, '
        'complex, single precision; dense, sparse, operators) and all '
        'options; non-trivial: rank above one')
QUICK, THOROUGH = 6000, 48000
ASSUMPTIONS = ['randomized decomposition: float64 or complex128 input, '
               'without normalization at most two power iterations']


def ortho(ctx, n, k, cplx):
    a = gen.rand_array(ctx, (n, k), 'c16' if cplx else 'f8')
    return np.linalg.qr(a)[0]


def matrix(ctx, kind=None, top=14):
    """(matrix, singular values in descending order)"""
    m, n = ctx.randint(1, top), ctx.randint(1, top)
    if ctx.chance(.03):
        m, n = ctx.randint(1, 130), ctx.randint(1, 130)
        ctx.event('large_matrix')
    r = min(m, n)
    cplx = ctx.chance(.5)
    kind = kind or ctx.pick(['full', 'deficient', 'degenerate', 'decay',
                             'zero' if ctx.chance(.3) else 'full'])
    s = np.sort(ctx.rng.rand(r) + .3)[::-1]
    if kind == 'deficient':
        s[ctx.randint(1, r):] = 0.
    elif kind == 'degenerate':
        s[:] = s[0]
        if ctx.chance(.5):
            s[r // 2:] = s[0] / 2
    elif kind == 'decay':
        s = 10. ** -np.sort(ctx.rng.rand(r) * 6)
    elif kind == 'zero':
        s[:] = 0.
    s = s * 10. ** (ctx.randint(-3, 3) if ctx.chance(.8) else
                    ctx.randint(-14, 12))
    a = (ortho(ctx, m, r, cplx) * s).dot(ortho(ctx, n, r, cplx).conj().T)
    ctx.signature(m, n, kind, cplx)
    ctx.event('kind:' + kind)
    ctx.nontrivial = (s > 0).sum() > 1
    return a, s, kind


def factors(ctx, u, s, v, a, k, msg, tol=1e-10, exact=True):
    """Common to all decompositions"""
    m, n = a.shape
    ctx.check(u.shape == (m, k) and np.shape(s) == (k,) and v.shape == (k, n),
              msg + ': shapes', u=u.shape, s=np.shape(s), v=v.shape, k=k)
    for x in (u, s, v):
        ctx.check(np.isfinite(x).all(), msg + ': not finite')
    ctx.close(u.conj().T.dot(u), np.eye(k), msg + ': left vectors',
              scale=1., rtol=tol)
    ctx.close(v.dot(v.conj().T), np.eye(k), msg + ': right vectors',
              scale=1., rtol=tol)
    ctx.check(s.dtype.kind == 'f' and (s >= 0).all(),
              msg + ': singular values')
    ctx.check((np.diff(s) <= 1e-12 * max(s[0], 1e-300)).all() if k else True,
              msg + ': order of singular values', s=s)
    if a.dtype.kind == 'f':
        ctx.check(u.dtype.kind == 'f' and v.dtype.kind == 'f',
                  msg + ': complex factors of a real matrix')


def best(ctx, u, s, v, a, sv, k, msg, tol):
    """The decomposition is the best approximation"""
    scale = max(sv[0], 1e-300) if len(sv) else 1.
    ctx.close(s, sv[:k], msg + ': singular values', scale=scale, rtol=tol)
    err = np.linalg.norm(a - (u * s).dot(v))
    ref = np.sqrt((sv[k:] ** 2).sum())
    ctx.check(abs(err - ref) <= 10 * tol * scale * np.sqrt(a.size),
              msg + ': approximation error', err=err, optimal=ref, k=k)
    ctx.event('best_approximation')


def truncated(ctx):
    a, sv, _ = matrix(ctx)
    single = ctx.chance(.15)
    if single:
        a = a.astype('c8' if a.dtype.kind == 'c' else 'f4')
    a = gen.layout(ctx, a)
    keep = np.array(a)
    k = ctx.randint(1, len(sv) + 2)
    u, s, v = truncated_svd(a, k)
    kk = min(k, len(sv))
    tol = 1e-5 if single else 1e-11
    factors(ctx, u, s, v, a, kk, 'truncated_svd', tol)
    best(ctx, u, s, v, keep, sv, kk, 'truncated_svd', tol)
    ctx.check(np.array_equal(a, keep), 'truncated_svd: matrix changed')
    ctx.event('truncated')


def wrap(ctx, a):
    how = ctx.randint(0, 4)
    if how == 0:
        ctx.event('input:sparse')
        return ctx.pick([ssp.csr_matrix, ssp.csc_matrix, ssp.coo_matrix])(a)
    if how == 1:
        ctx.event('input:operator')
        return aslinearoperator(a)
    return gen.layout(ctx, a)


def options(ctx):
    kw = {}
    norm = ctx.pick([None, 'auto', 'QR', 'LU', 'none'])
    if norm:
        kw['piter_normalizer'] = norm
    n_iter = ctx.pick([None, 'auto', 0, 1, 2, 4, 7])
    if norm == 'none':
        n_iter = ctx.pick([0, 1, 2])
    if n_iter is not None:
        kw['n_iter'] = n_iter
    tr = ctx.pick([None, 'auto', True, False])
    if tr is not None:
        kw['transpose'] = tr
    if ctx.chance(.5):
        kw['n_oversamples'] = ctx.randint(0, 12)
    if ctx.chance(.7):
        kw['randstate'] = np.random.RandomState(ctx.randint(0, 10 ** 6))
    ctx.signature(sorted((k, v) for k, v in kw.items() if k != 'randstate'))
    return kw


def randomized(ctx):
    a, sv, kind = matrix(ctx, ctx.pick(['full', 'full', 'deficient',
                                        'deficient', 'degenerate', 'zero']))
    kw = options(ctx)
    over = kw.get('n_oversamples', 10)
    r = int((sv > 1e-12 * max(sv[0], 1e-300)).sum())
    k = ctx.randint(1, len(sv) + 1)
    arg = wrap(ctx, a)
    u, s, v = randomized_svd(arg, k, **kw)
    kk = min(k, len(sv))
    tol = 1e-7
    # the number of values which the sketch can hold
    factors(ctx, u, s, v, a, kk, 'randomized_svd', tol)
    scale = max(sv[0], 1e-300)
    ctx.check((s <= sv[:kk] + 1e-9 * scale).all(),
              'randomized_svd: singular values exceed the true ones')
    if k + over >= r:
        # the range is found completely: optimal
        best(ctx, u, s, v, a, sv, kk, 'randomized_svd', tol)
        ctx.event('complete_range')
        if r <= k:
            ctx.close((u * s).dot(v), a, 'randomized_svd: low-rank matrix',
                      scale=scale, rtol=1e-6)
            ctx.event('exact')
    else:
        err = np.linalg.norm(a - (u * s).dot(v))
        ref = np.sqrt((sv[kk:] ** 2).sum())
        ctx.check(err >= ref - 1e-8 * scale,
                  'randomized_svd: better than optimal', err=err, ref=ref)
        ctx.event('approximate')


def gap(ctx):
    """Large gap behind the requested values: power iterations find them"""
    m, n = ctx.randint(20, 40), ctx.randint(20, 40)
    cplx = ctx.chance(.5)
    k = ctx.randint(1, 5)
    r = min(m, n)
    s = np.concatenate([np.sort(1 + ctx.rng.rand(k))[::-1],
                        1e-3 * np.sort(ctx.rng.rand(r - k))[::-1]])
    a0 = ortho(ctx, m, r, cplx), ortho(ctx, n, r, cplx)
    a = (a0[0] * s).dot(a0[1].conj().T)
    kw = options(ctx)
    kw['n_iter'] = ctx.pick([2, 4]) if kw.get('piter_normalizer') != 'none' \
        else 2
    kw['n_oversamples'] = 5
    if ctx.chance(.4) and kw.get('piter_normalizer') != 'none':
        # four or more power iterations by default
        s[k:] *= 300
        a = (a0[0] * s).dot(a0[1].conj().T)
        kw['n_iter'] = ctx.pick(['auto', 4, 7])
        if kw['n_iter'] == 'auto' and ctx.chance(.5):
            del kw['n_iter']
        u, t, v = randomized_svd(wrap(ctx, a), k, **kw)
        factors(ctx, u, t, v, a, k, 'randomized_svd', 1e-7)
        ctx.close(t, s[:k], 'randomized_svd: leading singular values after '
                  'power iterations', rtol=1e-4, scale=1.)
        ctx.event('power_iterations')
        return
    u, t, v = randomized_svd(wrap(ctx, a), k, **kw)
    factors(ctx, u, t, v, a, k, 'randomized_svd', 1e-7)
    ctx.close(t, s[:k], 'randomized_svd: leading singular values', rtol=1e-6)
    w = np.linalg.svd(a)
    ref = (w[0][:, :k] * w[1][:k]).dot(w[2][:k])
    ctx.close((u * t).dot(v), ref, 'randomized_svd: leading part', rtol=1e-4,
              scale=1.)
    ctx.event('gap')
    ctx.nontrivial = True
    ctx.signature(m, n, k, cplx)


def range_finder(ctx):
    a, sv, kind = matrix(ctx, ctx.pick(['full', 'deficient', 'degenerate']))
    m, n = a.shape
    r = int((sv > 1e-12 * sv[0]).sum())
    size = ctx.randint(1, len(sv) + 3)
    norm = ctx.pick(['auto', 'QR', 'LU', 'none'])
    n_iter = ctx.randint(0, 2 if norm == 'none' else 5)
    kw = {} if ctx.chance(.3) else \
        {'randstate': np.random.RandomState(ctx.randint(0, 10 ** 6))}
    q = extmath.approx_range_finder(wrap(ctx, a), size, n_iter, norm, **kw)
    ctx.check(q.ndim == 2 and q.shape[0] == m and
              min(m, n, size) <= q.shape[1] <= min(m, size),
              'approx_range_finder: shape', got=q.shape, size=size)
    ctx.close(q.conj().T.dot(q), np.eye(q.shape[1]),
              'approx_range_finder: not orthonormal', scale=1., rtol=1e-9)
    if size >= r:
        ctx.close(q.dot(q.conj().T.dot(a)), a,
                  'approx_range_finder: range not covered', scale=sv[0],
                  rtol=1e-6)
        ctx.event('range')
    ctx.signature(size, norm, n_iter)


SCENARIOS = [('truncated', truncated), ('randomized', randomized),
             ('randomized2', randomized), ('gap', gap),
             ('range_finder', range_finder)]
REQUIRED = ['truncated', 'best_approximation', 'complete_range', 'exact',
            'approximate', 'gap', 'power_iterations', 'range', 'input:sparse', 'input:operator',
            'kind:full', 'kind:deficient', 'kind:degenerate', 'kind:decay',
            'kind:zero']
