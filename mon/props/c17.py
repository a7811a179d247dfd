# encoding: utf-8
"""C17: factory functions"""
from __future__ import division

import itertools as it

import numpy as np

import mpnum as mp
from mpnum.mparray import full_rank

from .. import dense as dn, gen
from ..util import expect_mpa

PROP = 'C17'
RULE = ('all factory functions with scalar, per-leg and per-site dimensions, '
        'scalar and per-bond ranks (below and above the maximum), flags and '
        'dtypes; non-trivial: more than one site and rank above one')
QUICK, THOROUGH = 4000, 32000


def own_full_rank(shape):
    d = []
    for s in shape:
        x = 1
        for k in s:
            x *= int(k)
        d.append(x)
    out = []
    for cut in range(1, len(d)):
        a = b = 1
        for x in d[:cut]:
            a *= x
        for x in d[cut:]:
            b *= x
        out.append(min(a, b))
    return out


def rs(ctx):
    return np.random.RandomState(ctx.randint(0, 2 ** 31 - 1))


def request(ctx, max_size=1500):
    """(sites, ldim argument, shape) for random_mpa and zero"""
    n = ctx.randint(1, 6)
    what = ctx.randint(0, 2)
    while True:
        if what == 0:
            d = ctx.randint(1, 4)
            arg, shape = d, ((d,),) * n
        elif what == 1:
            legs = gen.rand_legs(ctx, ctx.randint(1, 3), 3)
            arg = ctx.pick([legs, list(legs), np.array(legs)])
            shape = (legs,) * n
        else:
            shape = gen.rand_shape(ctx, sites=n, min_legs=1, max_legs=3)
            arg = ctx.pick([shape, list(shape), [list(s) for s in shape]])
            if ctx.chance(.15):
                arg = iter(shape)
        if np.prod([float(x) for s in shape for x in s]) <= max_size:
            ctx.event('ldim:' + ['scalar', 'legs', 'sites'][what])
            return n, arg, tuple(tuple(int(x) for x in s) for s in shape)
        n = max(1, n - 1)


def ranks_for(ctx, n, shape):
    """(rank argument, force_rank, expected ranks)"""
    force = ctx.chance(.4)
    if ctx.chance(.5):
        r = ctx.randint(1, 8) if ctx.chance(.95) else ctx.randint(9, 60)
        arg, want = r, [r] * (n - 1)
    else:
        want = [ctx.randint(1, 8) for _ in range(n - 1)]
        arg = ctx.pick([list(want), tuple(want)])
        if ctx.chance(.2):
            arg = iter(tuple(want))
        ctx.event('rank:list')
    if not force:
        want = [min(a, b) for a, b in zip(want, own_full_rank(shape))]
    return arg, force, tuple(want)


def meta(ctx, a, shape, ranks, kind, msg):
    defect = dn.chain_defect(a)
    ctx.check(defect is None, msg + ': malformed', defect=defect)
    lts = dn.tens(a)
    ctx.check(dn.shape_of(lts) == shape and tuple(a.shape) == shape,
              msg + ': legs', got=a.shape, expected=shape)
    if ranks is not None:
        ctx.check(tuple(a.ranks) == tuple(ranks) == dn.ranks_of(lts),
                  msg + ': ranks', got=a.ranks, expected=ranks)
    ctx.check(all(t.dtype.kind == kind for t in lts), msg + ': dtype',
              got=[t.dtype for t in lts])
    ctx.check(all(np.isfinite(t).all() for t in lts), msg + ': not finite')
    defect = dn.claim_defect(a)
    ctx.check(defect is None, msg + ': ' + str(defect))
    ctx.signature(msg, gen.describe(a))
    ctx.nontrivial = len(a) > 1 and max(a.ranks) > 1
    ctx.event(msg)


def mpa(ctx):
    n, arg, shape = request(ctx)
    rank, force, want = ranks_for(ctx, n, shape)
    kw = {}
    kind = 'f'
    if ctx.chance(.6):
        dt = ctx.pick([np.float_, np.complex_])
        kw['dtype'] = dt
        kind = 'f' if dt is np.float_ else 'c'
    norm = ctx.chance(.4)
    if norm or ctx.chance(.3):
        kw['normalized'] = norm
    if force or ctx.chance(.3):
        kw['force_rank'] = force
    a = mp.random_mpa(n, arg, rank, randstate=rs(ctx), **kw)
    meta(ctx, a, shape, want, kind, 'random_mpa')
    if norm:
        ctx.close(dn.norm(dn.tens(a)), 1., 'random_mpa: norm')
        ctx.event('normalized')
    # generic position: full numerical rank of each bond it may have
    if n > 1 and not force:
        arr = dn.dense(dn.tens(a))
        for cut in range(1, n):
            s = dn.schmidt(arr, shape, cut)
            k = want[cut - 1]
            low = int(min(want[cut - 1], len(s)))
            lim = own_full_rank(shape)[cut - 1]
            ctx.check(k <= lim, 'rank above the maximum')
            del low


def zero(ctx):
    n, arg, shape = request(ctx)
    rank, force, want = ranks_for(ctx, n, shape)
    a = mp.zero(n, arg, rank, force_rank=force) if force or ctx.chance(.5) \
        else mp.zero(n, arg, rank)
    meta(ctx, a, shape, want, 'f', 'zero')
    ctx.check(not dn.dense(dn.tens(a)).any(), 'zero: not zero')
    ctx.check(all(not t.any() for t in dn.tens(a)), 'zero: local tensors')


def eye(ctx):
    n = ctx.randint(1, 5)
    if ctx.chance(.1):
        n, top = ctx.pick([(1, 40), (2, 12), (ctx.randint(20, 60), 5)])
        d = [ctx.randint(1, top) for _ in range(n)]
        arg = ctx.pick([d, tuple(d)])
        if ctx.chance(.5):
            arg = d[0]
            d = [arg] * n
        ctx.event('unusual_size')
        a = mp.eye(n, arg)
        meta(ctx, a, tuple((x, x) for x in d), (1,) * (n - 1), 'f', 'eye')
        for t, x in zip(dn.tens(a), d):
            t = t[0, ..., 0]
            ctx.check(np.allclose(t, t[0, 0] * np.eye(x)),
                      'eye: not the identity')
        total = 1.
        for t in dn.tens(a):
            total *= t[0, 0, 0, 0]
        ctx.close(total, 1., 'eye: factor')
        ctx.nontrivial = n > 1
        return
    if ctx.chance(.5):
        d = [ctx.randint(1, 3)] * n
        arg = d[0]
    else:
        d = [ctx.randint(1, 3) for _ in range(n)]
        arg = ctx.pick([d, tuple(d)])
        if ctx.chance(.2):
            arg = iter(d)
    a = mp.eye(n, arg)
    meta(ctx, a, tuple((x, x) for x in d), (1,) * (n - 1), 'f', 'eye')
    got = dn.global_matrix(dn.tens(a))
    ctx.check(np.array_equal(got, np.eye(int(np.prod(d)))), 'eye: entries')
    if ctx.chance(.5):
        # sites are independent objects
        a.lt[0] = a.lt[0] * 3
        ctx.check(np.array_equal(dn.global_matrix(dn.tens(a)),
                                 3 * np.eye(int(np.prod(d)))),
                  'eye: local tensors share memory')
    ctx.nontrivial = n > 1


def diagonal(ctx):
    n = ctx.randint(1, 5)
    d = ctx.randint(1, 4)
    if ctx.chance(.08):
        n, d = ctx.pick([(1, ctx.randint(5, 60)), (2, ctx.randint(5, 28)),
                         (ctx.randint(6, 9), 2)])
        ctx.event('unusual_size')
    while d ** n > 800:
        n -= 1
    e = gen.rand_array(ctx, (d,), ctx.pick(['f8', 'c16']))
    keep = e.copy()
    a = mp.diagonal_mpa(e, n)
    ctx.check(np.array_equal(e, keep), 'diagonal_mpa: entries changed')
    ref = np.zeros((d,) * n, e.dtype)
    for i in range(d):
        ref[(i,) * n] = e[i]
    expect_mpa(ctx, a, ref, ((d,),) * n, 'diagonal_mpa')
    defect = dn.claim_defect(a)
    ctx.check(defect is None, 'diagonal_mpa: ' + str(defect))
    if n > 1:
        ctx.check(tuple(a.ranks) == (d,) * (n - 1), 'diagonal_mpa: ranks',
                  got=a.ranks)
        ctx.nontrivial = d > 1
    ctx.raises(Exception, lambda: mp.diagonal_mpa(np.ones((2, 2)), 3),
               'diagonal_mpa with a matrix')
    if ctx.chance(.5) and n > 1:
        a.canonicalize()
        expect_mpa(ctx, a, ref, ((d,),) * n, 'diagonal_mpa, canonicalized')
    ctx.event('diagonal_mpa')
    ctx.signature(n, d, e.dtype.char)


def scalars(ctx, top=900, square=False):
    n, d = ctx.randint(1, 5), ctx.randint(1, 3)
    if ctx.chance(.08):      # local dimensions and lengths beyond the usual
        n, d = ctx.pick([(1, ctx.randint(4, 20)), (2, ctx.randint(4, 12)),
                         (ctx.randint(6, 9), 2), (ctx.randint(6, 12), 1)])
        ctx.event('unusual_size')
    while d ** (2 * n if square else n) > top:
        n -= 1
    return n, d


def mps(ctx):
    n, d = scalars(ctx)
    rank, force, want = ranks_for(ctx, n, ((d,),) * n)
    a = mp.random_mps(n, d, rank, randstate=rs(ctx), force_rank=force)
    meta(ctx, a, ((d,),) * n, want, 'c', 'random_mps')
    ctx.close(np.linalg.norm(dn.dense(dn.tens(a))), 1., 'random_mps: norm')
    ctx.check(tuple(a.canonical_form) == (0, n), 'random_mps: form',
              form=a.canonical_form)


def mpo(ctx):
    n, d = scalars(ctx, 1500, True)
    rank, force, want = ranks_for(ctx, n, ((d, d),) * n)
    herm = ctx.chance(.5)
    kw = {'hermitian': herm} if herm or ctx.chance(.5) else {}
    norm = True
    if ctx.chance(.5):
        norm = kw['normalized'] = ctx.chance(.5)
    a = mp.random_mpo(n, d, rank, randstate=rs(ctx), force_rank=force, **kw)
    meta(ctx, a, ((d, d),) * n, want, 'c', 'random_mpo')
    m = dn.global_matrix(dn.tens(a))
    if norm:
        ctx.close(np.linalg.norm(m), 1., 'random_mpo: norm')
    if herm:
        ctx.close(m, m.conj().T, 'random_mpo: not Hermitian',
                  scale=1e-2 * dn.bound(dn.tens(a)))
        ctx.event('hermitian')
    elif d > 1:
        ctx.check(abs(m - m.conj().T).max() > 1e-10 * abs(m).max(),
                  'random_mpo: only Hermitian operators')
    ctx.check(tuple(a.canonical_form) == (0, n), 'random_mpo: form')


def mpdo(ctx):
    n, d = scalars(ctx, 1500, True)
    rank = ctx.randint(1, 5)
    a = mp.random_mpdo(n, d, rank, rs(ctx)) if ctx.chance(.5) else \
        mp.random_mpdo(n, d, rank, randstate=rs(ctx))
    meta(ctx, a, ((d, d),) * n, (rank,) * (n - 1), 'c', 'random_mpdo')
    m = dn.global_matrix(dn.tens(a))
    ctx.close(np.trace(m), 1., 'random_mpdo: trace')
    ctx.close(m, m.conj().T, 'random_mpdo: not Hermitian', scale=1.,
              rtol=1e-10)
    val = np.linalg.eigvalsh((m + m.conj().T) / 2)
    ctx.check(val[0] >= -1e-9, 'random_mpdo: not positive', smallest=val[0])
    # mixture of product states: bond ranks limited by the number of terms
    if n > 1 and rank > 1 and d > 1:
        ctx.check(val[-1] < 1 - 1e-9 or rank == 1, 'random_mpdo: pure')


def local_ham(ctx):
    what = ctx.randint(0, 2)
    kw = {'randstate': rs(ctx)}
    d, w = 2, 2
    if what > 0:
        d = kw['ldim'] = ctx.randint(1, 3)
        w = kw['intlen'] = ctx.randint(1, 3)
    n = ctx.randint(w, 5)
    while d ** n > 90 and n > w:
        n -= 1
    a = mp.random_local_ham(n, **kw)
    meta(ctx, a, ((d, d),) * n, None, 'c', 'random_local_ham')
    m = dn.global_matrix(dn.tens(a))
    size = max(1., abs(m).max())
    ctx.close(m, m.conj().T, 'random_local_ham: not Hermitian', scale=size)
    # interaction length: no part acts on sites which are w apart
    t = m.reshape((d,) * (2 * n))
    for i in range(n):
        for j in range(i + w, n):
            x = t
            for k in (i, j):
                tr = np.trace(x, axis1=k, axis2=k + n) / d
                e = np.multiply.outer(tr, np.eye(d))
                e = np.moveaxis(e, (-2, -1), (k, k + n))
                x = x - e
            ctx.check(abs(x).max() <= 1e-8 * size, 'random_local_ham: '
                      'interaction longer than requested', sites=(i, j),
                      intlen=w)
            ctx.event('range_checked')
    # every window really has its own term
    if d > 1:
        for i in range(n - w + 1):
            x = t
            for k in (i, i + w - 1) if w > 1 else (i,):
                tr = np.trace(x, axis1=k, axis2=k + n) / d
                e = np.multiply.outer(tr, np.eye(d))
                x = x - np.moveaxis(e, (-2, -1), (k, k + n))
            ctx.check(abs(x).max() > 1e-6, 'random_local_ham: term missing',
                      window=i)
    if n > w:
        ctx.event('several_terms')


def ranks_exact(ctx):
    """Maximal ranks with exact integers"""
    n = ctx.pick([ctx.randint(1, 8), ctx.randint(20, 150)])
    what = ctx.randint(0, 2)
    if what == 0:
        d = [ctx.randint(1, 9)] * n
    elif what == 1:
        d = [ctx.randint(1, 9) for _ in range(n)]
    else:
        d = [tuple(ctx.randint(1, 5) for _ in range(ctx.randint(1, 3)))
             for _ in range(n)]
    shape = [x if isinstance(x, tuple) else (x,) for x in d]
    got = full_rank(d if ctx.chance(.7) else tuple(d))
    want = own_full_rank(shape)
    ctx.check(len(got) == len(want) and
              all(int(a) == b for a, b in zip(got, want)), 'full_rank',
              dims=d[:10], got=list(got)[:10], expected=want[:10])
    ctx.check(all(a >= 1 for a in got), 'full_rank: overflow')
    ctx.event('full_rank')
    ctx.signature(n, d[:6])
    ctx.nontrivial = n > 2
    if n >= 20:
        ctx.event('full_rank:long')
        r = ctx.randint(2, 4)
        dd = [min(2, max(1, int(np.prod(s)))) for s in shape]
        a = mp.random_mps(n, 2, r, randstate=rs(ctx))
        ctx.check(tuple(a.ranks) == tuple(
            min(r, x) for x in own_full_rank([(2,)] * n)),
            'random_mps: ranks of a long chain', got=a.ranks, sites=n)
        del dd


def distribution(ctx):
    """Entries are standard normal (7 sigma)"""
    dt = ctx.pick([np.float_, np.complex_])
    n = ctx.randint(2, 4)
    a = mp.random_mpa(n, (4, 4), 12, randstate=rs(ctx), force_rank=True,
                      dtype=dt)
    x = np.concatenate([t.ravel() for t in dn.tens(a)])
    parts = [x.real] + ([x.imag] if dt is np.complex_ else [])
    N = len(x)
    for p in parts:
        ctx.check(abs(p.mean()) < 7 / np.sqrt(N), 'entries: mean', n=N,
                  got=p.mean())
        ctx.check(abs((p ** 2).mean() - 1) < 7 * np.sqrt(2. / N),
                  'entries: variance', n=N, got=(p ** 2).mean())
        ctx.check(abs((p ** 4).mean() - 3) < 10 * np.sqrt(96. / N),
                  'entries: fourth moment', got=(p ** 4).mean())
        ctx.check(abs((p[1:] * p[:-1]).mean()) < 7 / np.sqrt(N),
                  'entries: correlated')
    if len(parts) == 2:
        ctx.check(abs((parts[0] * parts[1]).mean()) < 7 / np.sqrt(N),
                  'entries: real and imaginary part correlated')
    ctx.event('distribution')


def dense_objects(ctx):
    """Dense vectors, operators and states (global form)"""
    from mpnum import factory
    if not all(hasattr(factory, f) for f in
               ('_random_vec', '_random_op', '_random_state')):
        return    # private functions; nothing promised
    n, d = ctx.pick([(1, 2), (1, 5), (2, 2), (2, 3), (3, 2), (4, 2), (3, 3),
                     (1, 1)])
    dt = ctx.pick([np.float_, np.complex_])
    ctx.signature('dense', n, d, dt)
    kind = 'f' if dt is np.float_ else 'c'
    psi = factory._random_vec(n, d, randstate=rs(ctx), dtype=dt)
    ctx.check(psi.shape == (d,) * n and psi.dtype.kind == kind,
              'random vector: shape and dtype', got=(psi.shape, psi.dtype))
    ctx.close(np.linalg.norm(psi), 1., 'random vector: norm')
    herm, norm = ctx.chance(.5), ctx.chance(.5)
    op = factory._random_op(n, d, hermitian=herm, normalized=norm,
                            randstate=rs(ctx), dtype=dt)
    ctx.check(op.shape == (d,) * (2 * n) and op.dtype.kind == kind,
              'random operator: shape and dtype', got=(op.shape, op.dtype))
    mat = op.reshape((d ** n, d ** n))
    if herm:
        ctx.close(mat, mat.conj().T, 'random operator: Hermitian')
    elif d > 1:
        ctx.check(abs(mat - mat.conj().T).max() > 1e-9,
                  'random operator: should not be Hermitian')
    if norm:
        ctx.close(np.linalg.norm(mat), 1., 'random operator: norm')
    rho = factory._random_state(n, d, randstate=rs(ctx))
    ctx.check(rho.shape == (d,) * (2 * n), 'random state: shape')
    mat = rho.reshape((d ** n, d ** n))
    ctx.close(mat, mat.conj().T, 'random state: Hermitian')
    ctx.close(np.trace(mat), 1., 'random state: trace')
    ctx.check(np.linalg.eigvalsh(mat).min() > -1e-10,
              'random state: positive')
    ctx.event('dense_objects')
    ctx.nontrivial = n > 1


SCENARIOS = [('mpa', mpa), ('zero', zero), ('eye', eye), ('mpa2', mpa),
             ('diagonal', diagonal), ('mps', mps), ('mpo', mpo),
             ('mpdo', mpdo), ('local_ham', local_ham),
             ('ranks_exact', ranks_exact), ('distribution', distribution),
             ('dense_objects', dense_objects)]
REQUIRED = ['random_mpa', 'zero', 'eye', 'diagonal_mpa', 'random_mps',
            'random_mpo', 'random_mpdo', 'random_local_ham', 'full_rank',
            'full_rank:long', 'ldim:scalar', 'ldim:legs', 'ldim:sites',
            'rank:list', 'normalized', 'hermitian', 'range_checked',
            'several_terms', 'distribution']
