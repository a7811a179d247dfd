# encoding: utf-8
"""C10: variational compression"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa, expect_scalar, unchanged

PROP = 'C10'
RULE = ('MPAs with independent start vectors (all forms, ranks, dtypes), '
        '1-4 sweeps, 1-3 varied sites; non-trivial: target with rank above '
        'the rank of the start vector')
QUICK, THOROUGH = 1400, 18000
DOUBLES = ('f8', 'c16')


def instance(ctx, n=None, dtypes=DOUBLES):
    n = n or ctx.randint(2, 6)
    shape = gen.rand_shape(ctx, sites=n, min_legs=1, max_legs=2,
                           max_size=500)
    a = gen.rand_mpa(ctx, shape=shape, dtypes=dtypes, max_rank=6)
    if ctx.chance(.15):
        a = a + a
    return a, shape


def full_ranks(shape):
    dims = [int(np.prod(s, dtype=int)) for s in shape]
    return tuple(min(int(np.prod(dims[:c])), int(np.prod(dims[c:])))
                 for c in range(1, len(dims)))


def start_for(ctx, a, shape, ranks=None, dtypes=DOUBLES):
    top = max(a.ranks)
    if ranks is None:
        ranks = tuple(ctx.randint(1, max(1, top)) for _ in a.ranks)
        if ctx.chance(.4):
            ranks = (ctx.randint(1, max(1, top)),) * len(a.ranks)
    s = gen.rand_mpa(ctx, shape=shape, ranks=ranks, wild=False, dtypes=dtypes)
    return s


def judge(ctx, arr, shape, res, overlap, rtol, scale, msg, max_rank=None):
    defect = dn.chain_defect(res)
    ctx.check(defect is None, msg + ': malformed', defect=defect)
    lts = dn.tens(res)
    ctx.check(dn.shape_of(lts) == tuple(shape), msg + ': legs changed',
              got=dn.shape_of(lts), expected=shape)
    c = dn.dense(lts)
    n2 = float(np.linalg.norm(arr)) ** 2
    tol = max(n2, (1e-2 * scale) ** 2)
    expect_scalar(ctx, overlap, np.vdot(c, c).real,
                  msg + ': returned number is not <c|c>', tol, rtol)
    ctx.close(np.vdot(arr, c), overlap, msg + ': <u|c> != <c|c>', tol, rtol)
    if max_rank is not None and len(shape) > 1:
        ctx.check(max(res.ranks) <= max_rank, msg + ': rank too large',
                  got=res.ranks, allowed=max_rank)
    defect = dn.claim_defect(res)
    ctx.check(defect is None, msg + ': ' + str(defect))
    ctx.event('compressions')
    return c


def startmpa(ctx):
    single = ctx.chance(.1)
    dtypes = ('f4', 'c8') if single else DOUBLES
    a, shape = instance(ctx, dtypes=dtypes)
    n = len(shape)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    arr = dn.dense(lts)
    rtol, scale = gen.rtol_of(a), dn.bound(lts)
    start = start_for(ctx, a, shape, dtypes=dtypes)
    slts, sform = dn.tens(start), tuple(start.canonical_form)
    v = ctx.randint(1, min(3, n))
    sweeps = ctx.randint(1, 4)
    ctx.signature(v, sweeps)
    kw = dict(startmpa=start, var_sites=v)
    if v == 2 and ctx.chance(.3):
        del kw['var_sites']     # documented/implemented default
        ctx.event('default_var_sites')
    in_place = ctx.chance(.4)
    if in_place:
        res = a.copy()
        overlap = res.compress('var', num_sweeps=sweeps, **kw)
    else:
        res, overlap = a.compression('var', num_sweeps=sweeps, **kw)
        ctx.check(res is not a and res is not start,
                  'compression returned an argument')
    unchanged(ctx, a, lts, 'original', form)
    unchanged(ctx, start, slts, 'start vector', sform)
    if max(start.ranks) > max(a.ranks):
        expect_mpa(ctx, res, arr, shape, 'rank suffices', 1e-2 * scale, rtol)
        return
    c = judge(ctx, arr, shape, res, overlap, rtol, scale, 'var',
              max(start.ranks))
    ctx.event('var_sites:{}'.format(v))
    s = dn.dense(slts)
    n2 = np.linalg.norm(arr) ** 2
    tol = max(n2, (1e-2 * scale) ** 2)
    err = np.linalg.norm(arr - c) ** 2
    if v <= 2 and np.linalg.norm(s) > 0:
        best = n2 - abs(np.vdot(s, arr)) ** 2 / np.linalg.norm(s) ** 2
        ctx.check(err <= best + 10 * rtol * tol, 'worse than the start vector',
                  err2=err, start=best)
        more, _ = a.compression('var', num_sweeps=sweeps + 1, startmpa=start,
                                var_sites=v)
        err2 = np.linalg.norm(arr - dn.dense(more)) ** 2
        ctx.check(err2 <= err + 10 * rtol * tol, 'more sweeps are worse',
                  err2=err2, before=err)
        ctx.event('monotone')
        if best > 1e-6 * n2:
            ctx.nontrivial = True
        # can never beat the best low-rank approximation of any cut
        low = max([0.0] + [float((dn.schmidt(arr, shape, k)[
            max(start.ranks):] ** 2).sum()) for k in range(1, n)])
        ctx.check(err >= low - 10 * rtol * tol, 'better than possible',
                  err2=err, limit=low)


def random_start(ctx):
    a, shape = instance(ctx)
    n = len(shape)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    arr = dn.dense(lts)
    scale = dn.bound(lts)
    rank = ctx.randint(1, max(a.ranks) + 1)
    v = ctx.randint(1, min(3, n))
    rng = np.random.RandomState(ctx.randint(0, 10 ** 6))
    res, overlap = a.compression('var', num_sweeps=ctx.randint(1, 3),
                                 rank=rank, var_sites=v, randstate=rng)
    ctx.signature(rank, v)
    unchanged(ctx, a, lts, 'original', form)
    if rank > max(a.ranks):
        expect_mpa(ctx, res, arr, shape, 'rank suffices', 1e-2 * scale)
        expect_scalar(ctx, overlap, np.linalg.norm(arr) ** 2,
                      'rank suffices: overlap', (1e-2 * scale) ** 2)
        for x, y in zip(res.lt, a.lt):
            ctx.check(not np.shares_memory(x, y), 'result shares memory')
        ctx.event('rank_suffices')
    else:
        judge(ctx, arr, shape, res, overlap, 1e-8, scale, 'random start',
              rank)
        ctx.nontrivial = rank < max(a.ranks)
    if arr.dtype.kind == 'f':
        ctx.check(dn.tens(res)[0].dtype.kind == 'f',
                  'real array became complex')


def exact_full_rank(ctx):
    """Start vectors of maximal rank reach the target exactly"""
    a, shape = instance(ctx, n=ctx.randint(2, 5))
    full = full_ranks(shape)
    if max(full) > 40:
        raise_small(ctx)
        return
    a = a.pad_ranks(max(full), force_rank=True)
    a.canonicalize()
    if max(a.ranks) < max(full):
        a = a.pad_ranks(max(full), force_rank=True)
    lts = dn.tens(a)
    arr = dn.dense(lts)
    start = start_for(ctx, a, shape, ranks=full, dtypes=(
        'c16',) if arr.dtype.kind == 'c' else ('f8',))
    v = ctx.randint(1, min(2, len(shape)))
    res, overlap = a.compression('var', num_sweeps=1, startmpa=start,
                                 var_sites=v)
    ctx.signature(full, v)
    ctx.nontrivial = True
    expect_mpa(ctx, res, arr, shape, 'start vector of full rank',
               1e-2 * dn.bound(lts), 1e-6)
    ctx.event('full_rank')


def raise_small(ctx):
    ctx.signature('skipped')


def two_sites(ctx):
    """For two sites, varying both gives the optimal approximation"""
    a, shape = instance(ctx, n=2)
    lts = dn.tens(a)
    arr = dn.dense(lts)
    rank = ctx.randint(1, max(a.ranks))
    start = start_for(ctx, a, shape, ranks=(rank,))
    res, overlap = a.compression('var', num_sweeps=ctx.randint(1, 2),
                                 startmpa=start, var_sites=2)
    s = dn.schmidt(arr, shape, 1)
    # the start vector may have lower rank after canonicalization
    dims = [int(np.prod(x)) for x in shape]
    k = min(rank, dims[0], dims[1])
    ctx.signature(rank)
    tol = max((s ** 2).sum(), (1e-2 * dn.bound(lts)) ** 2)
    ctx.close(overlap, (s[:k] ** 2).sum(), 'two sites: overlap', tol)
    c = dn.dense(res)
    ctx.close(np.linalg.norm(arr - c) ** 2, (s[k:] ** 2).sum(),
              'two sites: distance', tol)
    ctx.nontrivial = k < len(s)
    ctx.event('two_sites')


def refusals(ctx):
    a, shape = instance(ctx)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    bad = (Exception,)
    ctx.raises(bad, lambda: a.compression('var', num_sweeps=1),
               'neither rank nor start vector')
    ctx.raises(bad, lambda: a.compress('var', num_sweeps=1),
               'neither rank nor start vector')
    ctx.raises(bad, lambda: a.compression('var', rank=1),
               'number of sweeps missing')
    wrong = list(shape)
    k = ctx.randint(0, len(shape) - 1)
    wrong[k] = (wrong[k][0] + 1,) + wrong[k][1:]
    start = gen.rand_mpa(ctx, shape=tuple(wrong),
                         ranks=(1,) * (len(shape) - 1))
    ctx.raises(bad, lambda: a.compression('var', num_sweeps=1,
                                          startmpa=start, var_sites=1),
               'start vector with different legs')
    unchanged(ctx, a, lts, 'refused compression', form)
    # a single site cannot be compressed
    b = gen.rand_mpa(ctx, sites=1, dtypes=DOUBLES)
    arr = dn.dense(b)
    res, overlap = b.compression('var', num_sweeps=1, rank=1)
    expect_mpa(ctx, res, arr, b.shape, 'single site')
    expect_scalar(ctx, overlap, np.linalg.norm(arr) ** 2, 'single site')
    ctx.check(res is not b, 'single site: same object')


def long_chain(ctx):
    n = ctx.randint(8, 24)
    lts = gen.rand_tensors(ctx, ((2,),) * n, dtype=ctx.pick(DOUBLES),
                           max_rank=5, wild=False)
    lts = [t / dn.norm(lts) ** (1. / n) for t in lts]
    a = gen.build(ctx, lts)
    rank = ctx.randint(1, max(a.ranks))
    start = gen.rand_mpa(ctx, shape=((2,),) * n, ranks=(rank,) * (n - 1),
                         wild=False, dtypes=DOUBLES)
    v = ctx.randint(1, 3)
    ctx.signature(n, rank, v)
    ctx.nontrivial = True
    res, overlap = a.compression('var', num_sweeps=1, startmpa=start,
                                 var_sites=v)
    lr = dn.tens(res)
    ctx.close(overlap, dn.inner(lr, lr), 'overlap (long)', 1.)
    ctx.close(dn.inner(lts, lr), overlap, '<u|c> (long)', 1.)
    ctx.check(max(res.ranks) <= rank, 'rank (long)')
    ls = dn.tens(start)
    if v <= 2:
        best = abs(dn.inner(ls, lts)) ** 2 / dn.norm(ls) ** 2
        ctx.check(overlap >= best - 1e-7, 'worse than the start vector (long)',
                  got=overlap, start=best)
    ctx.event('long_chains')


SCENARIOS = [('startmpa', startmpa), ('random_start', random_start),
             ('exact_full_rank', exact_full_rank), ('two_sites', two_sites),
             ('startmpa2', startmpa), ('refusals', refusals),
             ('startmpa3', startmpa), ('long_chain', long_chain)]
REQUIRED = ['monotone', 'full_rank', 'rank_suffices', 'var_sites:1',
            'var_sites:2', 'var_sites:3', 'default_var_sites']
