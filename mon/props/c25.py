# encoding: utf-8
"""C25: mpnum.special"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum import special
from mpnum.utils.extmath import randomized_svd, truncated_svd

from .. import dense as dn, gen
from ..util import expect_mpa, expect_scalar, unchanged

PROP = 'C25'
RULE = ('random product arrays (any legs, mixed dtypes, repeated and '
        'dependent summands, weights) summed at sufficient and insufficient '
        'target ranks; non-trivial: at least two sites and two summands')
QUICK, THOROUGH = 5000, 40000
ASSUMPTIONS = ['a target rank suffices if it is not smaller than the rank of '
               'the left parts of the weighted summands at any cut',
               'randomized decompositions: double precision only']


def products(ctx, sites, count, dtypes, legs=None):
    shape = gen.rand_shape(ctx, sites=sites, min_legs=1, max_size=900,
                           max_legs=2) if legs is None else legs
    out = []
    for _ in range(count):
        if out and ctx.chance(.15):
            old = out[ctx.randint(0, len(out) - 1)]
            lts = [np.array(t) for t in old.lt]
            k = ctx.randint(0, sites - 1)
            if ctx.chance(.5):
                lts[k] = gen.rand_array(ctx, lts[k].shape,
                                        lts[k].dtype)
        else:
            lts = gen.rand_tensors(ctx, shape, (1,) * (sites - 1),
                                   ctx.pick(dtypes), wild=False)
        out.append(gen.build(ctx, lts))
    return shape, out


def needed_rank(weights, ltss):
    """Largest rank of the matrix of (weighted) left parts over all cuts"""
    best = 1
    left = [w * t[0].reshape((1, -1)) for w, t in zip(weights, ltss)]
    n = len(ltss[0])
    for k in range(n - 1):
        m = np.concatenate([v.reshape((-1, 1)) for v in left], axis=1)
        if abs(m).max() > 0:
            best = max(best, np.linalg.matrix_rank(m, tol=1e-10 *
                                                   abs(m).max()))
        if k + 1 < n - 1:
            left = [np.multiply.outer(v.ravel(), t[k + 1].ravel())
                    for v, t in zip(left, ltss)]
    return int(best)


def sums(ctx):
    sites = ctx.pick([1, 2, 2, 3, 3, 4, 5])
    count = ctx.randint(1, 6)
    dtypes = ['f8', 'c16'] if ctx.chance(.8) else ['f8', 'c16', 'f4', 'c8']
    shape, mpas = products(ctx, sites, count, dtypes)
    if ctx.chance(.4):
        weights, args = np.ones(count), {}
    else:
        weights = ctx.rng.randn(count)
        if ctx.chance(.4):
            weights = weights + 1j * ctx.rng.randn(count)
        if ctx.chance(.2):
            weights[ctx.randint(0, count - 1)] = 0
        args = {'weights': weights if ctx.chance(.5) else list(weights)}
    before = [dn.tens(m) for m in mpas]
    forms = [m.canonical_form for m in mpas]
    want = sum(w * dn.dense(t) for w, t in zip(weights, before))
    double = gen.rtol_of(*mpas) < 1e-5
    need = needed_rank(weights, before)
    rank = ctx.pick([need, need + 1, count, count + 3])
    rank = max(rank, need)
    svd = ctx.pick(['default', 'truncated', 'own', 'randomized'])
    if svd == 'randomized' and not double:
        svd = 'default'
    calls = []

    def own(a, k):
        calls.append((a.shape, k))
        return truncated_svd(a, k)

    def rand(a, k):
        return randomized_svd(a, k, randstate=np.random.RandomState(5))

    kw = dict(args)
    if svd != 'default':
        kw['svdfunc'] = {'truncated': truncated_svd, 'own': own,
                         'randomized': rand}[svd]
    ctx.signature(shape, count, rank, need, svd, sorted(args))
    ctx.nontrivial = sites > 1 and count > 1
    arg = iter(mpas) if ctx.chance(.5) else mpas
    res = special.sumup(arg, rank, **kw)
    rtol = gen.rtol_of(*mpas)
    scale = max(dn.bound(t) for t in before) * abs(np.asarray(weights)).sum()
    expect_mpa(ctx, res, want, shape, 'sumup', scale=scale,
               rtol=max(rtol, 1e-7))
    if sites > 1:
        ctx.check(max(res.ranks) <= rank, 'sumup: rank', got=res.ranks,
                  requested=rank)
        left = res.canonical_form[0]
        defect = dn.claim_defect(res, tol=1e-7 if double else 1e-3)
        ctx.check(defect is None, 'sumup: canonical form', defect=defect)
        if svd == 'own':
            ctx.check(len(calls) > 0, 'sumup: svdfunc not used')
    for m, b, f in zip(mpas, before, forms):
        unchanged(ctx, m, b, 'sumup: summand', f)
    ctx.event('sum:' + svd)
    if need < count and rank < count:
        ctx.event('dependent')
    # insufficient rank: bound respected
    if need > 1 and sites > 1:
        low = ctx.randint(1, need - 1)
        res = special.sumup(mpas, low, **args)
        ctx.check(max(res.ranks) <= low, 'sumup: rank', got=res.ranks,
                  requested=low)
        ctx.check(dn.chain_defect(res) is None and
                  dn.shape_of(dn.tens(res)) == shape, 'sumup: legs')
        defect = dn.claim_defect(res, tol=1e-7 if double else 1e-3)
        ctx.check(defect is None, 'sumup: canonical form', defect=defect)
        if sites == 2 and double:
            # one cut only: the best approximation of the left part keeps
            # the part of the sum in the span of the leading vectors
            a = dn.dense(dn.tens(res)).reshape(
                (int(np.prod(shape[0], dtype=int)), -1))
            left = np.concatenate([(w * t[0]).reshape((-1, 1)) for w, t in
                                   zip(weights, before)], axis=1)
            right = np.concatenate([t[1].reshape((1, -1)) for t in before])
            u, s, v = np.linalg.svd(left, full_matrices=False)
            if s[low - 1] > 1.01 * s[low]:
                ref = (u[:, :low] * s[:low]).dot(v[:low]).dot(right)
                ctx.close(a, ref, 'sumup: truncated sum', scale=scale,
                          rtol=1e-6 / min(1., s[low - 1] / s[low] - 1))
                ctx.event('truncated_values')
        ctx.event('truncated')


def many(ctx):
    """Many summands, small target rank: sum of vectors in a small space"""
    sites = ctx.randint(3, 8)
    d = ctx.randint(2, 3)
    base = [[gen.rand_array(ctx, (1, d, 1), 'c16') for _ in range(2)]
            for _ in range(sites)]
    count = ctx.randint(10, 40) if ctx.chance(.9) else ctx.randint(60, 160)
    # all summands differ on the last site only, or equal two base vectors
    mpas, ltss = [], []
    for k in range(count):
        lts = [b[k % 2] for b in base]
        if ctx.chance(.5):
            lts[-1] = gen.rand_array(ctx, (1, d, 1), 'c16')
        mpas.append(mp.MPArray(lts))
        ltss.append(lts)
    w = ctx.rng.randn(count)
    rank = ctx.randint(2, 5)
    res = special.sumup(mpas, rank, weights=w)
    want = sum(x * dn.dense(t) for x, t in zip(w, ltss))
    expect_mpa(ctx, res, want, [(d,)] * sites, 'sum of many summands',
               rtol=1e-7, scale=max(dn.bound(t) for t in ltss))
    ctx.check(max(res.ranks) <= rank, 'sumup: rank')
    ctx.event('many')
    ctx.nontrivial = True
    ctx.signature(sites, d, count, rank)


def inner(ctx):
    sites = ctx.pick([1, 2, 3, 4, 6])
    shape = tuple((ctx.randint(1, 4),) for _ in range(sites))
    a = gen.rand_mpa(ctx, shape, ranks=(1,) * (sites - 1),
                     dtypes=('f8', 'c16', 'f4', 'c8'))
    b = gen.rand_mpa(ctx, shape, dtypes=('f8', 'c16', 'f4', 'c8'))
    la, lb = dn.tens(a), dn.tens(b)
    fa, fb = a.canonical_form, b.canonical_form
    scale = dn.noise(la, lb) * \
        np.prod([s[0] for s in shape])
    got = special.inner_prod_mps(a, b)
    expect_scalar(ctx, got, np.vdot(dn.dense(la), dn.dense(lb)),
                  'inner_prod_mps', scale=scale, rtol=gen.rtol_of(a, b))
    ctx.close(mp.inner(a, b), got, 'inner_prod_mps differs from inner',
              scale=scale, rtol=gen.rtol_of(a, b))
    unchanged(ctx, a, la, 'inner_prod_mps', fa)
    unchanged(ctx, b, lb, 'inner_prod_mps', fb)
    if max(list(b.ranks) + [1]) > 1:
        ctx.raises(Exception, lambda: special.inner_prod_mps(b, a),
                   'first argument is not a product')
    two = gen.rand_mpa(ctx, tuple((2, 2) for _ in range(sites)),
                       ranks=(1,) * (sites - 1), dtype='f8')
    ctx.raises(Exception, lambda: special.inner_prod_mps(two, two),
               'two legs')
    ctx.event('inner')


def refusals(ctx):
    sites = ctx.randint(2, 4)
    shape, mpas = products(ctx, sites, 2, ['f8'],
                           legs=tuple((2,) for _ in range(sites)))
    ctx.raises(Exception, lambda: special.sumup(mpas, 2, weights=[1., 1., 1.]),
               'too many weights')
    ctx.raises(Exception, lambda: special.sumup(mpas, 2, weights=[1.]),
               'too few weights')
    _, other = products(ctx, sites + 1, 1, ['f8'],
                        legs=tuple((2,) for _ in range(sites + 1)))
    ctx.raises(Exception, lambda: special.sumup(mpas + other, 2),
               'different lengths')
    big = gen.rand_mpa(ctx, shape, ranks=(2,) * (sites - 1), dtype='f8')
    ctx.raises(Exception, lambda: special.sumup(mpas + [big], 3),
               'summand is not a product')
    ctx.event('refused')
    ctx.signature(sites)


SCENARIOS = [('sums', sums), ('sums2', sums), ('sums3', sums),
             ('many', many), ('inner', inner), ('refusals', refusals)]
REQUIRED = ['sum:default', 'sum:truncated', 'sum:own', 'sum:randomized',
            'dependent', 'truncated', 'truncated_values', 'many', 'inner',
            'refused', 'refusals']
