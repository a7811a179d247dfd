# encoding: utf-8
"""C09: SVD compression"""
from __future__ import division

import functools as ft

import numpy as np

import mpnum as mp
from mpnum.utils.extmath import randomized_svd, truncated_svd

from .. import dense as dn, gen
from ..util import expect_mpa, expect_scalar, unchanged

PROP = 'C09'
RULE = ('MPAs (over-ranked, rank deficient, sums of identical terms, spread '
        'magnitudes, single precision) in all forms with random options; '
        'non-trivial: a compression which really discards something')
QUICK, THOROUGH = 3600, 30000
FLOATS = ('f8', 'c16', 'f8', 'c16', 'f8', 'c16', 'f4', 'c8')


def start(ctx, **kw):
    if not kw and ctx.chance(.012):
        return gen.wide_mpa(ctx)
    kw.setdefault('max_size', 1200)
    # (two chains which carry their magnitude on different sites have no
    # well-conditioned sum)
    small = ctx.chance(.085)
    a = gen.rand_mpa(ctx, dtypes=FLOATS, max_rank=ctx.pick([3, 5, 8]),
                     wild=not small, **kw)
    if small:
        a = a + 1e-3 * gen.rand_mpa(ctx, shape=a.shape, dtypes=('f8',),
                                    wild=False)
    elif ctx.chance(.15):
        a = a + 2 * a            # redundant virtual legs
    return a


def simulate(arr, shape, rank, relerr, direction):
    """Dense reference: truncated Schmidt decompositions, one cut after the
    other.  Returns (array, kept ranks, well conditioned?)"""
    dims = [int(np.prod(s, dtype=int)) for s in shape]
    n = len(dims)
    cuts = range(1, n)
    cur = arr
    good = True
    kept = {}
    for cut in (cuts if direction == 'right' else reversed(cuts)):
        m = cur.reshape((int(np.prod(dims[:cut], dtype=int)), -1))
        u, s, v = np.linalg.svd(m, full_matrices=False)
        k = min(rank, len(s))
        top = s[0] if len(s) else 0
        if relerr is not None:
            frac = np.cumsum(s) / np.sum(s)
            k_rel = int(np.searchsorted(frac, 1 - relerr)) + 1
            if abs(frac - (1 - relerr)).min() < 1e-7:
                good = good and relerr == 0
            k = min(k, k_rel)
        if k < len(s):
            gap = s[k - 1] - s[k]
            if gap < 1e-3 * top and s[k - 1] > 1e-10 * top:
                good = False
        cur = np.dot(u[:, :k] * s[:k], v[:k])
        kept[cut] = k
    return cur.reshape(arr.shape), kept, good


def tails(arr, shape, rank):
    """Sum over cuts of the discarded squared singular values"""
    return sum(float((dn.schmidt(arr, shape, c)[rank:] ** 2).sum())
               for c in range(1, len(shape)))


def options(ctx, a):
    n = len(a)
    top = max((1,) + tuple(a.ranks))
    kw = {}
    what = ctx.randint(0, 5)
    if what <= 3:
        kw['rank'] = ctx.randint(1, max(1, top))
        if ctx.chance(.1):
            kw['rank'] = top + ctx.randint(0, 5)
    if what in (2, 4):
        kw['relerr'] = ctx.pick([0., 1e-12, .01, .05, .2, .5, .9, 1.0])
    kw['direction'] = ctx.pick([None, 'left', 'right', 'left', 'right'])
    if kw['direction'] is None and ctx.chance(.5):
        del kw['direction']
    if ctx.chance(.2):
        kw['canonicalize'] = ctx.chance(.5)
    return kw


def judge(ctx, arr, shape, ranks, res, overlap, kw, rtol, scale, msg):
    """Everything which has to hold for any SVD compression"""
    n = len(shape)
    defect = dn.chain_defect(res)
    ctx.check(defect is None, msg + ': malformed', defect=defect)
    lts = dn.tens(res)
    ctx.check(dn.shape_of(lts) == tuple(shape), msg + ': legs changed')
    c = dn.dense(lts)
    n2 = float(np.linalg.norm(arr)) ** 2
    tol = max(n2, (scale * 1e-2) ** 2)
    expect_scalar(ctx, overlap, np.vdot(c, c).real, msg + ': returned number '
                  'is not <c|c>', tol, rtol, )
    ctx.close(np.vdot(arr, c), overlap, msg + ': <u|c> != <c|c>', tol, rtol)
    if 'rank' in kw and n > 1:
        ctx.check(max(res.ranks) <= kw['rank'], msg + ': rank too large',
                  got=res.ranks, asked=kw['rank'])
    ctx.check(all(x <= y for x, y in zip(res.ranks, ranks)),
              msg + ': rank increased', got=res.ranks, was=ranks)
    defect = dn.claim_defect(res)
    ctx.check(defect is None, msg + ': ' + str(defect))
    if n > 1:
        form = tuple(res.canonical_form)
        allowed = {'right': [(n - 1, n)], 'left': [(0, 1)]}.get(
            kw.get('direction'), [(n - 1, n), (0, 1)])
        ctx.check(form in allowed, msg + ': canonical form', form=form)
    if arr.dtype.kind == 'f':
        ctx.check(c.dtype.kind == 'f', msg + ': real array became complex')
    err2 = float(np.linalg.norm(arr - c)) ** 2
    rank = kw.get('rank', 10 ** 9)
    if kw.get('canonicalize', True):
        if kw.get('relerr') is None:
            lim = tails(arr, shape, rank)
            ctx.check(err2 <= lim * (1 + 1e-6) + (3 * rtol) ** 2 * tol
                      + 1e-13 * tol,
                      msg + ': error larger than the discarded singular '
                      'values', err2=err2, limit=lim, norm2=n2)
            if lim > 1e-6 * n2:
                ctx.nontrivial = True
                ctx.event('lossy')
        if rtol < 1e-6:
            d = [kw['direction']] if kw.get('direction') else ['left', 'right']
            dist, sure = [], True
            for direction in d:
                ref, kept, good = simulate(arr, shape, rank, kw.get('relerr'),
                                           direction)
                sure = sure and good
                dist.append(float(abs(ref - c).max()) if c.size else 0.)
                if good and kw.get('relerr') and len(d) == 1:
                    for cut, k in kept.items():
                        ctx.check(res.ranks[cut - 1] <= k,
                                  msg + ': more singular values kept than '
                                  'necessary', cut=cut, kept=res.ranks,
                                  needed=k)
            if sure:
                ctx.event('simulated')
                ctx.check(min(dist) <= 1e-6 * np.sqrt(tol),
                          msg + ': not the truncated Schmidt decomposition',
                          distance=dist, norm2=n2, options=repr(kw))
    if kw.get('relerr') is not None and kw.get('canonicalize', True):
        # first cut of the sweep sees the original singular values
        ctx.event('relerr')
    return c


def run(ctx, a, kw, in_place, **special):
    lts = dn.tens(a)
    form = tuple(a.canonical_form)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    rtol, scale = gen.rtol_of(a), dn.bound(lts)
    ranks = tuple(a.ranks)
    if kw.get('relerr') is not None and not np.linalg.norm(arr) > 1e-100:
        del kw['relerr']
    ctx.signature(sorted((k, repr(v)) for k, v in kw.items()), in_place)
    call = dict(kw, **special)
    if ctx.chance(.5):
        call['method'] = 'svd'
    if in_place:
        res = a
        overlap = a.compress(**call)
        ctx.check(not isinstance(overlap, tuple), 'compress: return value')
    else:
        res, overlap = a.compression(**call)
        unchanged(ctx, a, lts, 'compression', form)
        ctx.check(res is not a, 'compression returned the same object')
    ctx.event('direction:{}'.format(kw.get('direction')))
    ctx.event('start_form:' + ('none' if form == (0, len(a)) else 'some'))
    c = judge(ctx, arr, shape, ranks, res, overlap, kw, rtol, scale,
              'compress' if in_place else 'compression')
    ctx.event('compressions')
    return arr, shape, res, c, overlap


def random_options(ctx):
    a = start(ctx)
    run(ctx, a, options(ctx, a), ctx.chance(.5))


def lossless(ctx):
    """Ranks which suffice: nothing is lost"""
    a = start(ctx)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    rtol = gen.rtol_of(a)
    eps = 1e-4 if rtol > 1e-6 else 1e-11
    true = 1
    for cut in range(1, len(shape)):
        s = dn.schmidt(arr, shape, cut)
        true = max(true, int((s > eps * (s[0] if len(s) else 0)).sum()))
    kw = {'direction': ctx.pick(['left', 'right', None])}
    what = ctx.randint(0, 2)
    if what == 0:
        kw['rank'] = true + ctx.randint(0, 2)
    elif what == 1:
        kw['relerr'] = 0.0
    arr, shape, res, c, overlap = run(ctx, a, kw, ctx.chance(.5))
    ctx.close(c, arr, 'lossless compression', scale=1e-2 * dn.bound(lts),
              rtol=max(rtol, 1e-7))
    ctx.close(overlap, np.linalg.norm(arr) ** 2, 'lossless overlap',
              scale=dn.noise(lts, lts), rtol=max(rtol, 1e-7))
    if 'rank' in kw and len(a) > 1:
        ctx.nontrivial = True
    ctx.event('lossless')


def relerr(ctx):
    """The promised fraction at the first cut of the sweep and overall"""
    a = start(ctx, sites=ctx.randint(2, 5), min_legs=1)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    if not np.linalg.norm(arr) > 1e-100 or gen.rtol_of(a) > 1e-6:
        return
    eps = ctx.pick([.01, .05, .1, .2, .3, .5, .8])
    direction = ctx.pick(['left', 'right'])
    kw = {'relerr': eps, 'direction': direction}
    n = len(a)
    arr, shape, res, c, _ = run(ctx, a, kw, ctx.chance(.5))
    cut = 1 if direction == 'right' else n - 1
    s = dn.schmidt(arr, shape, cut)
    k = res.ranks[cut - 1]
    # (virtual legs may exceed what the cut needs only before compression)
    lost = s[k:].sum() / s.sum()
    ctx.check(lost <= eps + 1e-9, 'more discarded than allowed', lost=lost,
              allowed=eps)
    prev = arr
    # per-cut fraction along the sweep: compare with dense simulation
    ref, kept, good = simulate(arr, shape, 10 ** 9, eps, direction)
    if good:
        got = {i + 1: r for i, r in enumerate(res.ranks)}
        ctx.check(got == kept, 'kept ranks', got=got, expected=kept,
                  relerr=eps)
        ctx.event('relerr_ranks')


def svdfuncs(ctx):
    """Other SVD functions: all structural promises hold"""
    a = start(ctx, sites=ctx.randint(2, 5), min_legs=1)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    rtol = gen.rtol_of(a)
    calls = []
    if ctx.chance(.5) or rtol > 1e-6:   # (randomized_svd: double only)
        def svdfunc(mat, k):
            calls.append(k)
            return truncated_svd(mat, k)
    else:
        rng = np.random.RandomState(ctx.randint(0, 10 ** 6))

        def svdfunc(mat, k):
            calls.append(k)
            return randomized_svd(mat, min(k, min(mat.shape)), randstate=rng)
    kw = {'rank': ctx.randint(1, 8),
          'direction': ctx.pick(['left', 'right'])}
    form = tuple(a.canonical_form)
    res, overlap = a.compression(svdfunc=svdfunc, **kw)
    unchanged(ctx, a, lts, 'compression(svdfunc)', form)
    ctx.check(len(calls) >= len(a) - 1, 'given SVD function was not used')
    c = dn.dense(dn.tens(res))
    n2 = np.linalg.norm(arr) ** 2
    tol = max(n2, (dn.bound(lts) * 1e-2) ** 2)
    expect_scalar(ctx, overlap, np.vdot(c, c).real,
                  'svdfunc: returned number is not <c|c>', tol, rtol)
    ctx.close(np.vdot(arr, c), overlap, 'svdfunc: <u|c> != <c|c>', tol,
              max(rtol, 1e-7))
    ctx.check(max(res.ranks) <= kw['rank'], 'svdfunc: rank too large')
    defect = dn.claim_defect(res)
    ctx.check(defect is None, 'svdfunc: ' + str(defect))
    ctx.signature('svdfunc', sorted(kw.items()))
    ctx.nontrivial = True


def repeated(ctx):
    """Compressing again to the same rank changes nothing"""
    a = start(ctx, sites=ctx.randint(2, 5))
    kw = {'rank': ctx.randint(1, 4), 'direction': ctx.pick(['left', 'right'])}
    arr, shape, res, c, overlap = run(ctx, a, dict(kw), False)
    kw['direction'] = ctx.pick(['left', 'right'])
    again, overlap2 = res.compression(**kw)
    scale = 1e-2 * dn.bound(dn.tens(a))
    rtol = max(gen.rtol_of(a), 1e-7)
    ctx.close(dn.dense(dn.tens(again)), c, 'repeated compression', scale, rtol)
    ctx.close(overlap2, overlap, 'repeated overlap', scale ** 2, rtol)


def refusals(ctx):
    a = start(ctx, sites=ctx.randint(2, 5))
    bad = (Exception,)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    d = ctx.pick(['left', 'right'])
    ctx.raises(bad, lambda: a.compression('svd', rank=0, direction=d),
               'rank 0')
    ctx.raises(bad, lambda: a.compression('svd', relerr=-.1, direction=d),
               'negative relerr')
    ctx.raises(bad, lambda: a.compression('svd', relerr=1.1, direction=d),
               'relerr > 1')
    ctx.raises(bad, lambda: a.compression('svd', rank=1, direction='up'),
               'unknown direction')
    ctx.raises(bad, lambda: a.compression('qr', rank=1), 'unknown method')
    ctx.raises(bad, lambda: a.compress('qr', rank=1), 'unknown method')
    unchanged(ctx, a, lts, 'refused compression', form)
    ctx.signature(gen.describe(a))


def long_chain(ctx):
    n = ctx.randint(12, 40)
    lts = gen.rand_tensors(ctx, ((2,),) * n, dtype=ctx.pick(('f8', 'c16')),
                           max_rank=6, wild=False)
    lts = [t / dn.norm(lts) ** (1. / n) for t in lts]
    a = gen.build(ctx, lts)
    kw = {'rank': ctx.randint(1, 6), 'direction': ctx.pick(['left', 'right'])}
    ctx.signature(n, sorted(kw.items()), a.ranks)
    ctx.nontrivial = True
    res, overlap = a.compression('svd', **kw)
    lr = dn.tens(res)
    ctx.close(overlap, dn.inner(lr, lr), 'overlap (long)', 1.)
    ctx.close(dn.inner(lts, lr), overlap, '<u|c> (long)', 1.)
    ctx.check(max(res.ranks) <= kw['rank'], 'rank (long)')
    defect = dn.claim_defect(res)
    ctx.check(defect is None, 'long chain: ' + str(defect))
    ctx.check(dn.overlap_defect(lts, dn.tens(a)) < 1e-6,
              'original changed (long)')
    if kw['rank'] >= max(a.ranks):
        ctx.check(dn.overlap_defect(lts, lr) < 1e-6, 'lossless (long)')
    ctx.event('long_chains')


SCENARIOS = [('random_options', random_options), ('lossless', lossless),
             ('relerr', relerr), ('random_options2', random_options),
             ('svdfuncs', svdfuncs), ('repeated', repeated),
             ('refusals', refusals), ('random_options3', random_options),
             ('long_chain', long_chain)]
REQUIRED = ['lossy', 'simulated', 'relerr_ranks', 'direction:left',
            'direction:right', 'direction:None', 'start_form:some', 'lossless',
            'wide']
