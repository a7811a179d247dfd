# encoding: utf-8
"""C11: singular values of all bipartitions"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa

PROP = 'C11'
RULE = ('MPAs in all forms, over-ranked and rank deficient, some consumed '
        'only partly or interleaved with other operations; non-trivial: at '
        'least one cut with two non-negligible singular values')
QUICK, THOROUGH = 4000, 32000
FLOATS = ('f8', 'c16', 'f8', 'c16', 'f8', 'c16', 'f4', 'c8')


def compare(ctx, sv, arr, shape, cut, rtol, scale):
    ref = dn.schmidt(arr, shape, cut)
    sv = np.asarray(sv)
    if rtol <= 1e-8:     # double precision: small values count as well
        rtol, scale = 1e-11, 1e4 * scale
    ctx.check(sv.ndim == 1, 'singular values are not a vector',
              shape=sv.shape)
    ctx.check(sv.dtype.kind == 'f', 'singular values are not real',
              dtype=sv.dtype)
    tol = rtol * max(scale, float(ref.max()) if ref.size else 0.)
    ctx.check((sv >= -tol).all(), 'negative singular value', cut=cut)
    k = max(len(sv), len(ref))
    got, want = np.zeros(k), np.zeros(k)
    got[:len(sv)] = np.sort(sv)[::-1]
    want[:len(ref)] = ref
    ctx.check((np.diff(sv) <= tol).all(), 'not in descending order', cut=cut)
    ctx.close(got, want, 'singular values of cut {}'.format(cut),
              scale=scale, rtol=rtol)
    ctx.event('cuts')
    if ref.size > 1 and ref[1] > 1e-3 * ref[0]:
        ctx.nontrivial = True


def prepare(ctx, **kw):
    a = gen.rand_mpa(ctx, dtypes=FLOATS, max_size=1500,
                     max_rank=ctx.pick([3, 5, 8]), **kw)
    if ctx.chance(.15):
        a = a + (-2) * a
    lts = dn.tens(a)
    return a, lts, dn.dense(lts), dn.shape_of(lts)


def complete(ctx):
    a, lts, arr, shape = prepare(ctx)
    rtol, scale = gen.rtol_of(a), 1e-2 * dn.bound(lts)
    res = list(a.singularvals())
    ctx.check(len(res) == len(shape) - 1, 'number of bipartitions',
              got=len(res), sites=len(shape))
    for cut, sv in enumerate(res, 1):
        compare(ctx, sv, arr, shape, cut, rtol, scale)
    expect_mpa(ctx, a, arr, shape, 'array after singularvals', scale, rtol)
    defect = dn.claim_defect(a)
    ctx.check(defect is None, 'after singularvals: ' + str(defect))
    # once more from the form left behind
    for cut, sv in enumerate(a.singularvals(), 1):
        compare(ctx, sv, arr, shape, cut, rtol, scale)
    ctx.event('repeated')


def partial(ctx):
    """The consumer stops after some cuts; the array stays intact"""
    a, lts, arr, shape = prepare(ctx, sites=ctx.randint(2, 6))
    rtol, scale = gen.rtol_of(a), 1e-2 * dn.bound(lts)
    stop = ctx.randint(1, len(shape) - 1)
    it = a.singularvals()
    got = []
    for _ in range(stop):
        got.append(np.array(next(it)))
        if ctx.chance(.5):
            expect_mpa(ctx, a, arr, shape, 'array between cuts', scale, rtol)
            defect = dn.claim_defect(a)
            ctx.check(defect is None, 'between cuts: ' + str(defect))
    if ctx.chance(.5):
        it.close()
    for cut, sv in enumerate(got, 1):
        compare(ctx, sv, arr, shape, cut, rtol, scale)
    expect_mpa(ctx, a, arr, shape, 'array after stopping', scale, rtol)
    defect = dn.claim_defect(a)
    ctx.check(defect is None, 'after stopping: ' + str(defect))
    ctx.event('partial')
    # start afresh
    res = list(a.singularvals())
    ctx.check(len(res) == len(shape) - 1, 'number of bipartitions')
    for cut, sv in enumerate(res, 1):
        compare(ctx, sv, arr, shape, cut, rtol, scale)


def independent(ctx):
    """Values handed out earlier are not changed by later steps, and a copy
    taken before is unaffected"""
    a, lts, arr, shape = prepare(ctx, sites=ctx.randint(2, 5))
    rtol, scale = gen.rtol_of(a), 1e-2 * dn.bound(lts)
    b = a.copy()
    held, snap = [], []
    for sv in a.singularvals():
        held.append(sv)
        snap.append(np.array(sv))
    for x, y in zip(held, snap):
        ctx.check(np.array_equal(x, y), 'values changed later')
    ctx.check(len(b) == len(lts) and
              all(np.array_equal(x, y) for x, y in zip(dn.tens(b), lts)),
              'copy was changed')
    if ctx.chance(.5):
        c = gen.rand_scalar(ctx, cplx=arr.dtype.kind == 'c')
        a = a * c
        for cut, sv in enumerate(a.singularvals(), 1):
            compare(ctx, sv, arr * c, shape, cut, rtol, scale * abs(c))
    ctx.event('independent')


def degenerate(ctx):
    """Known spectra: products, maximally entangled pairs, zero arrays"""
    n = ctx.randint(2, 5)
    what = ctx.randint(0, 2)
    if what == 0:
        shape = gen.rand_shape(ctx, sites=n, min_legs=1, max_legs=2,
                               max_size=600)
        fac = [gen.rand_array(ctx, s, 'c16') for s in shape]
        a = mp.MPArray.from_kron(fac)
        ref = [[np.prod([np.linalg.norm(f) for f in fac])]] * (n - 1)
        ctx.event('product')
    elif what == 1:
        d = ctx.randint(2, 3)
        t = np.zeros((d, d, d))
        for i in range(d):
            t[i, i, i] = 1
        lts = [t[:1] * 0 + np.eye(d)[None]] + [t] * (n - 2) + \
            [np.eye(d)[:, :, None]]
        a = mp.MPArray(lts)
        ref = [[1.0] * d] * (n - 1)
        ctx.nontrivial = True
        ctx.event('ghz')
    else:
        a = mp.zero(n, ctx.randint(1, 3), ctx.randint(1, 4))
        ref = [[0.0]] * (n - 1)
        ctx.event('zero')
    ctx.signature(what, gen.describe(a))
    res = list(a.singularvals())
    ctx.check(len(res) == n - 1, 'number of bipartitions')
    for sv, r in zip(res, ref):
        k = max(len(sv), len(r))
        ctx.close(np.pad(np.asarray(sv), (0, k - len(sv)), 'constant'),
                  np.pad(np.array(r, float), (0, k - len(r)), 'constant'),
                  'known spectrum', rtol=1e-9, atol=1e-12)


def long_chain(ctx):
    """Long chains: squared values sum to the squared norm, first and last cut
    agree with reduced matrices"""
    n = ctx.randint(12, 30)
    d, r = 2, ctx.randint(2, 4)
    a = gen.rand_mpa(ctx, shape=((d,),) * n, dtypes=('f8', 'c16'),
                     ranks=[min(r, d ** min(k, n - k)) for k in range(1, n)],
                     wild=False)
    lts = dn.tens(a)
    # environments
    left = [np.ones((1, 1))]
    for t in lts:
        left.append(np.einsum('ab,apc,bpd->cd', left[-1], t.conj(), t))
    right = [np.ones((1, 1))]
    for t in lts[::-1]:
        right.append(np.einsum('cd,apc,bpd->ab', right[-1], t.conj(), t))
    right = right[::-1]
    res = list(a.singularvals())
    ctx.check(len(res) == n - 1, 'number of bipartitions')
    total = dn.norm(lts)
    for cut, sv in enumerate(res, 1):
        ev = np.linalg.eigvals(np.dot(left[cut], right[cut].T))
        ev = np.sort(np.sqrt(np.maximum(ev.real, 0)))[::-1]
        k = max(len(sv), len(ev))
        ctx.close(np.pad(np.asarray(sv), (0, k - len(sv)), 'constant'),
                  np.pad(ev, (0, k - len(ev)), 'constant'),
                  'long chain cut {}'.format(cut), scale=total, rtol=1e-5)
    d = dn.overlap_defect(dn.tens(a), lts)
    ctx.check(d < 1e-5, 'array changed', defect=d)
    ctx.event('long')


def large_ranks(ctx):
    """Many singular values"""
    n = ctx.randint(2, 3)
    k = ctx.randint(0, n - 2)
    shape = [(2,)] * n
    shape[k], shape[k + 1] = (ctx.randint(20, 70),), (ctx.randint(20, 70),)
    ranks = [ctx.randint(1, 4)] * (n - 1)
    ranks[k] = ctx.randint(20, 70)
    a = gen.rand_mpa(ctx, shape=tuple(shape), dtypes=('f8', 'c16'),
                     ranks=ranks, wild=False)
    lts = dn.tens(a)
    arr = dn.dense(lts)
    scale = 1e-2 * dn.bound(lts)
    for _ in range(2):
        for cut, sv in enumerate(a.singularvals(), 1):
            compare(ctx, sv, arr, tuple(shape), cut, 1e-8, scale)
    expect_mpa(ctx, a, arr, tuple(shape), 'array after singularvals', scale,
               1e-9)
    ctx.event('large_ranks')


def changing(ctx):
    """Singular values follow in-place changes"""
    a, lts, arr, shape = prepare(ctx)
    if gen.rtol_of(a) > 1e-6:
        return
    for _ in range(ctx.randint(2, 4)):
        lts = dn.tens(a)
        arr = dn.dense(lts)
        for cut, sv in enumerate(a.singularvals(), 1):
            compare(ctx, sv, arr, shape, cut, 1e-8, 1e-2 * dn.bound(lts))
        gen.change_in_place(ctx, a)
    ctx.event('changing')


def single_site(ctx):
    a, lts, arr, shape = prepare(ctx, sites=1)
    ctx.check(list(a.singularvals()) == [], 'bipartition of a single site')
    expect_mpa(ctx, a, arr, shape, 'single site', 1e-2 * dn.bound(lts),
               gen.rtol_of(a))


SCENARIOS = [('complete', complete), ('partial', partial),
             ('complete2', complete), ('independent', independent),
             ('degenerate', degenerate), ('long_chain', long_chain),
             ('single_site', single_site), ('large_ranks', large_ranks),
             ('changing', changing)]
REQUIRED = ['cuts', 'partial', 'independent', 'product', 'ghz', 'zero',
            'long', 'repeated', 'large_ranks', 'changing']
