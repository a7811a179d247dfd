# encoding: utf-8
"""C33: ranks grow as documented and long chains stay tractable"""
from __future__ import division

import gc
import os
import pickle
import resource
import shutil
import signal
import tempfile

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
from mpnum import linalg, mpsmpo, special
from mpnum.utils import physics

from .. import dense as dn, gen, povmgen as pg
from ..util import expect_scalar

PROP = 'C33'
RULE = ('ranks of the results of all operations on random chains; chains of '
        '60 to 200 sites (2^60 and more entries) through all operations which '
        'are supposed to work locally, with 1.5 GB of memory, compared with '
        'own transfer matrices and entries; non-trivial: rank above one')
QUICK, THOROUGH = 800, 9000
FLOATS = ('f8', 'c16')
MEMORY = 3 << 29
ADDRESSES = 3 << 30
LIMITED = []


def size():
    """Virtual and resident memory of this process"""
    with open('/proc/self/statm') as f:
        return [int(x) * resource.getpagesize() for x in f.read().split()[:2]]


def limit():
    """Bounded memory: building exponentially large arrays fails"""
    if not LIMITED:
        soft = size()[0] + ADDRESSES
        _, hard = resource.getrlimit(resource.RLIMIT_AS)
        if hard != resource.RLIM_INFINITY:
            soft = min(soft, hard)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        LIMITED.append(soft)


def bounded(fun):
    def scenario(ctx):
        limit()
        # The interpreter does not know how large numpy's arrays are
        gc.collect()
        start = size()[1]

        def watch(signum, frame):
            if size()[1] > start + MEMORY:
                raise MemoryError('more than {} MB'.format(MEMORY >> 20))

        old = signal.signal(signal.SIGALRM, watch)
        signal.setitimer(signal.ITIMER_REAL, .1, .1)
        try:
            fun(ctx)
        except MemoryError as e:
            ctx.fail('out of memory: {}'.format(e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        ctx.event('memory_watched')
    return scenario


def ranks_bound(ctx, res, top, msg):
    got = tuple(res.ranks)
    ctx.check(len(got) == len(top) and all(x <= y for x, y in zip(got, top)),
              msg + ': ranks', got=got, at_most=tuple(top))
    ctx.event('rank_bounds')


def ranks(ctx):
    shape = gen.rand_shape(ctx, sites=ctx.randint(2, 6), min_legs=1,
                           max_legs=2, uniform_legs=True)
    a, b, c = (gen.rand_mpa(ctx, shape=shape, max_rank=5, dtypes=FLOATS)
               for _ in range(3))
    ra, rb, rc = (np.array(x.ranks) for x in (a, b, c))
    n = len(a)
    ctx.nontrivial = max(ra) > 1
    add, mul = ra + rb, ra * rb
    same = lambda res, msg: ranks_bound(ctx, res, ra, msg)
    ranks_bound(ctx, a + b, add, 'sum')
    ranks_bound(ctx, a - b, add, 'difference')
    ranks_bound(ctx, mp.sumup([a, b, c], weights=[1, 2j, .5]), add + rc,
                'weighted sum')
    ranks_bound(ctx, mp.dot(a, b, axes=(0, 0)), mul, 'dot')
    ranks_bound(ctx, mp.localouter(a, b), mul, 'localouter')
    # the same object, or one derived from it, twice
    for twice in (a, a.conj(), a.copy()):
        ranks_bound(ctx, a + twice, 2 * ra, 'sum with itself')
        ranks_bound(ctx, a - twice, 2 * ra, 'difference with itself')
        ranks_bound(ctx, mp.dot(a, twice, axes=(-1, -1)), ra ** 2,
                    'dot with itself')
        ranks_bound(ctx, mp.localouter(a, twice), ra ** 2,
                    'localouter with itself')
        ranks_bound(ctx, mp.sumup([a, twice, a]), 3 * ra, 'sum with itself')
    if all(len(x) == 2 and x[0] == x[1] for x in shape):
        ranks_bound(ctx, mp.dot(a, a), ra ** 2, 'dot with itself')
        ranks_bound(ctx, mp.dot(a.adj(), a), ra ** 2, 'dot with itself')
        k = ctx.randint(0, n - 1)
        x = mp.partialtrace(a, [(0, 1) if i == k else None
                                for i in range(n)])
        ctx.check(max(tuple(x.ranks) + (1,)) <= max(ra), 'partialtrace: ranks')
        op = mp.MPArray([gen.rand_array(ctx, (1,) + shape[k] + (1,), 'c16')])
        same(mp.partialdot(op, a, k), 'partialdot')
    w = ctx.randint(1, 3)
    terms = [mp.MPArray(dn.tens(mp.eye(w, 2))) for _ in range(3)]
    ranks_bound(ctx, mp.local_sum(terms), [3] * (w + 1), 'local_sum')
    for name in ('T', 'adj', 'conj', 'copy', 'ravel', 'transpose'):
        x = getattr(a, name)
        same(x if name == 'T' else x(), name)
    same(3j * a, 'scalar multiple')
    same(a / 2., 'division')
    same(-a, 'negation')
    same(a.reshape([s + (1,) for s in shape]), 'reshape')
    ranks_bound(ctx, a.reverse(), ra[::-1], 'reverse')
    same(a.get((0,) * n), 'get')
    same(a.sum([(0,)] + [()] * (n - 1)) if a.ndims[0] > 1 else a, 'sum')
    for x in list(a.axis_iter())[:2]:
        same(x, 'axis_iter')
    k = ctx.pick([k for k in range(1, n + 1) if n % k == 0])
    ranks_bound(ctx, a.group_sites(k), ra[k - 1::k][:n // k - 1],
                'group_sites')
    full = mp.full_rank(shape)
    dims = [int(np.prod(s, dtype=int)) for s in shape]
    own = [min(int(np.prod(dims[:i])), int(np.prod(dims[i:])))
           for i in range(1, n)]
    ctx.check(list(full) == own, 'full_rank', got=full, expected=own)
    m = mp.MPArray.from_array(dn.dense(dn.tens(a)), [len(s) for s in shape])
    ranks_bound(ctx, m, [min(int(np.prod(dims[:i])),
                             int(np.prod(dims[i:]))) for i in range(1, n)],
                'from_array')
    t = ctx.randint(1, 7)
    ranks_bound(ctx, a.pad_ranks(t), np.maximum(ra, np.minimum(own, t)),
                'pad_ranks')
    pos = ctx.randint(0, n - 2)
    l, r = a.split(pos)
    ranks_bound(ctx, l, ra[:pos], 'split')
    ranks_bound(ctx, r, ra[pos + 1:], 'split')
    ranks_bound(ctx, mp.chain([a, b]), list(ra) + [1] + list(rb), 'chain')
    x = a.copy()
    left = ctx.randint(0, n - 1)
    x.canonicalize(left, ctx.randint(left + 1, n))
    same(x, 'canonicalize')
    res = a.compression('svd', rank=t)[0]
    ranks_bound(ctx, res, np.minimum(np.minimum(ra, t), 10 ** 6),
                'compression')
    res = a.compression('svd', relerr=.1)[0]
    same(res, 'compression')
    list(x.singularvals())
    same(x, 'singularvals')
    if all(len(s) == 1 for s in shape):
        ranks_bound(ctx, mpsmpo.mps_to_mpo(a), ra ** 2, 'mps_to_mpo')
        same(mpsmpo.mps_to_pmps(a), 'mps_to_pmps')
    else:
        ranks_bound(ctx, mpsmpo.pmps_to_mpo(a), ra ** 2, 'pmps_to_mpo')
        if all(s[0] == s[1] for s in shape):
            for i, x in enumerate(mpsmpo.reductions_mpo(a, 2)):
                ranks_bound(ctx, x, ra[i:i + 1], 'reductions_mpo')
    ctx.signature('ranks', shape, tuple(ra), tuple(rb))


# -- long chains --------------------------------------------------------
def unit(ctx, n, legs, r=None, dtype=None):
    """Normalized random long chain, with tensors of moderate size"""
    r = r or ctx.randint(2, 4)
    lts = gen.rand_tensors(ctx, (legs,) * n, ranks=[r] * (n - 1), wild=False,
                           dtype=dtype or ctx.pick(FLOATS))
    nrm = dn.norm(lts) ** (1. / n)
    return mp.MPArray([t / nrm for t in lts])


def probes(ctx, shape, k=2, scale=None):
    """Product vectors with normalized factors"""
    out = []
    for _ in range(k):
        fs = [gen.rand_array(ctx, s, 'c16') for s in shape]
        fs = [f / np.linalg.norm(f) for f in fs]
        out.append([f[None, ..., None] for f in fs])
    return out


def along(ctx, lts, lts2=None):
    """Chain with a large overlap with lts: a truncated, perturbed copy"""
    out = []
    for t in lts:
        z = gen.rand_array(ctx, t.shape, 'c16')
        out.append(t + .02 * z * np.linalg.norm(t) / np.linalg.norm(z))
    return out


def compare(ctx, got, ref, msg, scale, rtol=1e-7):
    """Same array: norm of the difference via overlaps"""
    got, ref = dn.tens(got), [np.asarray(t) for t in ref]
    ctx.check(dn.shape_of(got) == dn.shape_of(ref), msg + ': legs')
    gg = dn.inner(got, got).real
    rr = dn.inner(ref, ref).real
    gr = dn.inner(got, ref).real
    ctx.check(np.isfinite(gg) and abs(gg - rr) <= 1e-6 * scale ** 2 and
              abs(gg + rr - 2 * gr) <= 1e-6 * scale ** 2, msg,
              defect=abs(gg + rr - 2 * gr), norm=rr)
    ctx.event('long_compared')


def concat(l1, l2, w1=1, w2=1):
    """Own direct sum"""
    out = []
    n = len(l1)
    for i, (x, y) in enumerate(zip(l1, l2)):
        if i == 0:
            out.append(np.concatenate([w1 * x, w2 * y], axis=-1))
        elif i == n - 1:
            out.append(np.concatenate([x, y], axis=0))
        else:
            z = np.zeros((x.shape[0] + y.shape[0],) + x.shape[1:-1] +
                         (x.shape[-1] + y.shape[-1],), 'c16')
            z[:x.shape[0], ..., :x.shape[-1]] = x
            z[x.shape[0]:, ..., x.shape[-1]:] = y
            out.append(z)
    return out


def length(ctx, top=200):
    n = ctx.pick([60, 61, 64, 80, 100, 128, 150, 200])
    return min(n, top)


def long_linear(ctx):
    n = length(ctx)
    a, b = unit(ctx, n, (2,)), unit(ctx, n, (2,))
    la, lb = dn.tens(a), dn.tens(b)
    w = ctx.pick([2., -1., .5j, 1 - 2j])
    s = 2 + abs(w)
    compare(ctx, a + b, concat(la, lb), 'sum (long)', s)
    compare(ctx, a - w * b, concat(la, lb, 1, -w), 'difference (long)', s)
    compare(ctx, mp.sumup([a, b], [w, 1]), concat(la, lb, w, 1),
            'weighted sum (long)', s)
    compare(ctx, a / w, concat(la, [0 * t for t in la], 1 / w),
            'division (long)', s)
    c = a.copy()
    c *= w
    compare(ctx, c, concat(la, [0 * t for t in la], w), 'in place (long)', s)
    expect_scalar(ctx, mp.inner(a, b), dn.inner(la, lb), 'inner (long)', 1.)
    expect_scalar(ctx, mp.norm(a - b), np.sqrt(abs(
        2 - 2 * dn.inner(la, lb).real)), 'norm of difference (long)', 1.,
        1e-6)
    ctx.signature('linear', n, a.ranks[0], b.ranks[0], w)
    ctx.nontrivial = True


def long_structure(ctx):
    n = length(ctx)
    a = unit(ctx, n, (2, 2))
    la = dn.tens(a)
    compare(ctx, a.T, [t.transpose(0, 2, 1, 3) for t in la], 'T (long)', 1.)
    compare(ctx, a.adj(), [t.transpose(0, 2, 1, 3).conj() for t in la],
            'adj (long)', 1.)
    compare(ctx, a.reverse(), [t.transpose(3, 1, 2, 0) for t in la[::-1]],
            'reverse (long)', 1.)
    compare(ctx, a.ravel(), [t.reshape(t.shape[0], 4, t.shape[-1])
                             for t in la], 'ravel (long)', 1.)
    if n % 2 == 0:
        g = a.group_sites(2)
        compare(ctx, g, [np.tensordot(x, y, 1) for x, y in
                         zip(la[::2], la[1::2])], 'group_sites (long)', 1.)
        compare(ctx, g.split_sites(2), la, 'split_sites (long)', 1.)
    compare(ctx, a.pad_ranks(6), la, 'pad_ranks (long)', 1.)
    pos = ctx.randint(0, n - 2)
    l, r = a.split(pos)
    ctx.check(len(l) == pos + 1 and len(r) == n - pos - 1, 'split (long)')
    v = a.vleg2leg(pos).leg2vleg(pos)
    compare(ctx, v, la, 'vleg2leg, leg2vleg (long)', 1.)
    k = ctx.randint(0, n)
    e = np.eye(2) / np.sqrt(2)
    b = mp.inject(a, k, 2, e)
    ref = [e.reshape(1, 2, 2, 1)]
    rk = ((1,) + tuple(a.ranks) + (1,))[k]
    ins = np.einsum('ij,pq->ipqj', np.eye(rk), e)
    compare(ctx, b, la[:k] + [ins, ins] + la[k:], 'inject (long)', 1.)
    ix = tuple(ctx.randint(0, 1) for _ in range(n))
    compare(ctx, a.get(ix), [t[:, i] for i, t in zip(ix, la)],
            'get (long)', 1.)
    c = mp.chain([a, a])
    compare(ctx, c, la + la, 'chain (long)', 1.)
    ctx.signature('structure', n, a.ranks[0], pos, k)
    ctx.nontrivial = True


def long_entries(ctx):
    n = length(ctx)
    a = unit(ctx, n, (2,))
    la = dn.tens(a)
    # entries are exponentially small: rescaled
    scale = 2. ** (n / 2)
    ix = tuple(ctx.randint(0, 1) for _ in range(n))
    for k in (0, n - 1, ctx.randint(0, n - 1)):
        b = a.get(ix[:k] + (slice(None),) + ix[k + 1:])
        own = [t[:, i] if j != k else t for j, (i, t) in
               enumerate(zip(ix, la))]
        got, ref = np.ones((1, 1)), np.ones((1, 1))
        for x, y in zip(dn.tens(b), own):
            got = np.tensordot(got, x * 2 ** .5, 1)
            ref = np.tensordot(ref, y * 2 ** .5, 1)
        ctx.close(got, ref, 'entries (long)', scale=1e-300, rtol=1e-6)
    got = a.get(ix).to_array() * scale
    ref = np.ones((1, 1))
    for i, t in zip(ix, la):
        ref = ref.dot(t[:, i] * 2 ** .5)
    ctx.close(got, ref[0, 0], 'entry (long)', scale=1e-300, rtol=1e-6)
    it = a.axis_iter()
    for k in range(3):
        x = next(it)
        own = [t[:, (k >> (n - 1 - j)) & 1] for j, t in enumerate(la)]
        got = x.to_array() * scale
        ref = np.ones((1, 1))
        for t in own:
            ref = ref.dot(t * 2 ** .5)
        ctx.close(got, ref[0, 0], 'axis_iter (long)', scale=1e-300, rtol=1e-6)
    # a few legs left
    keep = sorted(set(ctx.randint(0, n - 1) for _ in range(3)))
    b = a.get([slice(None) if j in keep else i for j, i in enumerate(ix)])
    b = mp.prune(b, True)
    ctx.check(len(b) == len(keep), 'prune (long)', got=len(b))
    got = dn.dense(dn.tens(b)) * scale
    ref = np.ones((1, 1))
    for j, (i, t) in enumerate(zip(ix, la)):
        ref = np.tensordot(ref, (t if j in keep else t[:, i]) * 2 ** .5, 1)
    ctx.close(got, ref.reshape(got.shape), 'prune (long)', scale=1e-300,
              rtol=1e-6)
    s = a.sum([() if j in keep else (0,) for j in range(n)])
    s = mp.prune(s, True)
    got = dn.dense(dn.tens(s)) / scale
    ref = np.ones((1, 1))
    for j, t in enumerate(la):
        t = t / 2 ** .5
        ref = np.tensordot(ref, t if j in keep else t.sum(1), 1)
    ctx.close(got, ref.reshape(got.shape), 'sum (long)', scale=1e-300,
              rtol=1e-6)
    ctx.signature('entries', n, a.ranks[0], ix[:10], keep)
    ctx.nontrivial = True
    ctx.event('long_compared')


def long_products(ctx):
    n = length(ctx, 128)
    v, w = unit(ctx, n, (2,), 2), unit(ctx, n, (2,), 2)
    o = unit(ctx, n, (2, 2), 2)
    lv, lw, lo = dn.tens(v), dn.tens(w), dn.tens(o)
    ref = dn.sandwich(lw, lo, lv)
    # |o v| <= |o| = 1
    expect_scalar(ctx, mp.sandwich(o, v, w), ref, 'sandwich (long)', 1.)
    expect_scalar(ctx, mp.inner(w, mp.dot(o, v)), ref, 'dot (long)', 1.)
    own = [np.einsum('apqb,cqd->acpbd', x, y) for x, y in zip(lo, lv)]
    own = [t.reshape(t.shape[0] * t.shape[1], 2, -1) for t in own]
    compare(ctx, mp.dot(o, v), own, 'dot (long)', max(dn.norm(own), 1e-300))
    k = ctx.randint(0, n - 3)
    part = unit(ctx, 3, (2, 2), 2)
    own = list(lv)
    for i, x in enumerate(dn.tens(part)):
        t = np.einsum('apqb,cqd->acpbd', x, lv[k + i])
        own[k + i] = t.reshape(t.shape[0] * t.shape[1], 2, -1)
    compare(ctx, mp.partialdot(part, v, k), own, 'partialdot (long)',
            dn.norm(own))
    # trace of o^dagger o
    oo = mp.dot(o.adj(), o)
    expect_scalar(ctx, mp.trace(oo), 1., 'trace (long)', 1.)
    pt = mp.partialtrace(oo, [(0, 1)] * k + [None] * 2 +
                         [(0, 1)] * (n - k - 2))
    ctx.check(len(pt) == 2, 'partialtrace (long): sites', got=len(pt))
    m = dn.global_matrix(dn.tens(pt))
    ctx.check(abs(np.trace(m) - 1) < 1e-7 and
              np.linalg.eigvalsh((m + m.conj().T) / 2).min() > -1e-7 and
              abs(m - m.conj().T).max() < 1e-7, 'partialtrace (long)')
    u = mp.MPArray.from_kron([np.ones(2) / 2] * n)
    s = mp.dot(u, v, axes=(0, 0)).to_array()
    expect_scalar(ctx, (v / 2. ** n).sum(), s, 'sum (long)', abs(s), 1e-6)
    ctx.signature('products', n, k)
    ctx.nontrivial = True


def long_gauge(ctx):
    n = length(ctx)
    a = unit(ctx, n, (2,))
    la = dn.tens(a)
    left = ctx.randint(0, n - 1)
    right = ctx.randint(left + 1, n)
    a.canonicalize(left, right)
    compare(ctx, a, la, 'canonicalize (long)', 1.)
    ctx.check(dn.claim_defect(a) is None and a.canonical_form[0] >= left and
              a.canonical_form[1] <= right, 'form (long)')
    expect_scalar(ctx, mp.norm(a), 1., 'norm (long)', 1.)
    b = mp.sumup([a, a, a])
    c, ov = b.compression('svd', rank=max(a.ranks))
    compare(ctx, c, concat(la, [0 * t for t in la], 3), 'compression (long)',
            3.)
    expect_scalar(ctx, ov, 9., 'overlap (long)', 9., 1e-6)
    d, ov = b.compression('svd', relerr=1e-6)
    compare(ctx, d, concat(la, [0 * t for t in la], 3),
            'compression to accuracy (long)', 3.)
    start = mp.MPArray(along(ctx, la))
    e, ov = a.compression('var', num_sweeps=1, startmpa=start,
                          var_sites=ctx.randint(1, 2))
    d2 = abs(1 + dn.inner(dn.tens(e), dn.tens(e)).real -
             2 * dn.inner(dn.tens(e), la).real)
    ctx.check(d2 < 1e-3, 'variational compression (long)', defect=d2)
    k = 0
    for sv in a.singularvals():
        k += 1
        ctx.check(abs((np.asarray(sv) ** 2).sum() - 1) < 1e-6,
                  'singular values (long)', cut=k)
    ctx.check(k == n - 1, 'number of bipartitions (long)')
    compare(ctx, a, la, 'array after singular values (long)', 1.)
    ctx.signature('gauge', n, left, right)
    ctx.nontrivial = True


def long_local_sum(ctx):
    n = length(ctx)
    w = ctx.randint(1, 3)
    terms = []
    for _ in range(n - w + 1):
        h = gen.rand_array(ctx, (2,) * (2 * w), 'c16')
        terms.append(mp.MPArray.from_array(h / np.linalg.norm(h), 2))
    h = mp.local_sum(terms)
    ctx.check(len(h) == n, 'local_sum (long): sites')
    top = w * max([1] + [r for t in terms for r in t.ranks]) + 1
    ctx.check(max(h.ranks) <= top, 'local_sum (long): rank', got=max(h.ranks))
    v = unit(ctx, n, (2,), 2)
    lv = dn.tens(v)
    # expectation values of all terms by environments
    left = [np.ones((1, 1))]
    for t in lv:
        left.append(np.einsum('ab,apc,bpd->cd', left[-1], t.conj(), t))
    right = [np.ones((1, 1))]
    for t in lv[::-1]:
        right.append(np.einsum('cd,apc,bpd->ab', right[-1], t.conj(), t))
    right = right[::-1]
    ref = 0
    for i, t in enumerate(terms):
        x = left[i][:, None, :]
        for y, o in zip(lv[i:i + w], dn.tens(t)):
            x = np.einsum('aob,apc,opqr,bqd->crd', x, y.conj(), o, y)
        ref += np.einsum('aob,ab->', x, right[i + w])
    expect_scalar(ctx, mp.sandwich(h, v), ref, 'local_sum (long)', n ** .5,
                  1e-6)
    k = ctx.randint(0, n - w)
    e = mp.embed_slice(n, slice(k, k + w), terms[k])
    x = left[k][:, None, :]
    for y, o in zip(lv[k:k + w], dn.tens(terms[k])):
        x = np.einsum('aob,apc,opqr,bqd->crd', x, y.conj(), o, y)
    expect_scalar(ctx, mp.sandwich(e, v),
                  np.einsum('aob,ab->', x, right[k + w]),
                  'embed_slice (long)', 1., 1e-6)
    ctx.signature('local_sum', n, w, k)
    ctx.nontrivial = True


def reduced(lts, i, w, env=True):
    """Reduced density matrix of sites i..i+w of a vector"""
    x = np.ones((1, 1))
    for t in lts[:i]:
        x = np.einsum('ab,apc,bpd->cd', x, t, t.conj())
    y = np.ones((1, 1))
    for t in lts[i + w:][::-1]:
        y = np.einsum('cd,apc,bpd->ab', y, t, t.conj())
    z = x.reshape(1, 1, *x.shape)
    for t in lts[i:i + w]:
        z = np.einsum('PQab,apc,bqd->PpQqcd', z, t, t.conj())
        s = z.shape
        z = z.reshape(s[0] * s[1], s[2] * s[3], s[4], s[5])
    return np.einsum('PQab,ab->PQ', z, y)


def long_reductions(ctx):
    n = length(ctx, 100)
    v = unit(ctx, n, (2,), 2)
    w = ctx.randint(1, 2)
    starts = sorted(set(ctx.randint(0, n - w) for _ in range(4)))
    refs = [reduced(dn.tens(v), i, w) for i in starts]
    own = lambda m: dn.global_matrix(dn.tens(m))
    for name, it in (
            ('reductions_mps_as_pmps', (mpsmpo.pmps_to_mpo(x) for x in
                                        mpsmpo.reductions_mps_as_pmps(
                                            v, w, starts))),
            ('reductions_mps_as_mpo', mpsmpo.reductions_mps_as_mpo(
                v, w, starts)),
            ('reductions_mpo', mpsmpo.reductions_mpo(
                mpsmpo.mps_to_mpo(v), w, starts))):
        got = list(it)
        ctx.check(len(got) == len(starts), name + ' (long): number')
        for g, r in zip(got, refs):
            ctx.close(own(g), r, name + ' (long)', scale=1., rtol=1e-6)
    full = list(mpsmpo.reductions_mps_as_mpo(v, 1))
    ctx.check(len(full) == n, 'reductions (long): number')
    i = ctx.randint(0, n - 1)
    ctx.close(own(full[i]), reduced(dn.tens(v), i, 1), 'reductions (long)',
              scale=1., rtol=1e-6)
    ctx.signature('reductions', n, w, starts)
    ctx.nontrivial = True


def long_measurement(ctx):
    n = length(ctx, 80)
    v = unit(ctx, n, (2,), 2)
    local = pg.local_povm(ctx, 2, ctx.randint(2, 4))
    m = mpp.MPPovm(np.array(list(local))[None, ..., None]
                   for _ in range(n))
    pmf = m.pmf(v, 'mps')
    ctx.check(len(pmf) == n, 'pmf (long)')
    lp = dn.tens(pmf)
    els = np.array(list(local))
    ref = []
    for t in dn.tens(v):
        x = np.einsum('ijk,akb,cjd->acibd', els, t, t.conj())
        s = x.shape
        ref.append(x.reshape(s[0] * s[1], s[2], s[3] * s[4]))
    # sums over all but a few outcomes
    fixed = dict((ctx.randint(0, n - 1), ctx.randint(0, len(els) - 1))
                 for _ in range(3))
    p, q = np.ones((1, 1)), np.ones((1, 1))
    for i in range(n):
        pick = (lambda t: t[:, fixed[i]]) if i in fixed else \
            (lambda t: t.sum(1))
        p, q = np.dot(p, pick(lp[i])), np.dot(q, pick(ref[i]))
    ctx.check(abs(p[0, 0] - q[0, 0]) <= 1e-7, 'marginal probability (long)',
              got=p[0, 0], expected=q[0, 0])
    expect_scalar(ctx, pmf.sum(), 1., 'sum of probabilities (long)', 1.,
                  1e-6)
    # measurement on few sites of a long chain
    start = ctx.randint(0, n - 2)
    two = mpp.MPPovm.from_local_povm(mpp.pauli_povm(2), 2)
    e = two.embed(n, start, 2)
    got = e.pmf_as_array(v, 'mps')
    rho = reduced(dn.tens(v), start, 2).reshape((2,) * 4)
    pl = np.array(list(mpp.pauli_povm(2)))
    want = np.einsum('iac,jbd,cdab->ij', pl, pl, rho)
    ctx.close(got, want.real, 'probabilities on few sites (long)', scale=1.,
              rtol=1e-6)
    ctx.signature('measurement', n, start, sorted(fixed))
    ctx.nontrivial = True


def long_files(ctx):
    n = length(ctx)
    a = unit(ctx, n, (2,))
    a.canonicalize(left=ctx.randint(0, n - 1))
    tmp = tempfile.mkdtemp(prefix='mpnum_c33_')
    try:
        path = os.path.join(tmp, 'a.h5')
        a.dump(path)
        b = mp.MPArray.load(path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c = pickle.loads(pickle.dumps(a))
    for x in (b, c):
        ctx.check(len(x) == n and x.canonical_form == a.canonical_form and
                  all(np.array_equal(s, t) for s, t in
                      zip(dn.tens(x), dn.tens(a))), 'stored array (long)')
    ctx.signature('files', n, a.canonical_form)
    ctx.nontrivial = True


def long_factories(ctx):
    n = length(ctx)
    r = ctx.randint(2, 5)
    rs = np.random.RandomState(ctx.randint(0, 10 ** 6))
    v = mp.random_mps(n, 2, r, randstate=rs)
    ctx.check(abs(dn.norm(dn.tens(v)) - 1) < 1e-6 and max(v.ranks) <= r,
              'random_mps (long)')
    # (the trace of a long random state is badly conditioned)
    rho = mp.random_mpdo(min(n, 60), 2, r, randstate=rs)
    tr = np.ones((1, 1))
    for t in dn.tens(rho):
        tr = np.dot(tr, np.einsum('appb->ab', t))
    ctx.check(abs(tr[0, 0] - 1) < 1e-2, 'random_mpdo (long): trace',
              got=tr[0, 0])
    # (longer ones leave the range of floating point numbers before they are
    # normalised)
    o = mp.random_mpo(min(n, 90), 2, r, randstate=rs, hermitian=True,
                      normalized=True)
    ctx.check(abs(dn.norm(dn.tens(o)) - 1) < 1e-6, 'random_mpo (long)')
    a = mp.random_mpa(n, 2, r, randstate=rs, normalized=True)
    ctx.check(abs(dn.norm(dn.tens(a)) - 1) < 1e-6, 'random_mpa (long)')
    e = mp.eye(n, 2)
    lo = dn.tens(e)
    ctx.check(all(t.shape == (1, 2, 2, 1) for t in lo) and abs(np.prod(
        [np.trace(t[0, ..., 0]) / 2 for t in lo]) - 1) < 1e-9, 'eye (long)')
    ctx.check(abs(mp.sandwich(e, v) - 1) < 1e-6, 'eye (long)')
    z = mp.zero(n, 2, r)
    ctx.check(dn.norm(dn.tens(z)) == 0, 'zero (long)')
    own = [min(2 ** k, 2 ** (n - k)) for k in range(1, n)]
    ctx.check(list(mp.full_rank([(2,)] * n)) == own, 'full_rank (long)')
    ham = mp.random_local_ham(n, 2, 2, randstate=rs)
    ctx.check(len(ham) == n and max(ham.ranks) <= 2 * 4 + 1,
              'random_local_ham (long)', ranks=max(ham.ranks))
    ctx.signature('factories', n, r)
    ctx.nontrivial = True


def long_special(ctx):
    n = length(ctx)
    k = ctx.randint(2, 5)
    vs = [mp.MPArray(p) for p in probes(ctx, ((2,),) * n, k)]
    w = list(ctx.rng.randn(k))
    res = special.sumup(vs, k, weights=w)
    ref = concat(dn.tens(vs[0]), dn.tens(vs[1]), w[0], w[1])
    for x, c in zip(vs[2:], w[2:]):
        ref = concat(ref, dn.tens(x), 1, c)
    compare(ctx, res, ref, 'special.sumup (long)', np.linalg.norm(w))
    a = unit(ctx, n, (2,))
    p = along(ctx, [t[:1, :, :1] / np.linalg.norm(t[:1, :, :1])
                    for t in dn.tens(a)])
    # overlaps decrease exponentially: relative accuracy
    got = special.inner_prod_mps(mp.MPArray(p), a)
    ref = dn.inner(p, dn.tens(a))
    ctx.check(abs(got - ref) <= 1e-8 * abs(ref) + 1e-300,
              'inner_prod_mps (long)', got=got, expected=ref)
    ctx.signature('special', n, k)
    ctx.nontrivial = True


def long_eig(ctx):
    """Eigensolver on chains without dense representation"""
    n = ctx.randint(24, 36)
    gamma = ctx.rng.rand()
    terms = list(physics.cXY_local_terms(n, gamma))
    h = mp.local_sum(terms[:-1])
    start = unit(ctx, n, (2,), 4, 'c16').pad_ranks(4)
    start.canonicalize(right=1)
    start /= mp.norm(start)
    lh = dn.tens(h)
    e0 = dn.sandwich(dn.tens(start), lh, dn.tens(start)).real
    import scipy.sparse.linalg as spl

    def eigs(op, v0):
        return spl.eigsh(op, k=1, which='SA', v0=v0, tol=1e-6)

    val, vec = linalg.eig(h, num_sweeps=1, startvec=start, eigs=eigs)
    lv = dn.tens(vec)
    nv = dn.norm(lv)
    e = dn.sandwich(lv, lh, lv).real / nv ** 2
    ctx.check(abs(nv - 1) < 1e-4, 'eig (long): norm', got=nv)
    ctx.check(e <= e0 + 1e-6, 'eig (long): energy above start vector', e=e,
              start=e0)
    # ground state energies are extensive: bounds from two-site terms
    low = (n - 1) * -.5 * max(1, abs(gamma)) - 1e-6
    ctx.check(low <= e and low <= val, 'eig (long): energy below the bound',
              e=e, val=val, low=low)
    ctx.check(abs(val - e) <= 1e-2 * abs(e), 'eig (long): value', val=val,
              e=e)
    ctx.signature('eig', n, round(gamma, 3))
    ctx.nontrivial = True
    ctx.event('long_eig')


def long_cyclic(ctx):
    n = length(ctx, 100)
    gamma = ctx.rng.rand()
    terms = list(physics.cXY_local_terms(n, gamma))
    h = physics.mpo_cH(terms)
    ctx.check(len(h) == n and max(h.ranks) <= 12, 'mpo_cH (long)',
              ranks=max(h.ranks))
    # product states: sum over the ring
    fs = [gen.rand_array(ctx, (2,), 'c16') for _ in range(n)]
    fs = [f / np.linalg.norm(f) for f in fs]
    v = mp.MPArray.from_kron(fs)
    x = np.array([[0, 1], [1, 0]])
    y = np.array([[0, -1j], [1j, 0]])
    ev = lambda o, f: np.vdot(f, o.dot(f)).real
    ref = sum((1 + gamma) / 4 * ev(x, fs[i]) * ev(x, fs[(i + 1) % n]) +
              (1 - gamma) / 4 * ev(y, fs[i]) * ev(y, fs[(i + 1) % n])
              for i in range(n))
    expect_scalar(ctx, mp.sandwich(h, v), ref, 'mpo_cH (long)', n ** .5, 1e-7)
    ctx.signature('cyclic', n, round(gamma, 3))
    ctx.nontrivial = True


SCENARIOS = [(f.__name__, bounded(f)) for f in (
    ranks, long_linear, long_structure, long_entries, long_products, ranks, long_gauge,
    long_local_sum, long_reductions, ranks, long_measurement, long_files,
    long_factories, long_special, long_cyclic)] + [
        ('long_eig', bounded(long_eig))]
REQUIRED = ['rank_bounds', 'long_compared', 'long_eig']
