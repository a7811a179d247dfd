# encoding: utf-8
"""C22: estimates of outcome probabilities from samples"""
from __future__ import division

import numpy as np

import mpnum.povm as mpp

from .. import dense as dn, gen, povmgen as pg

PROP = 'C22'
RULE = ('random samples (including every value up to 254 and empty outcome '
        'classes) for random measurements; pairs of measurements related by '
        'permuted, rescaled, refined, dropped or additional outcomes; '
        'reference: explicit counting and pairwise comparison of all dense '
        'elements. Non-trivial: several outcome sites or related pairs')
QUICK, THOROUGH = 1400, 14000
ASSUMPTIONS = ['estimates from another measurement are only requested where '
               'each of its outcomes corresponds to an outcome of the '
               'measurement (otherwise the library refuses)']


def rand_samples(ctx, dims, n):
    s = np.zeros((n, len(dims)), np.uint8)
    for k, d in enumerate(dims):
        s[:, k] = ctx.rng.randint(0, d, size=n)
    if ctx.chance(.2):
        s[:, :] = s[:1, :]
    return s


def count(s, dims):
    c = np.zeros(dims, int)
    for row in s:
        c[tuple(int(x) for x in row)] += 1
    return c


def nan_close(ctx, got, ref, msg, **kw):
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    ctx.check(got.shape == ref.shape, msg + ': shape', got=got.shape,
              expected=ref.shape)
    ctx.check((np.isnan(got) == np.isnan(ref)).all(),
              msg + ': which values are available', **kw)
    ok = ~np.isnan(ref)
    if ok.any():
        ctx.close(got[ok], ref[ok], msg, scale=1., **kw)


def big_povm(ctx):
    n = ctx.randint(1, 3)
    top = [255, 40, 12][n - 1]
    dims = [ctx.pick([1, 2, top, ctx.randint(2, top)]) for _ in range(n)]
    if max(dims) == 1:
        dims[ctx.randint(0, n - 1)] = ctx.randint(2, top)
    w = [ctx.rng.rand(m) + .1 for m in dims]
    return mpp.MPPovm.from_kron([
        (x / x.sum())[:, None, None] * np.eye(2) for x in w])


def packing(ctx):
    povm = big_povm(ctx)
    dims = povm.nsoutdims
    n = ctx.randint(1, 60)
    if ctx.chance(.06):
        n = ctx.pick([257, 1000, 33000, 70000])
        ctx.event('many_samples')
    s = rand_samples(ctx, dims, n)
    if n > 60 and ctx.chance(.5):       # nearly all outcomes are the same
        s[ctx.rng.rand(n) < .98] = s[0]
    s[ctx.randint(0, n - 1)] = [d - 1 for d in dims]
    keep = s.copy()
    p = povm.pack_samples(s)
    ref = [int(sum(int(x) * int(np.prod(dims[k + 1:], dtype=int))
                   for k, x in enumerate(row))) for row in s]
    ctx.check(p.shape == (n,) and list(map(int, p)) == ref, 'pack_samples',
              dims=dims)
    u = povm.unpack_samples(p)
    ctx.check(u.dtype == np.uint8 and u.shape == s.shape and (u == s).all(),
              'unpack_samples', dims=dims)
    ctx.check((s == keep).all(), 'pack_samples: samples changed')
    for dtype in (np.uint8, np.int16, np.uint32, np.int64):
        if max(ref) <= np.iinfo(dtype).max:
            q = povm.pack_samples(s, dtype=dtype)
            ctx.check(q.dtype == dtype and list(map(int, q)) == ref,
                      'pack_samples with dtype', dtype=dtype)
            ctx.check((povm.unpack_samples(q) == s).all(),
                      'unpack_samples with dtype', dtype=dtype)
        else:
            ctx.raises(AssertionError,
                       lambda: povm.pack_samples(s, dtype=dtype),
                       'pack_samples: overflow')
    other = np.arange(int(np.prod(dims)))
    if len(other) < 5000:
        ctx.check((povm.pack_samples(povm.unpack_samples(other)) ==
                   other).all(), 'pack is not inverse to unpack')
        ctx.event('bijections')
    # estimates
    c = count(s, dims)
    for arg in (s, p):
        e = povm.est_pmf(arg)
        ctx.check(e.shape == tuple(dims), 'est_pmf: shape')
        ctx.close(e, c / n, 'est_pmf', rtol=1e-12)
        e = povm.est_pmf(arg, normalize=False)
        ctx.check(e.dtype.kind in 'iu' and (e == c).all(), 'est_pmf: counts')
    bad = s.copy()
    k = ctx.randint(0, len(dims) - 1)
    if dims[k] < 255:
        bad[0, k] = dims[k]
        ctx.raises(Exception, lambda: povm.pack_samples(bad), 'bad outcome')
    ctx.raises(Exception, lambda: povm.pack_samples(
        np.concatenate([s, s[:, :1]], axis=1)), 'too many columns')
    # lists
    other = big_povm(ctx)
    if len(other) != len(povm):
        other = povm
    s2 = rand_samples(ctx, other.nsoutdims, ctx.randint(1, 9))
    lst = mpp.MPPovmList([povm, other])
    pk = list(lst.pack_samples([s, s2]))
    ctx.check(len(pk) == 2 and (pk[0] == p).all() and
              (pk[1] == other.pack_samples(s2)).all(), 'list pack_samples')
    un = list(lst.unpack_samples(pk))
    ctx.check((un[0] == s).all() and (un[1] == s2).all(),
              'list unpack_samples')
    es = list(lst.est_pmf([s, s2]))
    ctx.check(len(es) == 2, 'list est_pmf')
    ctx.close(es[0], c / n, 'list est_pmf')
    ctx.close(es[1], count(s2, other.nsoutdims) / len(s2), 'list est_pmf')
    es = list(lst.est_pmf([s, s2], normalized=False))
    ctx.check((es[0] == c).all(), 'list est_pmf: counts')
    ctx.event('packing')
    ctx.nontrivial = len(dims) > 1
    ctx.signature(povm.outdims, n)


# -- related measurements ---------------------------------------------------

def related_local(ctx, d, how):
    """(elements of self, elements of other) at one site

    `full`: each outcome of other corresponds to one outcome of self and the
    corresponding elements of self sum to a multiple of the identity"""
    a = pg.local_povm(ctx, d, ctx.randint(2, 3))
    if how == 'same':
        return a, a.copy()
    if how == 'permuted':
        return a, a[ctx.rng.permutation(len(a))]
    if how == 'part':                      # self contains other, rescaled
        b = pg.local_povm(ctx, d, 2)
        w = ctx.rng.uniform(.2, .8)
        if ctx.chance(.3):
            w = 10. ** ctx.randint(-4, -1)
            ctx.event('small_elements')
        own = np.concatenate([w * a, (1 - w) * b] if ctx.chance(.5) else
                             [(1 - w) * b, w * a])
        if ctx.chance(.5):
            own = own[ctx.rng.permutation(len(own))]
        return own, a
    if how == 'split':                     # self splits elements of other
        w = ctx.rng.uniform(.2, .8)
        return np.concatenate([[w * a[0], (1 - w) * a[0]], a[1:]]), a
    if how == 'unmeasured':                # self does not measure this site
        return np.eye(d)[None], a
    if how == 'nothing':
        return np.eye(d)[None], np.eye(d)[None]
    if how == 'missing':                   # other does not measure this site
        return a, np.eye(d)[None]
    if how == 'different':
        return a, pg.local_povm(ctx, d, ctx.randint(2, 3))
    if how == 'wider':                     # other contains self, rescaled
        b, c = related_local(ctx, d, 'part')
        return c, b
    raise AssertionError(how)


FULL = ['same', 'permuted', 'part', 'split', 'unmeasured', 'nothing']
ANY = FULL + ['missing', 'different', 'wider']


def pair(ctx, kinds, n=None):
    n = n or ctx.randint(1, 3)
    d = 2 if n == 3 else ctx.randint(2, 3)
    while True:
        how = [ctx.pick(kinds) for _ in range(n)]
        if not all(h in ('unmeasured', 'nothing') for h in how):
            break
    loc = [related_local(ctx, d, h) for h in how]
    ctx.signature(how, d)
    for h in how:
        ctx.event('pair:' + h)
    own = [x[None, ..., None] for x, _ in loc]
    other = [y[None, ..., None] for _, y in loc]
    if all(len(y) == 1 for _, y in loc):
        return pair(ctx, kinds, n)
    return mpp.MPPovm(own), mpp.MPPovm(other), how


def pair_correlated(ctx):
    n = ctx.randint(2, 3)
    lts = pg.povm_tensors(ctx, [2] * n, [2] * n if ctx.chance(.5) else
                          pg.rand_outdims(ctx, n, top=3),
                          ctx.pick(['mixture', 'adaptive']))
    other = [t[:, ctx.rng.permutation(t.shape[1])] for t in lts]
    if ctx.chance(.5):
        other = pg.gauge(ctx, other)
    ctx.event('pair:correlated')
    ctx.signature('correlated', dn.shape_of(lts), dn.ranks_of(lts))
    return mpp.MPPovm(lts), mpp.MPPovm(other), None


def reference_match(ctx, own, other, eps=1e-10):
    """All pairs of dense elements"""
    a, b = dn.tens(own), dn.tens(other)
    b = [t if x.shape[1] > 1 else t.sum(1, keepdims=True)
         for x, t in zip(a, b)]
    n = len(a)
    ea, eb = pg.elements(a), pg.elements(b)
    da = [d for d in ea.shape[:n] if d > 1]
    db = [d for d in eb.shape[:n] if d > 1]
    ea = ea.reshape((int(np.prod(da, dtype=int)), -1))
    eb = eb.reshape((int(np.prod(db, dtype=int)), -1))
    na = np.linalg.norm(ea, axis=1)
    nb = np.linalg.norm(eb, axis=1)
    c = abs(ea.conj().dot(eb.T)) ** 2 / np.outer(na, nb) ** 2
    near = abs(1 - c)
    amb = (near > eps / 30) & (near < eps * 30)
    if amb.any():
        return None
    match = near <= eps
    pre = np.where(match, na[:, None] / nb[None, :], np.nan)
    shape = tuple(da) + tuple(db)
    return match.reshape(shape), pre.reshape(shape), len(da)


def matching(ctx):
    own, other, how = pair_correlated(ctx) if ctx.chance(.3) else \
        pair(ctx, ANY)
    ref = reference_match(ctx, own, other)
    if ref is None:
        return
    m, p = own.match_elems(other)
    ctx.check(m.shape == ref[0].shape and m.dtype.kind == 'b',
              'match_elems: shape', got=m.shape, expected=ref[0].shape)
    ctx.check((m == ref[0]).all(), 'match_elems: matches', how=how)
    nan_close(ctx, p, ref[1], 'match_elems: prefactors', how=how)
    # no two dependent elements claimed
    k = ref[2]
    dup_self = (ref[0].sum(tuple(range(k))) > 1).any()
    dup_other = (ref[0].sum(tuple(range(k, ref[0].ndim))) > 1).any()
    for name, dup in (('self', dup_self), ('other', dup_other)):
        arg = (name,)
        if dup:
            ctx.raises(AssertionError,
                       lambda: own.match_elems(other, exclude_dup=arg),
                       'duplicate elements in ' + name)
            ctx.event('duplicates')
        else:
            own.match_elems(other, exclude_dup=arg)
    ctx.event('matches', int(ref[0].sum()))
    ctx.event('matching')
    ctx.nontrivial = True


def no_identity(ctx):
    """Outcomes which do not add up to a multiple of one are refused"""
    d = ctx.randint(2, 3)
    m = ctx.randint(3, 4)
    a = pg.local_povm(ctx, d, m)
    keep = ctx.randint(1, m - 2)
    b = np.concatenate((a[:keep], a[keep:].sum(0, keepdims=True)))
    part = a[:keep].sum(0)
    c = abs(np.trace(part)) / (np.linalg.norm(part) * np.sqrt(d))
    if c > 1 - 1e-4:
        return
    b = b[ctx.rng.permutation(len(b))]
    n, at = ctx.randint(1, 3), 0
    own = [np.eye(2).reshape((1, 1, 2, 2, 1)) for _ in range(n)]
    other = list(own)
    at = ctx.randint(0, n - 1)
    own[at], other[at] = a[None, ..., None], b[None, ..., None]
    own, other = mpp.MPPovm(own), mpp.MPPovm(other)
    ref = reference_match(ctx, own, other)
    if ref is None or ref[0].sum() != keep:
        return
    samples = ctx.rng.randint(0, len(b), size=(ctx.randint(2, 20), 1))
    ctx.signature('no_identity', n, at, d, m, keep)
    ctx.raises(AssertionError, lambda: own.est_pmf_from(
        other, samples.astype(np.uint8)),
        'estimate from outcomes which do not sum to a multiple of one')
    ctx.event('no_identity')


def tolerance(ctx):
    """Nearly equal elements match according to eps"""
    a = pg.local_povm(ctx, 2, 2)
    off = 10. ** ctx.randint(-5, -2)
    b = a.copy()
    h = gen.rand_hermitian(ctx, 2)
    val, vec = np.linalg.eigh(h)
    u = vec.dot(np.diag(np.exp(1j * off * val))).dot(vec.conj().T)
    b = np.array([u.dot(x).dot(u.conj().T) for x in b])
    own, other = (mpp.MPPovm.from_kron([x]) for x in (a, b))
    for eps in 10. ** np.arange(-11, -1):
        ref = reference_match(ctx, own, other, eps)
        if ref is None:
            continue
        m, p = own.match_elems(other, eps=eps)
        ctx.check((m == ref[0]).all(), 'match_elems: threshold', eps=eps)
        ctx.event('thresholds')
    bad = mpp.MPPovm.from_kron([pg.local_povm(ctx, 3, 2)])
    ctx.raises(ValueError, lambda: own.match_elems(bad),
               'match_elems: different Hilbert space')
    ctx.signature(off)


def estimate_reference(ref, own, other, s):
    match, pre, k = ref
    shape = match.shape[:k]
    sup = []
    pos = 0
    for a, b in zip(own.outdims, other.outdims):
        if b > 1:
            if a > 1:
                sup.append(pos)
            pos += 1
    est = np.full(shape, np.nan)
    used = 0
    for row in s:
        out = tuple(int(row[j]) for j in sup)
        if match[(slice(None),) * k + out].any():
            used += 1
    for ix in np.argwhere(match):
        i, j = tuple(ix[:k]), tuple(ix[k:])
        c = sum(tuple(int(row[q]) for q in sup) == j for row in s)
        if np.isnan(est[i]):
            est[i] = 0
        est[i] += pre[tuple(ix)] * c / len(s)
    return est, used


def est_from(ctx):
    own, other, how = pair_correlated(ctx) if ctx.chance(.2) else \
        pair(ctx, FULL if ctx.chance(.85) else FULL + ['missing'])
    ref = reference_match(ctx, own, other)
    if ref is None:
        return
    s = rand_samples(ctx, other.nsoutdims, ctx.randint(1, 40)
                     if ctx.chance(.95) else ctx.pick([300, 2000, 40000]))
    keep = s.copy()
    est, used = own.est_pmf_from(other, s)
    want, n = estimate_reference(ref, own, other, s)
    nan_close(ctx, est, want, 'est_pmf_from', how=how)
    ctx.check(int(used) == n, 'est_pmf_from: samples used', got=int(used),
              expected=n, how=how)
    ctx.check((s == keep).all(), 'est_pmf_from: samples changed')
    ctx.event('est_from')
    if np.isnan(want).all():
        ctx.event('est_from_nothing')
    ctx.nontrivial = True


def combined(ctx, own, lst, samples):
    """Sample-weighted average of the estimates from several measurements;
    None if some of them can be used for a part of their samples only"""
    acc = np.zeros(own.nsoutdims)
    tot = np.zeros(own.nsoutdims, int)
    for m, s in zip(lst, samples):
        ref = reference_match(ctx, own, m)
        if ref is None:
            return None
        e, u = estimate_reference(ref, own, m, s)
        match, k = ref[0], ref[2]
        by_other = match.any(tuple(range(k)))
        if by_other.any() and not by_other.all():
            return None
        if (match.sum(tuple(range(k, match.ndim))) > 1).any():
            return None
        ok = ~np.isnan(e)
        acc[ok] += u * e[ok]
        tot[ok] += u
    return np.where(tot > 0, acc / np.where(tot > 0, tot, 1), np.nan), tot


def est_from_list(ctx):
    n = ctx.randint(1, 2)
    d = ctx.randint(2, 3) if n == 1 else 2
    count_ = ctx.randint(2, 3)
    # self contains parts of all others
    others, own = [[] for _ in range(count_)], []
    for _ in range(n):
        parts = [pg.local_povm(ctx, d, 2) for _ in range(count_)]
        w = ctx.rng.rand(count_ + 1) + .2
        w /= w.sum()
        extra = pg.local_povm(ctx, d, 2)
        own.append(np.concatenate([x * y for x, y in zip(w, parts)] +
                                  [w[-1] * extra])[None, ..., None])
        for o, p in zip(others, parts):
            o.append(p[None, ..., None])
    lst = [mpp.MPPovm(o) for o in others]
    if ctx.chance(.4):
        lst.append(mpp.MPPovm([t[:, ::-1] for t in others[0]]))
        ctx.event('overlapping')
    if ctx.chance(.3):
        lst.append(mpp.MPPovm.from_kron([pg.local_povm(ctx, d, 2)
                                         for _ in range(n)]))
    own = mpp.MPPovm(own)
    samples = [rand_samples(ctx, m.nsoutdims, ctx.randint(1, 25))
               for m in lst]
    full = combined(ctx, own, lst, samples)
    if full is None:
        return
    want, tot = full
    got, used = own.est_pmf_from_mpps(mpp.MPPovmList(lst), samples)
    nan_close(ctx, got, want, 'est_pmf_from_mpps')
    ctx.check(used.shape == tot.shape and (used == tot).all(),
              'est_pmf_from_mpps: samples used')
    # list of measurements
    second = lst[0]
    full = combined(ctx, second, lst, samples)
    if full is not None and len(lst) == count_:
        two = mpp.MPPovmList([own, second])
        res = list(two.est_pmf_from(mpp.MPPovmList(lst), samples))
        ctx.check(len(res) == 2, 'MPPovmList.est_pmf_from: number')
        for r, (e, u) in zip(res, [(want, tot), full]):
            nan_close(ctx, r[0], e, 'MPPovmList.est_pmf_from')
            ctx.check((r[1] == u).all(), 'MPPovmList.est_pmf_from: used')
        ctx.event('list_from')
    ctx.event('est_from_list')
    ctx.nontrivial = True
    ctx.signature(n, d, [m.shape for m in lst], [len(s) for s in samples])


def pauli(ctx):
    """Documented use: Pauli POVM from samples of X, Y and Z on more sites"""
    d = ctx.pick([2, 2, 3])
    n = ctx.randint(1, 3) if d == 2 else ctx.randint(1, 2)
    lst = mpp.pauli_mpps(n, d)
    w = ctx.randint(1, n)
    start = ctx.randint(0, n - w)
    own = mpp.pauli_mpp(w, d).embed(n, start, d)
    samples = [rand_samples(ctx, m.nsoutdims, ctx.randint(1, 8))
               for m in lst.mpps]
    got, used = own.est_pmf_from_mpps(lst, samples)
    parts = len(mpp.pauli_parts(d))
    size = [len(p) for p in mpp.pauli_parts(d)]
    off = np.cumsum([0] + size)
    acc = np.zeros(own.nsoutdims)
    tot = np.zeros(own.nsoutdims, int)
    for pos, s in enumerate(samples):
        which = np.unravel_index(pos, (parts,) * n)[start:start + w]
        block = tuple(slice(off[k], off[k + 1]) for k in which)
        c = count(s[:, start:start + w], [size[k] for k in which])
        acc[block] += c
        tot[block] += len(s)
    nan_close(ctx, got, acc / tot / parts ** w, 'Pauli estimate')
    ctx.check((used == tot).all(), 'Pauli estimate: samples used')
    ctx.event('pauli')
    ctx.nontrivial = True
    ctx.signature(d, n, w, start)


SCENARIOS = [('packing', packing), ('matching', matching),
             ('matching2', matching), ('est_from', est_from),
             ('est_from2', est_from), ('est_from_list', est_from_list),
             ('tolerance', tolerance), ('pauli', pauli),
             ('no_identity', no_identity)]
REQUIRED = ['packing', 'bijections', 'matching', 'matches', 'duplicates',
            'est_from', 'est_from_nothing', 'est_from_list', 'list_from',
            'overlapping', 'thresholds', 'small_elements', 'pauli', 'refusals',
            'no_identity',
            'pair:correlated'] + ['pair:' + k for k in ANY]
