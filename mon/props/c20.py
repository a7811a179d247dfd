# encoding: utf-8
"""C20: probabilities of matrix product measurements"""
from __future__ import division

import itertools as it

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from .. import dense as dn, gen, povmgen as pg
from ..util import expect_mpa

PROP = 'C20'
RULE = ('random measurements (product, correlated, adaptive; sites without '
        'outcomes; unequal dimensions) on random vectors, purifications and '
        'operators; probabilities compared with Tr(rho M) of the dense '
        'elements; non-trivial: entangled state or correlated measurement')
QUICK, THOROUGH = 7200, 57600
ASSUMPTIONS = ['measurements have at least one site with several outcomes '
               'where dense probabilities are requested']


def dense_state(state):
    return dn.dense(dn.tens(state))


def state_kept(ctx, state, before, msg):
    ctx.close(dense_state(state), before, msg + ': state changed',
              scale=1e-2 * dn.bound(dn.tens(state)))
    ctx.event('state_kept')


def modes_for(ctx, mode):
    return ctx.pick([mode, 'auto']) if mode != 'pmps' else 'pmps'


def reduce_rho(rho, n, start, stop):
    """Partial trace of a dense state with axes rows..., columns..."""
    keep = list(range(start, stop))
    rows, cols = list(range(n)), list(range(n, 2 * n))
    for k in range(n):
        if k not in keep:
            cols[k] = rows[k]
    return np.einsum(rho, rows + cols,
                     [rows[k] for k in keep] + [cols[k] for k in keep])


def pmf(ctx):
    povm = pg.rand_povm(ctx)
    lts = dn.tens(povm)
    state, mode, rho = pg.rand_state(ctx, povm.hdims)
    before = dense_state(state)
    want = pg.pmf_dense(lts, rho)
    ctx.signature(povm.shape, povm.ranks, mode, gen.describe(state))
    ctx.nontrivial = len(povm) > 1 and (max(state.ranks) > 1 or
                                        max(povm.ranks) > 1)
    m = modes_for(ctx, mode)
    args = () if m == 'auto' and ctx.chance(.5) else (m,)
    res = povm.pmf(state, *args)
    expect_mpa(ctx, res, want, [(d,) for d in povm.outdims], 'pmf', scale=1.)
    state_kept(ctx, state, before, 'pmf')
    impls = [None, 'auto', 'default']
    if mode == 'pmps':
        impls += ['pmps-ltr', 'pmps-symm']
    kw = {}
    if ctx.chance(.3):
        kw['eps'] = 10. ** ctx.randint(-9, -3)
    m = modes_for(ctx, mode)
    for impl in impls:
        if impl is not None:
            kw['impl'] = impl
        got = povm.pmf_as_array(state, m, **kw)
        ctx.check(isinstance(got, np.ndarray) and got.dtype.kind == 'f' and
                  got.shape == tuple(povm.nsoutdims),
                  'pmf_as_array: type or shape', shape=np.shape(got))
        ctx.close(got, pg.squeeze_out(want, povm.outdims),
                  'pmf_as_array', scale=1., impl=impl, mode=m)
        ctx.check((got >= 0).all() and abs(got.sum() - 1) < 1e-9,
                  'pmf_as_array: not a distribution', impl=impl)
        ctx.event('impl:{}'.format(impl))
    state_kept(ctx, state, before, 'pmf_as_array')
    for a, b in zip(lts, povm.lt):
        ctx.check(np.array_equal(a, b), 'pmf: measurement changed')
    # as linear map on a raveled operator
    pm = povm.probability_map
    if mode == 'mpdo':
        res = mp.dot(pm, state.ravel())
        expect_mpa(ctx, res, want, [(d,) for d in povm.outdims],
                   'probability_map', scale=1.)
    ref = [t.transpose((0, 1, 3, 2, 4)).reshape(
        (t.shape[0], t.shape[1], -1, t.shape[-1])) for t in lts]
    expect_mpa(ctx, pm, dn.dense(ref), dn.shape_of(ref), 'probability_map')
    ctx.event('pmf')


def windows(ctx):
    n = ctx.randint(2, 5)
    d = 2 if n > 3 else ctx.randint(2, 3)
    w = ctx.randint(1, n)
    povm = pg.rand_povm(ctx, hdims=[d] * w)
    state, mode, rho = pg.rand_state(ctx, [d] * n)
    before = dense_state(state)
    m = modes_for(ctx, mode)
    ctx.signature(povm.shape, n, mode, gen.describe(state))
    ctx.nontrivial = w < n and max(state.ranks) > 1
    want = [pg.pmf_dense(dn.tens(povm), reduce_rho(rho, n, k, k + w))
            for k in range(n - w + 1)]
    if ctx.chance(.3):
        it_ = povm.expectations(state, m)
        expect_mpa(ctx, next(it_), want[0], [(x,) for x in povm.outdims],
                   'expectations', scale=1.)
        state_kept(ctx, state, before, 'expectations stopped early')
    got = list(povm.expectations(state, m))
    ctx.check(len(got) == len(want), 'expectations: number of positions',
              got=len(got), expected=len(want))
    for k, (g, r) in enumerate(zip(got, want)):
        expect_mpa(ctx, g, r, [(x,) for x in povm.outdims],
                   'expectations at {}'.format(k), scale=1.)
    state_kept(ctx, state, before, 'expectations')
    # dense versions
    asarray = ctx.chance(.5)
    kw = {} if ctx.chance(.3) else {'width': w} if ctx.chance(.5) else None
    if kw is None:
        starts = [ctx.randint(0, n - w) for _ in range(ctx.randint(1, 4))]
        kw = {'startsites': starts, 'width': w} if ctx.chance(.5) else \
            {'startsites': starts, 'stopsites': [s + w for s in starts]}
    else:
        starts = list(range(n - w + 1))
    got = povm.block_pmfs_as_array(state, mode, asarray=asarray, **kw)
    if asarray:
        ctx.check(isinstance(got, np.ndarray), 'block_pmfs_as_array: type')
    got = list(got)
    ctx.check(len(got) == len(starts), 'block_pmfs_as_array: number')
    for s, g in zip(starts, got):
        ctx.close(g, pg.squeeze_out(want[s], povm.outdims),
                  'block_pmfs_as_array', scale=1., start=s)
    state_kept(ctx, state, before, 'block_pmfs_as_array')
    ctx.event('windows')
    # list with one measurement per position
    povms = [pg.rand_povm(ctx, hdims=[d] * w, outdims=povm.outdims)
             for _ in starts]
    lst = mpp.MPPovmList(povms)
    got = list(lst.block_pmfs_as_array(state, mode, asarray=asarray, **kw))
    ctx.check(len(got) == len(starts), 'list block_pmfs_as_array: number')
    for s, p, g in zip(starts, povms, got):
        ref = pg.pmf_dense(dn.tens(p), reduce_rho(rho, n, s, s + w))
        ctx.close(g, pg.squeeze_out(ref, p.outdims),
                  'MPPovmList.block_pmfs_as_array', scale=1., start=s)
    if not kw and len(starts) > 1:
        bad = mpp.MPPovmList(povms[:-1])
        ctx.raises(Exception, lambda: list(bad.block_pmfs_as_array(
            state, mode)), 'MPPovmList.block_pmfs_as_array: wrong length')
    ctx.event('list_windows')


def lists(ctx):
    n = ctx.randint(1, 3)
    hdims = pg.rand_hdims(ctx, n, limit=20)
    same = pg.rand_outdims(ctx, n, top=3) if ctx.chance(.3) else None
    povms = [pg.rand_povm(ctx, hdims=hdims, outdims=same)
             for _ in range(ctx.randint(1, 4))]
    lst = mpp.MPPovmList(iter(povms) if ctx.chance(.5) else povms)
    ctx.check(len(lst.mpps) == len(povms), 'MPPovmList: length')
    states = [pg.rand_state(ctx, hdims, mode)
              for mode in [ctx.pick(pg.STATES)] * len(povms)]
    mode = states[0][1]
    m = modes_for(ctx, mode)
    state, _, rho = states[0]
    before = dense_state(state)
    want = [pg.pmf_dense(dn.tens(p), rho) for p in povms]
    got = list(lst.pmf(state, m))
    ctx.check(len(got) == len(want), 'MPPovmList.pmf: number')
    for p, g, r in zip(povms, got, want):
        expect_mpa(ctx, g, r, [(x,) for x in p.outdims], 'MPPovmList.pmf',
                   scale=1.)
    got = list(lst.pmf_as_array(state, m))
    ctx.check(len(got) == len(want), 'MPPovmList.pmf_as_array: number')
    for p, g, r in zip(povms, got, want):
        ctx.close(g, pg.squeeze_out(r, p.outdims), 'MPPovmList.pmf_as_array',
                  scale=1.)
    kw = {}
    if len({p.nsoutdims for p in povms}) == 1 and ctx.chance(.7):
        kw['asarray'] = True
    got = lst.pmfs_as_array([s[0] for s in states], mode, **kw)
    if kw:
        ctx.check(isinstance(got, np.ndarray) and got.shape ==
                  (len(povms),) + povms[0].nsoutdims,
                  'MPPovmList.pmfs_as_array: array expected')
        ctx.event('list_asarray')
    got = list(got)
    ctx.check(len(got) == len(povms), 'MPPovmList.pmfs_as_array: number')
    for p, g, s in zip(povms, got, states):
        r = pg.pmf_dense(dn.tens(p), s[2])
        ctx.close(g, pg.squeeze_out(r, p.outdims), 'MPPovmList.pmfs_as_array',
                  scale=1.)
    asarray = ctx.chance(.5)
    got = povms[0].pmfs_as_array([s[0] for s in states], mode,
                                 asarray=asarray)
    if asarray:
        ctx.check(isinstance(got, np.ndarray), 'pmfs_as_array: type')
    got = list(got)
    ctx.check(len(got) == len(states), 'pmfs_as_array: number')
    for g, s in zip(got, states):
        r = pg.pmf_dense(dn.tens(povms[0]), s[2])
        ctx.close(g, pg.squeeze_out(r, povms[0].outdims), 'pmfs_as_array',
                  scale=1.)
    state_kept(ctx, state, before, 'MPPovmList')
    ctx.event('lists')
    ctx.nontrivial = n > 1
    ctx.signature([p.shape for p in povms], mode, gen.describe(state))


def attributes(ctx):
    povm = pg.rand_povm(ctx)
    lts = dn.tens(povm)
    out = tuple(t.shape[1] for t in lts)
    ctx.check(tuple(povm.outdims) == out, 'outdims')
    ctx.check(tuple(povm.nsoutdims) == tuple(d for d in out if d > 1),
              'nsoutdims')
    ctx.check(tuple(povm.nsoutpos) == tuple(k for k, d in enumerate(out)
                                            if d > 1), 'nsoutpos')
    ctx.check(tuple(povm.hdims) == tuple(t.shape[2] for t in lts), 'hdims')
    n = len(povm)
    arr = dn.dense(lts)
    els = list(povm.elements)
    ctx.check(len(els) == int(np.prod(out)), 'elements: number')
    for ix, e in zip(it.product(*map(range, out)), els):
        sel = tuple(x for i in ix for x in (i, slice(None), slice(None)))
        expect_mpa(ctx, mp.MPArray(e.lt) if not isinstance(e, mp.MPArray)
                   else e, arr[sel], [(t.shape[2], t.shape[3]) for t in lts],
                   'elements', scale=1.)
    ctx.event('elements')
    ctx.nontrivial = n > 1
    ctx.signature(povm.shape, povm.ranks)
    # what is no measurement array is refused
    bad = [np.array(t) for t in lts]
    k = ctx.randint(0, n - 1)
    bad[k] = np.concatenate([bad[k]] * 2, axis=3)
    ctx.raises(Exception, lambda: mpp.MPPovm(bad), 'non-square elements')
    bad[k] = lts[k][:, :, 0]
    ctx.raises(Exception, lambda: mpp.MPPovm(bad), 'missing leg')
    bad[k] = np.concatenate([lts[k]] * 256, axis=1)
    ctx.raises(Exception, lambda: mpp.MPPovm(bad), 'too many outcomes')


def embedding(ctx):
    n = ctx.randint(1, 3)
    hdims = pg.rand_hdims(ctx, n, limit=8)
    left, right = ctx.randint(0, 2), ctx.randint(0, 2)
    if n + left + right > 5:
        left = 0
    povm = pg.rand_povm(ctx, hdims=hdims)
    total = n + left + right
    if ctx.chance(.5):
        dims = pg.rand_hdims(ctx, left, 3) + list(hdims) + \
            pg.rand_hdims(ctx, right, 3) if left and right else \
            ([2] * left + list(hdims) + [2] * right)
        arg = dims if ctx.chance(.5) else tuple(dims)
    else:
        dims = [2] * left + list(hdims) + [2] * right
        arg = 2
    emb = povm.embed(total, left, arg)
    ctx.check(isinstance(emb, mpp.MPPovm), 'embed: type')
    lts = [np.eye(d).reshape((1, 1, d, d, 1)) for d in dims]
    lts[left:left + n] = dn.tens(povm)
    expect_mpa(ctx, emb, dn.dense(lts), dn.shape_of(lts), 'embed', scale=1.)
    ctx.event('embed')
    if np.prod(dims) <= 60:
        state, mode, rho = pg.rand_state(ctx, dims)
        got = emb.pmf_as_array(state, mode)
        red = reduce_rho(rho, total, left, left + n)
        ctx.close(got, pg.squeeze_out(pg.pmf_dense(dn.tens(povm), red),
                                      povm.outdims),
                  'embed: probabilities of the reduced state', scale=1.)
        ctx.event('embed_pmf')
    ctx.raises(Exception, lambda: povm.embed(total, right + left + 1, 2),
               'embedding beyond the chain')
    # eye
    e = mpp.MPPovm.eye(dims if ctx.chance(.5) else iter(dims))
    lts = [np.eye(d).reshape((1, 1, d, d, 1)) for d in dims]
    expect_mpa(ctx, e, dn.dense(lts), dn.shape_of(lts), 'eye')
    ctx.check(isinstance(e, mpp.MPPovm), 'eye: type')
    ctx.nontrivial = total > 1
    ctx.signature(povm.shape, dims, left)


def blocks(ctx):
    w = ctx.randint(1, 3)
    d = ctx.randint(2, 3) if w < 3 else 2
    n = w + ctx.randint(0, 2)
    povms = [pg.rand_povm(ctx, hdims=[d] * w) for _ in range(2)]
    got = povms[0].block(n)
    ctx.check(isinstance(got, mpp.MPPovmList), 'block: type')
    ctx.check(len(got.mpps) == n - w + 1, 'block: number')

    def ref(povm, start):
        lts = [np.eye(d).reshape((1, 1, d, d, 1))] * n
        lts[start:start + w] = dn.tens(povm)
        return lts

    for k, g in enumerate(got.mpps):
        r = ref(povms[0], k)
        expect_mpa(ctx, g, dn.dense(r), dn.shape_of(r), 'block', scale=1.)
    got = mpp.MPPovmList(povms).block(n)
    ctx.check(len(got.mpps) == 2 * (n - w + 1), 'list block: number')
    for k, g in enumerate(got.mpps):
        r = ref(povms[k % 2], k // 2)
        expect_mpa(ctx, g, dn.dense(r), dn.shape_of(r), 'MPPovmList.block',
                   scale=1.)
    if w > 1:
        bad = pg.rand_povm(ctx, hdims=[d] * (w - 1) + [d + 1])
        ctx.raises(Exception, lambda: bad.block(n), 'block: unequal dims')
    ctx.event('block')
    # repetition
    kind = 'product' if ctx.chance(.6) else 'mixture'
    m = ctx.randint(1, 3)
    hd = pg.rand_hdims(ctx, m, 3, 6)
    p = pg.rand_povm(ctx, hdims=hd, outdims=[ctx.randint(1, 2) for _ in hd],
                     kind=kind)
    total = ctx.randint(1, 5) if m < 3 else ctx.randint(1, 4)
    lts = [dn.tens(p)[k % m] for k in range(total)]
    part = total % m
    if part and p.ranks[part - 1] > 1:
        ctx.raises(Exception, lambda: p.repeat(total),
                   'repeat: cut of a correlated measurement')
    elif np.prod([t.size for t in dn.tens(p)]) < 1e9 and \
            np.prod([t.shape[1] * t.shape[2] ** 2 for t in lts]) < 2e5:
        g = p.repeat(total)
        ctx.check(isinstance(g, mpp.MPPovm), 'repeat: type')
        expect_mpa(ctx, g, dn.dense(lts), dn.shape_of(lts), 'repeat',
                   scale=1.)
        g = mpp.MPPovmList([p, p]).repeat(total)
        ctx.check(len(g.mpps) == 2, 'list repeat')
        for x in g.mpps:
            expect_mpa(ctx, x, dn.dense(lts), dn.shape_of(lts),
                       'MPPovmList.repeat', scale=1.)
        ctx.event('repeat')
    ctx.nontrivial = True
    ctx.signature(w, n, d, [q.shape for q in povms], p.shape, total)


def pauli(ctx):
    d = ctx.randint(2, 4)
    n = ctx.randint(1, 3) if d == 2 else ctx.randint(1, 2)
    loc = np.array(list(mpp.pauli_povm(d)))
    g = mpp.pauli_mpp(n, d)
    ctx.check(isinstance(g, mpp.MPPovm), 'pauli_mpp: type')
    lts = [loc[None, ..., None]] * n
    if n * d <= 6:
        expect_mpa(ctx, g, dn.dense(lts), dn.shape_of(lts), 'pauli_mpp',
                   scale=1.)
    else:
        for t, r in zip(g.lt, lts):
            ctx.close(t, r, 'pauli_mpp')
    parts = [np.array(list(p))[None, ..., None] for p in mpp.pauli_parts(d)]
    lst = mpp.pauli_mpps(n, d)
    want = list(it.product(parts, repeat=n))
    ctx.check(len(lst.mpps) == len(want), 'pauli_mpps: number')
    for m, r in zip(lst.mpps, want):
        if n * d <= 6:
            expect_mpa(ctx, m, dn.dense(list(r)), dn.shape_of(list(r)),
                       'pauli_mpps', scale=1.)
        else:
            for t, x in zip(m.lt, r):
                ctx.close(t, x, 'pauli_mpps', scale=1.)
    el = pg.local_povm(ctx, d, ctx.randint(2, 4))
    src = el if ctx.chance(.5) else mpp.POVM(el)
    width = ctx.randint(1, 3) if d == 2 else ctx.randint(1, 2)
    g = mpp.MPPovm.from_local_povm(src, width)
    lts = [el[None, ..., None]] * width
    expect_mpa(ctx, g, dn.dense(lts), dn.shape_of(lts), 'from_local_povm',
               scale=1.)
    ctx.event('pauli')
    ctx.nontrivial = n > 1
    ctx.signature(n, d, width)


def refusals(ctx):
    povm = pg.rand_povm(ctx, n=ctx.randint(1, 3))
    state, mode, rho = pg.rand_state(ctx, povm.hdims)
    want = pg.squeeze_out(pg.pmf_dense(dn.tens(povm), rho), povm.outdims)
    off = 10. ** ctx.randint(-7, -1) * ctx.pick([-1, 1])
    scaled = state * (np.sqrt(1 + off) if mode != 'mpdo' else 1 + off)
    impl = ctx.pick(['auto', 'default'] + (['pmps-ltr', 'pmps-symm'] if
                                           mode == 'pmps' else []))
    eps = abs(off) / 10
    ctx.raises(AssertionError,
               lambda: povm.pmf_as_array(scaled, mode, eps, impl),
               'unnormalized state', off=off, eps=eps, impl=impl)
    if abs(off) > 2e-10:
        # also with the default tolerance, and for lists
        lst = mpp.MPPovmList([povm])
        for what in (lambda: povm.pmf_as_array(scaled, mode),
                     lambda: list(povm.pmfs_as_array([scaled], mode)),
                     lambda: list(lst.pmf_as_array(scaled, mode)),
                     lambda: list(lst.pmfs_as_array([scaled], mode)),
                     lambda: list(povm.block_pmfs_as_array(scaled, mode)),
                     lambda: list(lst.block_pmfs_as_array(scaled, mode))):
            ctx.raises(AssertionError, what, 'unnormalized state, default '
                       'tolerance', off=off)
    got = povm.pmf_as_array(scaled, mode, eps=abs(off) * 2, impl=impl)
    ctx.close(got, want, 'pmf_as_array: renormalization', scale=1.)
    ctx.event('renormalized')
    # plain pmf does not renormalize
    expect_mpa(ctx, povm.pmf(scaled, mode),
               pg.pmf_dense(dn.tens(povm), rho) * (1 + off),
               [(x,) for x in povm.outdims], 'pmf of scaled state', scale=1.)
    ctx.raises(ValueError, lambda: povm.pmf_as_array(state, 'nomode'),
               'unknown mode')
    ctx.raises(ValueError, lambda: povm.pmf_as_array(state, mode,
                                                     impl='none'),
               'unknown implementation')
    longer = mp.chain([state, state])
    ctx.raises(Exception, lambda: povm.pmf(longer, mode), 'length mismatch')
    ctx.raises(Exception, lambda: povm.pmf_as_array(longer, mode),
               'length mismatch')
    if len(povm) > 1:
        one = pg.rand_state(ctx, povm.hdims[:-1], mode)[0]
        ctx.raises(Exception, lambda: list(povm.expectations(one, mode)),
                   'state shorter than the measurement')
    ctx.nontrivial = True
    ctx.signature(povm.shape, mode, impl, off)


def long_chain(ctx):
    n = ctx.randint(8, 24)
    d = 2
    povm = pg.rand_povm(ctx, hdims=[d] * n, outdims=[2] * n, kind='product') \
        if ctx.chance(.5) else None
    if povm is None:
        loc = [pg.local_povm(ctx, d, 1 if ctx.chance(.3) else 2)
               for _ in range(n)]
        povm = mpp.MPPovm.from_kron(loc)
    shape = [(d,)] * n
    lts = gen.rand_tensors(ctx, shape, None, 'c16', wild=False, max_rank=3)
    nrm = dn.norm(lts)
    lts = [t / nrm ** (1. / n) for t in lts]
    state = gen.build(ctx, lts)
    mode = ctx.pick(['mps', 'pmps', 'mpdo', 'auto'])
    if mode == 'pmps':
        arg = mp.MPArray([t[:, :, None] for t in lts])
    elif mode == 'mpdo':
        out = []
        for t in lts:
            x = np.einsum('asb,ctd->acstbd', t, t.conj())
            out.append(x.reshape((t.shape[0] ** 2, d, d, t.shape[-1] ** 2)))
        arg = mp.MPArray(out)
    else:
        arg = state
    pmf = povm.pmf(arg, mode)
    pl = dn.tens(povm)
    for _ in range(4):
        ix = [ctx.randint(0, m - 1) for m in povm.outdims]
        v = np.ones((1, 1))
        for t, e, i in zip(lts, pl, ix):
            v = np.einsum('ab,asc,btd,ts->cd', v, t, t.conj(), e[0, i, :, :, 0])
        got = dn.entry(dn.tens(pmf), [(i,) for i in ix])
        ref = v[0, 0]
        ctx.check(abs(got - ref) <= 1e-7 * max(abs(ref), 1e-9),
                  'pmf of a long chain', got=got, expected=ref, sites=n)
    tot = np.ones((1, 1))
    for t in dn.tens(pmf):
        tot = tot.dot(t.sum(1))
    ctx.close(tot[0, 0], 1., 'pmf of a long chain: normalization')
    ctx.event('long')
    ctx.nontrivial = True
    ctx.signature(n, mode, povm.shape, gen.describe(state))


SCENARIOS = [('pmf', pmf), ('windows', windows), ('lists', lists),
             ('attributes', attributes), ('embedding', embedding),
             ('blocks', blocks), ('pauli', pauli), ('refusals', refusals),
             ('long_chain', long_chain)]
REQUIRED = ['pmf', 'windows', 'list_windows', 'lists', 'elements', 'embed',
            'embed_pmf', 'block', 'repeat', 'pauli', 'renormalized', 'long',
            'refusals', 'state_kept', 'impl:pmps-ltr', 'impl:pmps-symm',
            'impl:default', 'mode:mps', 'mode:pmps', 'mode:mpdo',
            'povm:mixture', 'povm:adaptive', 'state:sparse', 'list_asarray']
