# encoding: utf-8
"""Measurements and states for the monitors of mpnum.povm"""
from __future__ import division

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from . import dense as dn, gen


def haar(ctx, d):
    z = gen.rand_array(ctx, (d, d), 'c16')
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / abs(np.diag(r)))


def local_povm(ctx, d, m=None, real=None):
    """Random valid local measurement, shape (outcomes, d, d)"""
    kind = ctx.randint(0, 3)
    if m is None:
        m = ctx.randint(2, 4)
    if m == 1:
        return np.eye(d)[None]
    if kind == 0 and m == d:
        u = np.eye(d) if ctx.chance(.4) else haar(ctx, d)
        return np.array([np.outer(u[:, k], u[:, k].conj()) for k in range(d)])
    if kind == 1 and d > 1:
        e = {2: mpp.z_povm, 3: mpp.z_povm}.get(m, None)
        if e is not None and m == d:
            return np.array(list(e(d)))
    g = gen.rand_array(ctx, (m, d, d), 'f8' if ctx.chance(.3) else 'c16')
    g = np.array([np.dot(x, x.conj().T) for x in g])
    val, vec = np.linalg.eigh(g.sum(0))
    root = np.dot(vec / np.sqrt(val), vec.conj().T)
    return np.array([root.dot(x).dot(root) for x in g])


def gauge(ctx, lts):
    """Change the virtual bases"""
    lts = list(lts)
    for k in range(len(lts) - 1):
        r = lts[k].shape[-1]
        g = haar(ctx, r) * (1 + ctx.rng.rand(r))
        lts[k] = np.tensordot(lts[k], g, axes=(-1, 0))
        lts[k + 1] = np.tensordot(np.linalg.inv(g), lts[k + 1], axes=(1, 0))
    return lts


def povm_tensors(ctx, hdims, outdims=None, kind=None):
    """Local tensors of a valid multi-site measurement"""
    n = len(hdims)
    if outdims is None:
        outdims = rand_outdims(ctx, n)
    kind = kind or ctx.pick(['product', 'product', 'mixture', 'adaptive'])
    if n == 1:
        kind = 'product'
    if kind == 'product':
        lts = [local_povm(ctx, d, m)[None, ..., None]
               for d, m in zip(hdims, outdims)]
    elif kind == 'mixture':
        r = ctx.randint(2, 3)
        w = ctx.rng.rand(r) + .1
        w /= w.sum()
        loc = [[local_povm(ctx, d, m) for d, m in zip(hdims, outdims)]
               for _ in range(r)]
        lts = []
        for k in range(n):
            t = np.zeros((1 if k == 0 else r, outdims[k], hdims[k], hdims[k],
                          1 if k == n - 1 else r), complex)
            for j in range(r):
                t[0 if k == 0 else j, ..., 0 if k == n - 1 else j] += \
                    loc[j][k] * (w[j] if k == 0 else 1)
            lts.append(t)
    else:
        # measurement on each site depends on the previous outcome
        lts = []
        for k in range(n):
            left = 1 if k == 0 else outdims[k - 1]
            right = 1 if k == n - 1 else outdims[k]
            t = np.zeros((left, outdims[k], hdims[k], hdims[k], right),
                         complex)
            for j in range(left):
                e = local_povm(ctx, hdims[k], outdims[k])
                for i in range(outdims[k]):
                    t[j, i, :, :, 0 if k == n - 1 else i] = e[i]
            lts.append(t)
    if kind != 'product' and ctx.chance(.5):
        lts = gauge(ctx, lts)
    ctx.event('povm:' + kind)
    return lts


def rand_outdims(ctx, n, singles=.2, top=4):
    while True:
        out = [1 if ctx.chance(singles) else ctx.randint(2, top)
               for _ in range(n)]
        if max(out) > 1 and np.prod(out) <= 300:
            if top == 4 and ctx.chance(.05):
                # one site with many outcomes
                k = ctx.randint(0, n - 1)
                most = 300 // (np.prod(out) // out[k])
                out[k] = ctx.randint(2, min(40, most))
                ctx.event('many_outcomes')
            return out


def rand_hdims(ctx, n, top=3, limit=40):
    while True:
        out = [1 if ctx.chance(.05) else ctx.randint(2, top)
               for _ in range(n)]
        if np.prod(out) <= limit:
            if top == 3 and ctx.chance(.05):
                k = ctx.randint(0, n - 1)
                most = limit // (np.prod(out) // out[k])
                out[k] = ctx.randint(2, max(2, min(8, most)))
                ctx.event('large_hdim')
            return out


def rand_povm(ctx, n=None, hdims=None, outdims=None, kind=None):
    if hdims is None:
        hdims = rand_hdims(ctx, n or ctx.pick([1, 2, 2, 3, 3, 4]))
    lts = povm_tensors(ctx, hdims, outdims, kind)
    return mpp.MPPovm(lts)


def elements(lts):
    """Dense elements: shape outdims + hdims (rows) + hdims (columns)"""
    n = len(lts)
    arr = dn.dense(lts)
    order = [3 * k for k in range(n)] + [3 * k + 1 for k in range(n)] + \
        [3 * k + 2 for k in range(n)]
    return arr.transpose(order)


def pmf_dense(lts, rho):
    """Tr(rho M) for all outcomes; rho: axes (rows..., columns...)"""
    n = len(lts)
    el = elements(lts)
    outd = el.shape[:n]
    dim = int(np.prod(el.shape[n:2 * n]))
    m = el.reshape((-1, dim, dim))
    p = np.einsum('kab,ba->k', m, rho.reshape((dim, dim)))
    return p.reshape(outd)


STATES = ('mps', 'pmps', 'mpdo')


def rand_state(ctx, hdims, mode=None, sparse=None):
    """(MPArray, mode, dense rho with axes rows..., columns...)"""
    mode = mode or ctx.pick(STATES)
    n = len(hdims)
    if sparse is None:
        sparse = ctx.chance(.15)
    if mode == 'mps':
        shape = [(d,) for d in hdims]
    else:
        shape = [(d, ctx.randint(1, 2)) for d in hdims]
    if sparse:
        # superposition of two basis states
        r = min(2, n)
        lts = []
        pick = [[ctx.randint(0, d - 1) for d in hdims] for _ in range(2)]
        for k in range(n):
            t = np.zeros((1 if k == 0 else 2,) + tuple(shape[k]) +
                         (1 if k == n - 1 else 2,), complex)
            for j in range(2):
                ix = (pick[j][k],) + (() if mode == 'mps' else (0,))
                t[(0 if k == 0 else j,) + ix + (0 if k == n - 1 else j,)] += \
                    (1 if j == 0 else .7j)
            lts.append(t)
        if n == 1 and pick[0] == pick[1]:
            lts = [abs(lts[0]).astype(complex)]
        ctx.event('state:sparse')
        if not dn.norm(lts) > 1e-3:
            return rand_state(ctx, hdims, mode, False)
    else:
        lts = gen.rand_tensors(ctx, shape, None, ctx.pick(['f8', 'c16', 'c16']
                                                          ), wild=False,
                               max_rank=3)
    nrm = dn.norm(lts)
    lts = [np.array(t) for t in lts]
    lts[0] = lts[0] / nrm
    if mode == 'mps':
        v = dn.dense(lts)
        rho = np.multiply.outer(v, v.conj())
    else:
        a = dn.dense(lts).transpose([2 * k for k in range(n)] +
                                    [2 * k + 1 for k in range(n)])
        ax = list(range(n, 2 * n))
        rho = np.tensordot(a, a.conj(), axes=(ax, ax))
    if mode == 'mpdo':
        lts = convert(lts, mode)
    ctx.event('mode:' + mode)
    state = gen.build(ctx, lts)
    return state, mode, rho


def convert(lts, mode):
    """State in the given mode from local tensors (left, system, ancilla,
    right)"""
    if mode == 'mps':
        return [t[:, :, 0] for t in lts]
    if mode == 'pmps':
        return lts
    out = []
    for t in lts:
        x = np.tensordot(t, t.conj(), axes=(2, 2))
        # l, s, r, l', s', r' -> l l', s, s', r r'
        x = x.transpose((0, 3, 1, 4, 2, 5))
        out.append(x.reshape((t.shape[0] ** 2, t.shape[1], t.shape[1],
                              t.shape[-1] ** 2)))
    return out


def outcome_probability(povm_lts, state_lts, outcome):
    """Probability of one outcome; state_lts: (left, system, ancilla, right)"""
    e = np.ones((1, 1, 1))
    for m, t, k in zip(povm_lts, state_lts, outcome):
        # M[row, column] rho[column, row]
        e = np.einsum('abc,amnx,bniy,cmiz->xyz', e, m[:, k], t, t.conj(),
                      optimize=True)
    return e.item().real


def auto_ok(mode):
    return mode != 'pmps'


def squeeze_out(p, outdims):
    return p.reshape([d for d in outdims if d > 1])


def dist_test(ctx, samples, pmf, msg, limit=1e-11):
    """Joint outcome frequencies are compatible with pmf (exact tails)"""
    from scipy import stats
    n = len(samples)
    dims = pmf.shape
    idx = np.ravel_multi_index(np.asarray(samples).T.astype(int), dims)
    counts = np.bincount(idx, minlength=pmf.size)
    p = pmf.ravel()
    ctx.check(counts[p < 1e-12].sum() == 0,
              msg + ': outcome with probability zero')
    for k in range(pmf.size):
        q = min(1., max(0., p[k]))
        lo = stats.binom.cdf(counts[k], n, q)
        hi = stats.binom.sf(counts[k] - 1, n, q)
        ctx.check(min(lo, hi) > limit, msg + ': frequencies do not fit',
                  outcome=np.unravel_index(k, dims), count=int(counts[k]),
                  samples=n, probability=q)
    big = p * n >= 8
    if big.sum() > 1:
        chi = ((counts[big] - n * p[big]) ** 2 / (n * p[big])).sum()
        dof = int(big.sum())
        ctx.check(stats.chi2.sf(chi, dof) > limit * 1e-3,
                  msg + ': chi square', chi=chi, dof=dof, samples=n)
    ctx.event('distribution_tests')
