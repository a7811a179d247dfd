# encoding: utf-8
"""C23: linear functions of outcome probabilities"""
from __future__ import division

import numpy as np

import mpnum.povm as mpp

from .. import dense as dn, gen, povmgen as pg
from . import c22

PROP = 'C23'
RULE = ('random measurements and states, random outcome functions and '
        'coefficients, random and weighted samples; references: mean and '
        'variance under the dense outcome distribution, explicit sample mean '
        'and unbiased variance of the mean over the (repeated) samples, and '
        'the estimator assembled from all pairs of matching dense elements. '
        'Non-trivial: several functions or several measurements')
QUICK, THOROUGH = 2500, 25000
ASSUMPTIONS = ['at least two samples', 'positive weights of measurements']


def rand_funs(ctx, dims, count):
    """Vectorized functions of outcomes and their value tables"""
    funs, tables = [], []
    for _ in range(count):
        t = ctx.rng.randn(*dims)
        kind = ctx.randint(0, 3)
        if kind == 0:
            t = (t > 0).astype(float)
        elif kind == 1:
            t = np.round(3 * t)

        def fun(s, t=t):
            return t[tuple(np.asarray(s).T)]
        funs.append(fun)
        tables.append(t)
    return funs, np.array(tables).reshape((count,) + tuple(dims))


def rand_coeff(ctx, n):
    # larger coefficients: rounding errors exceed the internal threshold
    c = ctx.rng.randn(n) * 10. ** ctx.randint(-2, 0)
    if ctx.chance(.3):
        c[ctx.rng.rand(n) < .5] = 0.
    if ctx.chance(.1):
        c = np.ones(n)
    return c


def exact(tables, pmf):
    t = tables.reshape((len(tables), -1))
    p = pmf.ravel()
    ept = t.dot(p)
    d = t - ept[:, None]
    return ept, (d * p).dot(d.T)


def setting(ctx, n=None):
    povm = pg.rand_povm(ctx, n=n or ctx.pick([1, 2, 3]))
    state, mode, rho = pg.rand_state(ctx, povm.hdims)
    pmf = pg.squeeze_out(pg.pmf_dense(dn.tens(povm), rho).real, povm.outdims)
    ctx.signature(povm.shape, mode, gen.describe(state))
    return povm, state, mode, pmf, rho


def arithmetic_funs(ctx, dims):
    """Functions which compute with the outcomes themselves"""
    a = ctx.rng.randint(-9, 10, size=len(dims))
    k = ctx.randint(0, len(dims) - 1)
    funs = [lambda s: s.dot(a), lambda s: s[:, 0] - s[:, k] * 100,
            lambda s: (-1.) ** s.sum(1), lambda s: -s[:, k],
            lambda s: (s == s[:, :1]).all(1)]
    funs = [ctx.pick(funs) for _ in range(ctx.randint(1, 3))]
    out = np.array(list(np.ndindex(*dims)), dtype=int)
    ctx.event('lfun:arithmetic')
    return funs, np.array([np.asarray(f(out), float) for f in funs]).reshape(
        (len(funs),) + tuple(dims))


def functions(ctx, povm, arithmetic=False):
    """(coeff, funs argument, value tables)"""
    dims = povm.nsoutdims
    if arithmetic and ctx.chance(.3):
        funs, tables = arithmetic_funs(ctx, dims)
        return rand_coeff(ctx, len(tables)) / 20, funs, tables
    if ctx.chance(.4):
        size = int(np.prod(dims))
        funs, tables = None, np.eye(size).reshape((size,) + dims)
    else:
        funs, tables = rand_funs(ctx, dims, ctx.randint(1, 4))
    return rand_coeff(ctx, len(tables)), funs, tables


def pairclose(ctx, got, ref, msg, scale, **kw):
    ctx.check(len(got) == 2, msg + ': two numbers expected')
    ctx.close(np.asarray(got[0], float), ref[0], msg + ': value',
              scale=scale, **kw)
    ctx.close(np.asarray(got[1], float), ref[1], msg + ': variance',
              scale=scale ** 2, **kw)
    ctx.check(np.asarray(got[1]) >= 0, msg + ': negative variance')


def exact_value(ctx):
    povm, state, mode, pmf, _ = setting(ctx)
    coeff, funs, tables = functions(ctx, povm, arithmetic=True)
    ctx.nontrivial = len(coeff) > 1
    m = ctx.pick([mode, 'auto']) if mode != 'pmps' else mode
    ept, cov = exact(tables, pmf)
    scale = abs(coeff).sum() * abs(tables).max() + 1e-3
    keep = coeff.copy()
    before = dn.dense(dn.tens(state))
    pairclose(ctx, povm.lfun(coeff, funs, state, m),
              (coeff.dot(ept), coeff.dot(cov).dot(coeff)), 'lfun', scale)
    ctx.check((coeff == keep).all(), 'lfun: coefficients changed')
    e, c = povm.lfun(None, funs, state, m)
    s = abs(tables).max() + 1e-3
    ctx.close(e, ept, 'lfun: individual values', scale=s)
    ctx.close(c, cov, 'lfun: covariance matrix', scale=s * s)
    ctx.close(dn.dense(dn.tens(state)), before, 'lfun: state changed',
              scale=1e-2 * dn.bound(dn.tens(state)))
    res = povm.lfun(np.zeros(0), [], state, m)
    ctx.check(tuple(res) == (0, 0), 'lfun: empty sum')
    # without any function or without any coefficient (documented in the code:
    # the empty sum is zero with certainty)
    for c, f in ((np.zeros(0), None), (None, [])):
        res = povm.lfun(c, f, state, m)
        ctx.check(len(res) == 2 and not np.any(res[0]) and
                  not np.any(res[1]), 'lfun: empty sum', coeff=c, funs=f)
    ctx.event('lfun')
    ctx.event('lfun:' + ('probabilities' if funs is None else 'functions'))
    ctx.raises(Exception, lambda: povm.lfun(
        np.concatenate([coeff, [1.]]), funs, state, m), 'wrong length')


def sample_stats(coeff, tables, s, w=None):
    """Mean and unbiased variance of the mean of the linear combination"""
    f = np.tensordot(coeff, tables, axes=(0, 0))
    v = f[tuple(s.T.astype(int))]
    if w is None:
        w = np.ones(len(s))
    n = w.sum()
    mean = (w * v).sum() / n
    var = (w * (v - mean) ** 2).sum() / (n - 1) / n
    return mean, var


def estimate(ctx):
    povm = pg.rand_povm(ctx, n=ctx.pick([1, 2, 3]))
    dims = povm.nsoutdims
    coeff, funs, tables = functions(ctx, povm)
    n = ctx.randint(2, 40) if ctx.chance(.95) else ctx.pick(
        [300, 3000, ctx.randint(10001, 30000), ctx.randint(10001, 30000)])
    s = c22.rand_samples(ctx, dims, n)
    scale = abs(coeff).sum() * abs(tables).max() + 1e-3
    keep = s.copy()
    got = povm.est_lfun(coeff, funs, s)
    pairclose(ctx, got, sample_stats(coeff, tables, s), 'est_lfun', scale,
              samples=n)
    # weights
    kind = ctx.randint(0, 2)
    if kind == 0:
        w = ctx.rng.randint(0, 4, size=n)
        if w.sum() < 2:
            w[0] = 3
        rep = np.repeat(s, w, axis=0)
        ref = sample_stats(coeff, tables, rep)
        ctx.event('counts')
    elif kind == 1:
        w = (ctx.rng.rand(n) * 3 + .5)
        if ctx.chance(.4):
            w *= ctx.rng.uniform(1.1, 3) / w.sum()
            ctx.event('small_weights')
        ref = sample_stats(coeff, tables, s, w)
    else:
        w = np.ones(n, ctx.pick([int, float]))
        ref = sample_stats(coeff, tables, s)
    got = povm.est_lfun(coeff, funs, s, weights=w)
    pairclose(ctx, got, ref, 'est_lfun with weights', scale, kind=kind)
    # all functions with their covariances
    e, c = povm.est_lfun(None, funs, s, weights=w if ctx.chance(.5) else None)
    e2, c2 = povm.est_lfun(None, funs, s)
    t = np.array([x[tuple(s.T.astype(int))] for x in tables])
    ctx.close(e2, t.mean(1), 'est_lfun: individual estimates',
              scale=abs(tables).max())
    d = t - t.mean(1)[:, None]
    ctx.close(c2, d.dot(d.T) / (n - 1) / n, 'est_lfun: covariance matrix',
              scale=abs(tables).max() ** 2)
    ctx.check(np.shape(c) == np.shape(c2), 'est_lfun: covariance shape')
    ctx.check((s == keep).all(), 'est_lfun: samples changed')
    # from counts of all outcomes
    out = np.array(list(np.ndindex(*dims)), np.uint8)
    cnt = c22.count(s, dims).ravel()
    got = povm.est_lfun(coeff, funs, out, weights=cnt)
    pairclose(ctx, got, sample_stats(coeff, tables, s),
              'est_lfun from counts', scale)
    ctx.raises(Exception, lambda: povm.est_lfun(
        coeff, funs, s, weights=-np.ones(n)), 'negative weights')
    ctx.raises(Exception, lambda: povm.est_lfun(
        np.concatenate([coeff, [1.]]), funs, s), 'wrong length')
    ctx.raises(Exception, lambda: povm.est_lfun(
        coeff, funs, np.concatenate([s, s[:, :1]], axis=1)),
        'too many columns')
    ctx.event('est_lfun')
    ctx.nontrivial = len(coeff) > 1
    ctx.signature(povm.shape, n, len(coeff), funs is None, kind)


def lists(ctx):
    n = ctx.randint(1, 2)
    hdims = pg.rand_hdims(ctx, n, limit=9)
    povms = [pg.rand_povm(ctx, hdims=hdims,
                          outdims=pg.rand_outdims(ctx, n, top=3))
             for _ in range(ctx.randint(1, 3))]
    lst = mpp.MPPovmList(povms)
    state, mode, rho = pg.rand_state(ctx, hdims)
    coeff, funs, tables = map(list, zip(*(functions(ctx, p) for p in povms)))
    if ctx.chance(.4):
        arg = None
        tables = [np.eye(int(np.prod(p.nsoutdims))).reshape(
            (-1,) + p.nsoutdims) for p in povms]
        coeff = [rand_coeff(ctx, len(t)) for t in tables]
        funs = [None] * len(povms)
    else:
        arg = funs
    scale = sum(abs(c).sum() * abs(t).max()
                for c, t in zip(coeff, tables)) + 1e-3
    val = var = 0.
    for p, c, t in zip(povms, coeff, tables):
        e, cov = exact(t, pg.squeeze_out(
            pg.pmf_dense(dn.tens(p), rho).real, p.outdims))
        val += c.dot(e)
        var += c.dot(cov).dot(c)
    pairclose(ctx, lst.lfun(coeff, arg, state, mode), (val, var),
              'MPPovmList.lfun', scale)
    ctx.event('list_lfun')
    samples = [c22.rand_samples(ctx, p.nsoutdims, ctx.randint(2, 20))
               for p in povms]
    ref = np.array([sample_stats(c, t, s)
                    for c, t, s in zip(coeff, tables, samples)]).sum(0)
    plain = lst.est_lfun(coeff, arg, samples)
    pairclose(ctx, plain, ref, 'MPPovmList.est_lfun', scale)
    ctx.event('list_est_lfun')
    # weights
    weights = [ctx.rng.randint(1, 5, size=len(s)) for s in samples]
    got = lst.est_lfun(coeff, arg, samples, weights)
    ref = np.array([sample_stats(c, t, s, w.astype(float)) for c, t, s, w
                    in zip(coeff, tables, samples, weights)]).sum(0)
    ok = abs(got[0] - ref[0]) <= 1e-8 * scale and \
        abs(got[1] - ref[1]) <= 1e-8 * scale ** 2
    if not ok:
        if tuple(got) == tuple(plain):
            ctx.known('mppovmlist-est-lfun-weights',
                      'MPPovmList.est_lfun ignores its argument weights')
        else:
            ctx.fail('MPPovmList.est_lfun with weights', got=tuple(got),
                     expected=tuple(ref))
    ctx.event('list_weights')
    ctx.nontrivial = len(povms) > 1
    ctx.signature([p.shape for p in povms], mode, arg is None)


# -- estimates from other measurements ---------------------------------------

def family(ctx):
    """(list of measurements, list of measurements with samples)"""
    n = ctx.pick([1, 2, 2, 3])
    d = 2 if n > 1 else ctx.randint(2, 3)
    k = ctx.randint(1, 3) if n < 3 else ctx.randint(1, 2)
    others, selfs = [], []
    pool = [[pg.local_povm(ctx, d, 2) for _ in range(k)] for _ in range(n)]
    for _ in range(ctx.randint(1, 3)):
        loc = [ctx.pick(pool[i]) for i in range(n)]
        if ctx.chance(.4):           # does not measure all of the sites
            keep = ctx.randint(0, n - 1)
            loc = [x if i == keep or ctx.chance(.4) else np.eye(d)[None]
                   for i, x in enumerate(loc)]
            ctx.event('partial_support')
        others.append(loc)
    for _ in range(ctx.randint(1, 2)):
        loc = []
        base = ctx.pick(others)
        for i in range(n):
            what = ctx.randint(0, 4)
            if what == 0:
                loc.append(np.eye(d)[None])
            elif what == 1:
                loc.append(base[i][::-1].copy())
            elif what == 2:
                # contains all of the pool with weights
                w = ctx.rng.rand(k) + .2
                w /= w.sum()
                loc.append(np.concatenate([x * e for x, e
                                           in zip(w, pool[i])]))
            elif what == 3 and ctx.chance(.3):
                loc.append(pg.local_povm(ctx, d, 2))
            else:
                loc.append(base[i])
        if all(len(x) == 1 for x in loc):
            at = ctx.randint(0, n - 1)
            loc[at] = pool[at][0]
        selfs.append(loc)
    make = lambda ls: [mpp.MPPovm.from_kron(l) for l in ls]
    ctx.signature(n, d, k, [[len(x) for x in l] for l in others],
                  [[len(x) for x in l] for l in selfs])
    return make(selfs), make(others)


def assemble(ctx, selfs, others, coeff, weights):
    """Table of the function averaged for each of `others`; None: ambiguous,
    False: not covered"""
    out = [np.zeros(m.nsoutdims) for m in others]
    used = [False] * len(others)
    for own, c in zip(selfs, coeff):
        total = np.zeros(own.nsoutdims)
        entries = []
        for pos, m in enumerate(others):
            ref = c22.reference_match(ctx, own, m)
            if ref is None:
                return None
            match, pre, k = ref
            sup, j = [], 0
            for a, b in zip(own.outdims, m.outdims):
                if b > 1:
                    if a > 1:
                        sup.append(j)
                    j += 1
            for ix in np.argwhere(match):
                mine, his = tuple(ix[:k]), tuple(ix[k:])
                total[mine] += weights[pos]
                entries.append((pos, mine, his, tuple(sup),
                                pre[tuple(ix)] * weights[pos]))
        if (total[c != 0] == 0).any():
            return False
        for pos, mine, his, sup, w in entries:
            sel = [slice(None)] * out[pos].ndim
            for a, b in zip(sup, his):
                sel[a] = b
            out[pos][tuple(sel)] += c[mine] * w / total[mine]
            used[pos] = True
    return out, used


def from_other(ctx):
    selfs, others = family(ctx)
    own, oth = mpp.MPPovmList(selfs), mpp.MPPovmList(others)
    coeff = [rand_coeff(ctx, int(np.prod(m.nsoutdims))).reshape(m.nsoutdims)
             for m in selfs]
    state, mode, rho = pg.rand_state(ctx, selfs[0].hdims)
    pmfs = [pg.squeeze_out(pg.pmf_dense(dn.tens(m), rho).real, m.outdims)
            for m in others]
    kw, weights = {}, np.ones(len(others))
    if ctx.chance(.6):
        weights = ctx.rng.rand(len(others)) * 5 + .1
        if ctx.chance(.3):
            weights = np.ceil(weights).astype(int)
        kw['other_weights'] = weights if ctx.chance(.5) else list(weights)
        ctx.event('other_weights')
    res = assemble(ctx, selfs, others, coeff, weights)
    if res is None:
        return
    got = own.lfun_from(oth, coeff, state, mode, **kw)
    scale = sum(abs(c).sum() for c in coeff) * 10 + 1e-3
    samples = [c22.rand_samples(ctx, m.nsoutdims, ctx.randint(2, 20))
               for m in others]
    est = own.est_lfun_from(oth, coeff, samples)
    ctx.check(len(got) == 2 and len(est) == 2, 'lfun_from: two numbers')
    if res is False:
        ctx.check(np.isnan(got[0]) and np.isnan(got[1]),
                  'lfun_from: uncovered function', got=got)
        ctx.check(np.isnan(est[0]) and np.isnan(est[1]),
                  'est_lfun_from: uncovered function', got=est)
        ctx.event('uncovered')
        return
    tables, used = res
    val = sum((t * p).sum() for t, p in zip(tables, pmfs))
    var = sum((t * t * p).sum() - (t * p).sum() ** 2
              for t, p in zip(tables, pmfs))
    true = sum((c * pg.squeeze_out(pg.pmf_dense(dn.tens(m), rho).real,
                                   m.outdims)).sum()
               for c, m in zip(coeff, selfs))
    ctx.check(abs(val - true) <= 1e-7 * scale, 'self-test of the reference')
    pairclose(ctx, got, (true, var), 'lfun_from', scale)
    ctx.event('lfun_from')
    n = [len(s) for s in samples]
    tables, used = assemble(ctx, selfs, others, coeff, np.array(n))
    ref = np.array([sample_stats(np.ones(1), t[None], s)
                    for t, s in zip(tables, samples)]).sum(0)
    pairclose(ctx, est, ref, 'est_lfun_from', scale)
    ctx.event('est_lfun_from')
    ctx.nontrivial = len(others) > 1


SCENARIOS = [('exact_value', exact_value), ('estimate', estimate),
             ('lists', lists), ('from_other', from_other),
             ('from_other2', from_other)]
REQUIRED = ['lfun', 'lfun:probabilities', 'lfun:functions', 'est_lfun',
            'lfun:arithmetic', 'partial_support', 'small_weights',
            'counts', 'list_lfun', 'list_est_lfun', 'list_weights',
            'lfun_from', 'est_lfun_from', 'uncovered', 'other_weights',
            'refusals']
