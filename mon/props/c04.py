# encoding: utf-8
"""C04: reductions over legs"""
from __future__ import division

import itertools as it

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import result_type, expect_mpa, expect_scalar

PROP = 'C04'
RULE = ('MPAs with inhomogeneous legs and every documented way to select legs '
        'per site; non-trivial: at least two sites and one rank above one')
QUICK, THOROUGH = 3600, 40000


def some(ctx, **kw):
    kw.setdefault('max_size', 2000)
    a = gen.rand_mpa(ctx, max_rank=4, **kw)
    lts = dn.tens(a)
    return a, lts, dn.dense(lts), dn.shape_of(lts), gen.rtol_of(a)


def summed(arr, shape, sel):
    """Sum over the legs sel[i] (list) at site i"""
    pos = dn.site_axes(shape)
    axes = tuple(pos[i][j] for i, s in enumerate(sel) for j in s)
    new = [tuple(d for j, d in enumerate(s) if j not in set(x))
           for s, x in zip(shape, sel)]
    return (arr.sum(axis=axes) if axes else arr), new


def check_sum(ctx, mpa, arg, sel, msg):
    lts = dn.tens(mpa)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    ref, new = summed(arr, shape, sel)
    n = np.prod([d for s in shape for d in s])
    scale = 1e-2 * dn.bound(lts) * n / max(1, np.prod(ref.shape))
    res = mpa.sum(arg()) if arg is not None else mpa.sum()
    if sum(len(s) for s in new) == 0:
        ctx.check(not isinstance(res, mp.MPArray), msg + ': MPArray returned')
        expect_scalar(ctx, res, ref, msg, scale, gen.rtol_of(mpa))
        ctx.event('full_sums')
    else:
        expect_mpa(ctx, res, ref, new, msg, scale, gen.rtol_of(mpa))
    ctx.event('sums')


def sum_(ctx):
    a, lts, arr, shape, rtol = some(ctx)
    legs = [len(s) for s in shape]
    n = len(shape)
    everything = [list(range(k)) for k in legs]
    forms = ['all', 'empty', 'per_site', 'per_site', 'per_site']
    if min(legs) >= 1:
        forms += ['int', 'ints', 'ints']
    form = ctx.pick(forms)
    ctx.signature(form)
    ctx.event('sum_form:' + form)
    if form == 'all':
        check_sum(ctx, a, None if ctx.chance(.5) else (lambda: None),
                  everything, 'sum()')
    elif form == 'empty':
        e = ctx.pick([(), []])
        check_sum(ctx, a, lambda: e, [[]] * n, 'sum over nothing')
    elif form == 'int':
        k = ctx.randint(0, min(legs) - 1)
        kk = ctx.pick([int, np.int64])(k)
        check_sum(ctx, a, lambda: kk, [[k]] * n, 'sum(int)')
    elif form == 'ints':
        k = [int(x) for x in ctx.rng.permutation(min(legs))[
            :ctx.randint(1, min(legs))]]
        t = ctx.pick([tuple, list, iter])
        check_sum(ctx, a, lambda: t(k), [k] * n, 'sum(ints)')
    else:
        arg, sel = [], []
        for l in legs:
            what = ctx.randint(0, 3)
            if what == 0:
                arg.append(None)
                sel.append(list(range(l)))
            elif what == 1 or l == 0:
                arg.append(ctx.pick([(), []]))
                sel.append([])
            else:
                k = [int(x) for x in
                     ctx.rng.permutation(l)[:ctx.randint(1, l)]]
                arg.append(ctx.pick([tuple, list])(k))
                sel.append(k)
        ctx.signature(arg)
        t = ctx.pick([tuple, list, iter])
        check_sum(ctx, a, lambda: t(arg), sel, 'sum(per site)')


def traced(arr, shape, sel):
    """Trace over the pairs sel[i] = (p, q) or None at site i"""
    pos = dn.site_axes(shape)
    new = []
    labels = list(range(arr.ndim))
    out = []
    for i, (s, x) in enumerate(zip(shape, sel)):
        keep = list(range(len(s)))
        if x is not None:
            p, q = x
            labels[pos[i][q]] = labels[pos[i][p]]
            keep = [j for j in keep if j not in (p, q)]
        out += [pos[i][j] for j in keep]
        new.append(tuple(s[j] for j in keep))
    # Trace one pair after another to stay below the label limit of einsum.
    cur = list(range(arr.ndim))
    res = arr
    for i, x in enumerate(sel):
        if x is not None:
            p, q = (cur.index(pos[i][k]) for k in x)
            gone = {pos[i][k] for k in x}
            res = np.trace(res, axis1=p, axis2=q)
            cur = [c for c in cur if c not in gone]
    assert cur == out
    return res, new


def pruned(new):
    keep = tuple(s for s in new if len(s))
    return keep if keep else ((),)


def square_mpa(ctx, every=False):
    """MPA whose sites mostly have a pair of legs of equal size"""
    n = ctx.randint(1, 4)
    while True:
        shape, pairs = [], []
        for _ in range(n):
            if not every and ctx.chance(.3):
                shape.append(gen.rand_legs(ctx, ctx.randint(0, 2), 3))
                pairs.append(None)
                continue
            extra = 0 if every == 'full' else ctx.randint(0, 2)
            legs = list(gen.rand_legs(ctx, extra + 2, 3))
            p, q = (int(x) for x in ctx.rng.permutation(extra + 2)[:2])
            legs[q] = legs[p]
            shape.append(tuple(legs))
            pairs.append((p, q))
        if np.prod([d for s in shape for d in s]) < 3000:
            break
    return gen.rand_mpa(ctx, shape=tuple(shape), max_rank=4), pairs


def trace(ctx):
    full = ctx.chance(.4)
    a, pairs = square_mpa(ctx, every='full' if full else False)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    n = np.prod([d for s in shape for d in s]) ** .5
    scale = 1e-2 * dn.bound(lts) * n
    rtol = gen.rtol_of(a)
    if full:
        ref, _ = traced(arr, shape, [(0, 1)] * len(shape))
        got = mp.trace(a) if ctx.chance(.5) else \
            mp.trace(a, axes=ctx.pick([(1, 0), (0, 1), (-1, 0), (-2, -1)]))
        expect_scalar(ctx, got, ref, 'trace', scale, rtol)
        res = mp.partialtrace(a)
        expect_mpa(ctx, res, ref, ((),), 'partialtrace of everything', scale,
                   rtol)
        ctx.event('full_traces')
    sel = []
    for p in pairs:
        sel.append(None if p is None or ctx.chance(.3) else p)
    arg = [None if p is None else
           ctx.pick([tuple, list])([k - len(s) if ctx.chance(.2) else k
                                    for k in p])
           for p, s in zip(sel, shape)]
    ctx.signature(arg)
    ref, new = traced(arr, shape, sel)
    t = ctx.pick([tuple, list])
    res = mp.partialtrace(a, axes=t(arg))
    expect_mpa(ctx, res, ref, pruned(new), 'partialtrace', scale, rtol)
    ctx.event('partial_traces')
    if any(x is None for x in sel) and any(x is not None for x in sel):
        ctx.event('mixed_traces')
    if all(len(s) == 0 for s in new):
        got = mp.trace(a, axes=t(arg))
        expect_scalar(ctx, got, ref, 'trace(per site)', scale, rtol)


def trace_common(ctx):
    """Same pair of axes at all sites, with further legs"""
    n, legs = ctx.randint(1, 3), ctx.randint(2, 4)
    p, q = (int(x) for x in ctx.rng.permutation(legs)[:2])
    while True:
        shape = []
        for _ in range(n):
            s = list(gen.rand_legs(ctx, legs, 3))
            s[q] = s[p]
            shape.append(tuple(s))
        if np.prod([d for s in shape for d in s]) < 3000:
            break
    a = gen.rand_mpa(ctx, shape=tuple(shape), max_rank=4)
    lts = dn.tens(a)
    ref, new = traced(dn.dense(lts), shape, [(p, q)] * n)
    arg = (p - legs if ctx.chance(.3) else p, q - legs if ctx.chance(.3) else q)
    ctx.signature(arg)
    res = mp.partialtrace(a, arg)
    expect_mpa(ctx, res, ref, pruned(new), 'partialtrace(m, n)',
               1e-1 * dn.bound(lts), gen.rtol_of(a))
    if ctx.chance(.2):
        result_type(ctx, lambda x, **kw: mp.partialtrace(x, arg, **kw),
                    lambda t: t(lts), 'mptype', 'partialtrace')


def get(ctx):
    a, lts, arr, shape, rtol = some(ctx, min_legs=1)
    idx = [ctx.randint(0, s[0] - 1) for s in shape]
    if ctx.chance(.3):
        idx = [i - s[0] if ctx.chance(.3) else i for i, s in zip(idx, shape)]
    pos = dn.site_axes(shape)
    key = [slice(None)] * arr.ndim
    for p, i in zip(pos, idx):
        key[p[0]] = i
    arg = ctx.pick([tuple, list, np.array])(idx)
    res = a.get(arg)
    expect_mpa(ctx, res, arr[tuple(key)], [s[1:] for s in shape], 'get',
               1e-2 * dn.bound(lts), rtol)
    if ctx.chance(.2):
        result_type(ctx, lambda x, **kw: x.get(arg, **kw), lambda t: t(lts),
                    'astype', 'get')
    ctx.raises((Exception,), lambda: a.get(list(idx) + [0]),
               'get with too many indices')
    if len(idx) > 1:
        ctx.raises((Exception,), lambda: a.get(idx[:-1]),
                   'get with too few indices')
    ctx.event('gets')


def axis_iter(ctx):
    a, lts, arr, shape, rtol = some(ctx, min_legs=1, max_sites=4, max_size=600)
    n = len(shape)
    if ctx.chance(.5):
        k = ctx.randint(0, min(len(s) for s in shape) - 1)
        axes, arg = [k] * n, k
        if k == 0 and ctx.chance(.5):
            res = a.axis_iter()
        else:
            res = a.axis_iter(arg)
    else:
        axes = [ctx.randint(0, len(s) - 1) for s in shape]
        res = a.axis_iter(ctx.pick([tuple, list, iter])(axes))
    ctx.signature(axes)
    pos = dn.site_axes(shape)
    new = [s[:k] + s[k + 1:] for s, k in zip(shape, axes)]
    dims = [s[k] for s, k in zip(shape, axes)]
    got = list(res)
    ctx.check(len(got) == np.prod(dims), 'axis_iter: number of items',
              got=len(got), dims=dims)
    scale = 1e-2 * dn.bound(lts)
    for item, ix in zip(got, it.product(*(range(d) for d in dims))):
        key = [slice(None)] * arr.ndim
        for p, k, i in zip(pos, axes, ix):
            key[p[k]] = i
        expect_mpa(ctx, item, arr[tuple(key)], new, 'axis_iter', scale, rtol)
    ctx.event('axis_iters')


def diag(ctx):
    legs, n, dim = ctx.randint(1, 3), ctx.randint(1, 4), ctx.randint(1, 3)
    axis = ctx.randint(0, legs - 1)
    while True:
        shape = []
        for _ in range(n):
            s = list(gen.rand_legs(ctx, legs, 3))
            s[axis] = dim
            shape.append(tuple(s))
        if np.prod([d for s in shape for d in s]) < 3000:
            break
    a = gen.rand_mpa(ctx, shape=tuple(shape), max_rank=4)
    lts = dn.tens(a)
    arr = dn.dense(lts)
    pos = dn.site_axes(shape)
    got = mp.diag(a) if axis == 0 and ctx.chance(.5) else mp.diag(a, axis)
    ctx.check(isinstance(got, np.ndarray) and got.shape == (dim,),
              'diag: wrong number of elements', got=np.shape(got))
    scale, rtol = 1e-2 * dn.bound(lts), gen.rtol_of(a)
    for i in range(dim):
        key = [slice(None)] * arr.ndim
        for p in pos:
            key[p[axis]] = i
        ref = arr[tuple(key)]
        if legs == 1:
            ctx.close(got[i], ref, 'diag', scale, rtol)
        else:
            expect_mpa(ctx, got[i], ref,
                       [s[:axis] + s[axis + 1:] for s in shape], 'diag',
                       scale, rtol)
    ctx.event('diags')


def prune(ctx):
    a, lts, arr, shape, rtol = some(ctx, max_legs=2, uniform_legs=False)
    scale = 1e-2 * dn.bound(lts)
    expect_mpa(ctx, mp.prune(a), arr, pruned(shape), 'prune', scale, rtol)
    expect_mpa(ctx, mp.prune(a, singletons=False), arr, pruned(shape), 'prune',
               scale, rtol)
    new = [() if np.prod(s) == 1 else s for s in shape]
    if new != list(shape):
        ctx.event('singletons')
    res = mp.prune(a, singletons=True)
    expect_mpa(ctx, res, arr, pruned(new), 'prune(singletons=True)', scale,
               rtol)
    new = [tuple(d for d in s if d > 1) for s in shape]
    res = a.reshape('prune')
    expect_mpa(ctx, res, arr, new, "reshape('prune')", scale, rtol)
    ctx.event('prunes')


def long_chain(ctx):
    """Trace, sum and indexing of long chains via transfer matrices"""
    n, d = ctx.randint(15, 60), 2
    lts = gen.rand_tensors(ctx, ((d, d),) * n, dtype=ctx.pick(('f8', 'c16')),
                           max_rank=4, wild=False)
    lts = [t / (dn.norm(lts) ** (1. / n) * .9) for t in lts]
    a = gen.build(ctx, lts)
    lts = dn.tens(a)
    ctx.signature(n, a.ranks)
    ctx.nontrivial = True
    t = np.ones((1, 1))
    s = np.ones((1, 1))
    for x in lts:
        t = t.dot(np.einsum('aiib->ab', x))
        s = s.dot(x.sum(axis=(1, 2)))
    nrm = dn.norm(lts)
    expect_scalar(ctx, mp.trace(a), t[0, 0], 'trace (long)',
                  nrm * 2. ** (n / 2.))
    expect_scalar(ctx, a.sum(), s[0, 0], 'sum (long)', nrm * 2. ** n)
    ix = [(ctx.randint(0, 1),) for _ in range(n)]
    part = a.get([i for i, in ix])
    ctx.check(part.ndims == (1,) * n, 'get (long): legs')
    iy = [(ctx.randint(0, 1),) for _ in range(n)]
    got = dn.entry(dn.tens(part), iy)
    ref = dn.entry(lts, [i + j for i, j in zip(ix, iy)])
    ctx.close(got, ref, 'get (long)', scale=1e-2 * abs(ref) + 1e-6 * nrm)
    keep = sorted(int(x) for x in ctx.rng.permutation(n)[:3])
    axes = [None if i in keep else (0, 1) for i in range(n)]
    red = mp.partialtrace(a, axes)
    v = np.ones((1, 1))
    for i, x in enumerate(lts):
        m = x if i in keep else np.einsum('aiib->ab', x)
        v = np.tensordot(v, m, axes=(v.ndim - 1, 0))
    expect_mpa(ctx, red, v[0, ..., 0], ((2, 2),) * 3, 'partialtrace (long)',
               nrm * 2. ** (n / 2.))
    ctx.event('long_chains')


SCENARIOS = [('sum', sum_), ('trace', trace), ('get', get), ('diag', diag),
             ('axis_iter', axis_iter), ('prune', prune), ('sum2', sum_),
             ('trace_common', trace_common), ('long_chain', long_chain),
             ('sum3', sum_), ('trace2', trace)]
REQUIRED = ['sum_form:all', 'sum_form:empty', 'sum_form:int', 'sum_form:ints',
            'sum_form:per_site', 'full_sums', 'full_traces', 'mixed_traces',
            'singletons', 'form:mixed']
