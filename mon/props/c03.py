# encoding: utf-8
"""C03: contractions and products"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

from .. import dense as dn, gen
from ..util import result_type, expect_mpa, expect_scalar

PROP = 'C03'
RULE = ('pairs of MPAs with independently drawn legs at each site, arbitrary '
        'contracted legs (int, negative, sequences), ranks, dtypes, forms; '
        'non-trivial: at least two sites and one rank above one')
QUICK, THOROUGH = 3000, 36000


def local_ref(lts1, lts2, axes_of):
    """Dense result of a site-wise contraction.

    axes_of(i) -> (list of legs of 1, list of legs of 2), non-negative."""
    d1, d2 = dn.dense(lts1), dn.dense(lts2)
    s1, s2 = dn.shape_of(lts1), dn.shape_of(lts2)
    label = iter(range(10 ** 6))
    l1, l2, out, shape = [], [], [], []
    for i, (a, b) in enumerate(zip(s1, s2)):
        x = [next(label) for _ in a]
        y = [next(label) for _ in b]
        ax1, ax2 = axes_of(i)
        for p, q in zip(ax1, ax2):
            y[q] = x[p]
        l1 += x
        l2 += y
        keep = [(k, d) for j, (k, d) in enumerate(zip(x, a)) if j not in ax1]
        keep += [(k, d) for j, (k, d) in enumerate(zip(y, b)) if j not in ax2]
        out += [k for k, _ in keep]
        shape.append(tuple(d for _, d in keep))
    return einsum2(d1, l1, d2, l2, out), shape


def einsum2(d1, l1, d2, l2, out):
    """Pairwise contraction with arbitrary integer labels"""
    common = [l for l in l1 if l in l2]
    f1 = [l for l in l1 if l not in common]
    f2 = [l for l in l2 if l not in common]
    a = d1.transpose([l1.index(l) for l in f1 + common])
    b = d2.transpose([l2.index(l) for l in common + f2])
    k = int(np.prod([d1.shape[l1.index(l)] for l in common], dtype=int))
    sa = a.shape[:len(f1)]
    sb = b.shape[len(common):]
    res = np.dot(a.reshape((-1, k)), b.reshape((k, -1))).reshape(sa + sb)
    have = f1 + f2
    return res.transpose([have.index(l) for l in out])


def pair(ctx, sites=None, n_axes=None, max_out=4000):
    """Two MPAs and a list of contracted legs valid at each site"""
    while True:
        n = sites or ctx.pick([1, 2, 2, 3, 3, 4, 5])
        legs1, legs2 = ctx.randint(1, 3), ctx.randint(1, 3)
        k = ctx.randint(1, min(legs1, legs2)) if n_axes is None else n_axes
        ax1 = [int(x) for x in ctx.rng.permutation(legs1)[:k]]
        ax2 = [int(x) for x in ctx.rng.permutation(legs2)[:k]]
        s1, s2 = [], []
        size = 1
        for _ in range(n):
            a = list(gen.rand_legs(ctx, legs1, 3))
            b = list(gen.rand_legs(ctx, legs2, 3))
            for p, q in zip(ax1, ax2):
                b[q] = a[p]
            s1.append(tuple(a))
            s2.append(tuple(b))
        p1 = np.prod([d for s in s1 for d in s])
        p2 = np.prod([d for s in s2 for d in s])
        pc = np.prod([s[p] for s in s1 for p in ax1])
        if max(p1, p2, p1 * p2 / pc ** 2) <= max_out:
            return tuple(s1), tuple(s2), ax1, ax2


def spec(ctx, ax1, ax2, legs1, legs2):
    """Some way to write down the axes"""
    a = [x - legs1 if ctx.chance(.3) else x for x in ax1]
    b = [x - legs2 if ctx.chance(.3) else x for x in ax2]
    if len(a) == 1 and ctx.chance(.7):
        ctx.event('axes:int')
        return (a[0], b[0])
    ctx.event('axes:sequence')
    t = ctx.pick([tuple, list])
    return (t(a), t(b))


def two(ctx, s1, s2, max_rank=3):
    a = gen.rand_mpa(ctx, shape=s1, max_rank=max_rank)
    b = gen.rand_mpa(ctx, shape=s2, max_rank=max_rank)
    rtol = gen.rtol_of(a, b)
    return a, b, dn.tens(a), dn.tens(b), rtol


def cscale(l1, l2, contracted):
    return dn.noise(l1, l2) * contracted


def dot(ctx):
    s1, s2, ax1, ax2 = pair(ctx)
    a, b, l1, l2, rtol = two(ctx, s1, s2)
    ref, shape = local_ref(l1, l2, lambda i: (ax1, ax2))
    axes = spec(ctx, ax1, ax2, len(s1[0]), len(s2[0]))
    ctx.signature(axes)
    k = np.prod([s[p] for s in s1 for p in ax1])
    scale = cscale(l1, l2, k)
    res = mp.dot(a, b, axes=axes)
    expect_mpa(ctx, res, ref, shape, 'dot', scale, rtol)
    if (ax1, ax2) == ([len(s1[0]) - 1], [0]):
        expect_mpa(ctx, mp.dot(a, b), ref, shape, 'dot (default axes)', scale,
                   rtol)
        ctx.event('default_axes')
    got = res.to_array()
    ctx.close(got, ref, 'dot().to_array()', scale, rtol)
    if ctx.chance(.1):
        result_type(ctx, lambda x, **kw: mp.dot(x, b, axes=axes, **kw),
                    lambda t: t(l1), 'astype', 'dot')


def matrix_product(ctx):
    """Default axes, as used for MPO @ MPO and MPO @ MPS"""
    n = ctx.randint(1, 4)
    rows = [ctx.randint(1, 3) for _ in range(n)]
    mid = [ctx.randint(1, 3) for _ in range(n)]
    cols = [ctx.randint(1, 3) for _ in range(n)]
    mps = ctx.chance(.4)
    s1 = tuple(zip(rows, mid))
    s2 = tuple((m,) for m in mid) if mps else tuple(zip(mid, cols))
    a, b, l1, l2, rtol = two(ctx, s1, s2)
    ref, shape = local_ref(l1, l2, lambda i: ([1], [0]))
    expect_mpa(ctx, mp.dot(a, b), ref, shape, 'matrix product',
               cscale(l1, l2, np.prod(mid)), rtol)
    if not mps:
        m = np.dot(dn.global_matrix(l1), dn.global_matrix(l2))
        got = mp.dot(a, b).to_array_global().reshape(m.shape)
        ctx.close(got, m, 'matrix product (global)',
                  cscale(l1, l2, np.prod(mid)), rtol)
    ctx.event('default_axes')


def partialdot(ctx):
    s1, s2, ax1, ax2 = pair(ctx, max_out=600)
    n = len(s1)
    left, right = ctx.randint(0, 2), ctx.randint(0, 2)
    first_longer = ctx.chance(.5)
    ext = lambda k: tuple(gen.rand_legs(ctx, ctx.randint(0, 2), 2)
                          for _ in range(k))
    axes = spec(ctx, ax1, ax2, len(s1[0]), len(s2[0]))
    e_l, e_r = ext(left), ext(right)
    if left + right == 0:
        first_longer = True
    if first_longer:
        s1 = e_l + s1 + e_r
    else:
        s2 = e_l + s2 + e_r
    a, b, l1, l2, rtol = two(ctx, s1, s2)
    ones = lambda k: [np.ones((1, 1))] * k
    p1 = l1 if first_longer else ones(left) + l1 + ones(right)
    p2 = ones(left) + l2 + ones(right) if first_longer else l2
    ref, shape = local_ref(
        p1, p2, lambda i: (ax1, ax2) if left <= i < left + n else ([], []))
    k = np.prod([s[p] for s in (s1[left:left + n] if first_longer else s1)
                 for p in ax1])
    ctx.signature(axes, left, right, first_longer)
    res = mp.partialdot(a, b, start_at=left, axes=axes)
    expect_mpa(ctx, res, ref, shape, 'partialdot', cscale(l1, l2, k), rtol)
    ctx.event('partialdot:' + ('equal' if left + right == 0 else
                               'first' if first_longer else 'second'))
    if left and right:
        ctx.event('partialdot:inside')


def inner_norm(ctx):
    shape = gen.rand_shape(ctx)
    a, b, l1, l2, rtol = two(ctx, shape, shape, 4)
    d1, d2 = dn.dense(l1), dn.dense(l2)
    n1, n2 = np.linalg.norm(d1), np.linalg.norm(d2)
    size = max(1, d1.size)
    scale = dn.noise(l1, l2) * np.sqrt(size)
    scale = max(scale, n1 * n2)
    expect_scalar(ctx, mp.inner(a, b), np.vdot(d1, d2), 'inner', scale, rtol)
    expect_scalar(ctx, mp.inner(b, a), np.vdot(d2, d1), 'inner', scale, rtol)
    s1 = 1e-2 * dn.bound(l1) * np.sqrt(size)
    s2 = 1e-2 * dn.bound(l2) * np.sqrt(size)
    if a.lt[0].dtype.kind == 'i' or b.lt[0].dtype.kind == 'i':
        ctx.event('integer_operands')
    dist = np.linalg.norm(d1.astype('c16') - d2)
    # differences lose digits: absolute error of the order of the norms
    expect_scalar(ctx, mp.normdist(a, b), dist, 'normdist', s1 + s2 + n1 + n2,
                  max(rtol, 3e-8))
    # (re-gauges a)
    expect_scalar(ctx, mp.norm(a), n1, 'norm', s1, rtol)
    expect_mpa(ctx, a, d1, shape, 'argument of norm', 1e-2 * dn.bound(l1),
               rtol)
    expect_scalar(ctx, mp.norm(a), n1, 'norm (again)', s1, rtol)
    ctx.event('inner_products')


def sandwich(ctx):
    n = ctx.randint(1, 5)
    kind = ctx.randint(0, 2)
    cols = [ctx.randint(1, 3) for _ in range(n)]
    rows = [ctx.randint(1, 3) for _ in range(n)] if kind else cols
    mpo = gen.rand_mpa(ctx, shape=tuple(zip(rows, cols)), max_rank=4)
    mps = gen.rand_mpa(ctx, shape=tuple((d,) for d in cols), max_rank=4)
    lo, l1 = dn.tens(mpo), dn.tens(mps)
    mat, v = dn.global_matrix(lo), dn.dense(l1).ravel()
    if kind:
        mps2 = gen.rand_mpa(ctx, shape=tuple((d,) for d in rows), max_rank=4)
        l2 = dn.tens(mps2)
        w = dn.dense(l2).ravel()
        got = mp.sandwich(mpo, mps, mps2)
        rtol = gen.rtol_of(mpo, mps, mps2)
        ctx.event('sandwich:two')
    else:
        l2, w = l1, v
        got = mp.sandwich(mpo, mps)
        rtol = gen.rtol_of(mpo, mps)
        ctx.event('sandwich:one')
    scale = dn.noise(lo, l1, l2) * np.sqrt(mat.size)
    expect_scalar(ctx, got, np.vdot(w, mat.dot(v)), 'sandwich', scale, rtol)
    # documented equivalence
    other = mp.inner(mps if not kind else mps2, mp.dot(mpo, mps))
    expect_scalar(ctx, got, other, 'sandwich versus inner + dot', scale, rtol)


def localouter(ctx):
    n = ctx.randint(1, 4)
    s1 = gen.rand_shape(ctx, sites=n, max_legs=2, max_size=60)
    s2 = gen.rand_shape(ctx, sites=n, max_legs=2, max_size=60)
    a, b, l1, l2, rtol = two(ctx, s1, s2)
    ref, shape = local_ref(l1, l2, lambda i: ([], []))
    expect_mpa(ctx, mp.localouter(a, b), ref, shape, 'localouter',
               cscale(l1, l2, 1), rtol)


def chain(ctx):
    k = ctx.randint(1, 4)
    mpas = [gen.rand_mpa(ctx, shape=gen.rand_shape(
        ctx, max_sites=3, max_legs=2, max_size=9)) for _ in range(k)]
    ref, shape, scale = np.array(1.0), (), 1e-2
    for m in mpas:
        lts = dn.tens(m)
        ref = np.multiply.outer(ref, dn.dense(lts))
        shape += dn.shape_of(lts)
        scale *= dn.bound(lts)
    arg = ctx.pick([list, tuple, iter])(mpas)
    res = mp.chain(arg)
    expect_mpa(ctx, res, ref, shape, 'chain', scale, gen.rtol_of(*mpas))
    ctx.raises((Exception,), lambda: mp.chain([]), 'chain of nothing')
    if ctx.chance(.3):
        result_type(ctx, lambda a, **kw: mp.chain([a] + mpas[1:], **kw),
                    lambda t: t(dn.tens(mpas[0])), 'astype', 'chain')


def long_chain(ctx):
    n = ctx.randint(20, 80)
    d = ctx.randint(2, 3)
    mk = lambda s: normalized(ctx, (s,) * n)
    a, b = mk((d,)), mk((d,))
    op = mk((d, d))
    la, lb, lo = dn.tens(a), dn.tens(b), dn.tens(op)
    ctx.signature(n, d, a.ranks, b.ranks)
    ctx.nontrivial = True
    expect_scalar(ctx, mp.inner(a, b), dn.inner(la, lb), 'inner (long)', 1.)
    ref = dn.sandwich(lb, lo, la)
    got = mp.sandwich(op, a, b)
    expect_scalar(ctx, got, ref, 'sandwich (long)', 1.)
    res = mp.dot(op, a)
    lr = dn.tens(res)
    ctx.close(dn.inner(lb, lr), ref, 'dot (long)', scale=1.)
    expect_scalar(ctx, mp.norm(a), dn.norm(la), 'norm (long)', 1.)
    ctx.check(abs(dn.norm(dn.tens(a)) - dn.norm(la)) <= 1e-8 * dn.norm(la),
              'norm changed the array (long)')
    expect_scalar(ctx, mp.normdist(a, b), np.sqrt(abs(
        dn.norm(la)**2 + dn.norm(lb)**2 - 2 * dn.inner(la, lb).real)),
        'normdist (long)', 1., 1e-6)
    ctx.event('long_chains')


def close_arrays(ctx):
    """The norm distance of nearly equal arrays keeps its digits"""
    n = ctx.pick([2, 3, 4, 6, 9, 12, 25])
    shape = gen.rand_shape(ctx, sites=n, min_legs=1, max_legs=2,
                           max_size=float('inf'), max_dim=3)
    lts = gen.rand_tensors(ctx, shape, dtype=ctx.pick(('f8', 'c16')),
                           max_rank=4, wild=False)
    k = ctx.randint(0, n - 1)
    lts = gen.own_canonical(ctx, lts, k, k + 1)
    lts[k] = lts[k] / np.linalg.norm(lts[k])
    step = gen.rand_array(ctx, lts[k].shape, lts[k].dtype)
    eps = ctx.pick([0., 1e-6, 1e-8, 1e-9, 1e-10, 1e-11])
    step = eps * step / np.linalg.norm(step)
    other = [t.copy() for t in lts]
    other[k] = other[k] + step
    a = mp.MPArray(LocalTensors(lts, cform=(k, k + 1))) if ctx.chance(.5) \
        else mp.MPArray(lts)
    b = mp.MPArray(other)
    ctx.signature(shape, k, eps)
    ctx.nontrivial = True
    got = mp.normdist(a, b)
    ctx.check(abs(got - eps) <= 1e-12, 'normdist of nearly equal arrays',
              got=float(got), expected=eps)
    c = a - b
    ctx.check(abs(mp.norm(c) - eps) <= 1e-12, 'norm of a small difference',
              expected=eps)
    got = mp.normdist(b, a)
    ctx.check(abs(got - eps) <= 1e-12, 'normdist is not symmetric',
              got=float(got), expected=eps)
    ctx.event('close_arrays')


def changing(ctx):
    """Products of arrays which are changed in place between calls"""
    n = ctx.pick([1, 2, 3, 4, 6, 9, 12, 20])
    d = [ctx.randint(1, 3) for _ in range(n)]
    a, b = (normalized(ctx, tuple((x,) for x in d)) for _ in range(2))
    op = normalized(ctx, tuple((x, x) for x in d))
    ctx.signature(d, a.ranks, b.ranks, op.ranks)
    ctx.nontrivial = n > 1
    for _ in range(ctx.randint(2, 4)):
        la, lb, lo = dn.tens(a), dn.tens(b), dn.tens(op)
        na, nb, no = dn.norm(la), dn.norm(lb), dn.norm(lo)
        ctx.check(np.isfinite([na, nb, no]).all(), 'generator')
        expect_scalar(ctx, mp.inner(a, b), dn.inner(la, lb),
                      'inner (changing)', na * nb)
        ref = dn.sandwich(lb, lo, la)
        expect_scalar(ctx, mp.sandwich(op, a, b), ref, 'sandwich (changing)',
                      na * nb * no)
        ctx.close(dn.inner(lb, dn.tens(mp.dot(op, a))), ref,
                  'dot (changing)', scale=na * nb * no)
        expect_scalar(ctx, mp.normdist(a, b), np.sqrt(abs(
            na ** 2 + nb ** 2 - 2 * dn.inner(la, lb).real)),
            'normdist (changing)', na + nb, 1e-6)
        expect_scalar(ctx, mp.norm(a), na, 'norm (changing)')
        expect_scalar(ctx, mp.norm(op), no, 'norm (changing)')
        for m in (a, b, op):
            if ctx.chance(.7):
                gen.change_in_place(ctx, m)
    ctx.event('changing')


def large_ranks(ctx):
    n = ctx.randint(2, 9)
    legs = [ctx.randint(2, 4) for _ in range(n)]
    shape = tuple((x,) for x in legs)
    ab = []
    for _ in range(2):
        ranks = [ctx.randint(4, 36) for _ in range(n - 1)]
        lts = gen.rand_tensors(ctx, shape, ranks=ranks, wild=False,
                               dtype=ctx.pick(('f8', 'c16', 'c16')))
        nrm = dn.norm(lts) ** (1. / n)
        ab.append(gen.build(ctx, [t / nrm for t in lts]))
    a, b = ab
    la, lb = dn.tens(a), dn.tens(b)
    ctx.signature(legs, a.ranks, b.ranks)
    ctx.nontrivial = True
    expect_scalar(ctx, mp.inner(a, b), dn.inner(la, lb),
                  'inner (large ranks)', 1.)
    expect_scalar(ctx, mp.inner(b, a), dn.inner(lb, la),
                  'inner (large ranks)', 1.)
    expect_scalar(ctx, mp.normdist(a, b), np.sqrt(abs(
        2 - 2 * dn.inner(la, lb).real)), 'normdist (large ranks)', 1., 1e-6)
    lo = gen.rand_tensors(ctx, tuple((x, x) for x in legs), wild=False,
                          dtype=ctx.pick(('f8', 'c16')), max_rank=3)
    op = gen.build(ctx, lo)
    lo = dn.tens(op)
    expect_scalar(ctx, mp.sandwich(op, a, b), dn.sandwich(lb, lo, la),
                  'sandwich (large ranks)', dn.norm(lo))
    expect_scalar(ctx, mp.norm(a), 1., 'norm (large ranks)', 1.)
    ctx.event('large_ranks')


def related_vectors(ctx):
    """Second vector of a sandwich related to the first one (scaled,
    conjugated, nearly equal): still the second vector"""
    n = ctx.randint(1, 5)
    d = [ctx.randint(1, 3) for _ in range(n)]
    shape = tuple((x,) for x in d)
    v = normalized(ctx, shape)
    how = ctx.randint(0, 4)
    if how == 0:
        c = 10. ** ctx.randint(-12, 6)
        w = v * (c * ctx.pick([2, -1, 3j]))
        v = v * c
    elif how == 1:
        w = v.conj()
    elif how == 2:
        w = v + v * (10. ** -ctx.randint(1, 7))
    elif how == 3:
        w = v + normalized(ctx, shape) * (10. ** -ctx.randint(1, 7))
    else:
        w = v.copy()
        w *= 1j
    op = normalized(ctx, tuple((x, x) for x in d))
    lv, lw, lo = dn.tens(v), dn.tens(w), dn.tens(op)
    ref = dn.sandwich(lw, lo, lv)
    scale = dn.norm(lv) * dn.norm(lw) * dn.norm(lo)
    expect_scalar(ctx, mp.sandwich(op, v, w), ref,
                  'sandwich of related vectors', scale, 1e-11)
    expect_scalar(ctx, mp.sandwich(op, w, v), dn.sandwich(lv, lo, lw),
                  'sandwich of related vectors', scale, 1e-11)
    expect_scalar(ctx, mp.inner(w, v), dn.inner(lw, lv),
                  'inner of related vectors', dn.norm(lv) * dn.norm(lw),
                  1e-11)
    ctx.signature('related', how, d)
    ctx.nontrivial = n > 1
    ctx.event('related_vectors')


def normalized(ctx, shape):
    lts = gen.rand_tensors(ctx, shape, dtype=ctx.pick(('f8', 'c16')),
                           max_rank=4, wild=False)
    nrm = dn.norm(lts) ** (1.0 / len(lts))
    return gen.build(ctx, [t / nrm for t in lts])


def refusals(ctx):
    s1, s2, ax1, ax2 = pair(ctx, max_out=300)
    a = gen.rand_mpa(ctx, shape=s1)
    b = gen.rand_mpa(ctx, shape=s2 + s2[-1:])
    bad = (Exception,)
    axes = (tuple(ax1), tuple(ax2))
    ctx.raises(bad, lambda: mp.dot(a, b, axes), 'dot of different lengths')
    ctx.raises(bad, lambda: mp.localouter(a, b),
               'localouter of different lengths')
    c = gen.rand_mpa(ctx, shape=s1 + s1[-1:])
    ctx.raises(bad, lambda: mp.inner(a, c), 'inner of different lengths')
    ctx.raises(bad, lambda: mp.normdist(a, c), 'normdist of different lengths')
    d = gen.rand_mpa(ctx, shape=s2)
    if len(ax1) > 1:
        wrong = (tuple(ax1), tuple(ax2[:-1]))
        ctx.raises(bad, lambda: mp.dot(a, d, wrong),
                   'different number of contracted legs')


SCENARIOS = [('dot', dot), ('matrix_product', matrix_product),
             ('partialdot', partialdot), ('inner_norm', inner_norm),
             ('sandwich', sandwich), ('localouter', localouter),
             ('chain', chain), ('dot2', dot), ('long_chain', long_chain),
             ('partialdot2', partialdot), ('refusals', refusals), ('close_arrays', close_arrays),
             ('changing', changing), ('large_ranks', large_ranks),
             ('related_vectors', related_vectors)]
REQUIRED = ['axes:int', 'axes:sequence', 'default_axes', 'form:mixed',
            'partialdot:first', 'partialdot:second', 'partialdot:equal',
            'partialdot:inside', 'sandwich:one', 'sandwich:two', 'refusals', 'changing', 'large_ranks',
            'related_vectors']
