# encoding: utf-8
"""C02: linear arithmetic"""
from __future__ import division

import functools
import operator

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa

PROP = 'C02'
RULE = ('pairs/lists of MPAs with equal leg structure, independent ranks, '
        'dtypes and canonical forms; scalars of all Python/numpy types; '
        'non-trivial: at least two sites and one rank above one')
QUICK, THOROUGH = 3600, 40000


def operands(ctx, n, **kw):
    shape = gen.rand_shape(ctx, **kw)
    mixed = ctx.chance(0.5)
    dtype = ctx.pick(gen.DTYPES)
    out = []
    odd = ctx.randint(0, n - 1) \
        if n > 2 and ctx.chance(.2 if n < 30 else .5) else None
    for k in range(n):
        if odd is not None:     # one of them has another type than the rest
            now = 'c16' if k == odd else 'f8'
        else:
            now = ctx.pick(gen.DTYPES) if mixed else dtype
        m = gen.rand_mpa(ctx, shape=shape, dtype=now, max_rank=4)
        out.append(m)
        ctx.event('dtype:' + m.lt[0].dtype.char)
    if mixed:
        ctx.event('mixed_dtypes')
    return shape, out


def scale_of(mpas):
    return 1e-2 * sum(dn.bound(dn.tens(m)) for m in mpas)


def add_sub(ctx):
    shape, (a, b) = operands(ctx, 2)
    if ctx.chance(.1):
        b = a
    da, db = dn.dense(a), dn.dense(b)
    rtol, scale = gen.rtol_of(a, b), scale_of([a, b])
    expect_mpa(ctx, a + b, da + db, shape, 'a + b', scale, rtol)
    expect_mpa(ctx, a - b, da - db, shape, 'a - b', scale, rtol)
    expect_mpa(ctx, -a, -da, shape, '-a', scale, rtol)
    expect_mpa(ctx, +a, da, shape, '+a', scale, rtol)
    zero = a - a
    expect_mpa(ctx, zero, np.zeros_like(da), shape, 'a - a', scale, rtol)
    got = (a + b).to_array()
    ctx.close(got, da + db, '(a + b).to_array()', scale, rtol)
    if da.dtype.kind == db.dtype.kind == 'f':
        ctx.check(got.dtype.kind == 'f', 'sum of real arrays became complex')
    ctx.event('additions')


def in_place_add(ctx):
    """+= and -= rebind, but have to give the right value"""
    shape, (a, b) = operands(ctx, 2)
    da, db = dn.dense(a), dn.dense(b)
    rtol, scale = gen.rtol_of(a, b), scale_of([a, b])
    c = a
    c += b
    expect_mpa(ctx, c, da + db, shape, 'a += b', scale, rtol)
    c -= b
    expect_mpa(ctx, c, da, shape, 'a += b; a -= b', 2 * scale, rtol)
    expect_mpa(ctx, b, db, shape, 'right operand of +=', scale, rtol)


def scalar(ctx):
    shape, (a,) = operands(ctx, 1)
    if a.lt[0].dtype.kind == 'i' and ctx.chance(.5):
        s = ctx.randint(-3, 4)
    else:
        s = gen.rand_scalar(ctx)
    if ctx.chance(.04):
        s = ctx.pick([0, 0.0, 0j])
    ctx.signature(type(s).__name__)
    da = dn.dense(a)
    rtol, scale = gen.rtol_of(a), scale_of([a])
    expect_mpa(ctx, a * s, da * s, shape, 'a * s', scale * abs(s), rtol)
    expect_mpa(ctx, s * a, da * s, shape, 's * a', scale * abs(s), rtol)
    if s != 0:
        expect_mpa(ctx, a / s, da / s, shape, 'a / s', scale / abs(s), rtol)
        ctx.event('divisions')
        if not 1e-9 < abs(s) < 1e9:
            ctx.event('extreme_scalars')
    # operands survive
    expect_mpa(ctx, a, da, shape, 'operand of a * s', scale, rtol)
    ctx.event('scalings')


def scalar_in_place(ctx):
    shape, (a,) = operands(ctx, 1)
    da = dn.dense(a)
    rtol, scale = gen.rtol_of(a), scale_of([a])
    fac = 1.0
    b = a
    for _ in range(ctx.randint(1, 4)):
        s = gen.rand_scalar(ctx)
        mul = ctx.chance(.5)
        new = fac * abs(s) if mul else fac / abs(s)
        if not 1e-21 < new < 1e21:
            break
        fac = new
        if mul:
            b *= s
            da = da * s
        else:
            b /= s
            da = da / s
        ctx.check(b is a, 'in-place scaling returned another object')
        expect_mpa(ctx, a, da, shape, 'in-place scaling', scale * fac, rtol)
        if ctx.chance(.3):
            a.canonicalize()
            expect_mpa(ctx, a, da, shape, 'in-place scaling + canonicalize',
                       scale * fac, rtol)
    ctx.event('inplace_scalings')


def sumup(ctx):
    n = ctx.pick([1, 2, 2, 3, 3, 4, 5, 6])
    if ctx.chance(.06):
        n = ctx.randint(7, 40) if ctx.chance(.5) else ctx.randint(60, 140)
        ctx.event('many_summands')
    shape, mpas = operands(ctx, n, max_size=1000 if n < 7 else
                           60 if n < 50 else 24)
    if n > 1 and ctx.chance(.15):
        mpas[-1] = mpas[0]
    ds = [dn.dense(m) for m in mpas]
    rtol, scale = gen.rtol_of(*mpas), scale_of(mpas)
    ref = functools.reduce(operator.add, ds)
    arg = ctx.pick([list, tuple, iter])(mpas)
    expect_mpa(ctx, mp.sumup(arg), ref, shape, 'sumup', scale, rtol)
    weights = [gen.rand_scalar(ctx) for _ in mpas]
    if ctx.chance(.2):
        weights = [ctx.randint(-3, 3) for _ in mpas]
    if ctx.chance(.2):
        weights = np.array(weights)
    big = max(1.0, max(abs(w) for w in weights))
    ref = functools.reduce(operator.add, [w * d for w, d in zip(weights, ds)])
    arg = ctx.pick([list, tuple, iter])(mpas)
    w = weights if ctx.chance(.7) else iter(weights)
    expect_mpa(ctx, mp.sumup(arg, weights=w), ref, shape, 'weighted sumup',
               scale * big, rtol)
    # Python's own sum cannot start from 0, but from an MPA
    if n > 1:
        expect_mpa(ctx, sum(mpas[1:], mpas[0]),
                   functools.reduce(operator.add, ds), shape, 'sum()', scale,
                   rtol)
    ctx.event('sumups')


def refusals(ctx):
    shape, (a,) = operands(ctx, 1)
    n = len(shape)
    other = gen.rand_mpa(ctx, shape=shape + shape[-1:])
    bad = (Exception,)
    ctx.raises(bad, lambda: a + other, 'sum of different lengths')
    ctx.raises(bad, lambda: other - a, 'difference of different lengths')
    ctx.raises(bad, lambda: mp.sumup([a, other]), 'sumup of different lengths')
    vec = ctx.pick([np.ones(3), [1., 2.], np.ones((2, 2)), a, 'x'])
    for name, op in (('*', operator.mul), ('/', operator.truediv),
                     ('*=', operator.imul), ('/=', operator.itruediv)):
        if isinstance(vec, (np.ndarray, str)) and name in '*/':
            # numpy and str would be asked first on the other side only
            pass
        b = a.copy()
        before = dn.tens(b)
        ctx.raises(bad, lambda: op(b, vec), 'non-scalar operand of ' + name,
                   operand=repr(vec)[:40])
        for s, t in zip(before, b.lt):
            ctx.check(np.array_equal(s, t), 'refused scaling changed the MPA')
    if n > 1:
        # incompatible legs on some inner or outer site
        k = ctx.randint(0, n - 1)
        wrong = list(shape)
        if len(wrong[k]):
            j = ctx.randint(0, len(wrong[k]) - 1)
            leg = list(wrong[k])
            leg[j] += 1
            if k in (0, n - 1):
                # the outer sites are checked by concatenation
                wrong[k] = tuple(leg)
                c = gen.rand_mpa(ctx, shape=tuple(wrong))
                ctx.raises(bad, lambda: a + c, 'sum with different legs',
                           site=k)


def long_chain(ctx):
    n = ctx.randint(30, 120)
    shape = tuple((2,) for _ in range(n))
    mpas = []
    for _ in range(3):
        lts = gen.rand_tensors(ctx, shape, dtype=ctx.pick(('f8', 'c16')),
                               max_rank=3, wild=False)
        nrm = dn.norm(lts) ** (1.0 / n)
        mpas.append(gen.build(ctx, [t / nrm for t in lts]))
    a, b, c = mpas
    ctx.signature(n, [m.ranks for m in mpas])
    ctx.nontrivial = True
    s = gen.rand_scalar(ctx)
    res = a + s * b - c
    la, lb, lc = (dn.tens(m) for m in mpas)
    ref = [(1, la), (s, lb), (-1, lc)]
    nn = sum(np.conj(x) * y * dn.inner(l, r) for x, l in ref for y, r in ref)
    lr = dn.tens(res)
    got = dn.inner(lr, lr)
    ctx.close(got, nn, 'norm of long sum', scale=1 + abs(s)**2, rtol=1e-8)
    for x, l in ref:
        ctx.close(dn.inner(l, lr), sum(y * dn.inner(l, r) for y, r in ref),
                  'overlap of long sum', scale=1 + abs(s), rtol=1e-8)
    ctx.event('long_chains')


def many(ctx):
    """Many small summands, one of another type than the rest"""
    n = ctx.randint(7, 40) if ctx.chance(.5) else ctx.randint(41, 140)
    shape = gen.rand_shape(ctx, max_size=24, max_sites=5)
    base, other = ctx.pick([('f8', 'c16'), ('f8', 'c16'), ('f4', 'f8'),
                            ('i8', 'c16'), ('c16', 'f8'), ('i8', 'f8')])
    odd = ctx.pick([0, n - 1, ctx.randint(0, n - 1), ctx.randint(0, n - 1)])
    mpas = [mp.MPArray(gen.rand_tensors(
        ctx, shape, dtype=other if k == odd else base, max_rank=2,
        wild=False)) for k in range(n)]
    ds = [dn.dense(m) for m in mpas]
    rtol, scale = gen.rtol_of(*mpas), scale_of(mpas)
    w = ctx.rng.randn(n) if ctx.chance(.7) else None
    if w is not None and ctx.chance(.3):
        w = w + 1j * ctx.rng.randn(n) * (np.arange(n) == ctx.pick([odd, 0]))
    ref = functools.reduce(operator.add, ds if w is None else
                           [x * d for x, d in zip(w, ds)])
    res = mp.sumup(mpas) if w is None else mp.sumup(mpas, weights=w)
    expect_mpa(ctx, res, ref, shape, 'sum of many arrays', scale * 3, rtol)
    ctx.signature(n, shape, base, other, odd)
    ctx.nontrivial = len(shape) > 1
    ctx.event('many_of_two_types')


SCENARIOS = [('add_sub', add_sub), ('scalar', scalar), ('sumup', sumup),
             ('scalar_in_place', scalar_in_place), ('add_sub2', add_sub),
             ('in_place_add', in_place_add), ('refusals', refusals),
             ('scalar2', scalar), ('long_chain', long_chain),
             ('many', many)]
REQUIRED = ['mixed_dtypes', 'form:mixed', 'dtype:f', 'dtype:D', 'refusals',
            'many_of_two_types']
