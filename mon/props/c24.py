# encoding: utf-8
"""C24: projection onto probability distributions"""
from __future__ import division

import numpy as np

from mpnum.utils.pmf import project_nonneg, project_pmf

from .. import gen

PROP = 'C24'
RULE = ('real and complex arrays (any shape, layout, zero-dimensional, numpy '
        'scalars) with entries and sums placed inside, at and outside the '
        'tolerances; non-trivial: some entry has to be changed or refused')
QUICK, THOROUGH = 12000, 96000


def tolerances(ctx):
    return [10. ** ctx.randint(-12, -1) for _ in range(2)]


def writable(arg):
    """Real arrays are modified in place, by contract"""
    return arg if arg.flags.writeable or arg.dtype.kind == 'c' \
        else np.array(arg)


def kwargs(ctx, ieps, reps, trunc):
    kw = {'imag_eps': ieps, 'real_eps': reps, 'real_trunc': trunc}
    if trunc == 0 and ctx.chance(.5):
        del kw['real_trunc']
    return kw


def values(ctx, shape, ieps, reps, trunc):
    """Values near all thresholds (never closer than 1e-3 relative, except
    for exact hits)"""
    x = ctx.rng.rand(*shape) + .01
    flat = x.reshape(-1) if shape else x
    if not shape:
        x = np.array(x)
        flat = x.reshape(-1)
    for k in range(flat.size):
        what = ctx.randint(0, 9)
        if what == 0:
            flat[k] = -reps * ctx.rng.uniform(.001, .99)
        elif what == 1:
            flat[k] = -reps
        elif what == 2:
            flat[k] = 0.
        elif what == 3 and trunc:
            flat[k] = trunc
        elif what == 4 and trunc:
            flat[k] = trunc * ctx.rng.uniform(.1, .99)
        elif what == 5 and trunc:
            flat[k] = trunc * ctx.rng.uniform(1.01, 3)
        elif what == 6:
            flat[k] = 10. ** ctx.randint(-15, 3)
    return x


def nonneg(ctx):
    ieps, reps = tolerances(ctx)
    trunc = ctx.pick([0., 0., 10. ** ctx.randint(-12, -1)])
    shape = tuple(ctx.randint(1, 4) for _ in range(ctx.randint(0, 3)))
    if ctx.chance(.02):
        shape = ctx.pick([(300,), (40, 60), (2,) * 11, (5000,)])
    x = values(ctx, shape, ieps, reps, trunc)
    cplx = ctx.chance(.5)
    bad = ctx.pick([None, None, 'real', 'imag' if cplx else 'real'])
    pos = tuple(ctx.randint(0, d - 1) for d in shape)
    if bad == 'real':
        x[pos] = -reps * ctx.pick([1.01, 2., 1e3])
    if cplx:
        im = ieps * ctx.rng.uniform(-.99, .99, size=shape)
        if ctx.chance(.2):
            im = np.full(shape, ieps) * ctx.pick([1, -1])
        if bad == 'imag':
            im = np.array(im)
            im[pos] = ieps * ctx.pick([1.01, -1.01, 5., -1e3])
        arg = np.array(x + 1j * im)
    else:
        arg = np.array(x)
    arg = writable(gen.layout(ctx, arg)) if shape else arg
    scalar = not shape and ctx.chance(.6)
    if scalar:
        arg = arg[()]
    keep = np.array(arg)
    kw = kwargs(ctx, ieps, reps, trunc)
    ctx.signature(shape, cplx, bad, sorted(kw.items()), scalar)
    if bad:
        ctx.raises(AssertionError, lambda: project_nonneg(arg, **kw),
                   'project_nonneg: invalid values', bad=bad,
                   value=keep[pos], **kw)
        if cplx:
            ctx.check(np.array_equal(np.asarray(arg), keep),
                      'project_nonneg: refused complex array changed')
        ctx.nontrivial = True
        return
    want = np.where(x <= trunc, 0., x)
    ctx.nontrivial = bool((want != x).any()) or cplx
    res = project_nonneg(arg, **kw)
    ctx.check(np.shape(res) == shape, 'project_nonneg: shape')
    ctx.check(np.asarray(res).dtype.kind == 'f', 'project_nonneg: not real')
    ctx.check(np.array_equal(np.asarray(res), want), 'project_nonneg: values',
              got=np.asarray(res), expected=want, **kw)
    if cplx:
        ctx.check(np.array_equal(np.asarray(arg), keep),
                  'project_nonneg: complex array changed')
        if not scalar and shape:
            ctx.check(not np.shares_memory(res, arg),
                      'project_nonneg: result shares memory')
            ctx.event('complex')
    elif shape:
        ctx.check(res is arg, 'project_nonneg: real array not returned')
        ctx.event('in_place')
    again = project_nonneg(np.array(res), **kw)
    ctx.check(np.array_equal(np.asarray(again), np.asarray(res)),
              'project_nonneg: not idempotent')
    ctx.event('nonneg')


def pmf(ctx):
    ieps, reps = tolerances(ctx)
    trunc = ctx.pick([0., 0., 0., 10. ** ctx.randint(-12, -4)])
    shape = tuple(ctx.randint(1, 4) for _ in range(ctx.randint(1, 3)))
    if ctx.chance(.02):
        shape = ctx.pick([(300,), (40, 60), (2,) * 11, (5000,)])
    x = ctx.rng.rand(*shape)
    if ctx.chance(.3):
        x[ctx.rng.rand(*shape) < .4] = 0
    if not x.sum() > 0:
        x.flat[0] = 1.
    x /= x.sum()
    if trunc and x.size == 1:
        trunc = 0.
    if trunc:
        x.flat[ctx.randint(0, x.size - 1)] = trunc * ctx.rng.uniform(.1, .9)
        x[x <= trunc] *= .5
        if not (x > .01).any():
            return
        x /= np.where(x > trunc, x, 0).sum()
    # deviation of the sum after projection
    what = ctx.randint(0, 5)
    noise = max(1e-14, 1e-14 * x.size)
    off = 0.
    bad = None
    if what == 0:
        off = reps * ctx.rng.uniform(-.9, .9)
    elif what == 1:
        off = reps * ctx.pick([-1.2, 1.2, 3., -3.])
        bad = 'sum' if abs(off) > reps + 10 * noise else None
        if 1 + off <= 0:
            off = abs(off)
    x = x * (1 + off)
    want = np.where(x <= trunc, 0., x)
    s = want.sum()
    if abs(abs(s - 1) - reps) < 5 * noise:
        return                                  # undecidable by rounding
    bad = 'sum' if abs(s - 1) > reps else None
    cplx = ctx.chance(.4)
    if ctx.chance(.3):
        neg = x <= 0
        if neg.any():
            x = np.where(neg, -reps * ctx.rng.uniform(.01, .9, shape), x)
    if ctx.chance(.15):
        pos = tuple(ctx.randint(0, d - 1) for d in shape)
        bad = 'negative'
        x[pos] = -reps * 2
    arg = np.array(x)
    if cplx:
        im = ieps * ctx.rng.uniform(-.99, .99, size=shape)
        if ctx.chance(.2):
            im.flat[ctx.randint(0, im.size - 1)] = ieps * 1.5
            bad = 'imag'
        arg = x + 1j * im
    arg = writable(gen.layout(ctx, arg))
    keep = np.array(arg)
    kw = kwargs(ctx, ieps, reps, trunc)
    ctx.signature(shape, cplx, bad, sorted(kw.items()), what)
    if bad:
        ctx.raises(AssertionError, lambda: project_pmf(arg, **kw),
                   'project_pmf: invalid values', bad=bad, total=s, **kw)
        ctx.nontrivial = True
        ctx.event('refused:' + bad)
        return
    res = project_pmf(arg, **kw)
    ctx.check(res.dtype.kind == 'f' and res.shape == shape,
              'project_pmf: type')
    ctx.check((res >= 0).all(), 'project_pmf: negative')
    ctx.close(res.sum(), 1., 'project_pmf: normalization', rtol=1e-13)
    ctx.close(res, want / s, 'project_pmf: values', scale=1., rtol=1e-13)
    ctx.check((res[want == 0] == 0).all(), 'project_pmf: zeros')
    if cplx:
        ctx.check(np.array_equal(arg, keep), 'project_pmf: input changed')
    else:
        ctx.check(res is arg, 'project_pmf: real array not returned')
    again = project_pmf(np.array(res), **kw) if not trunc else res
    ctx.close(again, res, 'project_pmf: not idempotent', rtol=1e-13)
    ctx.nontrivial = True
    ctx.event('pmf')


def defaults(ctx):
    """Default tolerances are 1e-10"""
    p = ctx.rng.rand(ctx.randint(2, 6))
    p /= p.sum()
    ok, no = ctx.rng.uniform(.05, .8) * 1e-10, ctx.rng.uniform(2, 9) * 1e-10
    sign = ctx.pick([-1, 1])
    q = project_pmf(p * (1 + sign * ok))
    ctx.close(q, p, 'project_pmf with default tolerance', rtol=1e-12)
    ctx.raises(AssertionError, lambda: project_pmf(p * (1 + sign * no)),
               'sum beyond default tolerance')
    x = p.copy()
    x[0] = -ok
    ctx.check(project_nonneg(x)[0] == 0, 'default tolerance, negative')
    x = p.copy()
    x[0] = -no
    ctx.raises(AssertionError, lambda: project_nonneg(x),
               'negative beyond default tolerance')
    y = p + 1j * ok * sign
    ctx.close(project_nonneg(y), p, 'default tolerance, imaginary part')
    y = p + 0j
    y[-1] += 1j * no * sign
    ctx.raises(AssertionError, lambda: project_nonneg(y),
               'imaginary part beyond default tolerance')
    ctx.event('defaults')
    ctx.nontrivial = True
    ctx.signature(len(p), sign)


SCENARIOS = [('nonneg', nonneg), ('pmf', pmf), ('defaults', defaults)]
REQUIRED = ['nonneg', 'pmf', 'defaults', 'complex', 'in_place', 'refusals',
            'refused:sum', 'refused:negative', 'refused:imag']
