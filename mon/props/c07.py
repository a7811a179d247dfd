# encoding: utf-8
"""C07: canonicalization reaches the requested form and keeps the array"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa, expect_scalar, unchanged

PROP = 'C07'
RULE = ('MPAs (rank deficient, over-ranked, zero, all dtypes) in a random '
        'truthful form, sequences of canonicalization requests in all '
        'notations; non-trivial: at least two sites and one rank above one')
QUICK, THOROUGH = 2100, 30000
FLOATS = ('f8', 'c16', 'f8', 'c16', 'f4', 'c8')


def start(ctx, **kw):
    if not kw and ctx.chance(.02):
        return gen.wide_mpa(ctx)
    a = gen.rand_mpa(ctx, dtypes=FLOATS, max_rank=ctx.pick([3, 5, 9]), **kw)
    if ctx.chance(.05):
        a.lt[0] = a.lt[0] * 0
    return a


def notation(ctx, n, left, right):
    """Some way to ask for (left, right)"""
    l, r = left, right
    if left == n - 1 and ctx.chance(.5):
        l = 'afull'
    elif left == 0 and ctx.chance(.5):
        l = None
    elif 0 < left and ctx.chance(.3):
        l = left - n
    if right == 1 and ctx.chance(.5):
        r = 'afull'
    elif right == n and ctx.chance(.5):
        r = None
    elif right < n and ctx.chance(.3):
        r = right - n
    return l, r


def judge(ctx, a, arr, shape, scale, rtol, left, right, was, ranks, msg):
    expect_mpa(ctx, a, arr, shape, msg, scale, rtol)
    gl, gr = a.canonical_form
    ctx.check(0 <= gl < gr <= len(a), msg + ': form', form=(gl, gr))
    ctx.check(gl >= left and gr <= right, msg + ': requested sites are not '
              'reported canonical', form=(gl, gr), asked=(left, right),
              was=was)
    # sites which were canonical before and do not conflict stay canonical
    ctx.check(gl >= min(was[0], right - 1) and gr <= max(was[1], left + 1),
              msg + ': lost canonical sites', form=(gl, gr), was=was,
              asked=(left, right))
    defect = dn.claim_defect(a)
    ctx.check(defect is None, msg + ': ' + str(defect), was=was,
              asked=(left, right))
    ctx.check(all(x <= y for x, y in zip(a.ranks, ranks)),
              msg + ': rank increased', got=a.ranks, was=ranks)
    ctx.event('requests')
    if left and right < len(a):
        ctx.event('mixed_requests')


def requests(ctx):
    a = start(ctx)
    n = len(a)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    rtol, scale = gen.rtol_of(a), 1e-2 * dn.bound(lts)
    for _ in range(ctx.randint(1, 4)):
        was, ranks = tuple(a.canonical_form), tuple(a.ranks)
        left = ctx.randint(0, n - 1)
        right = ctx.randint(left + 1, n)
        what = ctx.randint(0, 5)
        if what == 0:
            right = n
        elif what == 1:
            left = 0
        l, r = notation(ctx, n, left, right)
        ctx.signature(l, r)
        if l is None and r is None:
            res = a.canonicalize()
            # any full form will do
            gl, gr = a.canonical_form
            ctx.check(gl == n - 1 or gr == 1,
                      'canonicalize(): neither fully left nor right '
                      'canonical', form=(gl, gr), was=was)
            judge(ctx, a, arr, shape, scale, rtol, 0, n, (0, n), ranks,
                  'canonicalize()')
            ctx.event('default_requests')
        else:
            if l is None and ctx.chance(.5):
                res = a.canonicalize(right=r)
            elif r is None and ctx.chance(.5):
                res = a.canonicalize(left=l)
            elif ctx.chance(.5):
                res = a.canonicalize(l, r)
            else:
                res = a.canonicalize(left=l, right=r)
            judge(ctx, a, arr, shape, scale, rtol, left, right, was, ranks,
                  'canonicalize({!r}, {!r})'.format(l, r))
        if ctx.chance(.2):
            a *= ctx.pick([2, -1, .5])
            arr = dn.dense(dn.tens(a))


def norms(ctx):
    a = start(ctx)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    rtol = gen.rtol_of(a)
    nrm = np.linalg.norm(arr)
    scale = 1e-2 * dn.bound(lts) * np.sqrt(arr.size)
    was = tuple(a.canonical_form)
    expect_scalar(ctx, mp.norm(a), nrm, 'norm', scale, rtol)
    expect_mpa(ctx, a, arr, shape, 'array after norm', scale, rtol)
    defect = dn.claim_defect(a)
    ctx.check(defect is None, 'norm: ' + str(defect), was=was)
    left = ctx.randint(0, len(a) - 1)
    right = ctx.randint(left + 1, len(a))
    a.canonicalize(left, right)
    expect_scalar(ctx, mp.norm(a), nrm, 'norm after canonicalize', scale, rtol)
    ctx.event('norms')
    if rtol < 1e-6:
        gen.change_in_place(ctx, a)
        expect_scalar(ctx, mp.norm(a), np.linalg.norm(dn.dense(dn.tens(a))),
                      'norm after in-place change',
                      1e-2 * dn.bound(dn.tens(a)) * np.sqrt(arr.size), rtol)


def refusals(ctx):
    a = start(ctx)
    n = len(a)
    before, form = dn.tens(a), tuple(a.canonical_form)
    # overlapping request
    left = ctx.randint(0, n)
    right = ctx.randint(0, left)
    l, r = left, right
    if ctx.chance(.3) and 0 < right < n:
        r = right - n
    ctx.raises((ValueError,), lambda: a.canonicalize(l, r),
               'overlapping request', asked=(l, r), n=n)
    unchanged(ctx, a, before, 'refused request', form)
    # out of range
    too_big = n + ctx.randint(1, 3)
    too_small = -n - ctx.randint(1, 3)
    for k in (too_big, too_small):
        ctx.raises((IndexError,), lambda: a.canonicalize(left=k),
                   'left bound out of range', k=k, n=n)
        ctx.raises((IndexError,), lambda: a.canonicalize(right=k),
                   'right bound out of range', k=k, n=n)
    unchanged(ctx, a, before, 'refused request', form)
    if n > 1:
        ctx.raises((ValueError,), lambda: a.canonicalize('afull', 'afull'),
                   'both afull')
        unchanged(ctx, a, before, 'refused request', form)
    ctx.signature(l, r, too_big, too_small)


def all_pairs(ctx):
    """Every request from every form of one chain"""
    n = ctx.randint(2, 5)
    shape = gen.rand_shape(ctx, sites=n, max_size=300, max_legs=2)
    base = gen.rand_tensors(ctx, shape, dtype=ctx.pick(FLOATS),
                            max_rank=ctx.pick([2, 4, 8]))
    arr = dn.dense(base)
    scale = 1e-2 * dn.bound(base)
    rtol = gen.rtol_of(base)
    ctx.signature(shape, [t.shape for t in base])
    ctx.nontrivial = True
    from mpnum.mpstruct import LocalTensors
    forms = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    was = ctx.pick(forms)
    lts = gen.own_canonical(ctx, base, *was)
    for left, right in forms:
        a = mp.MPArray(LocalTensors([t.copy() for t in lts], cform=was))
        ranks = tuple(a.ranks)
        a.canonicalize(left, right)
        judge(ctx, a, arr, shape, scale, rtol, left, right, was, ranks,
              'canonicalize({}, {}) from {}'.format(left, right, was))


def long_chain(ctx):
    n = ctx.randint(20, 70)
    lts = gen.rand_tensors(ctx, ((2,),) * n, dtype=ctx.pick(('f8', 'c16')),
                           max_rank=5, wild=False)
    lts = [t / dn.norm(lts) ** (1. / n) for t in lts]
    a = gen.build(ctx, lts)
    left = ctx.randint(0, n - 1)
    right = ctx.randint(left + 1, n)
    ctx.signature(n, left, right, a.ranks)
    ctx.nontrivial = True
    a.canonicalize(left, right)
    ctx.check(a.canonical_form[0] >= left and a.canonical_form[1] <= right,
              'form (long)')
    defect = dn.claim_defect(a)
    ctx.check(defect is None, 'long chain: ' + str(defect))
    ctx.check(dn.overlap_defect(lts, dn.tens(a)) < 1e-6,
              'array changed (long)')
    expect_scalar(ctx, mp.norm(a), dn.norm(lts), 'norm (long)')
    for _ in range(2):
        gen.change_in_place(ctx, a)
        expect_scalar(ctx, mp.norm(a), dn.norm(dn.tens(a)),
                      'norm after in-place change (long)')
        ctx.check(dn.claim_defect(a) is None, 'long chain after a change')
    ctx.event('long_chains')


SCENARIOS = [('requests', requests), ('norms', norms), ('refusals', refusals),
             ('requests2', requests), ('all_pairs', all_pairs),
             ('long_chain', long_chain), ('requests3', requests)]
REQUIRED = ['default_requests', 'mixed_requests', 'refusals', 'form:mixed',
            'form:left', 'form:right', 'wide']
