# encoding: utf-8
"""C06: the reported canonical form is truthful after any history"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen, ops

PROP = 'C06'
RULE = ('random histories of 6-25 public operations on a pool of MPAs; after '
        'each step every MPA of the pool is judged; non-trivial: a history '
        'in which some MPA with rank above one claimed canonical sites')
QUICK, THOROUGH = 1400, 16000


def truthful(ctx, mpa, msg, hist):
    defect = dn.chain_defect(mpa)
    ctx.check(defect is None, msg + ': malformed chain', defect=defect,
              history=hist[-8:])
    left, right = mpa.canonical_form
    ctx.check(0 <= left < right <= len(mpa),
              msg + ': canonical form leaves no site', form=(left, right),
              sites=len(mpa), history=hist[-8:])
    ctx.check(tuple(mpa.lt.canonical_form) == (left, right),
              msg + ': two different canonical forms')
    lts = dn.tens(mpa)
    if not all(np.isfinite(t).all() for t in lts):
        return
    defect = dn.claim_defect(mpa)
    ctx.check(defect is None, msg + ': ' + str(defect), history=hist[-8:])
    claimed = left + len(mpa) - right
    ctx.event('claims_verified', claimed)
    ctx.event('forms_judged')
    if claimed and len(mpa) > 1 and max(mpa.ranks) > 1:
        ctx.nontrivial = True
        if left and right < len(mpa):
            ctx.event('mixed_form_judged')


def run_history(ctx, p_update, steps):
    pool = [ops.new_mpa(ctx) for _ in range(ctx.randint(1, 3))]
    hist = []
    for _ in range(steps):
        a = ctx.pick(pool)
        table = ops.OTHER if ctx.chance(p_update) else ops.PURE
        fun = ctx.pick(table)
        before = gen.describe(a)
        step = fun(ctx, pool, a)
        if step is None:
            continue
        hist.append((step.name, before))
        ctx.event('op:' + step.name)
        ctx.signature(step.name)
        for m in step.results:
            truthful(ctx, m, 'result of ' + step.name, hist)
        for m in step.operands:
            truthful(ctx, m, 'operand of ' + step.name, hist)
        for m in pool:
            truthful(ctx, m, 'after ' + step.name, hist)
        for m in list(step.results) + list(step.operands):
            if not any(m is p for p in pool) and ops.fits(m) and \
                    1e-6 < dn.bound(dn.tens(m)) < 1e6:
                pool.append(m)
        while len(pool) > 5:
            pool.pop(ctx.randint(0, len(pool) - 1))
        pool = [m for m in pool if 1e-6 < dn.bound(dn.tens(m)) < 1e6] or \
            [ops.new_mpa(ctx)]
    ctx.note(history=hist[:12])


def mixed(ctx):
    run_history(ctx, .5, ctx.randint(8, 25))


def updates(ctx):
    """Mostly changes of one chain"""
    run_history(ctx, .85, ctx.randint(10, 30))


def gauge_then_derive(ctx):
    """One canonicalization followed by one derived object, all positions"""
    n = ctx.randint(2, 6)
    a = ops.new_mpa(ctx, sites=n, max_legs=2)
    left = ctx.randint(0, n - 1)
    right = ctx.randint(left + 1, n)
    a.canonicalize(left, right)
    hist = [('canonicalize', (left, right))]
    truthful(ctx, a, 'canonicalize', hist)
    for fun in ops.ALL_PURE:
        step = fun(ctx, [a], a)
        if step is None:
            continue
        hist.append(step.name)
        for m in list(step.results) + list(step.operands):
            truthful(ctx, m, step.name, hist)
        # and once more: derived objects of derived objects
        for m in step.results:
            if ops.fits(m):
                s = ctx.randint(0, len(m) - 1)
                m = m.copy()
                m *= 1.5
                truthful(ctx, m, step.name + ' + scaling', hist)
                t, claim = ops.replacement(ctx, m.lt[s].shape)
                m.lt.update(s, t, canonicalization=claim)
                truthful(ctx, m, step.name + ' + update', hist)
    ctx.signature(gen.describe(a))


def update_table(ctx):
    """Single updates on all sites of a chain with known form"""
    n = ctx.randint(1, 6)
    shape = gen.rand_shape(ctx, sites=n, max_legs=2, max_size=500, min_legs=1)
    lts = gen.rand_tensors(ctx, shape, dtype=ctx.pick(('f8', 'c16')))
    form = gen.rand_cform(ctx, n)
    lts = gen.own_canonical(ctx, lts, *form)
    from mpnum.mpstruct import LocalTensors
    for i in range(-n, n):
        for claim in (None, 'left', 'right'):
            a = mp.MPArray(LocalTensors([t.copy() for t in lts], cform=form))
            t, c = ops.replacement(ctx, lts[i].shape, claim or 'none')
            a.lt.update(i, t, canonicalization=c)
            truthful(ctx, a, 'update({}, {})'.format(i, c),
                     [('form', form)])
            k = i % n
            left, right = a.canonical_form
            if c is None:
                ctx.check(left <= k < right,
                          'site without claim reported canonical',
                          form=(left, right), site=k)
            # a second update
            t, c = ops.replacement(ctx, lts[k - 1].shape)
            a.lt.update(k - 1, t, canonicalization=c)
            truthful(ctx, a, 'second update', [('form', form, i, claim)])
            b = a * 2.0
            truthful(ctx, b, 'scaled after update', [('form', form, i)])
    ctx.signature(shape, form)
    ctx.event('update_tables')


def factories(ctx):
    n = ctx.randint(1, 6)
    for m in (mp.random_mps(n, 2, 4, randstate=ctx.rng),
              mp.random_mpo(n, 2, 3, randstate=ctx.rng),
              mp.random_mpdo(n, 2, 3, randstate=ctx.rng),
              mp.diagonal_mpa(ctx.rng.randn(ctx.randint(1, 4)), n),
              mp.eye(n, 2), mp.zero(n, 2, 3)):
        truthful(ctx, m, 'factory', [])
    d = ctx.randint(2, 4)
    arr = gen.rand_array(ctx, (d,) * n, ctx.pick(('f8', 'c16')))
    if ctx.chance(.3):
        arr = arr * 0 + 1    # rank one
    truthful(ctx, mp.MPArray.from_array(arr, 1), 'from_array', [])
    ctx.signature(n, d)


SCENARIOS = [('mixed', mixed), ('updates', updates), ('mixed2', mixed),
             ('gauge_then_derive', gauge_then_derive),
             ('update_table', update_table), ('updates2', updates),
             ('factories', factories)]
REQUIRED = ['claims_verified', 'mixed_form_judged', 'op:vleg2leg', 'op:split',
            'op:leg2vleg(regauged)', 'op:update slice', 'op:update(left)',
            'op:update(right)', 'op:update(None)', 'op:imul', 'op:T',
            'op:special.sumup', 'op:compression svd']
