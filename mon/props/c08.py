# encoding: utf-8
"""C08: no side effects, no shared mutable state"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

from .. import dense as dn, gen, ops
from ..util import unchanged

PROP = 'C08'
RULE = ('random histories on a pool of MPAs derived from each other; before '
        'and after each operation all participants and bystanders are '
        'compared; non-trivial: a history with a derived object and a later '
        'in-place change of a relative')
QUICK, THOROUGH = 1200, 16000


class Shadow(object):
    """What an MPA of the pool has to look like"""

    def __init__(self, mpa):
        self.mpa = mpa
        self.take()

    def take(self):
        self.lts = dn.tens(self.mpa)
        self.form = tuple(self.mpa.canonical_form)

    def same(self, ctx, msg):
        unchanged(ctx, self.mpa, self.lts, msg, self.form)

    def same_array(self, ctx, msg):
        now = dn.tens(self.mpa)
        ctx.check(dn.shape_of(now) == dn.shape_of(self.lts), msg + ': legs')
        rtol = gen.rtol_of(self.lts)
        ctx.close(dn.dense(now), dn.dense(self.lts), msg, rtol=rtol,
                  scale=1e-2 * dn.bound(self.lts))


def read_only(ctx, mpa, msg):
    """Local tensors which are handed out cannot be written to"""
    handed = [mpa.lt[ctx.randint(0, len(mpa) - 1)], mpa.lt[-1]]
    handed += list(mpa.lt[:]) + list(iter(mpa.lt))
    for t in handed:
        ctx.check(not t.flags.writeable, msg + ': writable local tensor')
        try:
            t[...] = 0
        except ValueError:
            continue
        ctx.fail(msg + ': local tensor could be overwritten')


# `+a`, groups of one site and a split outside the chain hand out the operand.
SAME_OBJECT = ('pos', 'group_sites', 'split')


def distinct(ctx, step):
    """A new array is a new object with its own container of local tensors;
    otherwise the next in-place change shows up in both"""
    if step.kind != 'pure' or step.name in SAME_OBJECT:
        return
    for r in step.results:
        for o in step.operands:
            ctx.check(r is not o and r.lt is not o.lt,
                      step.name + ': the result is the operand')
    ctx.event('results_distinct', len(step.results))


def history(ctx, p_change, steps):
    pool = [ops.new_mpa(ctx) for _ in range(ctx.randint(1, 3))]
    shadows = [Shadow(m) for m in pool]
    hist = []
    derived = False
    for _ in range(steps):
        pool = [s.mpa for s in shadows]
        a = ctx.pick(pool)
        fun = ctx.pick(ops.OTHER if ctx.chance(p_change) else ops.PURE)
        step = fun(ctx, pool, a)
        if step is None:
            continue
        hist.append((step.name, gen.describe(a)))
        distinct(ctx, step)
        ctx.event('op:' + step.name)
        ctx.signature(step.name)
        target = step.operands[0] if step.kind != 'pure' else None
        for s in shadows:
            if s.mpa is target:
                if step.kind == 'gauge':
                    s.same_array(ctx, 'array after ' + step.name)
                    ctx.event('gauge_steps')
                s.take()
                if step.kind == 'inplace':
                    ctx.event('inplace_steps')
                    ctx.nontrivial = ctx.nontrivial or derived
            else:
                msg = ('operand of ' if any(s.mpa is o for o in step.operands)
                       else 'bystander of ') + step.name
                try:
                    s.same(ctx, msg)
                except Exception:
                    ctx.note(history=hist[-10:])
                    raise
                ctx.event('states_compared')
        for m in step.results + list(step.operands):
            read_only(ctx, m, step.name)
            if not any(m is s.mpa for s in shadows) and ops.fits(m):
                derived = derived or m in step.results
                shadows.append(Shadow(m))
        while len(shadows) > 7:
            shadows.pop(ctx.randint(0, len(shadows) - 1))
        shadows = [s for s in shadows if dn.bound(s.lts) < 1e9]
        if not shadows:
            shadows = [Shadow(ops.new_mpa(ctx))]
    ctx.note(history=hist[:10])


def mixed(ctx):
    history(ctx, .45, ctx.randint(8, 22))


def derive_then_change(ctx):
    """Every operation: derive, then change every participant in place"""
    a = ops.new_mpa(ctx, **({} if ctx.chance(.5) else
                            dict(min_legs=1, max_legs=2, uniform_legs=True)))
    if ctx.chance(.3):
        n = ctx.randint(1, 4)
        a = ops.new_mpa(ctx, shape=((2, 2),) * n)
    fun = ops.ALL_PURE[(ctx.case // len(SCENARIOS)) % len(ops.ALL_PURE)]
    before = Shadow(a)
    step = fun(ctx, [a], a)
    if step is None:
        fun = ctx.pick(ops.PURE)
        step = fun(ctx, [a], a)
        if step is None:
            return
    ctx.signature(step.name)
    ctx.event('op:' + step.name)
    distinct(ctx, step)
    before.same(ctx, 'operand of ' + step.name)
    people = []
    for m in [a] + list(step.operands) + list(step.results):
        if not any(m is p for p in people) and ops.fits(m, 3000, 60):
            people.append(m)
    ctx.nontrivial = len(people) > 1
    for _ in range(ctx.randint(2, 5)):
        shadows = [Shadow(m) for m in people]
        victim = ctx.pick(people)
        # change every site, not only one
        how = ctx.randint(0, 4)
        if how == 0:
            victim *= 3.0
        elif how == 1:
            victim /= -2j
        elif how == 2:
            for i in range(len(victim)):
                victim.lt[i] = victim.lt[i] * 2
        elif how == 3:
            victim.compress('svd', rank=1)
        else:
            victim.canonicalize(right=1)
            victim *= .5
        for s in shadows:
            if s.mpa is not victim:
                s.same(ctx, 'relative (via {}) of a changed MPA'.format(
                    step.name))
                ctx.event('states_compared')
    ctx.event('derive_then_change')


def copies(ctx):
    """copy() and constructors"""
    a = ops.new_mpa(ctx)
    b = a.copy()
    for s, t in zip(a.lt, b.lt):
        ctx.check(not np.shares_memory(s, t), 'copy shares memory')
    c = LocalTensors([np.array(t) for t in a.lt], cform=a.canonical_form)
    d = c.copy()
    for s, t in zip(c, d):
        ctx.check(not np.shares_memory(s, t), 'container copy shares memory')
    # containers and arrays given to constructors
    given = [np.array(t) for t in a.lt]
    keep = [t.copy() for t in given]
    lst = list(given)
    e = mp.MPArray(given)
    e *= 2
    for i in range(len(e)):
        e.lt[i] = e.lt[i] * 2
    e.canonicalize(right=1)
    e.compress('svd', rank=2)
    ctx.check(len(given) == len(lst) and
              all(x is y for x, y in zip(given, lst)),
              'list given to the constructor was modified')
    for x, y in zip(given, keep):
        ctx.check(np.array_equal(x, y) and x.shape == y.shape,
                  'array given to the constructor was modified')
    ctx.check(all(t.flags.writeable for t in given),
              'array given to the constructor became read-only')
    arr = a.to_array()
    if arr.ndim:
        ctx.check(arr.flags.writeable, 'to_array is not writable')
        for t in a.lt:
            ctx.check(not np.shares_memory(arr, t),
                      'to_array shares memory with a local tensor')
    # dense arrays given to from_array
    arr2 = np.array(arr)
    if arr2.ndim and min(len(s) for s in a.shape) > 0:
        keep = arr2.copy()
        f = mp.MPArray.from_array(arr2, [len(s) for s in a.shape])
        f *= 2
        f.canonicalize(right=1)
        f.lt[0] = f.lt[0] * 2
        ctx.check(np.array_equal(arr2, keep), 'from_array: input modified')
        facs = [gen.rand_array(ctx, s) for s in a.shape]
        keep = [x.copy() for x in facs]
        f = mp.MPArray.from_kron(facs)
        f *= 2
        f.canonicalize(right=1)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(facs, keep)),
                  'from_kron: input modified')
    read_only(ctx, a, 'fresh MPA')
    read_only(ctx, e, 'compressed MPA')
    ctx.signature(gen.describe(a))


def callers(ctx):
    """Functions outside the core which take MPAs"""
    from mpnum import linalg, mpsmpo
    import mpnum.povm as povm
    n, d = ctx.randint(3, 4), 2
    shape = ((d, d),) * n
    h = ops.new_mpa(ctx, shape=shape, max_rank=2, gauge=False)
    h = mp.MPArray([np.array(t) for t in (h + h.adj()).lt])
    if ctx.chance(.5):
        h.canonicalize(ctx.randint(0, n - 2), n - 1)
    v = gen.rand_mpa(ctx, shape=((d,),) * n, ranks=(2,) * (n - 1),
                     dtype='c16')
    w = gen.rand_mpa(ctx, shape=((d,),) * n, dtype='c16')

    def dense_eigs(op, v0=None):
        op = (op + op.conj().T) / 2
        val, vec = np.linalg.eigh(op)
        return val[:1], vec[:, :1]

    people = [Shadow(h), Shadow(v), Shadow(w)]
    var = ctx.randint(1, 2)
    _, e1 = linalg.eig(h, 1, var_sites=var, startvec=v, eigs=dense_eigs)
    _, e2 = linalg.eig_sum([h, w], 1, var_sites=var, startvec=v,
                           eigs=dense_eigs)
    for s in people:
        s.same(ctx, 'argument of eig/eig_sum')
    list(mpsmpo.reductions_mps_as_mpo(v, 2))
    list(mpsmpo.reductions_mpo(h, 2))
    list(mpsmpo.reductions(v, mode='mps', width=2)[0])
    for s in people:
        s.same(ctx, 'argument of reductions')
    pm = mpsmpo.mps_to_pmps(v)
    pshadow = Shadow(pm)
    list(mpsmpo.reductions_pmps(pm, ctx.randint(1, n)))
    pshadow.same_array(ctx, 'argument of reductions_pmps')
    pshadow.take()
    mpsmpo.pmps_reduction(pm, sorted(int(x) for x in
                                     ctx.rng.permutation(n)[:2]))
    pshadow.same_array(ctx, 'argument of pmps_reduction')
    for s in people:
        s.same(ctx, 'source of a PMPS')
    # measurements
    mpp = povm.MPPovm.from_local_povm(povm.pauli_povm(2), n)
    v2 = mp.random_mps(n, 2, 2, randstate=ctx.rng)
    rho = mpsmpo.mps_to_mpo(v2)
    pur = mpsmpo.mps_to_pmps(v2)
    people = [Shadow(x) for x in (mpp, v2, rho, pur)]
    for state, mode in ((v2, 'mps'), (rho, 'mpdo'), (pur, 'pmps')):
        mpp.pmf(state, mode)
        mpp.pmf_as_array(state, mode)
        mpp.sample(ctx.rng, state, 3, 'cond', n_group=2, mode=mode)
        mpp.sample(ctx.rng, state, 3, 'direct', mode=mode)
        for s in people[:3]:
            s.same(ctx, 'argument of pmf/sample')
        people[3].same_array(ctx, 'PMPS argument of pmf/sample')
    ctx.nontrivial = True
    ctx.signature(n, gen.describe(h), gen.describe(v))
    ctx.event('callers')


SCENARIOS = [('mixed', mixed), ('derive_then_change', derive_then_change),
             ('copies', copies), ('derive_then_change2', derive_then_change),
             ('mixed2', mixed), ('derive_then_change3', derive_then_change),
             ('callers', callers), ('derive_then_change4', derive_then_change)]
REQUIRED = ['inplace_steps', 'gauge_steps', 'states_compared', 'op:T',
            'op:conj', 'op:reshape', 'op:chain', 'op:get', 'op:copy']
