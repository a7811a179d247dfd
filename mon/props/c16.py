# encoding: utf-8
"""C16: variational eigensolver for sums"""
from __future__ import division

import functools as ft

import numpy as np
from scipy.sparse.linalg import eigsh

import mpnum as mp

from .. import dense as dn, gen, eigmon as em
from ..util import unchanged

PROP = 'C16'
RULE = ('sums of one to four Hermitian operators and vectors in any order '
        '(unequal local dimensions, different ranks and dtypes, all forms); '
        'local problems solved exactly by a monitoring callback or by the '
        'default solver; non-trivial: at least two summands on three sites')
QUICK, THOROUGH = 2000, 16000


def setting(ctx, limit=300):
    var = ctx.pick([1, 1, 2, 2, 3])
    n = ctx.randint(var + 1, max(var + 1, 5))
    if ctx.chance(.04):
        n = ctx.randint(6, 8)
        ctx.event('longer_chain')
    d = em.dims(ctx, n, 3 if n < 5 else 2, limit)
    return (var, n, d) + summands(ctx, d, em.rand_scale(ctx))


def summands(ctx, d, scale=1.):
    mpas, H = [], 0
    count = ctx.randint(1, 4)
    for _ in range(count):
        if ctx.chance(.5):
            m = em.hermitian_mpo(ctx, d, 2, scale=scale)
            H = H + dn.global_matrix(dn.tens(m))
            ctx.event('summand:operator')
        else:
            lts = gen.rand_tensors(
                ctx, [(x,) for x in d], None, ctx.pick(['f8', 'c16', 'c16']),
                wild=False, max_rank=4)
            if scale != 1.:
                lts[0] = lts[0] * np.sqrt(scale)
            m = gen.build(ctx, lts)
            v = em.vector(m)
            H = H + np.outer(v, v.conj())
            ctx.event('summand:vector')
        mpas.append(m)
    ctx.nontrivial = len(d) > 2 and count > 1
    ctx.signature([gen.describe(m) for m in mpas])
    return mpas, H


def with_start(ctx, full):
    var, n, d, mpas, H = setting(ctx)
    start = em.start_vector(ctx, d, full)
    if start is None:
        ctx.event('skipped')
        return
    spec = np.linalg.eigvalsh(H)
    which = ctx.pick(['SA', 'LA', 'LM'])
    sol = em.Solver(ctx, which, spec[0], spec[-1], ctx.chance(.4))
    sweeps = ctx.randint(1, 3)
    objs = mpas + [start]
    keep = [(x, dn.tens(x), tuple(x.canonical_form)) for x in objs]
    ctx.signature(d, var, which, sweeps, gen.describe(start))
    arg = mpas if ctx.chance(.6) else iter(mpas) if ctx.chance(.5) \
        else tuple(mpas)
    val, vec = mp.eig_sum(arg, sweeps, var_sites=var, startvec=start,
                          eigs=sol)
    for x, lts, form in keep:
        unchanged(ctx, x, lts, 'eig_sum: summand or start vector', form)
    em.judge(ctx, H, val, vec, d, sol, full, var, start, 'eig_sum')


def full(ctx):
    with_start(ctx, True)


def small(ctx):
    with_start(ctx, False)


def random_start(ctx):
    var, n, d, mpas, H = setting(ctx)
    spec = np.linalg.eigvalsh(H)
    which = ctx.pick(['SA', 'LA', 'LM'])
    top = max(em.full_ranks(d))
    rank = ctx.randint(2, max(2, top + 1))
    pad = (1,) + tuple(min(r, rank) for r in em.full_ranks(d)) + (1,)
    if any(x == (1, 1) for x in zip(pad[:-1], pad[1:])):
        return
    sol = em.Solver(ctx, which, spec[0], spec[-1], ctx.chance(.4))
    kw = {} if var == 2 and ctx.chance(.5) else {'var_sites': var}
    val, vec = mp.eig_sum(
        mpas, ctx.randint(1, 2), startvec_rank=rank,
        randstate=np.random.RandomState(ctx.randint(0, 10 ** 6)), eigs=sol,
        **kw)
    em.judge(ctx, H, val, vec, d, sol, rank >= top, var, None,
             'eig_sum with random start')
    ctx.check(max(vec.ranks) <= rank, 'rank above requested rank')
    ctx.event('random_start')


def same_as_eig(ctx):
    """One sweep gives what eig gives for the explicit sum"""
    var, n, d, mpas, H = setting(ctx)
    start = em.start_vector(ctx, d, False)
    if start is None:
        return
    spec = np.linalg.eigvalsh(H)
    which = ctx.pick(['SA', 'LA'])
    sols = [em.Solver(ctx, which, spec[0], spec[-1], False) for _ in range(2)]
    val, vec = mp.eig_sum(mpas, 1, var_sites=var, startvec=start,
                          eigs=sols[0])
    ops = [m if len(m.shape[0]) == 2 else mp.mps_to_mpo(m) for m in mpas]
    total = ops[0]
    for o in ops[1:]:
        total = total + o
    val2, vec2 = mp.eig(total, 1, var_sites=var, startvec=start,
                        eigs=sols[1])
    if min(sols[0].gaps + sols[1].gaps + [1]) < 1e-2:
        ctx.event('degenerate')
        return
    size = abs(spec).max()
    if var == 1:
        ctx.close(val, val2, 'eig_sum differs from eig of the sum',
                  scale=size, rtol=1e-6)
        ov = abs(np.vdot(em.vector(vec), em.vector(vec2)))
        ctx.close(ov, 1., 'eigenvectors differ', rtol=1e-6)
    ctx.event('compared_with_eig')


def default_solver(ctx):
    var = ctx.pick([1, 2])
    n = ctx.randint(3, 4)
    d = [ctx.randint(2, 3) for _ in range(n)]
    mpas, H = summands(ctx, d)
    spec = np.linalg.eigvalsh(H)
    size = abs(spec).max()
    rank = max(em.full_ranks(d))
    kw = {}
    which = 'LM'
    if ctx.chance(.5):
        which = ctx.pick(['SA', 'LA', 'LM'])
        if which == 'SA' and min(len(m.shape[0]) for m in mpas) == 1:
            which = 'LA'          # large kernel: hard for the solver
        kw['eigs'] = ft.partial(eigsh, k=1, which=which, tol=1e-8)
    val, vec = mp.eig_sum(mpas, 3, var_sites=var, startvec_rank=rank,
                          randstate=np.random.RandomState(
                              ctx.randint(0, 10 ** 6)), **kw)
    want = em.extreme(spec, which)
    val = complex(val).real
    if which == 'LM':
        val, want = abs(val), abs(want)
    ctx.close(val, want, 'eig_sum, scipy solver: extreme eigenvalue',
              scale=size, rtol=1e-3)
    v = em.vector(vec)
    ctx.close(np.vdot(v, v).real, 1., 'eig_sum, scipy solver: norm',
              rtol=1e-6)
    ray = np.vdot(v, H.dot(v)).real
    ctx.close(abs(ray) if which == 'LM' else ray, want,
              'eig_sum, scipy solver: expectation value', scale=size,
              rtol=1e-3)
    ctx.event('scipy_solver')


def residual(ctx):
    """The last local problem is the whole problem (every bond as large as the
    rest of the chain): what the default solver returns is an eigenvector to
    the documented tolerance of the solver"""
    var = ctx.pick([1, 2])
    top = {1: 28, 2: 9}[var]
    d = [ctx.randint(top // 2, top) for _ in range(var + 1)]
    mpas, H = summands(ctx, d)
    val, vec = mp.eig_sum(mpas, 1, var_sites=var,
                          startvec_rank=max(em.full_ranks(d)),
                          randstate=np.random.RandomState(
                              ctx.randint(0, 10 ** 6)))
    em.check_residual(ctx, H, val, vec, 'eig_sum')


def refusals(ctx):
    var, n, d, mpas, H = setting(ctx)
    rs = np.random.RandomState(3)
    ctx.raises(ValueError, lambda: mp.eig_sum(mpas, 1, var_sites=var),
               'eig_sum without start vector and rank')
    ctx.raises(ValueError, lambda: mp.eig_sum(
        mpas, 1, var_sites=var, startvec_rank=1, randstate=rs),
        'eig_sum with start rank one')
    ctx.raises(Exception, lambda: mp.eig_sum(
        mpas, 1, var_sites=n, startvec_rank=2, randstate=rs),
        'eig_sum with as many varied sites as sites')
    longer = em.hermitian_mpo(ctx, d + [2], 2)
    ctx.raises(Exception, lambda: mp.eig_sum(
        mpas + [longer], 1, var_sites=var, startvec_rank=2, randstate=rs),
        'eig_sum with different lengths')
    three = gen.rand_mpa(ctx, shape=[(x, x, x) for x in d], dtype='f8',
                         wild=False)
    ctx.raises(Exception, lambda: mp.eig_sum(
        mpas + [three], 1, var_sites=var, startvec_rank=2, randstate=rs),
        'eig_sum with a summand of three legs')
    prod = gen.build(ctx, gen.rand_tensors(ctx, [(x,) for x in d],
                                           [1] * (n - 1), 'f8', wild=False))
    ctx.raises(Exception, lambda: mp.eig_sum(
        mpas, 1, var_sites=var, startvec=prod),
        'eig_sum with product start vector')
    start = em.start_vector(ctx, d, True)
    if start is not None:
        em.bad_solvers(ctx, lambda eigs: mp.eig_sum(
            mpas, 1, var_sites=var, startvec=start, eigs=eigs))


SCENARIOS = [('full', full), ('small', small), ('full2', full),
             ('random_start', random_start), ('same_as_eig', same_as_eig),
             ('default_solver', default_solver), ('refusals', refusals),
             ('residual', residual)]
REQUIRED = ['local_problems', 'exact', 'variational', 'which:SA', 'which:LA',
            'which:LM', 'var_sites:1', 'var_sites:2', 'var_sites:3',
            'summand:operator', 'summand:vector', 'compared_with_eig',
            'scipy_solver', 'random_start', 'refusals', 'residual']
