# encoding: utf-8
"""C15: variational eigensolver"""
from __future__ import division

import functools as ft

import numpy as np
from scipy.sparse.linalg import eigsh

import mpnum as mp

from .. import dense as dn, gen, eigmon as em
from ..util import unchanged

PROP = 'C15'
RULE = ('random Hermitian operators (unequal local dimensions, real and '
        'complex, all forms) and start vectors (full rank, small rank, not '
        'normalized); local problems solved exactly by a monitoring callback '
        'or by the default solver; non-trivial: complex operator or unequal '
        'dimensions with at least three sites')
QUICK, THOROUGH = 2000, 16000


def setting(ctx, limit=300):
    var = ctx.pick([1, 1, 2, 2, 3])
    n = ctx.randint(var + 1, max(var + 1, 5))
    if ctx.chance(.04):
        n = ctx.randint(6, 8)
        ctx.event('longer_chain')
    d = em.dims(ctx, n, 3 if n < 5 else 2, limit)
    mpo = em.hermitian_mpo(ctx, d, scale=em.rand_scale(ctx))
    H = dn.global_matrix(dn.tens(mpo))
    ctx.nontrivial = n > 2 and (H.dtype.kind == 'c' or len(set(d)) > 1)
    return var, n, d, mpo, H


def with_start(ctx, full):
    var, n, d, mpo, H = setting(ctx)
    start = em.start_vector(ctx, d, full)
    if start is None:
        ctx.event('skipped')
        return
    spec = np.linalg.eigvalsh(H)
    which = ctx.pick(['SA', 'LA', 'LM'])
    sol = em.Solver(ctx, which, spec[0], spec[-1], ctx.chance(.4))
    sweeps = ctx.randint(1, 3)
    keep = [(x, dn.tens(x), tuple(x.canonical_form)) for x in (mpo, start)]
    ctx.signature(d, var, which, sweeps, gen.describe(start))
    val, vec = mp.eig(mpo, sweeps, var_sites=var, startvec=start, eigs=sol)
    for (x, lts, form), name in zip(keep, ('operator', 'start vector')):
        unchanged(ctx, x, lts, 'eig: ' + name, form)
    em.judge(ctx, H, val, vec, d, sol, full, var, start, 'eig')


def full(ctx):
    with_start(ctx, True)


def small(ctx):
    with_start(ctx, False)


def random_start(ctx):
    """Start vector chosen by eig"""
    var, n, d, mpo, H = setting(ctx)
    spec = np.linalg.eigvalsh(H)
    which = ctx.pick(['SA', 'LA', 'LM'])
    top = max(em.full_ranks(d))
    if 1 in d and ctx.chance(.9) or top < 2:
        d2 = [x for x in d]
    rank = ctx.randint(2, max(2, top + 1))
    ranks = [min(r, rank) for r in em.full_ranks(d)]
    pad = (1,) + tuple(ranks) + (1,)
    if any(x == (1, 1) for x in zip(pad[:-1], pad[1:])):
        return
    sol = em.Solver(ctx, which, spec[0], spec[-1], ctx.chance(.4))
    kw = {} if var == 2 and ctx.chance(.5) else {'var_sites': var}
    val, vec = mp.eig(mpo, ctx.randint(1, 2), startvec_rank=rank,
                      randstate=np.random.RandomState(ctx.randint(0, 10 ** 6)),
                      eigs=sol, **kw)
    em.judge(ctx, H, val, vec, d, sol, rank >= top, var, None,
             'eig with random start')
    ctx.check(max(vec.ranks) <= max(rank, 1), 'rank above requested rank',
              ranks=vec.ranks, rank=rank)
    ctx.event('random_start')


def default_solver(ctx):
    """Default local solver (largest magnitude) on positive operators, and
    scipy's solver for the smallest eigenvalue"""
    var = ctx.pick([1, 2])
    n = ctx.randint(3, 4)
    d = [ctx.randint(2, 3) for _ in range(n)]
    mpo = em.hermitian_mpo(ctx, d, 2)
    H = dn.global_matrix(dn.tens(mpo))
    spec = np.linalg.eigvalsh(H)
    size = abs(spec).max()
    rank = max(em.full_ranks(d))
    kw = {}
    which = 'LM'
    if ctx.chance(.5):
        which = ctx.pick(['SA', 'LA', 'LM'])
        kw['eigs'] = ft.partial(eigsh, k=1, which=which, tol=1e-8)
    val, vec = mp.eig(mpo, 3, var_sites=var, startvec_rank=rank, randstate=np.
                      random.RandomState(ctx.randint(0, 10 ** 6)), **kw)
    want = em.extreme(spec, which)
    val = complex(val).real
    if which == 'LM':
        val, want = abs(val), abs(want)
    ctx.close(val, want, 'eig, scipy solver: extreme eigenvalue', scale=size,
              rtol=1e-3)
    v = em.vector(vec)
    ctx.close(np.vdot(v, v).real, 1., 'eig, scipy solver: norm', rtol=1e-6)
    ray = np.vdot(v, H.dot(v)).real
    ctx.close(abs(ray) if which == 'LM' else ray, want,
              'eig, scipy solver: expectation value', scale=size, rtol=1e-3)
    ctx.event('scipy_solver')
    ctx.nontrivial = True
    ctx.signature(d, var, which)


def residual(ctx):
    """The last local problem is the whole problem: what the default solver
    returns is an eigenvector to the documented tolerance of the solver"""
    var = ctx.pick([1, 2])
    top = {1: 28, 2: 9}[var]
    d = [ctx.randint(top // 2, top) for _ in range(var + 1)]
    mpo = em.hermitian_mpo(ctx, d, 2)
    H = dn.global_matrix(dn.tens(mpo))
    val, vec = mp.eig(mpo, 1, var_sites=var,
                      startvec_rank=max(em.full_ranks(d)),
                      randstate=np.random.RandomState(
                          ctx.randint(0, 10 ** 6)))
    em.check_residual(ctx, H, val, vec, 'eig')
    ctx.nontrivial = True
    ctx.signature(d, var, 'residual')


def refusals(ctx):
    var, n, d, mpo, H = setting(ctx)
    rs = np.random.RandomState(3)
    ctx.raises(ValueError, lambda: mp.eig(mpo, 1, var_sites=var),
               'eig without start vector and rank')
    ctx.raises(ValueError, lambda: mp.eig(mpo, 1, var_sites=var,
                                          startvec_rank=1, randstate=rs),
               'eig with start rank one')
    ctx.raises(Exception, lambda: mp.eig(mpo, 1, var_sites=n,
                                         startvec_rank=2, randstate=rs),
               'eig with as many varied sites as sites')
    prod = gen.build(ctx, gen.rand_tensors(ctx, [(x,) for x in d],
                                           [1] * (n - 1), 'f8', wild=False))
    ctx.raises(Exception, lambda: mp.eig(mpo, 1, var_sites=var,
                                         startvec=prod),
               'eig with product start vector')
    start = em.start_vector(ctx, d, True)
    if start is not None:
        def two(op, v0=None):
            val, vec = np.linalg.eigh(op)
            return val[:2], vec[:, :2]
        ctx.raises(ValueError, lambda: mp.eig(mpo, 1, var_sites=var,
                                              startvec=start, eigs=two),
                   'local solver returning two vectors')
        em.bad_solvers(ctx, lambda eigs: mp.eig(
            mpo, 1, var_sites=var, startvec=start, eigs=eigs))
    ctx.event('refused')


SCENARIOS = [('full', full), ('small', small), ('full2', full),
             ('random_start', random_start), ('default_solver',
                                              default_solver),
             ('small2', small), ('refusals', refusals),
             ('residual', residual)]
REQUIRED = ['local_problems', 'exact', 'variational', 'which:SA', 'which:LA',
            'which:LM', 'var_sites:1', 'var_sites:2', 'var_sites:3',
            'scipy_solver', 'random_start', 'refusals', 'residual']
