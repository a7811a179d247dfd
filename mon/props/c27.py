# encoding: utf-8
"""C27: spin chain Hamiltonians"""
from __future__ import division

import numpy as np
import scipy.sparse as ssp

import mpnum as mp
from mpnum.utils import physics

from .. import dense as dn, gen
from ..util import expect_mpa, unchanged

PROP = 'C27'
RULE = ('cyclic XY model for all admissible lengths up to ten and random, '
        'special and extreme asymmetry; random nearest neighbour terms of '
        'random ranks; reference: Hamiltonian assembled from Pauli matrices, '
        'its smallest eigenvalue. Non-trivial: at least three sites')
QUICK, THOROUGH = 1200, 8000

X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]])


def on(n, ops, d=2):
    """Kronecker product with operators at given sites"""
    out = np.eye(1)
    for k in range(n):
        out = np.kron(out, ops.get(k, np.eye(d)))
    return out


def xy(n, gamma):
    h = 0
    for i in range(n):
        j = (i + 1) % n
        if n == 1:
            continue
        for op, c in ((X, 1 + gamma), (Y, 1 - gamma)):
            if n == 2:
                h = h + c / 4 * np.kron(op, op)
            else:
                h = h + c / 4 * on(n, {i: op, j: op})
    return h


def rand_gamma(ctx):
    return ctx.pick([0., 1., -1., .5, ctx.rng.uniform(-1, 1),
                     ctx.rng.uniform(-1, 1), ctx.rng.uniform(-4, 4), 1e-6])


def matrix_of(mpo):
    return dn.global_matrix(dn.tens(mpo))


def model(ctx):
    n = ctx.randint(2, 7)
    gamma = rand_gamma(ctx)
    ctx.signature(n, round(gamma, 3))
    ctx.nontrivial = n > 2
    for name, ref in (('X', X), ('Y', Y), ('Z', np.diag([1, -1]))):
        ctx.close(getattr(physics, 'pauli_' + name), ref, 'pauli_' + name)
        expect_mpa(ctx, getattr(physics, 'mpo_' + name), ref, [(2, 2)],
                   'mpo_' + name)
    terms = physics.cXY_local_terms(n, gamma)
    ctx.check(len(terms) == n, 'cXY_local_terms: number')
    local = (1 + gamma) / 4 * np.kron(X, X) + (1 - gamma) / 4 * np.kron(Y, Y)
    for t in terms:
        ctx.check(len(t) == 2, 'cXY_local_terms: length')
        ctx.close(matrix_of(t), local, 'cXY_local_terms', scale=1.)
    ref = xy(n, gamma)
    sp = physics.sparse_cH(terms)
    ctx.check(ssp.issparse(sp), 'sparse_cH: not sparse')
    ctx.close(np.asarray(sp.todense()), ref, 'sparse_cH', scale=1.)
    h = physics.mpo_cH(terms)
    expect_mpa(ctx, h, ref.reshape((2,) * 2 * n).transpose(
        [x for k in range(n) for x in (k, n + k)]), [(2, 2)] * n,
        'mpo_cH', scale=1.)
    ctx.event('model')


ENERGIES = {}


def energy(ctx):
    n = ctx.pick([2, 6, 6, 6, 10 if ctx.chance(.15) else 6])
    gamma = rand_gamma(ctx)
    ctx.signature(n, round(gamma, 4))
    ctx.nontrivial = True
    got = physics.cXY_E0(n, gamma)
    ctx.check(np.ndim(got) == 0 and np.isrealobj(got), 'cXY_E0: real number')
    h = xy(n, gamma)
    ctx.check(abs(h.imag).max() < 1e-14, 'self-test')
    low = np.linalg.eigvalsh(h.real)[0]
    ctx.close(got, low, 'cXY_E0 is not the smallest eigenvalue', rtol=1e-9,
              sites=n, gamma=gamma)
    ctx.event('energy:{}'.format(n))
    # representations of the library have this energy
    if n <= 6:
        t = physics.cXY_local_terms(n, gamma)
        val = np.linalg.eigvalsh(np.asarray(physics.sparse_cH(t).todense()))
        ctx.close(val[0], got, 'sparse_cH and cXY_E0 disagree', rtol=1e-9)
        val = np.linalg.eigvalsh(matrix_of(physics.mpo_cH(t)))
        ctx.close(val[0], got, 'mpo_cH and cXY_E0 disagree', rtol=1e-9)


def long_chain(ctx):
    """Energy of long chains: even in gamma, bounds from free fermions"""
    n = 4 * ctx.randint(2, 60) + 2
    g = rand_gamma(ctx)
    e = physics.cXY_E0(n, g)
    ctx.close(physics.cXY_E0(n, -g), e, 'cXY_E0: sign of gamma')
    # free fermions: direct diagonalization of (A - B)(A + B) of Lieb,
    # Schultz and Mattis for periodic and antiperiodic fermions
    low = []
    for sign in (1, -1):
        a, b = np.zeros((n, n)), np.zeros((n, n))
        for i in range(n):
            j = (i + 1) % n
            x = .5 * (sign if j == 0 else 1)
            a[i, j] += x
            a[j, i] += x
            b[i, j] += x * g
            b[j, i] -= x * g
        sv = np.linalg.svd(a + b, compute_uv=False)
        low.append(-.5 * sv.sum())
    ctx.close(e, min(low), 'cXY_E0 of a long chain', rtol=1e-9)
    ctx.event('long')
    ctx.nontrivial = True
    ctx.signature(n, round(g, 3))
    bad = ctx.pick([4 * ctx.randint(1, 10), 2 * ctx.randint(0, 10) + 1])
    ctx.raises(ValueError, lambda: physics.cXY_E0(bad, g),
               'cXY_E0: unsupported length', sites=bad)


def general(ctx):
    """Arbitrary nearest neighbour terms, possibly not Hermitian"""
    d = ctx.pick([2, 2, 3])
    n = ctx.randint(2, 5) if d == 2 else ctx.randint(2, 4)
    if ctx.chance(.05):
        d, n = 2, ctx.randint(6, 8)
    herm = ctx.chance(.5)
    terms = []
    for _ in range(n):
        r = ctx.randint(1, 4)
        lts = gen.rand_tensors(ctx, ((d, d), (d, d)), (r,),
                               ctx.pick(['f8', 'c16']), wild=False)
        if herm:
            m = dn.dense(lts)
            m = m + m.transpose((1, 0, 3, 2)).conj()
            u, s, v = np.linalg.svd(m.reshape((d * d, d * d)))
            lts = [(u * s).reshape((1, d, d, -1)), v.reshape((-1, d, d, 1))]
        terms.append(gen.build(ctx, lts))
    before = [dn.tens(t) for t in terms]
    dens = [matrix_of(t) for t in terms]
    ref = np.zeros((d ** n, d ** n), complex)
    for i in range(n - 1):
        ref += np.kron(np.kron(np.eye(d ** i), dens[i]),
                       np.eye(d ** (n - i - 2)))
    cyc = dn.dense(before[-1])
    for i in range(d * d):
        e = np.zeros((d, d))
        e[i // d, i % d] = 1
        ref += np.kron(np.kron(e, np.eye(d ** (n - 2))), cyc[i // d, i % d])
    ctx.signature(d, n, herm, [t.ranks for t in terms])
    ctx.nontrivial = n > 2
    scale = max(dn.bound(b) for b in before)
    arg = [m if ctx.chance(.3) else t for m, t in zip(dens[:-1], terms[:-1])]
    sp = physics.sparse_cH(arg + [terms[-1]], d) if d != 2 or ctx.chance(.5) \
        else physics.sparse_cH(arg + [terms[-1]])
    ctx.close(np.asarray(sp.todense()), ref, 'sparse_cH', scale=scale)
    h = physics.mpo_cH(terms)
    expect_mpa(ctx, h, ref.reshape((d,) * 2 * n).transpose(
        [x for k in range(n) for x in (k, n + k)]), [(d, d)] * n,
        'mpo_cH', scale=scale)
    if herm:
        m = matrix_of(h)
        ctx.close(m, m.conj().T, 'mpo_cH: not Hermitian', scale=scale)
    for t, b in zip(terms, before):
        ctx.close(dn.dense(dn.tens(t)), dn.dense(b),
                  'construction changed a term', scale=dn.bound(b))
    ctx.event('general')


SCENARIOS = [('model', model), ('energy', energy), ('long_chain', long_chain),
             ('general', general)]
REQUIRED = ['model', 'energy:2', 'energy:6', 'long', 'general', 'refusals']
