# encoding: utf-8
"""C19: local measurements"""
from __future__ import division

import numpy as np

import mpnum.povm as mpp
from mpnum.povm import localpovm as lp

from .. import gen, povmgen as pg

PROP = 'C19'
RULE = ('predefined measurements in all dimensions up to 9 and random user '
        'supplied elements and vectors; concatenations (nested, unequal '
        'weights); non-trivial: dimension above two or user supplied elements')
QUICK, THOROUGH = 1800, 14400


def rho_of(ctx, d):
    g = gen.rand_array(ctx, (d, d), 'c16')
    r = g.dot(g.conj().T)
    return r / np.trace(r).real


def valid(ctx, el, d, msg):
    el = np.array(list(el))
    ctx.check(el.ndim == 3 and el.shape[1:] == (d, d), msg + ': shape',
              got=el.shape)
    for k, e in enumerate(el):
        ctx.close(e, e.conj().T, msg + ': element not Hermitian', scale=1.,
                  rtol=1e-10)
        ctx.check(np.linalg.eigvalsh(e)[0] >= -1e-10,
                  msg + ': element not positive', index=k)
        ctx.check(abs(e).max() > 1e-10, msg + ': vanishing element')
    ctx.close(el.sum(0), np.eye(d), msg + ': elements do not sum to identity',
              rtol=1e-10)
    ctx.event('valid')
    return el


def maps(ctx, povm, el, d, msg):
    """Probability map and linear inversion"""
    rho = rho_of(ctx, d)
    pm = np.asarray(povm.probability_map)
    ref = np.array([np.trace(e.dot(rho)) for e in el])
    ctx.close(pm.dot(rho.ravel()), ref, msg + ': probability map')
    x = gen.rand_array(ctx, (d, d), 'c16')       # any operator
    ctx.close(pm.dot(x.ravel()), [np.trace(e.dot(x)) for e in el],
              msg + ': probability map of an operator', scale=1.)
    rank = np.linalg.matrix_rank(el.reshape((len(el), -1)), tol=1e-9)
    sv = np.linalg.svd(pm, compute_uv=False)
    if sv[-1] < 1e-4 * sv[0]:
        # numpy's pseudo inverse may take rounding errors for singular values
        ctx.event('ill_conditioned')
        ctx.event('maps')
        return rank
    inv = np.asarray(povm.linear_inversion_map)
    ctx.close(pm.dot(inv.dot(ref)), ref, msg + ': inversion of valid data',
              scale=1., rtol=1e-7)
    if rank == d * d:
        ctx.close(inv.dot(ref).reshape((d, d)), rho,
                  msg + ': linear inversion', scale=1., rtol=1e-7)
        ctx.event('inverted')
    # minimum norm solution: inversion followed by the map is a projection
    p = inv.dot(pm)
    ctx.close(p, p.conj().T, msg + ': pseudo inverse', scale=1., rtol=1e-7)
    ctx.close(p.dot(p), p, msg + ': pseudo inverse', scale=1., rtol=1e-7)
    ctx.event('maps')
    return rank


def container(ctx, povm, el, msg):
    ctx.check(len(povm) == len(el), msg + ': len')
    ctx.check(all(np.array_equal(a, b) for a, b in zip(povm, el)),
              msg + ': iteration')
    k = ctx.randint(-len(el), len(el) - 1)
    ctx.check(np.array_equal(povm[k], el[k]), msg + ': indexing')


def eigvec_set(kind, d):
    """Generalized Pauli vectors"""
    out = []
    for i in range(d):
        for j in range(i + 1, d):
            for s in (1, -1):
                v = np.zeros(d, complex)
                v[i], v[j] = 1, s * (1j if kind == 'y' else 1)
                out.append(v / np.sqrt(2 * (d - 1)))
    return out


def predefined(ctx):
    d = ctx.randint(2, 9) if ctx.chance(.97) else ctx.randint(10, 14)
    kind = ctx.pick(['x', 'y', 'z', 'pauli'])
    ctx.signature(kind, d)
    ctx.nontrivial = d > 2
    fun = {'x': lp.x_povm, 'y': lp.y_povm, 'z': lp.z_povm,
           'pauli': lp.pauli_povm}[kind]
    povm = fun(d)
    el = valid(ctx, povm, d, kind + '_povm')
    container(ctx, povm, el, kind + '_povm')
    rank = maps(ctx, povm, el, d, kind + '_povm')
    ctx.check(bool(povm.informationally_complete) == (kind == 'pauli'),
              kind + '_povm: claims about completeness')
    if povm.informationally_complete:
        ctx.check(rank == d * d, kind + '_povm: claimed to be complete',
                  rank=rank, dim=d)
    for e in el:
        ctx.check(np.linalg.matrix_rank(e, tol=1e-9) == 1,
                  kind + '_povm: element is not rank one')
    if kind in 'xy':
        want = [np.outer(v, v.conj()) for v in eigvec_set(kind, d)]
        ctx.close(el, want, kind + '_povm: elements in documented order')
    elif kind == 'z':
        ctx.close(el, [np.outer(e, e) for e in np.eye(d)],
                  'z_povm: elements')
    ctx.event('predefined:' + kind)


def parts(ctx):
    d = ctx.randint(2, 7)
    ps = lp.pauli_parts(d)
    want = [lp.x_povm, lp.y_povm] + ([lp.z_povm] if d == 2 else [])
    ctx.check(len(ps) == len(want), 'pauli_parts: number', dim=d)
    for p, w in zip(ps, want):
        ctx.close(np.array(list(p)), np.array(list(w(d))), 'pauli_parts')
        valid(ctx, p, d, 'pauli_parts')
    full = np.array(list(lp.pauli_povm(d)))
    ref = np.concatenate([np.array(list(w(d))) for w in want]) / len(want)
    ctx.close(full, ref, 'pauli_povm: union of its parts')
    ctx.raises(Exception, lambda: lp.pauli_parts(1), 'one-dimensional Pauli')
    ctx.event('parts')
    ctx.signature(d)
    ctx.nontrivial = d > 2


def user(ctx):
    d = ctx.randint(1, 4)
    el = pg.local_povm(ctx, d, ctx.randint(2, d * d + 2))
    keep = el.copy()
    flag = ctx.chance(.5)
    calls = []

    def pinv(a):
        calls.append(a)
        return np.linalg.pinv(a)

    kw = {}
    if ctx.chance(.5):
        kw['pinv'] = pinv
    arg = el if ctx.chance(.5) else list(el)
    povm = lp.POVM(arg, info_complete=flag, **kw) if flag or ctx.chance(.5) \
        else lp.POVM(arg, **kw)
    container(ctx, povm, el, 'POVM')
    maps(ctx, povm, el, d, 'POVM')
    povm.linear_inversion_map
    ctx.check(bool(povm.informationally_complete) == flag, 'POVM: flag')
    if kw:
        ctx.check(len(calls) > 0, 'POVM: given pseudo inverse not used')
    ctx.check(np.array_equal(el, keep), 'POVM: elements changed')
    ctx.event('user')
    ctx.nontrivial = True
    ctx.signature(d, len(el), flag)


def vectors(ctx):
    d = ctx.randint(1, 5)
    m = ctx.randint(d, d + 4)
    u = pg.haar(ctx, m)[:d]             # tight frame
    vecs = [u[:, k] for k in range(m)]
    flag = ctx.chance(.5)
    povm = lp.POVM.from_vectors(vecs if ctx.chance(.5) else iter(vecs),
                                info_complete=flag)
    el = np.array(list(povm))
    ctx.close(el, [np.outer(v, v.conj()) for v in vecs], 'from_vectors',
              scale=1.)
    ctx.close(el.sum(0), np.eye(d), 'from_vectors: sum', rtol=1e-9)
    ctx.check(bool(povm.informationally_complete) == flag,
              'from_vectors: flag')
    maps(ctx, povm, el, d, 'from_vectors')
    ctx.event('vectors')
    ctx.nontrivial = True
    ctx.signature(d, m)


def concatenation(ctx):
    d = ctx.randint(2, 4)
    count = ctx.randint(1, 4)
    povms, els = [], []
    for _ in range(count):
        if ctx.chance(.5):
            p = ctx.pick([lp.x_povm, lp.y_povm, lp.z_povm, lp.pauli_povm])(d)
            e = np.array(list(p))
        else:
            e = pg.local_povm(ctx, d, ctx.randint(2, 4))
            p = lp.POVM(e)
        povms.append(p)
        els.append(e)
    w = ctx.rng.rand(count) + .05
    w = w / w.sum()
    flag = ctx.chance(.5)
    keep = [e.copy() for e in els]
    arg = w if ctx.chance(.3) else list(w) if ctx.chance(.5) else tuple(w)
    c = lp.concat(povms if ctx.chance(.5) else tuple(povms), arg,
                  info_complete=flag)
    el = valid(ctx, c, d, 'concat')
    ctx.close(el, np.concatenate([x * e for x, e in zip(w, els)]),
              'concat: weighted union')
    ctx.check(bool(c.informationally_complete) == flag, 'concat: flag')
    maps(ctx, c, el, d, 'concat')
    for p, e, k in zip(povms, els, keep):
        ctx.check(np.array_equal(np.array(list(p)), k), 'concat: changed')
    bad = w * ctx.pick([.5, 2., 1.01])
    ctx.raises(Exception, lambda: lp.concat(povms, list(bad)),
               'concat with weights which do not sum to one')
    ctx.event('concat')
    ctx.nontrivial = True
    ctx.signature(d, count, len(el))


SCENARIOS = [('predefined', predefined), ('parts', parts), ('user', user),
             ('vectors', vectors), ('concatenation', concatenation)]
REQUIRED = ['valid', 'maps', 'inverted', 'predefined:x', 'predefined:y',
            'predefined:z', 'predefined:pauli', 'parts', 'user', 'vectors',
            'concat', 'refusals']
