# encoding: utf-8
"""Deterministic computations for the monitor of hidden state (C31).

Every family is a function ``f(rng, size)`` which makes its operands from the
given random state and returns a list of numbers and arrays which do not
depend on the gauge of matrix product representations.  Two calls with equally
seeded random states have to agree, whatever else has happened in the process.
`size` (0, 1, 2) fixes all dimensions: calls with the same size but different
random states have operands of identical shapes and different values.
"""
from __future__ import division

import os
import shutil
import tempfile

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
import mpnum.povm.localpovm as localpovm
from mpnum import factory, linalg, mpsmpo, special, utils
from mpnum._named_ndarray import named_ndarray
from mpnum.utils import physics

from . import dense as dn

FAMILIES = []


def family(fun):
    FAMILIES.append(fun)
    return fun


def array(rng, shape, cplx=True):
    a = rng.randn(*shape)
    return a + 1j * rng.randn(*shape) if cplx else a


def chain(rng, shape, r, cplx=True, unit=True):
    n = len(shape)
    ranks = (1,) + (r,) * (n - 1) + (1,)
    lts = [array(rng, (ranks[i],) + tuple(shape[i]) + (ranks[i + 1],), cplx)
           for i in range(n)]
    if unit:
        nrm = dn.norm(lts) ** (1. / n)
        lts = [t / nrm for t in lts]
    return lts


def mpa(rng, shape, r, cplx=True):
    return mp.MPArray(chain(rng, shape, r, cplx))


def val(x):
    """Dense numbers of an MPA, by own contraction"""
    return dn.dense(dn.tens(x)) if isinstance(x, mp.MPArray) else np.array(x)


SITES = (2, 3, 5)


@family
def arithmetic(rng, size):
    shape = ((2,),) * SITES[size]
    a, b, c = (mpa(rng, shape, 2) for _ in range(3))
    res = [a + b, a - b, 2 * a, a / 3., -a, mp.sumup([a, b, c]),
           mp.sumup([a, b, c], weights=rng.randn(3))]
    a *= 2j
    b /= 4
    return [val(x) for x in res + [a, b]]


@family
def products(rng, size):
    n = SITES[size]
    a, b = (mpa(rng, ((2, 2),) * n, 2) for _ in range(2))
    v, w = (mpa(rng, ((2,),) * n, 3) for _ in range(2))
    u = mpa(rng, ((2,),), 1)
    res = [mp.dot(a, b), mp.dot(a, v), mp.dot(a, b, axes=(0, 1)),
           mp.inner(v, w), mp.sandwich(a, v), mp.sandwich(a, v, w),
           mp.localouter(v, w), mp.chain([v, u]), mp.norm(a), mp.norm(v),
           mp.normdist(v, w), mp.partialdot(u, a, n - 1),
           mp.partialdot(a, u, 0)]
    return [val(x) for x in res]


@family
def reductions_of_legs(rng, size):
    n = SITES[size]
    a = mpa(rng, ((2, 2),) * n, 2)
    res = [a.sum(), a.sum(axes=(0,)), mp.trace(a),
           mp.partialtrace(a, [(0, 1)] + [None] * (n - 1)),
           mp.prune(a.reshape([(1, 4)] * n), True), a.get((1,) * n)]
    res += list(mp.diag(a)) + list(a.axis_iter())[:2]
    return [val(x) for x in res]


@family
def structure(rng, size):
    n = (2, 4, 6)[size]
    a = mpa(rng, ((2, 3),) * n, 2)
    res = [a.T, a.adj(), a.conj(), a.transpose((1, 0)), a.ravel(),
           a.reshape([(3, 2)] * n), a.group_sites(2), a.split_sites(2),
           a.reverse(), a.pad_ranks(4), a.vleg2leg(0), a.copy()]
    res += list(a.split(n // 2 - 1))
    v = mpa(rng, ((2, 2),) * 2, 2)
    res += [mp.inject(v, 1, 2), mp.inject(v, 0, 1, array(rng, (2, 2)))]
    return [val(x) for x in res if len(x) < 7] + \
        [np.array(x.ranks) for x in res]


@family
def gauges(rng, size):
    n = SITES[size]
    a = mpa(rng, ((3,),) * n, 3)
    out = []
    for left, right in ((0, 1), (n - 1, n), (1, 2)):
        a.canonicalize(left, right)
        out += [val(a), np.array(a.canonical_form)]
    a.canonicalize()
    out += [val(a), mp.norm(a)]
    return out


@family
def compressions(rng, size):
    n = SITES[size]
    a = mpa(rng, ((2, 2),) * n, 4)
    out = []
    for kw in (dict(rank=2), dict(relerr=.3), dict(rank=3, direction='left'),
               dict(rank=2, svdfunc=utils.truncated_svd)):
        c, o = a.compression('svd', **kw)
        out += [val(c), o, np.array(c.ranks)]
    start = mpa(rng, ((2, 2),) * n, 2)
    c, o = a.compression('var', num_sweeps=2, startmpa=start, var_sites=1)
    out += [val(c), o]
    c, o = a.compression('var', num_sweeps=2, rank=2, var_sites=2 - (n == 2),
                         randstate=np.random.RandomState(rng.randint(99)))
    return out + [val(c), o]


@family
def schmidt_values(rng, size):
    n = SITES[size]
    a, b = (mpa(rng, ((2,),) * n, 3) for _ in range(2))
    out = []
    for x, y in zip(a.singularvals(), b.singularvals()):
        out += [np.array(x), np.array(y)]
    return out + [val(a), val(b)]


@family
def local_sums(rng, size):
    w, k = ((1, 3), (2, 3), (3, 2))[size]
    terms = [mpa(rng, ((2, 2),) * w, 2) for _ in range(k)]
    n = w + k - 1
    sl = [slice(0, w), slice(n - w, n)]
    emb = array(rng, (2, 2))
    res = [mp.local_sum(terms), mp.local_sum(terms, embed_tensor=emb),
           mp.local_sum(terms[:2], length=n, slices=sl),
           mp.embed_slice(n, sl[0], terms[0]),
           mp.embed_slice(n, sl[1], terms[1], emb)]
    return [val(x) for x in res]


@family
def states(rng, size):
    n = (2, 3, 4)[size]
    v = mpa(rng, ((2,),) * n, 2)
    p = mpa(rng, ((2, 2),) * n, 2)
    o = mp.dot(p, p.adj())
    res = [mpsmpo.mps_to_mpo(v), mpsmpo.mps_to_pmps(v), mpsmpo.pmps_to_mpo(p),
           mpsmpo.pmps_dm_to_array(p), mpsmpo.pmps_dm_to_array(p, True),
           mpsmpo.pmps_to_mps(mpsmpo.mps_to_pmps(v))]
    res += list(mpsmpo.reductions_mpo(o, 1)) + \
        list(mpsmpo.reductions_mps_as_mpo(v, 2))
    for x in list(mpsmpo.reductions_pmps(p, 1)) + [
            mpsmpo.pmps_reduction(p, [n - 1])] + list(
                mpsmpo.reductions_mps_as_pmps(v, 1)):
        res.append(mpsmpo.pmps_to_mpo(x))
    for mode, s in (('mps', v), ('pmps', p), ('mpdo', o)):
        for x in mpsmpo.reductions(s, mode, width=2)[0]:
            res.append(mpsmpo.pmps_to_mpo(x) if mode != 'mpdo' else x)
    return [val(x) for x in res]


def hermitian(rng, n, d=2, r=2):
    a = mpa(rng, ((d, d),) * n, r)
    return a + a.adj()


@family
def eigensolvers(rng, size):
    n = (3, 4, 5)[size]
    h = hermitian(rng, n)
    v = mpa(rng, ((2,),) * n, 2)
    e1, x1 = linalg.eig(h, num_sweeps=2, startvec=mpa(rng, ((2,),) * n, 4))
    e2, x2 = linalg.eig(h, num_sweeps=1, startvec_rank=3, var_sites=1,
                        randstate=np.random.RandomState(rng.randint(99)))
    e3, x3 = linalg.eig_sum([h, v], num_sweeps=2, startvec_rank=4,
                            randstate=np.random.RandomState(rng.randint(99)))
    return [e1, e2, e3] + [val(mpsmpo.mps_to_mpo(x)) for x in (x1, x2, x3)]


@family
def factories(rng, size):
    n = SITES[size]
    rs = lambda: np.random.RandomState(rng.randint(10 ** 6))
    res = [mp.random_mpa(n, 2, 2, randstate=rs()),
           mp.random_mpa(n, (2, 1), 3, randstate=rs(), normalized=True,
                         dtype=np.float_),
           mp.random_mps(n, 2, 2, randstate=rs()),
           mp.random_mpo(n, 2, 2, randstate=rs(), hermitian=True),
           mp.random_mpdo(n, 2, 2, randstate=rs()),
           factory.random_local_ham(n, 2, randstate=rs()),
           mp.eye(n, 2), mp.zero(n, 2, 2),
           mp.diagonal_mpa(rng.randn(3), n)]
    out = [val(x) for x in res]
    out += [factory._random_vec(n, 2, randstate=rs()),
            factory._random_op(n, 2, randstate=rs()),
            factory._random_state(n, 2, randstate=rs()),
            factory._unitary_haar(3, randstate=rs())]
    return out


@family
def local_measurements(rng, size):
    d = 2 + size
    out = []
    for povm in [mpp.x_povm(d), mpp.y_povm(d), mpp.z_povm(d),
                 mpp.pauli_povm(d)] + list(mpp.pauli_parts(d)):
        out += [np.array(list(povm)), povm.probability_map,
                povm.linear_inversion_map]
        out += [povm[0]]
    both = localpovm.concat((mpp.x_povm(d), mpp.z_povm(d)), (.25, .75))
    return out + [np.array(list(both)), both.probability_map]


def measurement(rng, n, d=2):
    elems = []
    for _ in range(n):
        q = np.linalg.qr(array(rng, (d, d)))[0]
        elems.append(np.array([np.outer(x, x.conj()) for x in q.T]))
    return mpp.MPPovm(e[None, ..., None] for e in elems)


@family
def measurements(rng, size):
    n = (2, 3, 4)[size]
    m, k = measurement(rng, n), measurement(rng, n)
    v = mpa(rng, ((2,),) * n, 2)
    v /= dn.norm(dn.tens(v))
    p = mpa(rng, ((2, 2),) * n, 2)
    p /= dn.norm(dn.tens(p))
    out = [m.pmf(v), m.pmf_as_array(v), m.pmf_as_array(p, 'pmps'),
           m.pmf_as_array(p, 'pmps', impl='pmps-ltr'),
           m.pmf_as_array(mpsmpo.pmps_to_mpo(p)), k.pmf_as_array(v),
           m.probability_map]
    for meas in (m, k):
        s = meas.sample(np.random.RandomState(rng.randint(10 ** 6)), v, 9)
        t = meas.sample(np.random.RandomState(rng.randint(10 ** 6)), v, 9,
                        method='direct')
        out += [s, t, meas.est_pmf(s), meas.pack_samples(t),
                meas.unpack_samples(meas.pack_samples(s))]
        c = rng.randn(*meas.nsoutdims)
        out += list(meas.lfun(c.ravel(), None, v))
        out += list(meas.est_lfun(c.ravel(), None, t))
    out += list(m.match_elems(m)) + list(m.match_elems(k))
    f, e = m.est_pmf_from(m, t), m.match_elems(m)[0]
    return [val(x) for x in out + list(f) + [e] if x is not None]


@family
def lists_of_measurements(rng, size):
    n = (1, 2, 3)[size]
    lst = mpp.pauli_mpps(1, 2).block(n)
    v = mpa(rng, ((2,),) * n, 2)
    v /= dn.norm(dn.tens(v))
    ps = list(lst.pmf_as_array(v, 'mps'))
    c = [rng.randn(int(np.prod(m.nsoutdims))) for m in lst.mpps]
    out = ps + [x for x in lst.lfun(c, None, v, 'mps')]
    s = list(lst.sample(np.random.RandomState(rng.randint(10 ** 6)), v, 6,
                        'cond'))
    out += s + list(lst.est_pmf(s)) + list(lst.est_lfun(c, None, s))
    other = mpp.pauli_mpps(1, 2).repeat(n)
    so = list(other.sample(np.random.RandomState(rng.randint(10 ** 6)), v, 6,
                           'cond'))
    for p, w in lst.est_pmf_from(other, so):
        out += [p, w]
    out += list(mpp.pauli_mpp(1, 2).block_pmfs_as_array(v, 'mps'))
    return [val(x) for x in out]


@family
def dense_tools(rng, size):
    n = (1, 2, 3)[size]
    a = array(rng, (2, 3) * n)
    g = utils.local_to_global(a, n)
    blocks = [array(rng, (2 + i, 3 - i, 2)) for i in range(3)]
    m = array(rng, (8 + 9 * size, 7 + 12 * size))
    out = [g, utils.global_to_local(g, n), utils.block_diag(blocks),
           utils.block_diag([b[:, :1] for b in blocks], axes=(0, 2)),
           utils.matdot(array(rng, (2, 3)), array(rng, (3, 4))),
           utils.mkron(array(rng, (2, 2)), array(rng, (2, 3)),
                       array(rng, (1, 2))),
           utils.partial_trace(array(rng, (2,) * (2 * n)), [n - 1])]
    for u, s, v in (utils.truncated_svd(m, 3), utils.extmath.randomized_svd(
            m, 3, randstate=np.random.RandomState(rng.randint(999)))):
        out += [s, np.dot(u * s, v)]
    from mpnum.utils.pmf import project_pmf
    p = np.abs(rng.randn(4, 2 + size))
    return out + [project_pmf(p / p.sum())]


@family
def spin_chains(rng, size):
    n = (3, 4, 5)[size]
    gamma = rng.rand()
    terms = list(physics.cXY_local_terms(n, gamma))
    own = [hermitian(rng, 2) for _ in range(n)]
    mpo = physics.mpo_cH(terms)
    return [val(terms[0]), physics.cXY_E0(4 * size + 6, gamma),
            physics.sparse_cH(terms).toarray(),
            physics.sparse_cH(own).toarray(), val(mpo),
            val(physics.mpo_cH(own))]


@family
def product_vectors(rng, size):
    n = SITES[size]
    vs = [mpa(rng, ((2,),) * n, 1) for _ in range(3)]
    w = mpa(rng, ((2,),) * n, 3)
    return [special.inner_prod_mps(vs[0], w),
            special.inner_prod_mps(vs[1], vs[2]),
            val(special.sumup(vs, 3)),
            val(special.sumup(vs, 2, weights=rng.randn(3)))]


@family
def named_arrays(rng, size):
    d = 2 + size
    a = named_ndarray(array(rng, (2, d, 3)), ('x', 'y', 'z'))
    b = named_ndarray(array(rng, (3, d, 2)), ('x', 'y', 'w'))
    c = a.tensordot(b, (('z', 'x'), ('y', 'y')))
    e = a.rename((('x', 'z'), ('z', 'x')))
    return [c.to_array(('w', 'x')), e.to_array(('x', 'y', 'z')),
            a.conj().to_array(('z', 'y', 'x'))]


@family
def storage(rng, size):
    a = mpa(rng, ((2,),) * SITES[size], 2)
    a.canonicalize(1, 2)
    tmp = tempfile.mkdtemp(prefix='mpnum_fam_')
    try:
        path = os.path.join(tmp, 'a.h5')
        a.dump(path)
        b = mp.MPArray.load(path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [val(a), val(b), np.array(b.canonical_form)]


@family
def conversions(rng, size):
    n = (2, 3, 4)[size]
    a = array(rng, (2, 3) * n)
    m = mp.MPArray.from_array(a, 2)
    g = mp.MPArray.from_array_global(utils.local_to_global(a, n), 2)
    k = mp.MPArray.from_kron([array(rng, (2, 2)) for _ in range(n)])
    return [m.to_array(), m.to_array_global(), val(g), k.to_array(), val(k)]
