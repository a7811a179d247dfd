# encoding: utf-8
"""C18: reproducibility from the given random state"""
from __future__ import division

import functools as ft

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
from mpnum import special
from mpnum.utils.extmath import approx_range_finder, randomized_svd

from .. import dense as dn, gen

PROP = 'C18'
RULE = ('every randomized function in paired runs with equal states and '
        'different states of the global generator, then again with the used '
        'state; non-trivial: all cases which draw random numbers')
QUICK, THOROUGH = 900, 12000


def flat(res):
    """Result as list of arrays"""
    if isinstance(res, mp.MPArray):
        return dn.tens(res)
    if isinstance(res, (tuple, list)):
        return [x for r in res for x in flat(r)]
    if hasattr(res, '__next__'):
        return [x for r in res for x in flat(r)]
    return [np.array(res)]


def equal(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y)
        for x, y in zip(a, b))


def state_equal(s, t):
    return s[0] == t[0] and np.array_equal(s[1], t[1]) and s[2:] == t[2:]


def exact(op, v0=None):
    val, vec = np.linalg.eigh((op + op.conj().T) / 2)
    return val[:1], vec[:, :1]


def paired(ctx, name, fun, differs=True):
    """`fun(randstate)` in paired runs"""
    ctx.signature(name, ctx.case % 997)
    seed = ctx.randint(0, 2 ** 31 - 1)
    outcome = []
    for k in range(2):
        np.random.seed(ctx.randint(0, 2 ** 31 - 1))
        if ctx.chance(.5):
            np.random.randn(ctx.randint(1, 5))
        before = np.random.get_state()
        rs = np.random.RandomState(seed)
        outcome.append((flat(fun(rs)), rs))
        ctx.check(state_equal(before, np.random.get_state()),
                  name + ': global random state used')
        ctx.event('global_state_checked')
    ctx.check(equal(outcome[0][0], outcome[1][0]),
              name + ': not reproducible', seed=seed)
    ctx.check(state_equal(outcome[0][1].get_state(),
                          outcome[1][1].get_state()),
              name + ': random state left in different states')
    ctx.check(not state_equal(outcome[0][1].get_state(),
                              np.random.RandomState(seed).get_state()),
              name + ': given random state not used')
    # go on with the same state object
    again = [flat(fun(rs)) for _, rs in outcome]
    ctx.check(equal(*again), name + ': second call not reproducible')
    if differs:
        ctx.check(not equal(again[0], outcome[0][0]),
                  name + ': second call repeats the first')
    ctx.nontrivial = True
    ctx.event('paired:' + name)


def factories(ctx):
    n, d, r = ctx.randint(1, 5), ctx.randint(2, 3), ctx.randint(1, 4)
    force, norm = ctx.chance(.5), ctx.chance(.5)
    dt = ctx.pick([np.float_, np.complex_])
    jobs = [
        ('random_mpa', lambda s: mp.random_mpa(
            n, d, r, randstate=s, normalized=norm, force_rank=force,
            dtype=dt)),
        ('random_mps', lambda s: mp.random_mps(n, d, r, randstate=s,
                                               force_rank=force)),
        ('random_mpo', lambda s: mp.random_mpo(
            n, d, r, randstate=s, hermitian=norm, force_rank=force)),
        ('random_mpdo', lambda s: mp.random_mpdo(n, d, r, randstate=s)),
        ('random_local_ham', lambda s: mp.random_local_ham(
            n, d, intlen=min(2, n), randstate=s)),
    ]
    for f in ('_random_vec', '_random_op', '_random_state'):
        f = getattr(mp.factory, f, None)     # private; may be absent
        if f is not None:
            jobs.append(('dense', lambda s, f=f: f(n, 2, randstate=s)))
    paired(ctx, *ctx.pick(jobs))


def default_state(ctx):
    """Without a random state the global generator decides"""
    n, r = ctx.randint(2, 4), ctx.randint(2, 3)
    name, fun = ctx.pick([
        ('random_mpa', lambda: mp.random_mpa(n, 2, r)),
        ('random_mps', lambda: mp.random_mps(n, 2, r)),
        ('random_mpo', lambda: mp.random_mpo(n, 2, r)),
        ('random_mpdo', lambda: mp.random_mpdo(n, 2, r)),
        ('random_local_ham', lambda: mp.random_local_ham(n)),
        ('randomized_svd', lambda: randomized_svd(
            np.arange(12.).reshape(4, 3) ** 2, 2, 1)),
    ])
    seed = ctx.randint(0, 2 ** 31 - 1)
    res = []
    for _ in range(2):
        np.random.seed(seed)
        res.append(flat(fun()))
    ctx.check(equal(*res), name + ': global seed does not determine result')
    if name != 'randomized_svd':
        ctx.check(not equal(flat(fun()), res[0]), name + ': repeats itself')
    ctx.event('default_state')
    ctx.signature(name, n, r)
    ctx.nontrivial = True


def eigensolvers(ctx):
    n, d = ctx.randint(3, 5), 2
    mpo = mp.random_mpo(n, d, 2, randstate=ctx.rng, hermitian=True,
                        normalized=False)
    var = ctx.randint(1, 2)
    rank = ctx.randint(2, 4)
    if ctx.chance(.5):
        paired(ctx, 'eig', lambda s: mp.eig(
            mpo, 1, var_sites=var, startvec_rank=rank, randstate=s,
            eigs=exact), differs=False)
    else:
        other = mp.random_mps(n, d, 2, randstate=ctx.rng)
        paired(ctx, 'eig_sum', lambda s: mp.eig_sum(
            [mpo, other], 1, var_sites=var, startvec_rank=rank, randstate=s,
            eigs=exact), differs=False)


def compression(ctx):
    n = ctx.randint(2, 5)
    a = mp.random_mpa(n, ctx.pick([2, 3, (2, 2)]), ctx.randint(3, 6),
                      randstate=ctx.rng, dtype=ctx.pick([np.float_,
                                                         np.complex_]))
    if max(a.ranks) < 2:
        return
    rank = ctx.randint(1, min(3, max(a.ranks) - 1))
    var = ctx.randint(1, min(2, n))
    paired(ctx, 'compression_var', lambda s: a.copy().compression(
        'var', rank=rank, num_sweeps=1, var_sites=var, randstate=s),
        differs=var < n - 1)


def decompositions(ctx):
    m, k = ctx.randint(3, 12), ctx.randint(3, 12)
    A = gen.rand_array(ctx, (m, k), ctx.pick(['f8', 'c16']))
    r, o = ctx.randint(1, 3), ctx.randint(0, 3)
    it = ctx.pick(['auto', 0, 1, 3])
    tr = ctx.pick(['auto', True, False])
    what = ctx.randint(0, 3)
    if what == 0:
        # full sketches hardly depend on the sample: no comparison
        paired(ctx, 'randomized_svd', lambda s: randomized_svd(
            A, r, o, n_iter=it, transpose=tr, randstate=s), differs=False)
    elif what == 1:
        paired(ctx, 'approx_range_finder', lambda s: approx_range_finder(
            A, r, 0 if it == 'auto' else it, randstate=s), differs=False)
    elif what == 2:
        a = mp.random_mpa(4, 3, 5, randstate=ctx.rng)
        paired(ctx, 'compression_randomized', lambda s: a.compression(
            'svd', rank=2, svdfunc=ft.partial(randomized_svd, randstate=s)),
            differs=False)
    else:
        mpas = [mp.random_mpa(4, 3, 1, randstate=ctx.rng) for _ in range(5)]
        paired(ctx, 'sumup_randomized', lambda s: special.sumup(
            mpas, 3, svdfunc=ft.partial(randomized_svd, randstate=s)),
            differs=False)


def sampling(ctx):
    n = ctx.randint(1, 4)
    pauli = ctx.chance(.5)
    povm = mpp.pauli_mpp(n, 2) if pauli else \
        mpp.MPPovm.from_local_povm(mpp.x_povm(2), n)
    mode = ctx.pick(['mps', 'pmps', 'mpdo'])
    psi = mp.random_mps(n, 2, 2, randstate=ctx.rng)
    state = {'mps': psi, 'pmps': mp.mps_to_pmps(psi),
             'mpdo': mp.mps_to_mpo(psi)}[mode]
    method = ctx.pick(['cond', 'direct'])
    k = ctx.randint(25, 35)
    if ctx.chance(.7):
        group = ctx.randint(1, 3)
        paired(ctx, 'sample_' + method, lambda s: povm.sample(
            s, state, k, method=method, n_group=group, mode=mode),
            differs=pauli)
    else:
        lst = mpp.MPPovmList([povm, povm])
        paired(ctx, 'sample_list', lambda s: lst.sample(
            s, state, k, method, mode=mode), differs=pauli)


def deterministic(ctx):
    """Everything else does not touch the global generator"""
    a = gen.rand_mpa(ctx, dtypes=('f8', 'c16'), max_size=400,
                     uniform_legs=True, min_legs=1)
    n = len(a)
    psi = mp.random_mps(3, 2, 3, randstate=ctx.rng)
    povm = mpp.pauli_mpp(3, 2)
    sam = ctx.rng.randint(0, 6, size=(20, 3)).astype(np.uint8)
    np.random.seed(ctx.randint(0, 2 ** 31 - 1))
    before = np.random.get_state()

    def run():
        out = []
        out += flat(a + a)
        out += flat(a - a * 2)
        out += flat(a.compression('svd', rank=2))
        b = a.copy()
        b.canonicalize()
        out += flat(b)
        out += [np.array(x) for x in a.copy().singularvals()]
        out += flat(mp.norm(a.copy()))
        out += flat(mp.localouter(a, a.conj())) if n < 3 else []
        if n > 1:
            start = a.compression('svd', rank=1)[0]
            out += flat(a.compression('var', startmpa=start, num_sweeps=1,
                                      var_sites=1))
        out += flat(mp.sumup([a, a, a]))
        out += flat(list(mp.reductions_mps_as_mpo(psi, 2)))
        out += flat(povm.pmf_as_array(psi, 'mps'))
        out += flat(povm.est_pmf(sam))
        out += flat(povm.est_lfun(None, None, sam))
        out += flat(mp.eig(mp.mps_to_mpo(psi), 1, startvec=psi, var_sites=1,
                           eigs=exact))
        return out
    one = run()
    ctx.check(state_equal(before, np.random.get_state()),
              'deterministic function used the global random state')
    np.random.seed(ctx.randint(0, 2 ** 31 - 1))
    ctx.check(equal(one, run()), 'deterministic functions not reproducible')
    ctx.event('deterministic')
    ctx.nontrivial = True
    ctx.signature('det', gen.describe(a))


SCENARIOS = [('factories', factories), ('eigensolvers', eigensolvers),
             ('compression', compression), ('decompositions', decompositions),
             ('sampling', sampling), ('factories2', factories),
             ('default_state', default_state),
             ('deterministic', deterministic)]
REQUIRED = ['global_state_checked', 'default_state', 'deterministic'] + [
    'paired:' + x for x in (
        'random_mpa', 'random_mps', 'random_mpo', 'random_mpdo',
        'random_local_ham', 'eig', 'eig_sum', 'compression_var',
        'randomized_svd', 'approx_range_finder', 'compression_randomized',
        'sumup_randomized', 'sample_cond', 'sample_direct', 'sample_list')]
