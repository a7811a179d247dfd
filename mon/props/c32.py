# encoding: utf-8
"""C32: failures leave operands intact and objects consistent"""
from __future__ import division

import os
import shutil
import tempfile

import numpy as np
import scipy.linalg

import mpnum as mp
import mpnum.povm as mpp
from mpnum import linalg, mpsmpo, special
from mpnum.utils import truncated_svd

from .. import dense as dn, eigmon, gen, ops, povmgen as pg
from ..util import expect_mpa, unchanged

PROP = 'C32'
RULE = ('injected faults: functions, random states and iterables supplied by '
        'the caller raise at a random call; refused arguments of all kinds; '
        'afterwards all participants are compared with their state before '
        'and the operation is repeated without fault; non-trivial: a fault '
        'was injected after the operation had started its work')
QUICK, THOROUGH = 3000, 36000
FLOATS = ('f8', 'c16')


class Fault(Exception):
    pass


# The error is also of a type which code might handle for its own purposes
KINDS = [Fault] + [type('Fault' + _t.__name__, (Fault, _t), {}) for _t in (
    ValueError, IndexError, KeyError, RuntimeError,
    ZeroDivisionError, AssertionError, NotImplementedError, FloatingPointError,
    OSError, np.linalg.LinAlgError)]
KIND = [Fault]


def fault():
    return KIND[0]('injected')


def faulty(scenario):
    def run(ctx):
        KIND[0] = ctx.pick(KINDS)
        ctx.note(fault=KIND[0].__name__)
        ctx.event(KIND[0].__name__)
        scenario(ctx)
    return run


class FaultAt(object):
    """Function which fails when it is called for the k-th time"""

    def __init__(self, fun, k):
        self.fun, self.k, self.calls = fun, k, 0

    def __call__(self, *args, **kw):
        self.calls += 1
        if self.calls == self.k:
            raise fault()
        return self.fun(*args, **kw)


class FaultyRandom(np.random.RandomState):
    """Random state whose k-th draw fails"""

    def __init__(self, seed, k):
        np.random.RandomState.__init__(self, seed)
        self.left = k

    def _draw(self, name, args, kw):
        self.left -= 1
        if self.left == 0:
            raise fault()
        return getattr(np.random.RandomState, name)(self, *args, **kw)


for _name in ('rand', 'randn', 'choice', 'randint', 'uniform', 'normal',
              'random_sample', 'standard_normal', 'permutation', 'multinomial',
              'random'):
    setattr(FaultyRandom, _name, (lambda n: lambda self, *a, **k:
                                  self._draw(n, a, k))(_name))


class Snap(object):
    """State of an object before the fault"""

    def __init__(self, *mpas):
        self.mpas = [(m, dn.tens(m), tuple(m.canonical_form)) for m in mpas]

    def bitwise(self, ctx, msg):
        for m, lts, form in self.mpas:
            unchanged(ctx, m, lts, msg, form)
        ctx.event('operands_compared', len(self.mpas))

    def array(self, ctx, msg):
        """The represented array and the legs are the same"""
        for m, lts, _ in self.mpas:
            healthy(ctx, m, dn.shape_of(lts), msg)
            ctx.close(dn.dense(dn.tens(m)), dn.dense(lts), msg,
                      scale=1e-2 * dn.bound(lts), rtol=gen.rtol_of(m))
        ctx.event('operands_compared', len(self.mpas))


def healthy(ctx, m, shape, msg):
    defect = dn.chain_defect(m)
    ctx.check(defect is None, msg + ': ' + str(defect))
    ctx.check(tuple(map(tuple, m.shape)) == tuple(map(tuple, shape)),
              msg + ': legs', got=m.shape, expected=shape)
    defect = dn.claim_defect(m)
    ctx.check(defect is None, msg + ': ' + str(defect))


def fails(ctx, fun, msg):
    """True if the injected fault came through; anything else which is raised
    hides the fault"""
    try:
        fun()
    except Fault:
        ctx.event('faults')
        ctx.nontrivial = True
        return True
    ctx.event('finished_before_fault')
    return False


def swallowed(ctx, fault, came, msg):
    ctx.check(came or fault.calls < fault.k, msg + ': fault was swallowed')


def operand(ctx, **kw):
    kw.setdefault('sites', ctx.randint(2, 6))
    return gen.rand_mpa(ctx, dtypes=FLOATS, max_size=800, max_rank=4, **kw)


def svd_in_place(ctx):
    a = operand(ctx)
    lts = dn.tens(a)
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    scale = 1e-2 * dn.bound(lts)
    other, third = a.copy(), a * 2
    snap = Snap(other, third)
    lossless = ctx.chance(.5)
    rank = max(a.ranks) if lossless else ctx.randint(1, max(a.ranks))
    f = FaultAt(truncated_svd, ctx.randint(1, len(a) - 1))
    kw = dict(rank=rank, svdfunc=f)
    if ctx.chance(.7):
        kw['direction'] = ctx.pick(['left', 'right'])
    came = fails(ctx, lambda: a.compress('svd', **kw), 'compress')
    swallowed(ctx, f, came, 'compress')
    snap.bitwise(ctx, 'relative of an array whose compression failed')
    ctx.signature(gen.describe(a), f.k, rank, kw.get('direction'))
    if not came:
        return
    healthy(ctx, a, shape, 'array after failed compression')
    now = dn.dense(dn.tens(a))
    if rank >= max(1, max(dn.ranks_of(lts))):
        ctx.close(now, arr, 'failed lossless compression changed the array',
                  scale=scale, rtol=1e-8)
        ctx.event('lossless')
    # what is left is a projection of the original
    n0, n1 = np.linalg.norm(arr), np.linalg.norm(now)
    tol = 1e-8 * max(n0, scale) ** 2
    ctx.check(abs(np.vdot(now, arr) - n1 ** 2) <= tol,
              'failed compression: not a projection')
    # and again
    kw['svdfunc'] = truncated_svd
    ov = a.compress('svd', **kw)
    healthy(ctx, a, shape, 'repeated compression')
    ctx.check(max(a.ranks) <= rank, 'repeated compression: rank')
    res = dn.dense(dn.tens(a))
    n2 = np.linalg.norm(res)
    ctx.check(abs(np.vdot(res, arr) - n2 ** 2) <= tol and
              abs(ov - n2 ** 2) <= tol, 'repeated compression: overlap')
    ctx.event('repeated')


def svd_copy(ctx):
    a = operand(ctx)
    snap = Snap(a)
    f = FaultAt(truncated_svd, ctx.randint(1, len(a) - 1))
    kw = dict(rank=ctx.randint(1, 4))
    if ctx.chance(.5):
        kw['direction'] = ctx.pick(['left', 'right'])
    came = fails(ctx, lambda: a.compression('svd', svdfunc=f, **kw),
                 'compression')
    swallowed(ctx, f, came, 'compression')
    snap.bitwise(ctx, 'operand of a failed compression')
    res, _ = a.compression('svd', **kw)
    if 'direction' in kw or len(a) == 2:
        ctx.check(max(res.ranks) <= kw['rank'], 'compression: rank')
    ctx.signature(gen.describe(a), f.k, sorted(kw.items()))
    # variational compression: random start vector fails
    rng = FaultyRandom(ctx.randint(0, 999), ctx.randint(1, 3))
    came = fails(ctx, lambda: a.compression(
        'var', num_sweeps=1, rank=1, randstate=rng, var_sites=1), 'var')
    snap.bitwise(ctx, 'operand of a failed variational compression')
    came = fails(ctx, lambda: a.compress(
        'var', num_sweeps=1, rank=1, var_sites=1,
        randstate=FaultyRandom(1, 1)), 'var')
    if came:
        snap.array(ctx, 'array after failed variational compression')


def eigensolver(ctx):
    n = ctx.randint(3, 5)
    d = eigmon.dims(ctx, n, limit=80)
    h = eigmon.hermitian_mpo(ctx, d)
    start = eigmon.start_vector(ctx, d, ctx.chance(.5))
    w = gen.rand_mpa(ctx, shape=tuple((x,) for x in d), dtypes=FLOATS,
                     max_rank=2)
    snap = Snap(h, start, w)

    def solve(op, v0):
        op = op.toarray() if hasattr(op, 'toarray') else np.asarray(op)
        op = (op + op.conj().T) / 2
        val, vec = scipy.linalg.eigh(op)
        return val[:1], vec[:, :1]

    v = ctx.randint(1, 2)
    f = FaultAt(solve, ctx.randint(1, 2 * n))
    both = ctx.chance(.5)
    if both:
        call = lambda eigs: linalg.eig_sum([h, w], 2, var_sites=v,
                                           startvec=start, eigs=eigs)
    else:
        call = lambda eigs: linalg.eig(h, 2, var_sites=v, startvec=start,
                                       eigs=eigs)
    ref = call(solve)
    snap.bitwise(ctx, 'operand of an eigensolver')
    came = fails(ctx, lambda: call(f), 'eig')
    swallowed(ctx, f, came, 'eig')
    snap.bitwise(ctx, 'operand of a failed eigensolver')
    val, vec = call(solve)
    ctx.check(abs(val - ref[0]) <= 1e-7 * max(1., abs(ref[0])),
              'eigensolver after a failure', got=val, expected=ref[0])
    ctx.signature('eig', d, v, both, f.k)
    ctx.event('eigensolvers')


def product_sums(ctx):
    n = ctx.randint(2, 6)
    shape = gen.rand_shape(ctx, sites=n, min_legs=1, max_size=500)
    terms = [gen.rand_mpa(ctx, shape=shape, ranks=(1,) * (n - 1),
                          dtypes=FLOATS) for _ in range(ctx.randint(2, 5))]
    snap = Snap(*terms)
    f = FaultAt(truncated_svd, ctx.randint(1, n - 1))
    came = fails(ctx, lambda: special.sumup(terms, len(terms), svdfunc=f),
                 'special.sumup')
    swallowed(ctx, f, came, 'special.sumup')
    snap.bitwise(ctx, 'summand of a failed sum')
    k = ctx.randint(0, len(terms) - 1)

    def failing(items):
        for i, x in enumerate(items):
            if i == k:
                raise fault()
            yield x

    calls = [lambda: mp.sumup(failing(terms)),
             lambda: special.sumup(failing(terms), 3),
             lambda: mp.chain(failing(terms)),
             lambda: mp.local_sum(failing(terms),
                                  embed_tensor=np.ones(shape[0])),
             lambda: mp.MPArray(failing([t.lt[0] for t in terms])),
             lambda: mp.MPArray.from_kron(failing(
                 [np.ones(2) for t in terms]))]
    ctx.check(fails(ctx, ctx.pick(calls), 'iterable'),
              'fault of an iterable was swallowed')
    snap.bitwise(ctx, 'operand of a failed sum')
    # weights
    res = mp.sumup(terms)
    ref = sum(dn.dense(dn.tens(t)) for t in terms)
    expect_mpa(ctx, res, ref, shape, 'sum after a failure',
               sum(1e-2 * dn.bound(dn.tens(t)) for t in terms))
    ctx.signature('sums', shape, len(terms), f.k, k)


def update_fault(ctx):
    """A replacement whose tensors cannot be produced changes nothing"""
    a = operand(ctx)
    i = ctx.randint(0, len(a) - 1)
    j = ctx.randint(i + 1, len(a))
    new = [np.array(a.lt[s]) * 2 for s in range(i, j)]
    k = ctx.randint(0, len(new) - 1)
    snap = Snap(a)

    def failing():
        for p, t in enumerate(new):
            if p == k:
                raise fault()
            yield t

    def call():
        if ctx.chance(.5):
            a.lt[i:j] = failing()
        else:
            a.lt.update(slice(i, j), failing())

    ctx.check(fails(ctx, call, 'update'), 'fault was swallowed')
    snap.bitwise(ctx, 'array after a failed replacement')
    # one tensor of the replacement does not fit
    bad = [t.copy() for t in new]
    bad[k] = np.zeros(tuple(x + 1 for x in bad[k].shape))
    ctx.raises(Exception, lambda: a.lt.update(slice(i, j), bad),
               'misfit in a slice')
    snap.bitwise(ctx, 'array after a refused replacement')
    ctx.raises(Exception, lambda: a.lt.update(i, bad[k][None]),
               'misfit') if k == 0 else None
    snap.bitwise(ctx, 'array after a refused replacement')
    ctx.signature(gen.describe(a), i, j, k)


def random_objects(ctx):
    """A failing random state fails the factory; nothing half-made is kept"""
    n, r = ctx.randint(1, 5), ctx.randint(1, 4)
    seed = ctx.randint(0, 10 ** 6)
    makers = [
        lambda rs: mp.random_mpa(n, 2, r, randstate=rs),
        lambda rs: mp.random_mps(n, 2, r, randstate=rs),
        lambda rs: mp.random_mpo(n, 2, r, randstate=rs, hermitian=True),
        lambda rs: mp.random_mpdo(n, 2, r, randstate=rs),
        lambda rs: mp.random_local_ham(n + 1, 2, 2, randstate=rs)]
    make = ctx.pick(makers)
    ref = dn.tens(make(np.random.RandomState(seed)))
    before = np.random.get_state()
    fails(ctx, lambda: make(FaultyRandom(seed, ctx.randint(1, n + 1))),
          'factory')
    after = np.random.get_state()
    ctx.check((before[1] == after[1]).all() and before[2:] == after[2:],
              'global random state was used')
    again = dn.tens(make(np.random.RandomState(seed)))
    ctx.check(len(ref) == len(again) and all(
        x.shape == y.shape and np.array_equal(x, y)
        for x, y in zip(ref, again)), 'factory after a failure')
    ctx.signature('factory', n, r, seed)


def measurements(ctx):
    n = ctx.randint(1, 3)
    povm = pg.rand_povm(ctx, n=n)
    state, mode, rho = pg.rand_state(ctx, povm.hdims)
    snap_p, snap_s = Snap(povm), Snap(state)
    k = ctx.randint(1, 6)
    kw = dict(method=ctx.pick(['cond', 'direct']), mode=mode)
    fails(ctx, lambda: povm.sample(FaultyRandom(3, k), state, 4, **kw),
          'sample')
    snap_p.bitwise(ctx, 'measurement after failed sampling')
    snap_s.array(ctx, 'state after failed sampling')
    seed = ctx.randint(0, 999)
    s = povm.sample(np.random.RandomState(seed), state, 5, **kw)
    keep = s.copy()

    def bad(x):
        if len(x):
            x = np.array(x)
            raise fault()

    good = lambda x: x.sum(1) * 1.
    funs = [good, bad] if ctx.chance(.5) else [bad]
    coeff = np.ones(len(funs))
    came = fails(ctx, lambda: povm.lfun(coeff, funs, state, mode), 'lfun')
    ctx.check(came, 'lfun: fault was swallowed')
    came = fails(ctx, lambda: povm.est_lfun(coeff, funs, s), 'est_lfun')
    ctx.check(came, 'est_lfun: fault was swallowed')
    ctx.check(np.array_equal(s, keep), 'samples were changed')
    snap_p.bitwise(ctx, 'measurement after a failure')
    snap_s.array(ctx, 'state after a failure')
    p = povm.pmf_as_array(state, mode)
    ref = pg.squeeze_out(pg.pmf_dense(dn.tens(povm), rho).real, povm.outdims)
    ctx.close(p, ref, 'probabilities after a failure', scale=1., rtol=1e-8)
    ctx.signature('povm', povm.shape, mode, k, len(funs))
    ctx.event('measurements')


def refusals(ctx):
    """Refused arguments of all kinds"""
    a = operand(ctx)
    n = len(a)
    b = gen.rand_mpa(ctx, shape=a.shape + a.shape[-1:], dtypes=FLOATS)
    wrong = tuple(tuple(d + 1 for d in s) + (2,) for s in a.shape)
    c = gen.rand_mpa(ctx, shape=wrong, dtypes=FLOATS, max_rank=2) \
        if np.prod([d for s in wrong for d in s]) < 5000 else b
    snap = Snap(a, b, c)
    pure = {
        'add': lambda: a + b, 'sub': lambda: a - b,
        'sumup': lambda: mp.sumup([a, b]), 'inner': lambda: mp.inner(a, b),
        'dot': lambda: mp.dot(a, b), 'normdist': lambda: mp.normdist(a, b),
        'multiply': lambda: a * a, 'divide': lambda: a / b,
        'get': lambda: a.get((0,) * (n + 1)),
        'reshape': lambda: a.reshape([(d + 1 for d in s + (1,))
                                      for s in a.shape]),
        'group': lambda: a.group_sites(n + 1),
        'localouter': lambda: mp.localouter(a, b),
        'method': lambda: a.compression('none', rank=1),
        'no rank': lambda: a.compression('var', num_sweeps=1),
        'rank 0': lambda: a.compression('svd', rank=0),
        'direction': lambda: a.compression('svd', rank=1, direction='up'),
        'relerr': lambda: a.compression('svd', relerr=1.5),
        'special': lambda: special.sumup([a, b], 2),
        'embed': lambda: mp.embed_slice(n, slice(0, n - 1), a),
        'inject': lambda: mp.inject(a, (1, 1), (1, 1)),
        'from_array': lambda: mp.MPArray.from_array(np.ones((2, 2)), 3),
        'reductions': lambda: mpsmpo.reductions(a, 'none', width=1),
    }
    names = ctx.rng.permutation(sorted(pure))[:6]
    for name in names:
        ctx.raises(Exception, pure[name], 'refusal: ' + name)
        ctx.event('refused:' + name)
    snap.bitwise(ctx, 'operand of a refused operation')
    inplace = {
        'imul': lambda: a.__imul__(b), 'idiv': lambda: a.__itruediv__(b),
        'canonicalize': lambda: a.canonicalize(left=n + 1),
        'canonicalize overlap': lambda: a.canonicalize(n - 1, 1),
        'update': lambda: a.lt.update(0, np.zeros((9, 9))),
        'update range': lambda: a.lt.update(n, np.zeros((1, 1))),
    }
    for name in sorted(inplace):
        ctx.raises(Exception, inplace[name], 'refusal: ' + name)
    snap.bitwise(ctx, 'target of a refused operation')
    gauge = {
        'compress rank': lambda: a.compress('svd', rank=0),
        'compress relerr': lambda: a.compress('svd', relerr=-1.),
        'compress direction': lambda: a.compress('svd', rank=1,
                                                 direction='up'),
        'compress method': lambda: a.compress('none', rank=1),
        'var': lambda: a.compress('var', num_sweeps=1),
    }
    for name in sorted(gauge):
        ctx.raises(Exception, gauge[name], 'refusal: ' + name)
    snap.array(ctx, 'target of a refused compression')
    ctx.signature('refusals', gen.describe(a), list(names))
    ctx.nontrivial = True


def storage(ctx):
    import h5py
    a = operand(ctx)
    snap = Snap(a)
    tmp = tempfile.mkdtemp(prefix='mpnum_c32_')
    try:
        path = os.path.join(tmp, 'a.h5')
        k = ctx.randint(0, len(a) - 1)
        with h5py.File(path, 'w') as f:
            g = f.create_group('g')
            g[str(k)] = np.zeros(3)      # name is taken
            try:
                a.dump(g)
            except Exception:
                ctx.event('dump_failed')
                ctx.nontrivial = True
            snap.bitwise(ctx, 'array after dump into a used group')
            h = f.create_group('h')
            a.dump(h)
            b = mp.MPArray.load(h)
            Snap(a).bitwise(ctx, 'array after dump')
            unchanged(ctx, b, dn.tens(a), 'array from another group')
            # a site is missing
            del h[str(k)]
            ctx.raises(Exception, lambda: mp.MPArray.load(h),
                       'load with a missing site')
        ctx.raises(Exception, lambda: mp.MPArray.load(
            os.path.join(tmp, 'missing.h5')), 'load of a missing file')
        ctx.raises(Exception, lambda: a.dump(
            os.path.join(tmp, 'no', 'such', 'dir.h5')),
            'dump into a missing directory')
        snap.bitwise(ctx, 'array after failed dump')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.signature('storage', gen.describe(a), k)


SCENARIOS = [('svd_in_place', svd_in_place), ('svd_copy', svd_copy),
             ('eigensolver', eigensolver), ('product_sums', product_sums),
             ('update_fault', update_fault),
             ('random_objects', random_objects),
             ('measurements', measurements), ('refusals', refusals),
             ('storage', storage), ('svd_in_place2', svd_in_place)]
SCENARIOS = [(_n, faulty(_s)) for _n, _s in SCENARIOS]
REQUIRED = ['faults', 'operands_compared', 'lossless', 'repeated',
            'eigensolvers', 'measurements']
