# encoding: utf-8
"""Public operations as steps of random histories.

Each operation draws its arguments from a pool of MPArrays and reports

    kind      'pure'    operands must not change at all
              'gauge'   `operands[0]` may be re-gauged, its array stays
              'inplace' `operands[0]` changes, all others must not
    operands  participants (first: target of gauge/inplace operations)
    results   new MPArrays
"""
from __future__ import division

import collections
import os
import tempfile

import numpy as np

import mpnum as mp
from mpnum import mpsmpo, special
from mpnum.mpstruct import LocalTensors

from . import dense as dn, gen

Step = collections.namedtuple('Step', 'name kind operands results')
FLOATS = ('f8', 'c16', 'f8', 'c16', 'f4', 'c8')

PURE, OTHER = [], []


def op(table, weight=1):
    def deco(fun):
        table.extend([fun] * weight)
        return fun
    return deco


def size_of(mpa):
    return float(np.prod([float(d) for s in mpa.shape for d in s]))


def fits(mpa, max_size=600, max_rank=24):
    return size_of(mpa) <= max_size and len(mpa) <= 9 and \
        max((1,) + tuple(mpa.ranks)) <= max_rank and \
        max(len(s) for s in mpa.shape) <= 6


def new_mpa(ctx, shape=None, **kw):
    kw.setdefault('max_size', 200)
    kw.setdefault('max_sites', 5)
    kw.setdefault('max_rank', 4)
    if shape is not None:
        for k in ('max_size', 'max_sites'):
            kw.pop(k, None)
    return gen.rand_mpa(ctx, shape=shape, dtypes=FLOATS, **kw)


def partner(ctx, pool, a):
    """MPA with the same shape as a"""
    same = [b for b in pool if b.shape == a.shape]
    if ctx.chance(.6):
        return ctx.pick(same)
    return new_mpa(ctx, shape=a.shape)


# -- pure operations -----------------------------------------------------
@op(PURE)
def add(ctx, pool, a):
    b = partner(ctx, pool, a)
    return Step('add', 'pure', [a, b], [a + b])


@op(PURE)
def sub(ctx, pool, a):
    b = partner(ctx, pool, a)
    return Step('sub', 'pure', [a, b], [a - b])


@op(PURE, 2)
def mul(ctx, pool, a):
    s = gen.rand_scalar(ctx)
    s = np.clip(abs(s), .2, 5) * (s / abs(s)) if abs(s) else 1.0
    if ctx.chance(.25):    # neutral, but still a new object
        s = ctx.pick([1, 1.0, 1 + 0j, np.float64(1)])
    how = ctx.randint(0, 3)
    res = [lambda: a * s, lambda: s * a, lambda: a / s, lambda: -a][how]()
    return Step('mul', 'pure', [a], [res])


@op(PURE)
def sumup(ctx, pool, a):
    ops = [a, partner(ctx, pool, a), partner(ctx, pool, a)]
    ops = ops[:ctx.randint(1, 3)]
    w = None if ctx.chance(.5) else [1.5, -.5, 2j][:len(ops)]
    return Step('sumup', 'pure', ops, [mp.sumup(ops, weights=w)])


@op(PURE, 2)
def unary(ctx, pool, a):
    name = ctx.pick(['T', 'conj', 'adj', 'transpose', 'ravel', 'reverse',
                     'copy', 'pos', 'transpose_axes'])
    if name == 'T':
        res = a.T
    elif name == 'pos':
        res = +a
    elif name == 'transpose_axes':
        if len(set(a.ndims)) > 1:
            return None
        order = tuple(int(x) for x in ctx.rng.permutation(a.ndims[0]))
        res = a.transpose(order)
    else:
        res = getattr(a, name)()
    return Step(name, 'pure', [a], [res])


@op(PURE)
def reshape(ctx, pool, a):
    how = ctx.randint(0, 3)
    if how == 3:
        res = a.reshape(a.shape)
    elif how == 0:
        res = a.reshape('prune')
    elif how == 1:
        res = a.reshape([s + (1,) for s in a.shape])
    else:
        res = a.reshape([(int(np.prod(s, dtype=int)),) for s in a.shape])
    return Step('reshape', 'pure', [a], [res])


@op(PURE)
def group(ctx, pool, a):
    ks = [k for k in range(1, len(a) + 1) if len(a) % k == 0]
    return Step('group_sites', 'pure', [a], [a.group_sites(ctx.pick(ks))])


@op(PURE)
def split_sites(ctx, pool, a):
    ks = [k for k in (1, 2, 3) if all(n and n % k == 0 for n in a.ndims)]
    if not ks:
        return None
    return Step('split_sites', 'pure', [a], [a.split_sites(ctx.pick(ks))])


@op(PURE, 2)
def vleg(ctx, pool, a):
    if len(a) < 2:
        return None
    pos = ctx.randint(0, len(a) - 2)
    b = a.vleg2leg(pos)
    how = ctx.randint(0, 2)
    if how == 0:
        c = b.leg2vleg(pos)
        return Step('vleg2leg+leg2vleg', 'pure', [a], [b, c])
    if how == 1:
        l, r = a.split(pos)
        return Step('split', 'pure', [a], [l, r])
    return Step('vleg2leg', 'pure', [a], [b])


@op(PURE)
def vleg_regauged(ctx, pool, a):
    """leg2vleg of a chain whose form has been changed in between"""
    if len(a) < 2:
        return None
    pos = ctx.randint(0, len(a) - 2)
    b = a.vleg2leg(pos)
    left = ctx.randint(0, len(b) - 1)
    right = ctx.randint(left + 1, len(b))
    b.canonicalize(left, right)
    if b.ranks[pos] != 1:
        return None
    return Step('leg2vleg(regauged)', 'pure', [a], [b, b.leg2vleg(pos)])


@op(PURE)
def pad(ctx, pool, a):
    if len(a) < 2:
        return None
    res = a.pad_ranks(ctx.randint(1, 6), force_rank=ctx.chance(.5))
    return Step('pad_ranks', 'pure', [a], [res])


@op(PURE)
def get(ctx, pool, a):
    if not all(a.ndims):
        return None
    ix = [ctx.randint(0, s[0] - 1) for s in a.shape]
    return Step('get', 'pure', [a], [a.get(ix)])


@op(PURE)
def axis_iter(ctx, pool, a):
    if not all(a.ndims) or size_of(a) > 100:
        return None
    res = list(a.axis_iter())
    return Step('axis_iter', 'pure', [a], [ctx.pick(res)])


@op(PURE)
def diag(ctx, pool, a):
    if a.ndims[0] < 2 or len(set(a.ndims)) > 1 or \
            len(set(s[0] for s in a.shape)) > 1:
        return None
    return Step('diag', 'pure', [a], [ctx.pick(list(mp.diag(a)))])


@op(PURE)
def sums(ctx, pool, a):
    axes = [() if ctx.chance(.5) or not n else (ctx.randint(0, n - 1),)
            for n in a.ndims]
    if sum(len(s) - len(x) for s, x in zip(a.shape, axes)) == 0:
        return None
    return Step('sum', 'pure', [a], [a.sum(axes)])


@op(PURE)
def partialtrace(ctx, pool, a):
    axes = [(0, 1) if len(s) > 1 and s[0] == s[1] and ctx.chance(.6) else None
            for s in a.shape]
    return Step('partialtrace', 'pure', [a], [mp.partialtrace(a, axes)])


@op(PURE)
def prune(ctx, pool, a):
    return Step('prune', 'pure', [a], [mp.prune(a, ctx.chance(.5))])


@op(PURE)
def dot(ctx, pool, a):
    if not all(a.ndims):
        return None
    b = partner(ctx, pool, a)
    if ctx.chance(.5):
        res = mp.dot(a, b, axes=(0, 0))
    else:
        res = mp.dot(a, b.adj(), axes=(-1, 0))
    return Step('dot', 'pure', [a, b], [res])


@op(PURE)
def partialdot(ctx, pool, a):
    if not all(a.ndims):
        return None
    i = ctx.randint(0, len(a) - 1)
    j = ctx.randint(i + 1, len(a))
    b = new_mpa(ctx, shape=tuple(s[:1] for s in a.shape[i:j]))
    if len(b) == len(a) or ctx.chance(.5):
        res = mp.partialdot(a, b, i, axes=(0, 0))
    else:
        res = mp.partialdot(b, a, i, axes=(0, 0))
    return Step('partialdot', 'pure', [a, b], [res])


@op(PURE)
def localouter(ctx, pool, a):
    b = new_mpa(ctx, sites=len(a), max_legs=1, max_size=8)
    return Step('localouter', 'pure', [a, b], [mp.localouter(a, b)])


@op(PURE)
def chain(ctx, pool, a):
    if ctx.chance(.2):
        return Step('chain of one', 'pure', [a], [mp.chain([a])])
    b = ctx.pick(pool) if ctx.chance(.5) else new_mpa(ctx, max_sites=2,
                                                      max_size=8)
    return Step('chain', 'pure', [a, b], [mp.chain([a, b])])


@op(PURE)
def inject(ctx, pool, a):
    if not all(a.ndims):
        return None
    return Step('inject', 'pure', [a],
                [mp.inject(a, ctx.randint(0, len(a)), ctx.randint(0, 1))])


@op(PURE)
def embed(ctx, pool, a):
    s = a.shape[0]
    if len(s) == 2 and s[0] == s[1] and ctx.chance(.7):
        emb = None
    else:
        emb = gen.rand_array(ctx, (2,))
    l, r = ctx.randint(0, 1), ctx.randint(0, 1)
    res = mp.embed_slice(len(a) + l + r, slice(l, l + len(a)), a, emb)
    return Step('embed_slice', 'pure', [a], [res])


@op(PURE)
def local_sum(ctx, pool, a):
    s = a.shape[0]
    if not all(t == s for t in a.shape):
        return None
    emb = gen.rand_array(ctx, s)
    if ctx.chance(.25):
        return Step('local_sum of one', 'pure', [a],
                    [mp.local_sum([a], embed_tensor=emb)])
    b = partner(ctx, pool, a)
    return Step('local_sum', 'pure', [a, b],
                [mp.local_sum([a, b], embed_tensor=emb)])


@op(PURE, 2)
def compression(ctx, pool, a):
    kw = dict(rank=ctx.randint(1, 5))
    if ctx.chance(.5):
        kw['direction'] = ctx.pick(['left', 'right'])
    if ctx.chance(.3):
        kw['relerr'] = ctx.pick([0., .1])
    if 'relerr' in kw and dn.norm(dn.tens(a)) == 0:
        return None
    if ctx.chance(.2):
        kw['canonicalize'] = False
    res, _ = a.compression('svd', **kw)
    return Step('compression svd', 'pure', [a], [res])


@op(PURE)
def compression_var(ctx, pool, a):
    if len(a) < 2:
        return None
    v = ctx.randint(1, min(2, len(a)))
    if ctx.chance(.5):
        start = partner(ctx, pool, a)
        if start is a:
            start = new_mpa(ctx, shape=a.shape)
        res, _ = a.compression('var', num_sweeps=1, startmpa=start,
                               var_sites=v)
        return Step('compression var(start)', 'pure', [a, start], [res])
    if a.dtype not in (np.float64, np.complex128):
        return None   # random start vectors exist in double precision only
    res, _ = a.compression('var', num_sweeps=1, rank=ctx.randint(1, 4),
                           var_sites=v, randstate=ctx.rng)
    return Step('compression var', 'pure', [a], [res])


@op(PURE)
def conversions(ctx, pool, a):
    if all(n == 1 for n in a.ndims):
        what = ctx.randint(0, 2)
        if what == 0:
            return Step('mps_to_mpo', 'pure', [a], [mpsmpo.mps_to_mpo(a)])
        if what == 1:
            return Step('mps_to_pmps', 'pure', [a], [mpsmpo.mps_to_pmps(a)])
        res = list(mpsmpo.reductions_mps_as_pmps(a, min(2, len(a))))
        return Step('reductions_mps_as_pmps', 'pure', [a], res)
    if all(n == 2 for n in a.ndims):
        if ctx.chance(.5):
            return Step('pmps_to_mpo', 'pure', [a], [mpsmpo.pmps_to_mpo(a)])
        if all(s[0] == s[1] for s in a.shape):
            res = list(mpsmpo.reductions_mpo(a, min(2, len(a))))
            return Step('reductions_mpo', 'pure', [a], res)
        res = mpsmpo.pmps_to_mps(a.reshape(
            [(int(np.prod(s)), 1) for s in a.shape]))
        return Step('pmps_to_mps', 'pure', [a], [res])
    return None


@op(PURE)
def special_sumup(ctx, pool, a):
    if len(a) < 2:
        return None
    ops = [new_mpa(ctx, shape=a.shape, ranks=(1,) * (len(a) - 1))
           for _ in range(ctx.randint(1, 4))]
    res = special.sumup(ops, ctx.randint(1, 4))
    return Step('special.sumup', 'pure', ops, [res])


@op(PURE)
def scalars(ctx, pool, a):
    b = partner(ctx, pool, a)
    mp.inner(a, b)
    mp.normdist(a, b)
    a.to_array()
    repr(a.ranks), a.shape, a.size, a.dtype, a.ndims
    return Step('inner/normdist/to_array', 'pure', [a, b], [])


@op(PURE)
def dense_result(ctx, pool, a):
    """The caller may do what it wants with a dense result"""
    arr = a.to_array()
    if arr.ndim == 0:
        return None
    arr[...] = 7
    g = a.group_sites(len(a))
    arr = g.to_array()
    arr[...] = 7
    if all(a.ndims) and len(set(a.ndims)) == 1:
        arr = a.to_array_global()
        arr[...] = 7
    return Step('write to to_array()', 'pure', [a, g], [])


@op(PURE)
def sandwich(ctx, pool, a):
    if not all(n == 1 for n in a.ndims):
        return None
    o = new_mpa(ctx, shape=tuple(s * 2 for s in a.shape))
    mp.sandwich(o, a)
    mp.sandwich(o, a, partner(ctx, pool, a))
    return Step('sandwich', 'pure', [a, o], [])


@op(PURE)
def factories(ctx, pool, a):
    n, d, r = ctx.randint(1, 4), ctx.randint(2, 3), ctx.randint(1, 4)
    what = ctx.randint(0, 6)
    res = [lambda: mp.random_mpa(n, d, r, randstate=ctx.rng),
           lambda: mp.random_mps(n, d, r, randstate=ctx.rng),
           lambda: mp.random_mpo(n, 2, r, randstate=ctx.rng, hermitian=True),
           lambda: mp.eye(n, 2), lambda: mp.zero(n, d, r),
           lambda: mp.diagonal_mpa(ctx.rng.randn(d), n),
           lambda: mp.MPArray.from_array(ctx.rng.randn(*((d,) * n)), 1)
           ][what]()
    return Step('factory', 'pure', [], [res])


@op(PURE)
def local_tensors(ctx, pool, a):
    """New objects made from local tensors handed out by another one"""
    how = ctx.randint(0, 3)
    if how == 0:
        res = mp.MPArray(list(a.lt))
    elif how == 1:
        res = mp.MPArray(LocalTensors(a.lt, cform=a.canonical_form))
    elif how == 2:
        res = mp.MPArray(a.lt.copy())
    else:
        res = type(a)(list(a.copy().lt))
    return Step('from local tensors', 'pure', [a], [res])


# -- operations changing their target ------------------------------------
@op(OTHER, 3)
def canonicalize(ctx, pool, a):
    n = len(a)
    if ctx.chance(.2):
        a.canonicalize()
    else:
        left = ctx.randint(0, n - 1)
        right = ctx.randint(left + 1, n)
        if ctx.chance(.3):
            left = None
        elif ctx.chance(.3):
            right = None
        a.canonicalize(left, right)
    return Step('canonicalize', 'gauge', [a], [])


@op(OTHER)
def norm(ctx, pool, a):
    mp.norm(a)
    return Step('norm', 'gauge', [a], [])


@op(OTHER)
def singularvals(ctx, pool, a):
    stop = ctx.randint(0, len(a))
    for i, _ in enumerate(a.singularvals()):
        if i == stop:
            break
    return Step('singularvals', 'gauge', [a], [])


@op(OTHER)
def reductions_pmps(ctx, pool, a):
    if not all(n == 2 for n in a.ndims):
        return None
    w = ctx.randint(1, len(a))
    res = []
    for i, red in enumerate(mpsmpo.reductions_pmps(a, w)):
        res.append(red)
        if ctx.chance(.2):
            break
    return Step('reductions_pmps', 'gauge', [a], res)


@op(OTHER, 3)
def imul(ctx, pool, a):
    s = ctx.pick([2, -1.5, .5, 1j, -.5 + .5j])
    b = a
    if ctx.chance(.5):
        b *= s
    else:
        b /= s
    return Step('imul', 'inplace', [a], [])


@op(OTHER)
def compress(ctx, pool, a):
    kw = dict(rank=ctx.randint(1, 4))
    if ctx.chance(.6):
        kw['direction'] = ctx.pick(['left', 'right'])
    if ctx.chance(.2):
        kw['canonicalize'] = False
    if len(a) > 1 and ctx.chance(.25):
        start = new_mpa(ctx, shape=a.shape, max_rank=3)
        a.compress('var', num_sweeps=1, startmpa=start, var_sites=1)
        return Step('compress var', 'inplace', [a, start], [])
    a.compress('svd', **kw)
    return Step('compress svd', 'inplace', [a], [])


def isometry(ctx, shape, side, dtype):
    """Tensor which is canonical on the given side, or None"""
    l, r = shape[0], shape[-1]
    p = int(np.prod(shape[1:-1], dtype=int))
    if side == 'left':
        if l * p < r:
            return None
        q, _ = np.linalg.qr(gen.rand_array(ctx, (l * p, r), dtype))
        return q.reshape(shape)
    if r * p < l:
        return None
    q, _ = np.linalg.qr(gen.rand_array(ctx, (r * p, l), dtype))
    return q.T.reshape(shape)


def replacement(ctx, shape, claim=None):
    """(tensor, truthful claim) for a local tensor of the given shape"""
    dtype = ctx.pick(('f8', 'c16'))
    claim = ctx.pick([None, 'left', 'right']) if claim is None else claim
    if claim in ('left', 'right'):
        t = isometry(ctx, shape, claim, dtype)
        if t is not None:
            return t, claim
    return gen.rand_array(ctx, shape, dtype) / np.sqrt(shape[0]), None


@op(OTHER, 4)
def update(ctx, pool, a):
    n = len(a)
    i = ctx.randint(0, n - 1)
    neg = ctx.chance(.25)
    if ctx.chance(.5):
        t, claim = replacement(ctx, a.lt[i].shape)
        index = i - n if neg else i
        if claim is None and ctx.chance(.5):
            a.lt[index] = t
        else:
            a.lt.update(index, t, canonicalization=claim)
        return Step('update({})'.format(claim), 'inplace', [a], [])
    j = ctx.randint(i + 1, min(n, i + 3))
    shapes = [list(t.shape) for t in a.lt[i:j]]
    same = ctx.chance(.4)
    for k in range(len(shapes) - 1):
        if not same:
            r = ctx.randint(1, 5)
            shapes[k][-1] = shapes[k + 1][0] = r
    pairs = [replacement(ctx, tuple(s)) for s in shapes]
    tens = [t for t, _ in pairs]
    claims = [c for _, c in pairs]
    index = slice(i - n if neg else i, j if j < n or ctx.chance(.5) else None)
    if neg and j < n:
        index = slice(i - n, j - n)
    if len(set(claims)) == 1 and ctx.chance(.5):
        a.lt.update(index, tens, canonicalization=claims[0])
    elif ctx.chance(.15):
        a.lt[index] = tens
    else:
        a.lt.update(index, tens,
                    canonicalization=ctx.pick([tuple, list])(claims))
    return Step('update slice', 'inplace', [a], [])


def dump_load(ctx, pool, a):
    tmp = tempfile.mkdtemp(prefix='mpnum_h5_')
    try:
        path = os.path.join(tmp, 'a.h5')
        a.dump(path)
        res = mp.MPArray.load(path)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return Step('dump+load', 'pure', [a], [res])


PURE.append(dump_load)
ALL_PURE = list(collections.OrderedDict.fromkeys(PURE))
ALL_OTHER = list(collections.OrderedDict.fromkeys(OTHER))
