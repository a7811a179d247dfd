# encoding: utf-8
"""C30: arrays with named axes"""
from __future__ import division

import numpy as np

from mpnum._named_ndarray import named_ndarray

from .. import gen

PROP = 'C30'
RULE = ('histories of renaming, conjugation, contraction and conversion of '
        'arrays with named axes (all dtypes and layouts, names of several '
        'types, equal and unequal sizes); reference: a table from index '
        'assignments {name: value} to entries. Non-trivial: at least one '
        'contraction of arrays with several axes')
QUICK, THOROUGH = 6000, 48000


class Model(object):
    """Named array as (names, dense array); operations by einsum letters"""

    def __init__(self, names, arr):
        self.names, self.arr = list(names), np.array(arr)

    def rename(self, pairs):
        new = list(self.names)
        for k, name in enumerate(self.names):
            for old, to in pairs:
                if name == old:
                    new[k] = to
        return Model(new, self.arr)

    def order(self, names):
        ix = [self.names.index(x) for x in names]
        sub = list(range(self.arr.ndim))
        return np.einsum(self.arr, sub, ix) if self.arr.ndim else self.arr

    def dot(self, other, pairs):
        n = self.arr.ndim
        a = list(range(n))
        b = list(range(n, n + other.arr.ndim))
        for x, y in pairs:
            b[other.names.index(y)] = self.names.index(x)
        cut_a = [x for x, _ in pairs]
        cut_b = [y for _, y in pairs]
        keep_a = [k for k, x in enumerate(self.names) if x not in cut_a]
        keep_b = [k for k, x in enumerate(other.names) if x not in cut_b]
        out = [a[k] for k in keep_a] + [b[k] for k in keep_b]
        return Model([self.names[k] for k in keep_a] +
                     [other.names[k] for k in keep_b],
                     np.einsum(self.arr, a, other.arr, b, out))


POOL = ['a', 'b', 'left bond', 'right bond', 'phys', 'phys_row', 0, 1, 7,
        ('x', 1), 'A', '']


def names(ctx, n, avoid=()):
    free = [x for x in POOL if x not in avoid]
    return [free[k] for k in ctx.rng.permutation(len(free))[:n]]


def agree(ctx, got, ref, msg, scale=None):
    ctx.check(isinstance(got, named_ndarray), msg + ': type')
    ctx.check(len(got.axisnames) == ref.arr.ndim and
              set(got.axisnames) == set(ref.names), msg + ': names',
              got=got.axisnames, expected=ref.names)
    for name in ref.names:
        ctx.check(got.axisnames[got.axispos(name)] == name,
                  msg + ': position', name=name)
    perm = [ref.names[k] for k in ctx.rng.permutation(len(ref.names))]
    arr = got.to_array(perm)
    want = ref.order(perm)
    ctx.check(np.shape(arr) == want.shape, msg + ': shape',
              got=np.shape(arr), expected=want.shape)
    if scale is None:
        ctx.check(np.array_equal(arr, want), msg + ': values')
    else:
        ctx.close(arr, want, msg, scale=scale,
                  rtol=1e-10)
    arr = got.to_array(list(got.axisnames))
    ctx.check(np.shape(arr) == ref.order(got.axisnames).shape,
              msg + ': own order')
    ctx.event('agreements')


def make(ctx, nm, dims):
    a = gen.layout(ctx, gen.rand_array(ctx, tuple(dims),
                                       ctx.pick(['f8', 'c16', 'c16', 'i8'])))
    kind = ctx.randint(0, 2)
    arg = nm if kind == 0 else tuple(nm)
    return named_ndarray(a, arg), Model(nm, a), a


def history(ctx):
    n = ctx.randint(0, 4)
    dims = [ctx.randint(1, 3) for _ in range(n)]
    if ctx.chance(.06):
        n = ctx.randint(5, 6)
        dims = [ctx.randint(1, 2) for _ in range(n)]
    nm = names(ctx, n)
    got, ref, raw = make(ctx, nm, dims)
    keep = np.array(raw)
    agree(ctx, got, ref, 'construction')
    scale = None
    dots = 0
    for _ in range(ctx.randint(1, 5)):
        what = ctx.randint(0, 3)
        before = Model(ref.names, ref.arr)
        old = got
        if what == 0 and ref.names:
            k = ctx.randint(1, len(ref.names))
            src = [ref.names[i] for i in
                   ctx.rng.permutation(len(ref.names))[:k]]
            if ctx.chance(.4) and k > 1:          # permute the names
                dst = src[1:] + src[:1]
                ctx.event('names_exchanged')
            else:
                dst = names(ctx, k, ref.names)
                if len(dst) < k:
                    continue
            pairs = list(zip(src, dst))
            got = got.rename(pairs if ctx.chance(.5) else tuple(pairs))
            ref = ref.rename(pairs)
            agree(ctx, got, ref, 'rename', scale)
            ctx.event('rename')
        elif what == 1:
            got, ref = got.conj(), Model(ref.names, ref.arr.conj())
            agree(ctx, got, ref, 'conj', scale)
            ctx.event('conj')
        elif ref.arr.size <= 200:
            k = ctx.randint(0, min(2 if ctx.chance(.8) else 4,
                                   len(ref.names)))
            cut = [ref.names[i] for i in
                   ctx.rng.permutation(len(ref.names))[:k]]
            remain = [x for x in ref.names if x not in cut]
            extra = ctx.randint(0, 2)
            free = [x for x in POOL if x not in remain]
            fresh = [free[i] for i in ctx.rng.permutation(len(free))]
            if len(fresh) < k + extra:
                continue
            theirs, new = fresh[:k], fresh[k:k + extra]
            if ctx.chance(.3) and k:
                # contracted axes of the other array may have any name
                theirs = [ref.names[i] for i in
                          ctx.rng.permutation(len(ref.names))[:k]]
                new = [x for x in new if x not in theirs]
                ctx.event('names_shared')
            on = theirs + new
            dim = [ref.arr.shape[ref.names.index(c)] for c in cut] + \
                [ctx.randint(1, 3) for _ in new]
            order = ctx.rng.permutation(len(on))
            other, oref, _ = make(ctx, [on[i] for i in order],
                                  [dim[i] for i in order])
            pairs = list(zip(cut, theirs))
            scale = (scale or 0) + 1e-300 + \
                np.abs(ref.arr).sum() * np.abs(oref.arr).max() \
                if oref.arr.size else 1.
            if ctx.chance(.5):
                got, ref = got.tensordot(other, pairs), ref.dot(oref, pairs)
            else:
                rev = [(y, x) for x, y in pairs]
                got, ref = other.tensordot(got, rev), oref.dot(ref, rev)
            dots += 1
            agree(ctx, got, ref, 'tensordot', scale)
            agree(ctx, other, oref, 'tensordot: other operand')
            ctx.event('tensordot')
            ctx.event('contracted_axes', k)
        agree(ctx, old, before, 'operand', scale)
    ctx.check(np.array_equal(raw, keep), 'given array changed')
    ctx.nontrivial = dots > 0 and n > 1
    ctx.signature(nm, dims, ref.names)


def refusals(ctx):
    n = ctx.randint(2, 4)
    nm = names(ctx, n)
    a = gen.rand_array(ctx, tuple(ctx.randint(1, 3) for _ in range(n)), 'f8')
    x = named_ndarray(a, nm)
    ctx.raises(AssertionError, lambda: named_ndarray(a, nm[:-1]),
               'too few names')
    ctx.raises(AssertionError, lambda: named_ndarray(a, nm[:-1] + nm[:1]),
               'equal names')
    ctx.raises(AssertionError, lambda: x.rename([(nm[0], nm[1])]),
               'rename to an existing name')
    unknown = names(ctx, 1, nm)[0]
    ctx.raises(ValueError, lambda: x.rename([(unknown, 'new')]),
               'rename of an unknown axis')
    ctx.raises(ValueError, lambda: x.axispos(unknown), 'unknown axis')
    ctx.raises(ValueError, lambda: x.to_array(nm[:-1]), 'missing axis')
    ctx.raises(ValueError, lambda: x.to_array(nm[:-1] + [unknown]),
               'unknown axis in order')
    y = named_ndarray(np.array(a), nm)
    ctx.raises(AssertionError, lambda: x.tensordot(y, [(nm[0], nm[0])]),
               'remaining names coincide')
    agree(ctx, x, Model(nm, a), 'after refusals')
    ctx.signature(nm, a.shape)


SCENARIOS = [('history', history), ('history2', history),
             ('refusals', refusals)]
REQUIRED = ['agreements', 'rename', 'names_exchanged', 'conj', 'tensordot',
            'contracted_axes', 'names_shared', 'refusals']
