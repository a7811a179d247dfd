# encoding: utf-8
"""C29: replacement of local tensors"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

from .. import dense as dn, gen

PROP = 'C29'
RULE = ('chains with random legs and ranks; histories of valid and invalid '
        'replacements (single index, negative index, out of range, slices '
        'with and without step, wrong number, wrong ranks, missing legs, '
        'canonical claims) compared with a plain list of arrays after each '
        'step; non-trivial: at least two sites')
QUICK, THOROUGH = 10000, 80000


def chain(ctx, n, outer=False):
    shape = gen.rand_shape(ctx, sites=n, max_size=10 ** 9)
    lts = gen.rand_tensors(ctx, shape, None, ctx.pick(gen.DTYPES))
    if outer and ctx.chance(.5):
        r, s = ctx.randint(1, 3), ctx.randint(1, 3)
        lts[0] = gen.rand_array(ctx, (r,) + lts[0].shape[1:], 'f8')
        lts[-1] = gen.rand_array(ctx, lts[-1].shape[:-1] + (s,), 'f8')
        ctx.event('outer_legs')
    return lts


def consistent(lts):
    return all(t.ndim >= 2 for t in lts) and \
        all(a.shape[-1] == b.shape[0] for a, b in zip(lts[:-1], lts[1:]))


def compare(ctx, obj, model, msg):
    """Container and list of arrays agree"""
    ctx.check(len(obj) == len(model), msg + ': length', got=len(obj))
    for i, (t, m) in enumerate(zip(obj, model)):
        ctx.check(t.shape == m.shape and t.dtype == m.dtype and
                  np.array_equal(t, m), msg + ': local tensor', site=i)
        ctx.check(not t.flags.writeable, msg + ': writable')
    ctx.check(consistent(list(obj)), msg + ': ranks do not match')
    ctx.check(tuple(obj.shape) == tuple(m.shape for m in model),
              msg + ': shape')
    left, right = obj.canonical_form
    ctx.check(0 <= left < right <= len(model), msg + ': canonical form',
              form=(left, right))
    ctx.event('compared')


def new_tensor(ctx, left, right, dtype=None):
    legs = tuple(ctx.randint(1, 3) for _ in range(ctx.randint(0, 3)))
    return gen.rand_array(ctx, (left,) + legs + (right,),
                          dtype or ctx.pick(gen.DTYPES))


def isometry(ctx, left, right, side):
    """Tensor which is canonical from the given side, None if impossible"""
    other = left if side == 'left' else right
    one = right if side == 'left' else left
    legs = (-(-one // other), ctx.randint(1, 2))
    rows = other * legs[0] * legs[1]
    q = np.linalg.qr(gen.rand_array(ctx, (rows, one), 'c16'))[0]
    if side == 'left':
        return q.reshape((left,) + legs + (right,))
    return q.T.reshape((left,) + legs + (right,))


def attempt(ctx, obj, model, index, tens, canon, what):
    """Replace; either it fits and is done or it is refused"""
    n = len(model)
    before = obj.canonical_form
    if isinstance(index, slice):
        pos = list(range(*index.indices(n)))
        fits = len(tens) == len(pos)
        if isinstance(canon, (list, tuple)) and len(canon) != len(pos):
            fits = False
        trial = list(model)
        if fits:
            for p, t in zip(pos, tens):
                trial[p] = t
    else:
        fits = -n <= index < n
        trial = list(model)
        if fits:
            trial[index] = tens
    fits = fits and consistent(trial) and \
        trial[0].shape[0] == model[0].shape[0] and \
        trial[-1].shape[-1] == model[-1].shape[-1]
    empty = isinstance(index, slice) and len(tens) == 0
    kw = {}
    if canon is not None or ctx.chance(.3):
        kw['canonicalization'] = canon
    setitem = canon is None and ctx.chance(.3)
    try:
        if setitem:
            obj[index] = tens
        elif isinstance(tens, list) and ctx.chance(.2):
            obj.update(index, iter(tens), **kw)
        elif isinstance(tens, list) and ctx.chance(.2):
            obj.update(index, tuple(tens), **kw)
        else:
            obj.update(index, tens, **kw)
        done = True
    except Exception as e:
        done = False
        if fits and not empty:
            ctx.fail('{}: valid replacement refused: {!r}'.format(what, e),
                     index=index)
    if done:
        ctx.check(fits, what + ': invalid replacement accepted', index=index,
                  shapes=[np.shape(t) for t in tens] if isinstance(tens, list)
                  else tens.shape, chain=[t.shape for t in model])
        model[:] = trial
        ctx.event('accepted')
    else:
        ctx.check(tuple(obj.canonical_form) == tuple(before),
                  what + ': refused replacement changed the canonical form')
        ctx.event('refused')
    compare(ctx, obj, model, what + (' (accepted)' if done else
                                     ' (refused)'))
    ctx.event(('accepted:' if done else 'refused:') + what)


def rank_at(model, i):
    """Ranks left and right of site i"""
    return model[i].shape[0], model[i].shape[-1]


def step(ctx, obj, model):
    n = len(model)
    what = ctx.pick(['single', 'single', 'negative', 'slice', 'slice',
                     'badrank', 'outside', 'count', 'stepped', 'flat',
                     'canonical', 'canonical_slice', 'canon_count',
                     'badslice', 'negslice'])
    i = ctx.randint(0, n - 1)
    l, r = rank_at(model, i)
    if what in ('single', 'negative'):
        index = i if what == 'single' else i - n
        if ctx.chance(.2):
            index = np.int64(index)
        attempt(ctx, obj, model, index, new_tensor(ctx, l, r), None, what)
    elif what == 'badrank':
        bad = (l + ctx.randint(1, 2), r) if ctx.chance(.5) else \
            (l, r + ctx.randint(1, 2))
        if ctx.chance(.2):
            bad = (r, l)
        attempt(ctx, obj, model, i if ctx.chance(.5) else i - n,
                new_tensor(ctx, *bad), ctx.pick([None, 'left', 'right'])
                if bad != (l, r) else None, what)
    elif what == 'outside':
        index = ctx.pick([n, n + 1, -n - 1, -n - 2, -2 * n, 2 * n])
        k = index % n
        attempt(ctx, obj, model, index, new_tensor(ctx, *rank_at(model, k)),
                None, what)
    elif what == 'flat':
        t = gen.rand_array(ctx, (l,), 'f8') if ctx.chance(.6) else \
            gen.rand_array(ctx, (), 'f8')
        if ctx.chance(.5):
            attempt(ctx, obj, model, i, t, None, what)
        elif t.ndim:
            attempt(ctx, obj, model, slice(i, i + 1), [t], None, what)
    elif what in ('slice', 'badslice', 'negslice', 'count', 'canonical_slice',
                  'canon_count'):
        j = ctx.randint(i + 1, n)
        w = j - i
        inner = [ctx.randint(1, 4) for _ in range(w - 1)]
        ranks = [model[i].shape[0]] + inner + [model[j - 1].shape[-1]]
        if what == 'badslice':
            k = ctx.pick([0, w])
            ranks[k] += 1
        tens = [new_tensor(ctx, a, b) for a, b in zip(ranks[:-1], ranks[1:])]
        if what == 'badslice' and w > 1 and ctx.chance(.5):
            k = ctx.randint(1, w - 1)
            tens = [new_tensor(ctx, a, b)
                    for a, b in zip(ranks[:-1], ranks[1:])]
            tens[k] = new_tensor(ctx, ranks[k] + 1, ranks[k + 1])
        if what == 'count':
            if ctx.chance(.5):
                tens = tens[:-1]
            else:
                tens = tens + [new_tensor(ctx, ranks[-1], ranks[-1])]
        index = slice(i, j)
        if what == 'negslice':
            index = slice(i - n, j - n if j < n else None)
        elif ctx.chance(.3):
            index = slice(i if i else None, j if j < n else
                          ctx.pick([None, n + 3]))
        canon = None
        if what == 'canonical_slice':
            side = ctx.pick(['left', 'right'])
            # maximal ranks: isometries from one side exist for any ranks
            tens = [isometry(ctx, a, b, side)
                    for a, b in zip(ranks[:-1], ranks[1:])]
            canon = ctx.pick([side, [side] * w, (side,) * w])
        elif what == 'canon_count':
            canon = [None] * (w + ctx.pick([-1, 1]))
            if ctx.chance(.3):
                canon = [None] * w
        attempt(ctx, obj, model, index, tens, canon, what)
        if what.startswith('canonical'):
            truthful(ctx, obj, what)
    elif what == 'stepped':
        st = ctx.pick([2, 3, -1, -2])
        index = slice(None, None, st) if ctx.chance(.5) else \
            slice(i, None, st)
        pos = list(range(*index.indices(n)))
        if not pos:
            return
        if ctx.chance(.6):
            tens = [new_tensor(ctx, *rank_at(model, p)) for p in pos]
            if ctx.chance(.4):
                k = ctx.randint(0, len(pos) - 1)
                a, b = rank_at(model, pos[k])
                tens[k] = new_tensor(ctx, a, b + 1)
        else:
            # consistent among themselves
            rk = [ctx.randint(1, 3) for _ in range(len(pos) + 1)]
            rk[0] = model[pos[0]].shape[0]
            rk[-1] = model[pos[-1]].shape[-1]
            tens = [new_tensor(ctx, a, b) for a, b in zip(rk[:-1], rk[1:])]
        attempt(ctx, obj, model, index, tens, None, what)
    else:
        side = ctx.pick(['left', 'right'])
        attempt(ctx, obj, model, i if ctx.chance(.5) else i - n,
                isometry(ctx, l, r, side), side, what)
        truthful(ctx, obj, what)


def truthful(ctx, obj, msg):
    left, right = obj.canonical_form
    lts = list(obj)
    for i, t in enumerate(lts):
        if i < left:
            ctx.check(dn.is_left_canonical(t, 1e-7),
                      msg + ': site is not left-canonical', site=i,
                      form=(left, right))
        if i >= right:
            ctx.check(dn.is_right_canonical(t, 1e-7),
                      msg + ': site is not right-canonical', site=i,
                      form=(left, right))


def history(ctx):
    n = ctx.pick([1, 2, 3, 3, 4, 5])
    lts = chain(ctx, n, outer=True)
    src = list(lts)
    obj = LocalTensors(lts if ctx.chance(.5) else iter(lts))
    model = [np.array(t) for t in lts]
    ctx.signature([t.shape for t in lts])
    ctx.nontrivial = n > 1
    compare(ctx, obj, model, 'LocalTensors')
    for _ in range(ctx.randint(2, 6)):
        step(ctx, obj, model)
    ctx.check(len(lts) == n and all(a is b for a, b in zip(lts, src)),
              'LocalTensors: list of the caller changed')
    cp = obj.copy()
    compare(ctx, cp, model, 'copy')
    step(ctx, cp, [np.array(m) for m in model])
    compare(ctx, obj, model, 'replacement in a copy changed the original')
    ctx.event('history')


def array_history(ctx):
    """The same through the local tensors of an MPArray"""
    n = ctx.pick([1, 2, 3, 4])
    mpa = gen.rand_mpa(ctx, gen.rand_shape(ctx, sites=n, max_size=10 ** 9),
                       dtypes=('f8', 'c16'))
    model = dn.tens(mpa)
    for _ in range(ctx.randint(1, 4)):
        step(ctx, mpa.lt, model)
        truthful(ctx, mpa.lt, 'MPArray')
        ctx.check(len(mpa) == n and
                  tuple(mpa.shape) == dn.shape_of(model) and
                  tuple(mpa.ranks) == dn.ranks_of(model),
                  'MPArray does not follow the replacement')
        if np.prod([t.size for t in model], dtype=float) < 1e6:
            ctx.close(mpa.to_array(), dn.dense(model),
                      'MPArray after replacement',
                      scale=1e-2 * dn.bound(model), rtol=1e-3)
    ctx.event('array_history')
    ctx.nontrivial = n > 1


def construction(ctx):
    n = ctx.randint(2, 5)
    lts = chain(ctx, n)
    k = ctx.randint(0, n - 2)
    bad = list(lts)
    side = ctx.chance(.5)
    p = k if side else k + 1
    l, r = bad[p].shape[0], bad[p].shape[-1]
    bad[p] = new_tensor(ctx, l, r + 1) if side else new_tensor(ctx, l + 1, r)
    ctx.raises(Exception, lambda: LocalTensors(bad), 'mismatching ranks')
    ctx.raises(Exception, lambda: mp.MPArray(bad), 'mismatching ranks')
    ctx.raises(Exception, lambda: LocalTensors([]), 'empty chain')
    ctx.raises(Exception, lambda: mp.MPArray([]), 'empty chain')
    for form in ((n, None), (n + 1, None), (None, n + 1), (-1, None),
                 (None, -1)):
        ctx.raises(Exception, lambda: LocalTensors(lts, cform=form),
                   'canonical form out of range', form=form)
    ok = LocalTensors(lts, cform=(None, None))
    compare(ctx, ok, [np.array(t) for t in lts], 'construction')
    ctx.check(tuple(ok.canonical_form) == (0, n), 'default canonical form')
    # access
    i = ctx.randint(-n, n - 1)
    ctx.check(np.array_equal(ok[i], lts[i]), 'item access')
    a, b = sorted([ctx.randint(0, n), ctx.randint(0, n)])
    got = list(ok[a:b])
    ctx.check(len(got) == b - a and all(
        np.array_equal(x, y) for x, y in zip(got, lts[a:b])), 'slice access')

    def write():
        ok[i][...] = 0

    ctx.raises(Exception, write, 'handed out tensors are read-only')
    ctx.raises(Exception, lambda: ok[n], 'index out of range')
    # arrays with wrong outer legs
    ctx.event('construction')
    ctx.nontrivial = True
    ctx.signature([t.shape for t in lts], p)


SCENARIOS = [('history', history), ('array_history', array_history),
             ('construction', construction)]
REQUIRED = ['history', 'array_history', 'construction', 'compared',
            'accepted', 'refused', 'refusals', 'outer_legs',
            'accepted:single', 'accepted:negative', 'accepted:slice',
            'accepted:negslice', 'accepted:canonical',
            'accepted:canonical_slice', 'refused:badrank', 'refused:outside',
            'refused:count', 'refused:badslice', 'refused:flat',
            'accepted:stepped', 'refused:stepped', 'refused:canon_count']
