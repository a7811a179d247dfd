# encoding: utf-8
"""C05: structural transforms"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa

PROP = 'C05'
RULE = ('MPAs with inhomogeneous legs in all canonical forms, all positions/'
        'orders/group sizes; non-trivial: at least two sites and one rank '
        'above one')
QUICK, THOROUGH = 7200, 57600


def some(ctx, **kw):
    kw.setdefault('max_size', 2000)
    a = gen.rand_mpa(ctx, max_rank=4, **kw)
    lts = dn.tens(a)
    return (a, lts, dn.dense(lts), dn.shape_of(lts), gen.rtol_of(a),
            1e-2 * dn.bound(lts))


def permuted(arr, shape, orders):
    pos = dn.site_axes(shape)
    axes = [p[k] for p, o in zip(pos, orders) for k in o]
    return arr.transpose(axes), [tuple(s[k] for k in o)
                                 for s, o in zip(shape, orders)]


def transpose(ctx):
    a, lts, arr, shape, rtol, scale = some(ctx)
    rev = [list(range(len(s)))[::-1] for s in shape]
    ref, new = permuted(arr, shape, rev)
    expect_mpa(ctx, a.T, ref, new, 'T', scale, rtol)
    expect_mpa(ctx, a.transpose(), ref, new, 'transpose()', scale, rtol)
    expect_mpa(ctx, a.adj(), ref.conj(), new, 'adj', scale, rtol)
    expect_mpa(ctx, a.conj(), arr.conj(), shape, 'conj', scale, rtol)
    expect_mpa(ctx, a.T.T, arr, shape, 'T.T', scale, rtol)
    expect_mpa(ctx, a.adj().adj(), arr, shape, 'adj().adj()', scale, rtol)
    expect_mpa(ctx, a.T.conj(), ref.conj(), new, 'T.conj()', scale, rtol)
    ctx.event('transposes')


def transpose_axes(ctx):
    legs = ctx.randint(1, 4)
    a, lts, arr, shape, rtol, scale = some(
        ctx, min_legs=legs, max_legs=legs, max_sites=4, max_dim=3)
    order = [int(x) for x in ctx.rng.permutation(legs)]
    ctx.signature(order)
    ref, new = permuted(arr, shape, [order] * len(shape))
    res = a.transpose(ctx.pick([tuple, list])(order))
    expect_mpa(ctx, res, ref, new, 'transpose(axes)', scale, rtol)
    inv = tuple(int(x) for x in np.argsort(order))
    expect_mpa(ctx, res.transpose(inv), arr, shape, 'transpose twice', scale,
               rtol)
    ctx.event('transpose_axes')


def refactor(ctx, n):
    """Random factorization of n into legs (possibly of size one)"""
    out = []
    while n > 1:
        divs = [d for d in range(2, n + 1) if n % d == 0]
        d = ctx.pick(divs)
        out.append(d)
        n //= d
    while ctx.chance(.25):
        out.insert(ctx.randint(0, len(out)), 1)
    return tuple(out)


def reshape(ctx):
    a, lts, arr, shape, rtol, scale = some(ctx)
    new = [refactor(ctx, int(np.prod(s, dtype=int))) for s in shape]
    arg = list(new)
    for i, s in enumerate(new):
        if len(s) and ctx.chance(.2):
            k = ctx.randint(0, len(s) - 1)
            arg[i] = s[:k] + (-1,) + s[k + 1:]
    arg = [ctx.pick([tuple, list])(s) for s in arg]
    arg = ctx.pick([tuple, list, iter])(arg)
    res = a.reshape(arg)
    expect_mpa(ctx, res, arr, new, 'reshape', scale, rtol)
    expect_mpa(ctx, res.reshape(shape), arr, shape, 'reshape back', scale,
               rtol)
    flat = [(int(np.prod(s, dtype=int)),) for s in shape]
    expect_mpa(ctx, a.ravel(), arr, flat, 'ravel', scale, rtol)
    expect_mpa(ctx, a.reshape((-1,)), arr, flat, 'reshape((-1,))', scale, rtol)
    ctx.check(tuple(res.ranks) == tuple(a.ranks), 'reshape changed the ranks')
    ctx.event('reshapes')


def reshape_common(ctx):
    """A single shape for all sites"""
    n = ctx.randint(1, 4)
    s = gen.rand_legs(ctx, ctx.randint(1, 3), 3)
    if np.prod(s) ** n > 3000:
        n = 2
    if np.prod(s) ** n > 3000:
        s = s[:2]
    a, lts, arr, shape, rtol, scale = some(ctx, shape=(s,) * n)
    new = refactor(ctx, int(np.prod(s)))
    if not new:
        new = (1,)
    res = a.reshape(ctx.pick([tuple, list])(new))
    expect_mpa(ctx, res, arr, (new,) * n, 'reshape(single shape)', scale, rtol)
    wrong = new + (2,)
    ctx.raises((Exception,), lambda: a.reshape(wrong),
               'reshape to another size')


def group(ctx):
    k = ctx.randint(1, 3)
    groups = ctx.randint(1, 3)
    a, lts, arr, shape, rtol, scale = some(ctx, sites=k * groups, max_legs=2,
                                           max_dim=3)
    new = [sum(shape[i:i + k], ()) for i in range(0, k * groups, k)]
    res = a.group_sites(k)
    expect_mpa(ctx, res, arr, new, 'group_sites', scale, rtol)
    if len(set(len(s) for s in shape)) == 1 and len(shape[0]) > 0:
        back = res.split_sites(k)
        expect_mpa(ctx, back, arr, shape, 'group_sites + split_sites', scale,
                   rtol)
        ctx.event('group_and_split')
    bad = [m for m in range(2, len(shape) + 3) if len(shape) % m]
    if bad:
        ctx.raises((Exception,), lambda: a.group_sites(ctx.pick(bad)),
                   'impossible grouping')
    ctx.event('groups')


def split_sites(ctx):
    k, n = ctx.randint(1, 3), ctx.randint(1, 3)
    while True:
        shape = tuple(gen.rand_legs(ctx, k * ctx.randint(1, 2), 3)
                      for _ in range(n))
        if np.prod([d for s in shape for d in s]) <= 3000:
            break
    a, lts, arr, shape, rtol, scale = some(ctx, shape=shape,
                                           dtypes=('f8', 'c16', 'f4', 'c8'))
    new = []
    for s in shape:
        m = len(s) // k
        new += [s[j:j + m] for j in range(0, len(s), m)]
    ctx.signature(k)
    expect_mpa(ctx, a.split_sites(k), arr, new, 'split_sites', scale, rtol)
    bad = [m for m in range(2, 5) if any(len(s) % m for s in shape)]
    if bad:
        ctx.raises((Exception,), lambda: a.split_sites(ctx.pick(bad)),
                   'impossible splitting')
    ctx.event('splits')


def reverse(ctx):
    a, lts, arr, shape, rtol, scale = some(ctx)
    pos = dn.site_axes(shape)
    axes = [p for site in pos[::-1] for p in site]
    res = a.reverse()
    expect_mpa(ctx, res, arr.transpose(axes), shape[::-1], 'reverse', scale,
               rtol)
    expect_mpa(ctx, res.reverse(), arr, shape, 'reverse twice', scale, rtol)
    ctx.event('reverses')


def vlegs(ctx):
    a, lts, arr, shape, rtol, scale = some(
        ctx, sites=ctx.randint(2, 6), max_size=500)
    n = len(shape)
    pos = ctx.randint(0, n - 2)
    r = lts[pos].shape[-1]
    l = dn.dense_virtual(lts[:pos + 1])
    rr = dn.dense_virtual(lts[pos + 1:])
    ref = np.multiply.outer(l[0], rr[..., 0])
    new = list(shape)
    new[pos] = new[pos] + (r,)
    new[pos + 1] = (r,) + new[pos + 1]
    res = a.vleg2leg(pos)
    expect_mpa(ctx, res, ref, new, 'vleg2leg', scale, rtol)
    ctx.check(res.ranks[pos] == 1, 'vleg2leg: rank is not 1')
    back = res.leg2vleg(pos)
    expect_mpa(ctx, back, arr, shape, 'leg2vleg after vleg2leg', scale, rtol)
    # array equality between all sites of back and a is not needed
    left, right = a.split(pos)
    expect_mpa(ctx, left, l[0], new[:pos + 1], 'split: left part', scale, rtol)
    expect_mpa(ctx, right, rr[..., 0], new[pos + 1:], 'split: right part',
               scale, rtol)
    joined = mp.chain([left, right]).leg2vleg(pos)
    expect_mpa(ctx, joined, arr, shape, 'split + chain + leg2vleg', scale,
               rtol)
    x, y = a.split(-ctx.randint(1, 3))
    ctx.check(x is None, 'split before the chain: left part')
    expect_mpa(ctx, y, arr, shape, 'split before the chain', scale, rtol)
    x, y = a.split(n + ctx.randint(0, 2))
    ctx.check(y is None, 'split behind the chain: right part')
    expect_mpa(ctx, x, arr, shape, 'split behind the chain', scale, rtol)
    if r > 1:
        ctx.raises((Exception,), lambda: a.leg2vleg(pos),
                   'leg2vleg at a virtual leg of rank > 1')
    ctx.event('vlegs')


def leg2vleg(ctx):
    """leg2vleg of something which was not made by vleg2leg"""
    n = ctx.randint(2, 5)
    shape = gen.rand_shape(ctx, sites=n, max_legs=2, max_size=300)
    pos = ctx.randint(0, n - 2)
    r = ctx.randint(1, 4)
    big = list(shape)
    big[pos] = big[pos] + (r,)
    big[pos + 1] = (r,) + big[pos + 1]
    ranks = list(gen.rand_ranks(ctx, n, 4))
    ranks[pos] = 1
    a, lts, arr, _, rtol, scale = some(ctx, shape=tuple(big),
                                       ranks=tuple(ranks))
    p = dn.site_axes(big)
    i, j = p[pos][-1], p[pos + 1][0]
    ref = np.trace(arr, axis1=i, axis2=j)
    res = a.leg2vleg(pos)
    expect_mpa(ctx, res, ref, shape, 'leg2vleg', scale * r, rtol)
    ctx.check(res.ranks[pos] == r, 'leg2vleg: rank')


def pad_ranks(ctx):
    a, lts, arr, shape, rtol, scale = some(ctx)
    n = len(shape)
    dims = [int(np.prod(s, dtype=int)) for s in shape]
    full = [min(int(np.prod(dims[:c])), int(np.prod(dims[c:])))
            for c in range(1, n)]
    rank = ctx.randint(1, 9)
    if n > 1 and ctx.chance(.3):
        rank = None
    force = ctx.chance(.5)
    target = max(a.ranks) if rank is None else rank
    exp = tuple(max(r, target if force else min(f, target))
                for r, f in zip(a.ranks, full))
    kw = {} if rank is None else {'rank': rank}
    if force:
        kw['force_rank'] = True
    ctx.signature(sorted(kw.items()))
    res = a.pad_ranks(**kw)
    expect_mpa(ctx, res, arr, shape, 'pad_ranks', scale, rtol)
    ctx.check(tuple(res.ranks) == exp, 'pad_ranks: wrong ranks',
              got=res.ranks, expected=exp, was=a.ranks)
    ctx.event('paddings')


def inject(ctx):
    a, lts, arr, shape, rtol, scale = some(
        ctx, max_sites=4, min_legs=1, max_legs=2, max_dim=3, max_size=40)
    n = len(shape)
    many = ctx.chance(.6)
    k = ctx.randint(1, min(3, n + 1)) if many else 1
    pos = sorted(int(x) for x in ctx.rng.permutation(n + 1)[:k])
    budget = [2000 // max(1, arr.size)]

    def eye(p):
        return np.eye(shape[p][0] if p < n else shape[-1][0])

    def tensor():
        t = gen.rand_array(ctx, gen.rand_legs(ctx, ctx.randint(0, 2), 2),
                           ctx.pick(('f8', 'c16')))
        return gen.layout(ctx, t)

    nums, tens, ins = [], [], []
    for p in pos:
        if ctx.chance(.5):
            num = ctx.randint(0, 2)
            ten = None if ctx.chance(.4) else tensor()
            real = [eye(p) if ten is None else ten] * num
        else:
            num = None
            ten = [None if ctx.chance(.3) else tensor()
                   for _ in range(ctx.randint(0, 2))]
            real = [eye(p) if t is None else t for t in ten]
            if ctx.chance(.3):
                ten = tuple(ten)
        size = int(np.prod([t.size for t in real], dtype=int))
        if size > budget[0]:
            num, ten, real, size = 0, None, [], 1
        budget[0] //= size
        nums.append(num)
        tens.append(ten)
        ins.append(real)
    if many:
        arg_num = nums if not all(x is None for x in nums) or ctx.chance(.5) \
            else None
        arg_ten = tens if not all(x is None for x in tens) or ctx.chance(.5) \
            else None
        t = ctx.pick([tuple, list])
        res = mp.inject(a, t(pos), arg_num, arg_ten)
        ctx.event('inject:sequence')
    else:
        res = mp.inject(a, pos[0], nums[0], tens[0])
        ctx.event('inject:single')
    ctx.signature(pos, nums)
    # reference: insert tensors as rank-one factors
    sites = dn.site_axes(shape)
    ref = arr
    order, new, offset = [], [], arr.ndim
    at = {p: x for p, x in zip(pos, ins)}
    for i in range(n + 1):
        for t in at.get(i, []):
            ref = np.multiply.outer(ref, t)
            order += list(range(offset, offset + t.ndim))
            offset += t.ndim
            new.append(t.shape)
        if i < n:
            order += sites[i]
            new.append(shape[i])
    expect_mpa(ctx, res, ref.transpose(order), new, 'inject', scale * 10, rtol)
    if ctx.chance(.2) and n > 1:
        ctx.raises((Exception,), lambda: mp.inject(a, (1, 0), (1, 1)),
                   'inject at unsorted positions')


def copy(ctx):
    a, lts, arr, shape, rtol, scale = some(ctx)
    b = a.copy()
    ctx.check(b is not a and type(b) is type(a), 'copy: type/identity')
    expect_mpa(ctx, b, arr, shape, 'copy', scale, rtol)
    for s, t in zip(lts, b.lt):
        ctx.check(s.dtype == t.dtype and np.array_equal(s, t),
                  'copy: local tensors')
    ctx.check(a.canonical_form == b.canonical_form, 'copy: canonical form')
    ctx.event('copies')


def entries(ctx, res, lts, moved, msg, count=8):
    """Compare entries; `moved` maps an index of the original array to the
    index of the result.  The scale is the largest value met."""
    got, want = [], []
    rt = dn.tens(res)
    shape = dn.shape_of(lts)
    for _ in range(count):
        ix = [tuple(ctx.randint(0, d - 1) for d in s) for s in shape]
        got.append(dn.entry(rt, moved(ix)))
        want.append(dn.entry(lts, ix))
    bound = max(dn.entry([abs(t) for t in lts], [
        tuple(ctx.randint(0, d - 1) for d in s) for s in shape])
        for _ in range(3))
    ctx.close(np.array(got), np.array(want), msg + ' (long chain)',
              scale=1e-3 * bound)
    ctx.event('long_entries', count)


def long_chain(ctx):
    k = ctx.randint(2, 4)
    n = k * ctx.randint(4, 12)
    shape = tuple((ctx.randint(1, 3), ctx.randint(1, 3)) for _ in range(n))
    a = gen.rand_mpa(ctx, shape=shape, dtypes=('f8', 'c16'), wild=False,
                     max_rank=4)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    swap = lambda ix: [i[::-1] for i in ix]
    entries(ctx, a.T, lts, swap, 'T')
    entries(ctx, a.adj().conj(), lts, swap, 'adj().conj()')
    entries(ctx, a.reverse(), lts, lambda ix: ix[::-1], 'reverse')
    g = a.group_sites(k)
    ctx.check(len(g) == n // k, 'group_sites: length')
    merged = lambda ix: [sum(ix[i:i + k], ()) for i in range(0, n, k)]
    entries(ctx, g, lts, merged, 'group_sites')
    entries(ctx, g.split_sites(k), lts, lambda ix: ix, 'split_sites')
    entries(ctx, a.ravel(), lts, lambda ix: [
        (int(np.ravel_multi_index(i, s)),) for i, s in zip(ix, shape)],
        'ravel')
    entries(ctx, a.pad_ranks(max(a.ranks) + 1, force_rank=True), lts,
            lambda ix: ix, 'pad_ranks')
    pos = ctx.randint(0, n - 1)
    ten = gen.rand_array(ctx, (1, 1), 'f8') * 0 + 1.
    entries(ctx, mp.inject(a, pos, None, [ten]), lts,
            lambda ix: ix[:pos] + [(0, 0)] + ix[pos:], 'inject')
    v = a.vleg2leg(ctx.randint(0, n - 2))
    entries(ctx, v.leg2vleg([i for i, s in enumerate(v.shape)
                             if len(s) == 3][0]), lts, lambda ix: ix,
            'vleg2leg + leg2vleg')
    ctx.check(tuple(a.canonical_form) == form, 'form changed (long chain)')
    ctx.event('long_chains')


SCENARIOS = [('long_chain', long_chain), ('transpose', transpose), ('reshape', reshape), ('group', group),
             ('split_sites', split_sites), ('vlegs', vlegs),
             ('inject', inject), ('pad_ranks', pad_ranks),
             ('reverse', reverse), ('transpose_axes', transpose_axes),
             ('leg2vleg', leg2vleg), ('reshape_common', reshape_common),
             ('copy', copy), ('inject2', inject)]
REQUIRED = ['form:mixed', 'group_and_split', 'inject:sequence',
            'inject:single', 'refusals']
