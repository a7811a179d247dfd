# encoding: utf-8
"""C12: embedding local terms and summing them"""
from __future__ import division

import numpy as np

import mpnum as mp

from .. import dense as dn, gen
from ..util import expect_mpa, unchanged

PROP = 'C12'
RULE = ('random local terms (ranks, dtypes, leg counts), chain lengths, '
        'slices (regular with any offset, irregular, repeated, unordered) '
        'and embedding tensors; non-trivial: at least two terms, one of them '
        'with virtual dimension above one')
QUICK, THOROUGH = 5000, 40000


def embed_dense(arr, width, start, length, ten):
    """Dense embedding with explicit outer products (local form)"""
    out = np.ones(())
    pos = 0
    while pos < length:
        if pos == start:
            out = np.multiply.outer(out, arr)
            pos += width
        else:
            out = np.multiply.outer(out, ten)
            pos += 1
    return out


def setting(ctx, max_size=4000):
    """legs per site (same for all sites) and embedding tensor"""
    what = ctx.randint(0, 3)
    if what <= 1:                      # operators, identity
        d = ctx.randint(2, 3)
        legs, ten = (d, d), None
        ctx.event('embed:default')
    else:
        legs = gen.rand_legs(ctx, ctx.randint(1, 3), 3)
        ten = gen.rand_array(ctx, legs, ctx.pick(['f8', 'c16', 'i8']))
        ctx.event('embed:given')
    size = int(np.prod(legs, dtype=int))
    top = 1
    while size ** (top + 1) <= max_size and top < 7:
        top += 1
    return legs, ten, top


def terms(ctx, count, width, legs):
    out = []
    dts = ctx.pick([('f8',), ('c16',), ('f8', 'c16'), ('c16', 'f8', 'f4')])
    for _ in range(count):
        w = width if np.isscalar(width) else width.pop(0)
        out.append(gen.rand_mpa(ctx, shape=(legs,) * w, dtypes=dts,
                                max_rank=3))
    if len(set(str(t.dtype) for t in out)) > 1:
        ctx.event('mixed_dtypes')
    return out


def judge(ctx, mpas, starts, length, legs, ten, res, msg):
    eye = np.eye(legs[0]) if ten is None else ten
    dense = [dn.dense(dn.tens(m)) for m in mpas]
    ref = 0
    for m, a, s in zip(mpas, dense, starts):
        ref = ref + embed_dense(a, len(m), s, length, eye)
    scale = 1e-2 * max(dn.bound(dn.tens(m)) for m in mpas)
    expect_mpa(ctx, res, ref, (legs,) * length, msg, scale,
               gen.rtol_of(*mpas))
    if len(mpas) > 1 and any(len(m) > 1 and max(m.ranks) > 1 for m in mpas):
        ctx.nontrivial = True


def kw_embed(ctx, ten):
    if ten is None:
        return {} if ctx.chance(.6) else {'embed_tensor': None}
    return {'embed_tensor': ten}


def embed(ctx):
    legs, ten, top = setting(ctx)
    length = ctx.randint(1, top)
    width = ctx.randint(1, length)
    start = ctx.randint(0, length - width)
    m = terms(ctx, 1, width, legs)[0]
    before, form = dn.tens(m), tuple(m.canonical_form)
    tb = None if ten is None else ten.copy()
    sl = slice(start, start + width)
    if ctx.chance(.2):
        if start == 0:
            sl = slice(None, width)
        elif start + width == length:
            sl = slice(start - length, None)
    ctx.signature(length, width, start)
    res = mp.embed_slice(length, sl, m, **kw_embed(ctx, ten))
    judge(ctx, [m], [start], length, legs, ten, res, 'embed_slice')
    unchanged(ctx, m, before, 'embed_slice', form)
    if ten is not None:
        ctx.check(np.array_equal(ten, tb), 'embedding tensor changed')
    defect = dn.claim_defect(res)
    ctx.check(defect is None, 'embed_slice: ' + str(defect))
    ctx.event('embedded')


def regular(ctx):
    """Nearest-neighbour pattern, with and without explicit slices"""
    legs, ten, top = setting(ctx)
    width = ctx.randint(1, min(3, top))
    length = ctx.randint(width, top)
    count = length - width + 1
    mpas = terms(ctx, count, width, legs)
    before = [dn.tens(m) for m in mpas]
    forms = [tuple(m.canonical_form) for m in mpas]
    kw = kw_embed(ctx, ten)
    ctx.signature(length, width)
    what = ctx.randint(0, 2)
    arg = mpas
    if what == 0:
        arg = tuple(mpas) if ctx.chance(.5) else iter(mpas) \
            if ctx.chance(.5) else mpas
        res = mp.local_sum(arg, **kw)
        ctx.event('slices:omitted')
    else:
        sl = mp.regular_slices(length, width, 1)
        res = mp.local_sum(arg, length=length,
                           slices=sl if ctx.chance(.5) else list(sl), **kw)
        ctx.event('slices:regular')
    judge(ctx, mpas, range(count), length, legs, ten, res, 'local_sum')
    for m, b, f in zip(mpas, before, forms):
        unchanged(ctx, m, b, 'local_sum', f)
    defect = dn.claim_defect(res)
    ctx.check(defect is None, 'local_sum: ' + str(defect))
    if length > 1 and width > 1 and count > 1:
        # documented size of the result
        big = max(r for m in mpas for r in m.ranks)
        ctx.check(max(res.ranks) <= width * big + 1,
                  'rank larger than documented', got=res.ranks,
                  limit=width * big + 1)
        ctx.event('rank_bound')


def offsets(ctx):
    """Regular slices with arbitrary offset"""
    legs, ten, top = setting(ctx)
    width = ctx.randint(1, min(3, top))
    offset = ctx.randint(1, 3)
    count = ctx.randint(1, 1 + (top - width) // offset)
    length = width + (count - 1) * offset
    mpas = terms(ctx, count, width, legs)
    ctx.signature(length, width, offset)
    res = mp.local_sum(mpas, length=length,
                       slices=mp.regular_slices(length, width, offset),
                       **kw_embed(ctx, ten))
    judge(ctx, mpas, [offset * i for i in range(count)], length, legs, ten,
          res, 'local_sum with offset')
    ctx.event('offset:{}'.format(offset))


def irregular(ctx):
    """Arbitrary slices: different widths, gaps, repetitions, any order"""
    legs, ten, top = setting(ctx)
    length = ctx.randint(1, top)
    count = ctx.randint(1, 4)
    spans = []
    for _ in range(count):
        w = ctx.randint(1, min(3, length))
        s = ctx.randint(0, length - w)
        spans.append((s, w))
    if ctx.chance(.2):
        # almost regular: right pattern, one term moved, dropped or repeated
        w = ctx.randint(1, min(2, length))
        spans = [(i, w) for i in range(length - w + 1)]
        k = ctx.randint(0, 2)
        if k == 0 and len(spans) > 1:
            spans.pop(ctx.randint(0, len(spans) - 1))
        elif k == 1:
            spans.append(spans[-1])
        else:
            spans = spans[::-1]
        ctx.event('almost_regular')
    mpas = terms(ctx, len(spans), [w for _, w in spans], legs)
    ctx.signature(length, spans)
    res = mp.local_sum(mpas, length=length,
                       slices=[slice(s, s + w) for s, w in spans],
                       **kw_embed(ctx, ten))
    judge(ctx, mpas, [s for s, _ in spans], length, legs, ten, res,
          'local_sum with slices')
    ctx.event('irregular')


def slices(ctx):
    width, offset = ctx.randint(1, 9), ctx.randint(1, 7)
    length = width + offset * ctx.randint(0, 12)
    got = list(mp.regular_slices(length, width, offset))
    want = [(s, s + width) for s in range(0, length - width + 1, offset)]
    ctx.check([tuple(g.indices(length)) for g in got] ==
              [(a, b, 1) for a, b in want], 'regular_slices', got=got,
              length=length, width=width, offset=offset)
    ctx.check(got[-1].stop == length, 'last slice does not reach the end')
    if offset > 1:
        bad = length + ctx.randint(1, offset - 1)
        ctx.raises(Exception, lambda: list(
            mp.regular_slices(bad, width, offset)),
            'regular_slices with a chain which does not fit', length=bad,
            width=width, offset=offset)
    ctx.signature(length, width, offset)
    ctx.nontrivial = len(got) > 1
    ctx.event('slices')


def refusals(ctx):
    """Terms which do not fit are refused"""
    legs, ten, top = setting(ctx)
    top = max(top, 3)
    length = ctx.randint(3, max(3, min(top, 5)))
    w = ctx.randint(1, 2)
    m = terms(ctx, 1, w, legs)[0]
    s = ctx.randint(0, length - w - 1)
    kw = kw_embed(ctx, ten)
    ctx.raises(Exception, lambda: mp.embed_slice(
        length, slice(s, s + w + 1), m, **kw), 'slice wider than the array')
    ctx.raises(Exception, lambda: mp.embed_slice(
        length, slice(length - w + 1, length + 1), m, **kw),
        'slice beyond the chain')
    if ten is None:
        bad = gen.rand_mpa(ctx, shape=((2, 3),) * 2, dtypes=('f8',))
        ctx.raises(Exception, lambda: mp.embed_slice(4, slice(1, 3), bad),
                   'identity for non-square sites')


def long_chain(ctx):
    """Entries of the sum on a long chain"""
    d = ctx.randint(2, 3)
    width = ctx.randint(1, 3)
    offset = ctx.randint(1, 2) if ctx.chance(.5) else 1
    count = ctx.randint(8, 20)
    how = ctx.randint(0, 2)
    if ctx.chance(.15):
        count = ctx.randint(50, 140) if how == 0 and width > 1 \
            else ctx.randint(20, 34)
        d = 2
        if how == 0:
            offset = 1
        ctx.event('very_long')
    n = width + (count - 1) * offset
    mpas = terms(ctx, count, width, (d, d))
    if how == 0 and offset == 1 and width > 1:
        res = mp.local_sum(mpas)
    elif how == 1:
        res = mp.local_sum(mpas, length=n,
                           slices=mp.regular_slices(n, width, offset))
    else:
        perm = [int(i) for i in ctx.rng.permutation(count)]
        mpas = [mpas[i] for i in perm]
        res = mp.local_sum(mpas, length=n, slices=[
            slice(offset * i, offset * i + width) for i in perm])
        back = sorted(range(count), key=lambda i: perm[i])
        mpas = [mpas[i] for i in back]
    ctx.check(len(res) == n, 'local_sum: length (long chain)')
    lts = dn.tens(res)
    parts = [dn.tens(m) for m in mpas]
    scale = sum(dn.raw_bound(p) for p in parts)
    single = any(dn.is_single(p) for p in parts)
    for _ in range(12):
        row = [ctx.randint(0, d - 1) for _ in range(n)]
        col = list(row)
        at = ctx.randint(0, count - 1) * offset
        for i in range(at, at + width):       # differ inside one window
            if ctx.chance(.5):
                col[i] = ctx.randint(0, d - 1)
        ix = list(zip(row, col))
        want = 0.
        for i, p in enumerate(parts):
            s = i * offset
            if all(r == c for k, (r, c) in enumerate(ix)
                   if not s <= k < s + width):
                want = want + dn.entry(p, ix[s:s + width])
        ctx.close(dn.entry(lts, ix), want, 'entry (long chain)',
                  scale=1e-2 * scale, rtol=2e-3 if single else 1e-8)
    ctx.signature('long', n, width, offset, how)
    ctx.event('long_entries', 12)


SCENARIOS = [('long_chain', long_chain), ('embed', embed), ('regular', regular), ('offsets', offsets),
             ('irregular', irregular), ('regular2', regular),
             ('slices', slices), ('refusals', refusals)]
REQUIRED = ['embedded', 'slices:omitted', 'slices:regular', 'rank_bound',
            'irregular', 'almost_regular', 'mixed_dtypes', 'embed:default',
            'embed:given', 'refusals']
