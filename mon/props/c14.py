# encoding: utf-8
"""C14: conversions and reductions of states"""
from __future__ import division

import numpy as np

import mpnum as mp
import mpnum.mpsmpo as mm

from .. import dense as dn, gen
from ..util import expect_mpa, unchanged

PROP = 'C14'
RULE = ('vectors, purifications and operators with unequal local and ancilla '
        'dimensions in all forms; supports in any order, repeated, single '
        'sites and full chain; non-trivial: more than two sites, rank above '
        'one')
QUICK, THOROUGH = 4000, 32000
DT = ('f8', 'c16', 'c16')


def dims(ctx, n, top=3):
    return [1 if ctx.chance(.1) else ctx.randint(2, top) for _ in range(n)]


def sizes(ctx, kind, n=None):
    n = n or ctx.pick([1, 2, 3, 3, 4, 4, 5])
    while True:
        if kind == 'mps':
            shape = [(d,) for d in dims(ctx, n)]
            size = int(np.prod([s[0] ** 2 for s in shape]))
        elif kind == 'pmps':
            shape = list(zip(dims(ctx, n), dims(ctx, n)))
            size = int(np.prod([s[0] ** 2 * s[1] for s in shape]))
        else:
            shape = [(d, d) for d in dims(ctx, n)]
            size = int(np.prod([s[0] ** 2 for s in shape]))
        if size <= 8000:
            return shape


def state(ctx, kind, n=None):
    a = gen.rand_mpa(ctx, shape=sizes(ctx, kind, n), dtypes=DT, max_rank=4)
    ctx.nontrivial = len(a) > 2 and max(a.ranks) > 1
    ctx.event('kind:' + kind)
    return a


def dm_dense(lts, kind):
    """Dense density matrix, axes (row_1 ... row_n, col_1 ... col_n)"""
    arr = dn.dense(lts)
    n = len(lts)
    if kind == 'mps':
        return np.multiply.outer(arr, arr.conj())
    if kind == 'pmps':
        rows = list(range(0, 2 * n, 2))
        anc = list(range(1, 2 * n, 2))
        arr = arr.transpose(rows + anc)
        ax = list(range(n, 2 * n))
        return np.tensordot(arr, arr.conj(), axes=(ax, ax))
    order = list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2))
    return arr.transpose(order)


def ptrace(rho, keep):
    """Partial trace of rho (rows..., cols...), keep given sites in order"""
    n = rho.ndim // 2
    for site in reversed(range(n)):
        if site not in keep:
            rho = np.trace(rho, axis1=site, axis2=site + rho.ndim // 2)
    return rho


def to_local(rho):
    n = rho.ndim // 2
    return rho.transpose([x for k in range(n) for x in (k, n + k)])


def expect_state(ctx, res, kind, rho, msg, scale):
    """`res` (MPArray of given kind) has to represent rho"""
    ctx.check(isinstance(res, mp.MPArray), msg + ': type')
    defect = dn.chain_defect(res)
    ctx.check(defect is None, msg + ': malformed', defect=defect)
    defect = dn.claim_defect(res)
    ctx.check(defect is None, msg + ': ' + str(defect))
    lts = dn.tens(res)
    legs = 1 if kind == 'mps' else 2
    ctx.check(all(t.ndim == legs + 2 for t in lts), msg + ': leg count')
    got = dm_dense(lts, kind)
    ctx.close(got, rho, msg + ': wrong state', scale=scale)
    ctx.event('states_compared')


def windows(ctx, n):
    """Arguments for reductions_*: keyword dict and list of (start, stop)"""
    what = ctx.randint(0, 3)
    if what == 0:
        w = ctx.randint(1, n)
        return {'width': w}, [(s, s + w) for s in range(n - w + 1)]
    if what == 1:
        w = ctx.randint(1, n)
        starts = [ctx.randint(0, n - w) for _ in range(ctx.randint(1, 5))]
        arg = starts if ctx.chance(.6) else iter(starts) \
            if ctx.chance(.5) else tuple(starts)
        ctx.event('startsites')
        return ({'width': w, 'startsites': arg},
                [(s, s + w) for s in starts])
    spans = []
    for _ in range(ctx.randint(1, 5)):
        a = ctx.randint(0, n - 1)
        spans.append((a, ctx.randint(a + 1, n)))
    ctx.event('stopsites')
    return ({'startsites': [a for a, _ in spans],
             'stopsites': [b for _, b in spans]}, spans)


REDUCE = {
    'mpo': [('reductions_mpo', 'mpo')],
    'pmps': [('reductions_pmps', 'pmps')],
    'mps': [('reductions_mps_as_mpo', 'mpo'),
            ('reductions_mps_as_pmps', 'pmps')],
}


def reduction(ctx):
    kind = ctx.pick(['mpo', 'pmps', 'mps'])
    a = state(ctx, kind)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    rho = dm_dense(lts, kind)
    scale = dn.noise(*[lts] * (1 if kind == 'mpo' else 2))
    fac = float(np.prod([t.shape[1] for t in lts]))
    scale = max(scale, 1e-3 * float(abs(rho).max())) * fac
    kw, spans = windows(ctx, len(a))
    ctx.signature(kind, spans)
    name, out = ctx.pick(REDUCE[kind])
    if ctx.chance(.25):
        mode = {'mpo': 'mpdo'}.get(kind, kind)
        res, got_mode = mm.reductions(a, mode, **kw)
        want = 'mpdo' if kind == 'mpo' else 'pmps'
        ctx.check(got_mode == want, 'reductions: returned mode',
                  got=got_mode, expected=want)
        out = {'mpdo': 'mpo'}.get(got_mode, got_mode)
        name = 'reductions({})'.format(mode)
        ctx.event('generic')
    else:
        pos = ctx.chance(.3) and 'width' in kw and 'startsites' not in kw
        fun = getattr(mm, name)
        res = fun(a, kw['width']) if pos else fun(a, **kw)
    # results are held while the iterator goes on
    res = list(res)
    ctx.check(len(res) == len(spans), name + ': number of reductions',
              got=len(res), expected=len(spans))
    for r, (s, e) in zip(res, spans):
        ctx.check(len(r) == e - s, name + ': number of sites')
        expect_state(ctx, r, out, ptrace(rho, range(s, e)),
                     '{} {}:{}'.format(name, s, e), scale)
        ctx.event('reductions')
    # the state itself is the same (its form may have changed)
    ctx.close(dm_dense(dn.tens(a), kind), rho, name + ': state changed',
              scale=scale)
    if kind != 'pmps':
        unchanged(ctx, a, lts, name, form)
    else:
        defect = dn.claim_defect(a)
        ctx.check(defect is None, name + ': ' + str(defect))


def interleaved(ctx):
    """Two iterators over the same state and modification of yielded states"""
    kind = ctx.pick(['mpo', 'pmps', 'mps'])
    a = state(ctx, kind, ctx.randint(2, 4))
    rho = dm_dense(dn.tens(a), kind)
    scale = max(dn.noise(*[dn.tens(a)] * (1 if kind == 'mpo' else 2)),
                1e-3 * float(abs(rho).max())) * \
        float(np.prod([t.shape[1] for t in dn.tens(a)]))
    name, out = ctx.pick(REDUCE[kind])
    fun = getattr(mm, name)
    its, todo = [], []
    for _ in range(2):
        kw, spans = windows(ctx, len(a))
        its.append(fun(a, **kw))
        todo.append(list(spans))
    while any(todo):
        k = ctx.pick([j for j in range(2) if todo[j]])
        s, e = todo[k].pop(0)
        r = next(its[k])
        expect_state(ctx, r, out, ptrace(rho, range(s, e)),
                     '{} interleaved {}:{}'.format(name, s, e), scale)
        if ctx.chance(.4):
            r *= 5.0      # belongs to the caller
            ctx.event('modified_result')
        elif ctx.chance(.3):
            r.canonicalize()
    ctx.close(dm_dense(dn.tens(a), kind), rho, name + ': state changed',
              scale=scale)
    ctx.event('interleaved')


def conversions(ctx):
    what = ctx.randint(0, 4)
    if what <= 1:
        a = state(ctx, 'mps')
        lts, form = dn.tens(a), tuple(a.canonical_form)
        rho = dm_dense(lts, 'mps')
        scale = dn.noise(lts, lts)
        if what == 0:
            expect_state(ctx, mm.mps_to_mpo(a), 'mpo', rho, 'mps_to_mpo',
                         scale)
            ctx.event('mps_to_mpo')
        else:
            p = mm.mps_to_pmps(a)
            expect_mpa(ctx, p, dn.dense(lts),
                       [s + (1,) for s in dn.shape_of(lts)], 'mps_to_pmps',
                       1e-2 * dn.bound(lts))
            back = mm.pmps_to_mps(p)
            expect_mpa(ctx, back, dn.dense(lts), dn.shape_of(lts),
                       'pmps_to_mps', 1e-2 * dn.bound(lts))
            ctx.event('mps_to_pmps')
        unchanged(ctx, a, lts, 'conversion', form)
    elif what == 2:
        a = state(ctx, 'pmps')
        lts, form = dn.tens(a), tuple(a.canonical_form)
        rho = dm_dense(lts, 'pmps')
        scale = dn.noise(lts, lts) * np.prod(
            [float(t.shape[2]) for t in lts])
        expect_state(ctx, mm.pmps_to_mpo(a), 'mpo', rho, 'pmps_to_mpo', scale)
        unchanged(ctx, a, lts, 'pmps_to_mpo', form)
        ctx.event('pmps_to_mpo')
        if any(s[1] > 1 for s in a.shape):
            ctx.raises(AssertionError, lambda: mm.pmps_to_mps(a),
                       'pmps_to_mps with ancilla dimension above one')
        ctx.raises(ValueError, lambda: mm.reductions(
            a, ctx.pick(['mpo', 'MPS', None, 'x']), width=1),
            'reductions with unknown mode')
    else:
        # dense array
        if ctx.chance(.5):
            n, d = ctx.randint(1, 4), ctx.randint(2, 3)
            shape = [(d if ctx.chance(.8) or k == 0 else 1,
                      ctx.randint(1, 2 if d > 2 else 3)) for k in range(n)]
            a = gen.rand_mpa(ctx, shape=shape, dtypes=DT, max_rank=4)
        else:
            a = state(ctx, 'pmps')
        lts, form = dn.tens(a), tuple(a.canonical_form)
        rho = np.squeeze(dm_dense(lts, 'pmps'))
        scale = dn.noise(lts, lts) * np.prod(
            [float(t.shape[2]) for t in lts])
        got = mm.pmps_dm_to_array(a)
        ctx.close(got, to_local(rho), 'pmps_dm_to_array', scale=scale)
        left = set(s[0] for s in a.shape if s[0] > 1)
        if len(left) == 1:
            got = mm.pmps_dm_to_array(a, global_=True) \
                if ctx.chance(.5) else mm.pmps_dm_to_array(a, True)
            ctx.close(got, rho, 'pmps_dm_to_array, global order', scale=scale)
            ctx.event('global')
        unchanged(ctx, a, lts, 'pmps_dm_to_array', form)
        ctx.event('dm_to_array')


def pmps_support(ctx):
    """Reductions of purifications to arbitrary sets of sites"""
    a = state(ctx, 'pmps')
    lts = dn.tens(a)
    rho = dm_dense(lts, 'pmps')
    scale = max(dn.noise(lts, lts), 1e-3 * float(abs(rho).max())) * \
        float(np.prod([t.shape[1] * t.shape[2] for t in lts]))
    n = len(a)
    k = ctx.randint(1, n)
    support = sorted(int(x) for x in ctx.rng.permutation(n)[:k])
    order = [support[i] for i in ctx.rng.permutation(k)]
    arg = ctx.pick([support, tuple(support), set(support), order])
    ctx.signature(support)
    red = mm.pmps_reduction(a, arg)
    lo, hi = min(support), max(support) + 1
    ctx.check(len(red) == hi - lo, 'pmps_reduction: number of sites',
              got=len(red), support=support)
    for pos, s in enumerate(red.shape):
        want = lts[lo + pos].shape[1] if lo + pos in support else 1
        ctx.check(s[0] == want, 'pmps_reduction: local dimension',
                  got=red.shape, support=support)
    ref = ptrace(rho, support)
    got = dm_dense(dn.tens(red), 'pmps')
    ctx.close(got.reshape(ref.shape) if got.size == ref.size else got, ref,
              'pmps_reduction', scale=scale)
    got = mm.pmps_dm_to_array(red)
    ctx.close(got, to_local(np.squeeze(ref)), 'pmps_reduction as array',
              scale=scale)
    ctx.close(dm_dense(dn.tens(a), 'pmps'), rho,
              'pmps_reduction: state changed', scale=scale)
    defect = dn.claim_defect(a) or dn.claim_defect(red)
    ctx.check(defect is None, 'pmps_reduction: ' + str(defect))
    ctx.event('support:gap' if len(support) < hi - lo else 'support:block')


def long_chain(ctx):
    """Long normalized chains: all windows agree across representations and
    with transfer matrices"""
    n = ctx.randint(15, 30)
    r = ctx.randint(2, 3)
    a = gen.rand_mpa(ctx, shape=[(2,)] * n, dtypes=('c16',), wild=False,
                     ranks=[r] * (n - 1))
    lts = dn.tens(a)
    nrm = dn.norm(lts)
    lts = [t / nrm ** (1. / n) for t in lts]
    a = mp.MPArray(lts)
    left = [np.ones((1, 1))]
    for t in lts:
        left.append(np.einsum('ab,apc,bpd->cd', left[-1], t, t.conj()))
    right = [np.ones((1, 1))]
    for t in lts[::-1]:
        right.append(np.einsum('cd,apc,bpd->ab', right[-1], t, t.conj()))
    right = right[::-1]
    w = ctx.randint(1, 3)
    name, out = ctx.pick(REDUCE['mps'])
    if ctx.chance(.4):
        name, out = 'reductions_mpo', 'mpo'
        arg = mm.mps_to_mpo(a)
    else:
        arg = a
    res = list(getattr(mm, name)(arg, w))
    ctx.check(len(res) == n - w + 1, 'number of windows')
    for s, red in enumerate(res):
        v = dn.dense_virtual(lts[s:s + w])
        x = np.tensordot(left[s], v, axes=(0, 0))
        x = np.tensordot(x, right[s + w], axes=(x.ndim - 1, 0))
        # x: (left', phys..., right')
        m = v.conj()
        ref = np.tensordot(x, m, axes=((0, x.ndim - 1), (0, m.ndim - 1)))
        got = dm_dense(dn.tens(red), out)
        ctx.close(got, ref, '{} window {}'.format(name, s), scale=1.,
                  rtol=1e-7)
        ctx.event('long_windows')


SCENARIOS = [('reduction', reduction), ('conversions', conversions),
             ('reduction2', reduction), ('pmps_support', pmps_support),
             ('interleaved', interleaved), ('reduction3', reduction),
             ('conversions2', conversions), ('long_chain', long_chain)]
REQUIRED = ['states_compared', 'reductions', 'kind:mps', 'kind:pmps',
            'kind:mpo', 'startsites', 'stopsites', 'generic', 'interleaved',
            'modified_result', 'mps_to_mpo', 'mps_to_pmps', 'pmps_to_mpo',
            'dm_to_array', 'global', 'support:gap', 'support:block',
            'long_windows', 'refusals']
