# encoding: utf-8
"""C21: sampling"""
from __future__ import division

import numpy as np

import mpnum.povm as mpp

from .. import dense as dn, gen, povmgen as pg

PROP = 'C21'
RULE = ('random correlated, adaptive and sparse outcome distributions from '
        'random measurements of random states; all sampling methods and group '
        'sizes. A scripted random generator steers every draw and records the '
        'conditional distributions which the code uses: their product has to '
        'equal the exact joint probability; in addition real samples are '
        'tested against the exact joint distribution (exact binomial tails, '
        'error probability 1e-11 per outcome). Non-trivial: several outcome '
        'sites')
QUICK, THOROUGH = 990, 7920
ASSUMPTIONS = ['at least one site with several outcomes']


class Scripted(np.random.RandomState):
    """Random state which decides draws itself and records them"""

    def __init__(self, script, least=1e-4):
        np.random.RandomState.__init__(self, 7)
        self.script, self.least = script, least
        self.period = None
        self.draws = []
        self.prod = 1.
        self.start = self.get_state()

    def clean(self):
        """True if `choice` is all that has been used"""
        start, end = self.start, self.get_state()
        return bool(start[2] == end[2] and (start[1] == end[1]).all() and
                    start[3:] == end[3:] and self.draws and
                    None not in self.draws)

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        if self.period and len(self.draws) % self.period == 0:
            self.prod = 1.
        q = np.full(n, 1. / n) if p is None else np.array(list(p), float)
        count = 1 if size is None else int(np.prod(size))
        # unlikely outcomes (rounding errors of the conditional
        # distributions grow with the inverse probability) are not followed
        ok = np.flatnonzero(q * self.prod > self.least)
        if count != 1 or len(ok) == 0 or not replace:
            self.draws.append(None)
            return np.random.RandomState.choice(self, a, size, replace, p)
        k = int(ok[self.script.randint(len(ok))])
        self.draws.append((k, q))
        self.prod *= q[k]
        res = k if np.ndim(a) == 0 else np.asarray(a)[k]
        return res if size is None else np.full(size, res)


def setting(ctx, top=4):
    n = ctx.pick([1, 2, 2, 3, 3, 4, 5])
    hdims = [2] * n if n > 3 else pg.rand_hdims(ctx, n, limit=18)
    povm = pg.rand_povm(ctx, hdims=hdims,
                        outdims=pg.rand_outdims(ctx, n, top=2)
                        if n > 3 else None)
    state, mode, rho = pg.rand_state(ctx, povm.hdims)
    pmf = pg.squeeze_out(pg.pmf_dense(dn.tens(povm), rho).real, povm.outdims)
    ctx.signature(povm.shape, povm.ranks, mode, gen.describe(state))
    ctx.nontrivial = pmf.ndim > 1
    m = ctx.pick([mode, 'auto']) if mode != 'pmps' else mode
    return povm, state, m, pmf


def options(ctx, povm, mode):
    kw = {'mode': mode} if mode != 'auto' or ctx.chance(.5) else {}
    method = ctx.pick(['cond', 'cond', 'direct'])
    if method == 'direct' or ctx.chance(.7):
        kw['method'] = method
    if method == 'cond' and ctx.chance(.7):
        kw['n_group'] = ctx.randint(1, len(povm) + 1)
    if ctx.chance(.2):
        kw['eps'] = 10. ** ctx.randint(-9, -6)
    ctx.signature(sorted(kw.items()))
    ctx.event('method:' + method)
    return kw


def wellformed(ctx, s, povm, n, msg):
    ctx.check(isinstance(s, np.ndarray) and
              s.shape == (n, len(povm.nsoutdims)), msg + ': shape',
              got=np.shape(s))
    ctx.check(s.dtype == np.uint8, msg + ': dtype', got=s.dtype)
    ctx.check((s < np.array(povm.nsoutdims)[None, :]).all(),
              msg + ': not an outcome')


def scripted(ctx):
    povm, state, mode, pmf = setting(ctx)
    kw = options(ctx, povm, mode)
    before = dn.dense(dn.tens(state))
    for _ in range(5):
        rng = Scripted(ctx.rng)
        s = povm.sample(rng, state, 1, **kw)
        wellformed(ctx, s, povm, 1, 'sample')
        out = tuple(int(x) for x in s[0])
        p = pmf[out]
        ctx.check(p > 1e-12, 'sample with probability zero', outcome=out,
                  p=p, **kw)
        if rng.clean():
            prod = 1.
            for k, q in rng.draws:
                ctx.check((q >= 0).all() and abs(q.sum() - 1) < 1e-8,
                          'sample: conditional distribution')
                prod *= q[k]
            ctx.check(abs(prod - p) <= 1e-8,
                      'probability of drawing an outcome differs from its '
                      'exact probability', drawn=prod, exact=p, outcome=out,
                      draws=len(rng.draws), **kw)
            ctx.event('scripted_draws', len(rng.draws))
            ctx.event('scripted')
        else:
            ctx.event('not_scriptable')
    ctx.close(dn.dense(dn.tens(state)), before, 'sample: state changed',
              scale=1e-2 * dn.bound(dn.tens(state)))


def several(ctx):
    """Several samples of one call: later samples follow the same
    distribution as the first one"""
    povm, state, mode, pmf = setting(ctx)
    kw = options(ctx, povm, mode)
    kw['method'] = 'cond'
    probe = Scripted(ctx.rng)
    povm.sample(probe, state, 1, **kw)
    if not probe.clean():
        ctx.event('not_scriptable')
        return
    for _ in range(2):
        n = ctx.randint(2, 6) if ctx.chance(.85) else ctx.randint(64, 140)
        rng = Scripted(ctx.rng, 1e-3)
        rng.period = len(probe.draws)
        s = povm.sample(rng, state, n, **kw)
        wellformed(ctx, s, povm, n, 'several samples')
        p = [pmf[tuple(int(x) for x in row)] for row in s]
        ctx.check(min(p) > 1e-12, 'several samples: probability zero', p=p,
                  **kw)
        if rng.clean() and len(rng.draws) == n * len(probe.draws):
            drawn = sum(np.log(q[k]) for k, q in rng.draws)
            ctx.check(abs(drawn - np.log(p).sum()) <= 1e-4 * n,
                      'several samples: probability of drawing them differs '
                      'from the product of their exact probabilities',
                      samples=s.tolist(), drawn=np.exp(drawn),
                      exact=np.prod(p), **kw)
            ctx.event('scripted_several')


def long_chain(ctx):
    """More sites than a dense pmf allows: the probability of the outcome
    which was drawn is contracted site by site"""
    n = ctx.randint(7, 12)
    hdims = [2] * n
    outdims = pg.rand_outdims(ctx, n, singles=.3, top=2)
    povm = pg.rand_povm(ctx, hdims=hdims, outdims=outdims)
    lts = gen.rand_tensors(ctx, [(2, ctx.randint(1, 2)) for _ in range(n)],
                           None, 'c16', wild=False, max_rank=3)
    lts = [np.array(t) for t in lts]
    lts[0] = lts[0] / dn.norm(lts)
    mode = ctx.pick(['pmps', 'mpdo'])
    if ctx.chance(.4):
        lts = [t[:, :, :1] for t in lts]
        lts[0] = lts[0] / dn.norm(lts)
        mode = ctx.pick(['mps', 'mps', 'pmps', 'mpdo'])
    state = gen.build(ctx, pg.convert(lts, mode))
    ctx.event('mode:' + mode)
    m = ctx.pick([mode, 'auto']) if mode != 'pmps' else mode
    kw = options(ctx, povm, m)
    if ctx.chance(.5) and kw.get('method') != 'direct':
        kw['n_group'] = ctx.randint(1, n)
    for _ in range(3):
        rng = Scripted(ctx.rng, 3e-5)
        s = povm.sample(rng, state, 1, **kw)
        wellformed(ctx, s, povm, 1, 'sample of a long chain')
        it = iter(s[0])
        out = [int(next(it)) if d > 1 else 0 for d in outdims]
        p = pg.outcome_probability(dn.tens(povm), lts, out)
        ctx.check(p > 1e-12, 'long chain: sample with probability zero',
                  outcome=out, p=p, **kw)
        if rng.clean():
            prod = 1.
            for k, q in rng.draws:
                prod *= q[k]
            ctx.check(abs(prod - p) <= 1e-7 * max(p, 1e-3),
                      'long chain: probability of drawing an outcome differs '
                      'from its exact probability', drawn=prod, exact=p,
                      outcome=out, draws=len(rng.draws), **kw)
            ctx.event('long_scripted')
            period = len(rng.draws)
            count = ctx.randint(2, 6)
            rng = Scripted(ctx.rng, 3e-4)
            rng.period = period
            s = povm.sample(rng, state, count, **kw)
            if rng.clean() and len(rng.draws) == count * period:
                p = []
                for row in s:
                    it = iter(row)
                    p.append(pg.outcome_probability(dn.tens(povm), lts, [
                        int(next(it)) if d > 1 else 0 for d in outdims]))
                ctx.check(min(p) > 1e-12, 'long chain: samples with '
                          'probability zero', p=p, **kw)
                drawn = sum(np.log(q[k]) for k, q in rng.draws)
                ctx.check(abs(drawn - np.log(p).sum()) <= 1e-3 * count,
                          'long chain: probability of drawing several '
                          'outcomes differs from their exact probability',
                          drawn=np.exp(drawn), exact=np.prod(p), **kw)
                ctx.event('long_scripted_several')
    ctx.nontrivial = True
    ctx.signature(povm.shape, povm.ranks, mode, gen.describe(state))


def enumerate_all(ctx):
    """Steer through all outcomes: complete conditional tree"""
    povm, state, mode, pmf = setting(ctx)
    if pmf.size > 24:
        return
    kw = options(ctx, povm, mode)
    seen = {}

    class Tree(object):
        def __init__(self):
            self.path, self.pos = [], 0

        def randint(self, n):
            if self.pos == len(self.path):
                self.path.append([0, n])
            k = self.path[self.pos]
            self.pos += 1
            return k[0]

        def step(self):
            self.pos = 0
            while self.path:
                self.path[-1][0] += 1
                if self.path[-1][0] < self.path[-1][1]:
                    return True
                self.path.pop()
            return False

    tree = Tree()
    for _ in range(40):
        rng = Scripted(tree)
        s = povm.sample(rng, state, 1, **kw)
        if not rng.clean():
            ctx.event('not_scriptable')
            return
        out = tuple(int(x) for x in s[0])
        seen[out] = seen.get(out, 0.) + np.prod([q[k] for k, q in rng.draws])
        if not tree.step():
            break
    else:
        return
    for out in np.ndindex(*pmf.shape):
        if out in seen:
            ctx.check(abs(seen[out] - pmf[out]) <= 1e-8,
                      'probability of drawing an outcome', outcome=out,
                      drawn=seen[out], exact=pmf[out], **kw)
    miss = sum(pmf[o] for o in np.ndindex(*pmf.shape) if o not in seen)
    ctx.check(miss <= 1.01e-4 * pmf.size * max(1, pmf.ndim) + 1e-8,
              'outcomes never drawn', missing=miss, **kw)
    ctx.event('trees')
    ctx.event('tree_outcomes', len(seen))


def statistics(ctx):
    povm, state, mode, pmf = setting(ctx)
    kw = options(ctx, povm, mode)
    n = 3000 if kw.get('method') == 'direct' else 120
    if ctx.chance(.1):
        n = 11000 if kw.get('method') == 'direct' else 300
    rng = np.random.RandomState(ctx.randint(0, 2 ** 31 - 1))
    s = povm.sample(rng, state, n, **kw)
    wellformed(ctx, s, povm, n, 'sample')
    pg.dist_test(ctx, s, pmf, 'sample {}'.format(sorted(kw.items())))
    # a sequence of draws does not come back later on
    h = sum(-p * np.log2(p) for p in pmf.ravel() if p > 1e-12)
    top = pmf.max()
    k = 100
    while top ** k > 1e-15 and k < n // 2:
        k += 50
    if h > .1 and k <= n // 2 and top ** k <= 1e-15:
        idx = np.ravel_multi_index(s.T.astype(int), pmf.shape)
        for start in list(range(1000, n - k, 1000)) + [n // 2, n - k]:
            if start >= k:
                ctx.check((idx[:k] != idx[start:start + k]).any(),
                          'samples repeat the first samples', start=start,
                          n=n, length=k)
        ctx.event('no_repetition')
    # samples are independent: successive pairs follow the product
    if pmf.size <= 4:
        idx = np.ravel_multi_index(s.T.astype(int), pmf.shape)
        pair = np.array([idx[0::2][:n // 2], idx[1::2][:n // 2]]).T
        pg.dist_test(ctx, pair, np.multiply.outer(pmf.ravel(), pmf.ravel()),
                     'successive samples')
        ctx.event('pairs')
    ctx.event('samples', n)


def packing(ctx):
    povm, state, mode, pmf = setting(ctx)
    kw = options(ctx, povm, mode)
    n = ctx.randint(1, 12)
    seed = ctx.randint(0, 2 ** 31 - 1)
    s = povm.sample(np.random.RandomState(seed), state, n, **kw)
    wellformed(ctx, s, povm, n, 'sample')
    for pack in (True, np.uint32, np.int64):
        p = povm.sample(np.random.RandomState(seed), state, n, pack=pack,
                        **kw)
        ref = np.ravel_multi_index(s.T.astype(int), povm.nsoutdims)
        ctx.check(p.shape == (n,) and (p == ref).all(),
                  'packed samples differ from unpacked samples', pack=pack)
        if pack is not True:
            ctx.check(p.dtype == pack, 'packed samples: dtype')
        ctx.check((povm.unpack_samples(p) == s).all(), 'unpack_samples')
    ctx.raises(ValueError, lambda: povm.sample(np.random.RandomState(0),
                                               state, 1, method='none'),
               'unknown method')
    ctx.event('packing')


def povm_list(ctx):
    povm, state, mode, pmf = setting(ctx)
    others = [pg.rand_povm(ctx, hdims=povm.hdims,
                           outdims=pg.rand_outdims(ctx, len(povm), top=2))
              for _ in range(2)]
    lst = mpp.MPPovmList([povm] + others)
    kw = options(ctx, povm, mode)
    kw.setdefault('method', 'cond')
    seed = ctx.randint(0, 2 ** 31 - 1)
    n = 40 if kw['method'] == 'cond' else 400
    rng = np.random.RandomState(seed)
    res = list(lst.sample(rng, state, n, **kw))
    ctx.check(len(res) == 3, 'MPPovmList.sample: number')
    # rho is not returned by setting; use probabilities of the measurement
    for s, m in zip(res, lst.mpps):
        wellformed(ctx, s, m, n, 'MPPovmList.sample')
        q = m.pmf_as_array(state, mode)
        pg.dist_test(ctx, s, q, 'MPPovmList.sample')
    packed = list(lst.sample(np.random.RandomState(seed), state, n,
                             pack=True, **kw))
    for s, p, m in zip(res, packed, lst.mpps):
        ctx.check((m.unpack_samples(p) == s).all(),
                  'MPPovmList.sample: packed')
    pack = ctx.pick([np.uint32, np.int64, np.int32])
    for p, m, t in zip(packed, lst.mpps, lst.sample(
            np.random.RandomState(seed), state, n, pack=pack, **kw)):
        ctx.check(t.dtype == pack and (t == p).all(),
                  'MPPovmList.sample: packed with dtype', dtype=t.dtype)
    ctx.event('list')


def degenerate(ctx):
    """Deterministic and nearly deterministic distributions"""
    n = ctx.randint(1, 4)
    d = ctx.randint(2, 3) if n < 4 else 2
    ix = [ctx.randint(0, d - 1) for _ in range(n)]
    povm = mpp.MPPovm.from_local_povm(mpp.z_povm(d), n)
    tilt = ctx.pick([0, 0, 1e-7, 1e-4])
    lts = []
    for i in ix:
        v = np.full(d, tilt, complex)
        v[i] = 1
        lts.append((v / np.linalg.norm(v))[None, :, None])
    state = gen.build(ctx, lts)
    kw = options(ctx, povm, 'mps')
    s = povm.sample(np.random.RandomState(ctx.randint(0, 10 ** 6)), state,
                    20, **kw)
    wellformed(ctx, s, povm, 20, 'sample')
    off = (s != np.array(ix)).any(1).sum()
    ctx.check(off <= (1 if tilt else 0), 'sample of a basis state',
              deviations=int(off), tilt=tilt)
    ctx.event('deterministic')
    ctx.nontrivial = n > 1
    ctx.signature(n, d, ix, tilt)


SCENARIOS = [('scripted', scripted), ('scripted2', scripted),
             ('enumerate', enumerate_all), ('statistics', statistics),
             ('packing', packing), ('povm_list', povm_list),
             ('degenerate', degenerate), ('several', several), ('long_chain', long_chain)]
REQUIRED = ['method:cond', 'method:direct', 'distribution_tests', 'packing',
            'list', 'deterministic', 'samples', 'refusals', 'mode:mps',
            'mode:pmps', 'mode:mpdo', 'povm:mixture', 'povm:adaptive',
            'state:sparse', 'long_scripted', 'scripted_several']
