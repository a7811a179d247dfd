# encoding: utf-8
"""Trace monitor for the variational eigensolvers (C15, C16)

`Solver` is passed as `eigs` callback: it solves the local problems exactly
and records what it is asked.  Each local operator has to be a compression of
the full operator to a subspace (isometry), hence Hermitian with its spectrum
inside the spectrum of the full operator.
"""
from __future__ import division

import numpy as np

import mpnum as mp

from . import dense as dn, gen


def as_matrix(op):
    if isinstance(op, np.ndarray):
        return op
    if hasattr(op, 'toarray'):
        return op.toarray()
    return op.dot(np.eye(op.shape[1]))       # LinearOperator


class Solver(object):
    def __init__(self, ctx, which, lo, hi, flat):
        self.ctx, self.which, self.flat = ctx, which, flat
        self.lo, self.hi = lo, hi
        self.vals, self.gaps, self.sizes = [], [], []

    def __call__(self, op, v0=None, **kw):
        ctx = self.ctx
        m = np.array(as_matrix(op))
        size = max(abs(self.lo), abs(self.hi), 1e-300)
        ctx.check(m.ndim == 2 and m.shape[0] == m.shape[1],
                  'local operator is not a square matrix', shape=m.shape)
        if v0 is not None:
            ctx.check(np.asarray(v0).shape == (m.shape[0],),
                      'local start vector does not fit')
        ctx.check(abs(m - m.conj().T).max() <= 1e-8 * size,
                  'local operator is not Hermitian')
        val, vec = np.linalg.eigh((m + m.conj().T) / 2)
        ctx.check(val[0] >= self.lo - 1e-8 * size and
                  val[-1] <= self.hi + 1e-8 * size,
                  'spectrum of local operator not inside the spectrum',
                  local=(val[0], val[-1]), full=(self.lo, self.hi))
        key = {'SA': val, 'LA': -val, 'LM': -abs(val)}[self.which]
        order = np.argsort(key)
        if len(order) > 1:
            self.gaps.append(float(key[order[1]] - key[order[0]]) / size)
        pos = order[0]
        self.vals.append(float(val[pos]))
        self.sizes.append(m.shape[0])
        ctx.event('local_problems')
        if self.flat:
            return val[pos:pos + 1], vec[:, pos]
        return val[pos:pos + 1], vec[:, pos:pos + 1]


def extreme(val, which):
    return {'SA': val[0], 'LA': val[-1],
            'LM': val[np.argmax(abs(val))]}[which]


def dims(ctx, n, top=3, limit=400):
    while True:
        d = [ctx.randint(2, top) for _ in range(n)]
        if n > 2 and ctx.chance(.1):
            d[ctx.randint(1, n - 2)] = 1
        if np.prod(d) <= limit:
            return d


def rand_scale(ctx):
    if ctx.chance(.8):
        return 1.
    ctx.event('scaled')
    return 10. ** ctx.randint(-14, 8)


def hermitian_mpo(ctx, d, max_rank=3, dtype=None, scale=1.):
    """Random Hermitian MPO (without mpnum arithmetic): A + A^dagger"""
    dtype = dtype or ctx.pick(['f8', 'c16', 'c16'])
    n = len(d)
    lts = gen.rand_tensors(ctx, [(x, x) for x in d], None, dtype, wild=False,
                           max_rank=max_rank)
    adj = [t.conj().transpose(0, 2, 1, 3) for t in lts]
    out = []
    for k, (a, b) in enumerate(zip(lts, adj)):
        l = 1 if k == 0 else a.shape[0] * 2
        r = 1 if k == n - 1 else a.shape[-1] * 2
        t = np.zeros((l, d[k], d[k], r), a.dtype)
        if n == 1:
            t = a + b
        elif k == 0:
            t[..., :a.shape[-1]] = a
            t[..., a.shape[-1]:] = b
        elif k == n - 1:
            t[:a.shape[0]] = a
            t[a.shape[0]:] = b
        else:
            t[:a.shape[0], ..., :a.shape[-1]] = a
            t[a.shape[0]:, ..., a.shape[-1]:] = b
        out.append(t)
    if scale != 1.:
        out[0] = out[0] * scale
    return gen.build(ctx, out)


def full_ranks(d):
    return [int(min(np.prod(d[:k], dtype=int), np.prod(d[k:], dtype=int)))
            for k in range(1, len(d))]


def start_vector(ctx, d, full):
    ranks = full_ranks(d)
    if not full:
        ranks = [min(r, ctx.randint(2, 4)) for r in ranks]
    pad = (1,) + tuple(ranks) + (1,)
    if any(x == (1, 1) for x in zip(pad[:-1], pad[1:])):
        return None
    lts = gen.rand_tensors(ctx, [(x,) for x in d], ranks,
                           ctx.pick(['f8', 'c16', 'c16']), wild=False)
    if ctx.chance(.3):
        lts[0] = lts[0] * 7.0              # need not be normalized
    return gen.build(ctx, lts)


def vector(mps):
    return dn.dense(dn.tens(mps)).reshape(-1)


def judge(ctx, H, val, vec, d, sol, full, var_sites, start, msg):
    """Everything promised about (val, vec) for the dense operator H"""
    defect = dn.chain_defect(vec)
    ctx.check(defect is None, msg + ': malformed', defect=defect)
    ctx.check(dn.shape_of(dn.tens(vec)) == tuple((x,) for x in d),
              msg + ': legs of the eigenvector')
    defect = dn.claim_defect(vec)
    ctx.check(defect is None, msg + ': ' + str(defect))
    spec = np.linalg.eigvalsh(H)
    size = float(abs(spec).max())
    val = np.asarray(val)
    ctx.check(val.size == 1 and val.ndim == 0, msg + ': value not a scalar')
    ctx.check(abs(val.imag) <= 1e-9 * size, msg + ': complex value')
    val = float(val.real)
    ctx.check(spec[0] - 1e-8 * size <= val <= spec[-1] + 1e-8 * size,
              msg + ': value outside of the spectrum', value=val,
              spectrum=(spec[0], spec[-1]))
    v = vector(vec)
    n2 = float(np.vdot(v, v).real)
    ray = float(np.vdot(v, H.dot(v)).real)
    if var_sites == 1 or full:
        ctx.close(n2, 1.0, msg + ': not normalized', rtol=1e-8)
        ctx.close(ray, val, msg + ': value is not the expectation value',
                  scale=size, rtol=1e-8)
        if start is not None:
            s = vector(start)
            ini = float(np.vdot(s, H.dot(s)).real / np.vdot(s, s).real)
            better = {'SA': val <= ini + 1e-8 * size,
                      'LA': val >= ini - 1e-8 * size,
                      'LM': abs(val) >= abs(ini) - 1e-8 * size}[sol.which]
            ctx.check(better, msg + ': worse than the start vector',
                      value=val, start=ini)
        step = {'SA': np.diff(sol.vals), 'LA': -np.diff(sol.vals),
                'LM': -np.diff(abs(np.array(sol.vals)))}[sol.which]
        ctx.check((step <= 1e-8 * size).all(), msg + ': estimates got worse '
                  'during the iteration', values=sol.vals)
    else:
        ctx.check(n2 <= 1 + 1e-8, msg + ': norm above one', norm2=n2)
        eps = np.sqrt(max(0.0, 1 - n2) + 1e-15)
        ctx.check(abs(ray - val) <= 3 * size * (eps + 1e-8),
                  msg + ': value is not the expectation value',
                  value=val, expectation=ray, truncation=eps)
    if full:
        want = extreme(spec, sol.which)
        if sol.which == 'LM':
            ctx.close(abs(val), abs(want), msg + ': not the extreme '
                      'eigenvalue', scale=size, rtol=1e-8)
        else:
            ctx.close(val, want, msg + ': not the extreme eigenvalue',
                      scale=size, rtol=1e-8)
        ctx.close(H.dot(v), val * v, msg + ': not an eigenvector', scale=size,
                  rtol=1e-6)
        ctx.event('exact')
    else:
        ctx.event('variational')
    ctx.event('which:' + sol.which)
    ctx.event('var_sites:{}'.format(var_sites))


def bad_solvers(ctx, call):
    """`call(eigs)` has to refuse local solvers with ambiguous results"""
    def values(op, v0=None):
        return np.zeros(2), np.asarray(v0).ravel()

    def vectors(op, v0=None):
        v0 = np.asarray(v0).ravel()
        return np.zeros(2), np.array([v0, v0]).T

    def cube(op, v0=None):
        return np.zeros(1), np.asarray(v0).reshape((-1, 1, 1))
    for eigs in (values, vectors, cube):
        ctx.raises(ValueError, lambda: call(eigs),
                   'local solver with an ambiguous result: ' + eigs.__name__)


def check_residual(ctx, H, val, vec, name):
    v = vector(vec)
    val = complex(val).real
    size = abs(val)
    ctx.close(np.linalg.norm(v), 1., name + ', default solver: norm',
              rtol=1e-6)
    res = np.linalg.norm(H.dot(v) - val * v)
    ctx.check(res <= 2e-5 * size,
              name + ', default solver: not an eigenvector', residual=res,
              size=size, val=val)
    ctx.event('residual')
