# encoding: utf-8
"""C31: results depend on the arguments only"""
from __future__ import division

import os
import pickle
import sys
import threading
import time
import traceback
import warnings

import numpy as np

from .. import families as fam, gen
from ..util import isolated

PROP = 'C31'
RULE = ('a history consists of computations from families covering all parts '
        'of the package, several with operands of equal shapes and different '
        'values. The reference of every computation is taken in a process of '
        'its own which has not used the package before; then the history is '
        'run in one process: in random order with repetitions, with the '
        'caller overwriting arrays it received, concurrently in several '
        'threads with short switch intervals, with generators advanced in '
        'turns. Non-trivial: two computations of the same family')
QUICK, THOROUGH = 400, 5200
SEEDS, SIZES = 3, 3


def plain(res):
    return [np.array(x) for x in res]


def compute(key):
    k, seed, size = key
    return fam.FAMILIES[k](np.random.RandomState(1000 * seed + k), size)


def label(key):
    return '{}(seed {}, size {})'.format(fam.FAMILIES[key[0]].__name__,
                                         key[1], key[2])


REFERENCE = {}


def reference(ctx, key):
    """Result in a process which has done nothing else"""
    if key not in REFERENCE:
        # Workers of one check run share references (see core.run_check)
        path = os.path.abspath('reference_{}_{}_{}'.format(*key))
        shared = os.path.basename(os.getcwd()).startswith('mpnum_mon_')
        if shared and os.path.exists(path):
            with open(path, 'rb') as f:
                REFERENCE[key] = pickle.load(f)
            return REFERENCE[key]
        status, res = isolated(lambda: plain(compute(key)))
        if status != 'ok':
            ctx.fail('computation failed', family=label(key), error=res)
        REFERENCE[key] = res
        ctx.event('fresh_processes')
        if shared:
            tmp = '{}.{}'.format(path, os.getpid())
            with open(tmp, 'wb') as f:
                pickle.dump(res, f, 2)
            os.rename(tmp, path)
    return REFERENCE[key]


def same(ctx, got, key, msg):
    ref = reference(ctx, key)
    ctx.check(len(got) == len(ref), msg + ': number of results',
              family=label(key))
    loose = fam.FAMILIES[key[0]].__name__ in ('eigensolvers', 'compressions')
    for i, (x, y) in enumerate(zip(got, ref)):
        ok = x.shape == y.shape and x.dtype == y.dtype
        if ok and x.dtype.kind in 'fc':
            nan = np.isnan(y)
            ok = bool((np.isnan(x) == nan).all())
            if ok:
                d, m = np.abs(x - y)[~nan], np.abs(y)[~nan]
                ok = d.size == 0 or bool(
                    d.max() <= (1e-6 if loose else 1e-9) * max(1., m.max()))
        elif ok:
            ok = bool((x == y).all())
        ctx.check(ok, msg + ': result differs from the one in a fresh '
                  'process', family=label(key), result=i)
    ctx.event('results_compared', len(got))


def pick_history(ctx, kinds):
    keys = []
    for k in ctx.rng.permutation(len(fam.FAMILIES))[:kinds]:
        size = ctx.randint(0, SIZES - 1)
        for seed in ctx.rng.permutation(SEEDS)[:ctx.randint(2, 3)]:
            # mostly the same sizes: operands of equal shapes
            s = size if ctx.chance(.8) else ctx.randint(0, SIZES - 1)
            keys.append((int(k), int(seed), s))
    ctx.nontrivial = True
    ctx.signature(sorted(keys))
    return keys


def global_state():
    st = np.random.get_state()
    return {'numpy error handling': dict(np.geterr()),
            'print options': repr(sorted(np.get_printoptions().items())),
            'global random state': (st[1].tobytes(), st[2:]),
            'working directory': os.getcwd(),
            'environment': dict(os.environ),
            'recursion limit': sys.getrecursionlimit(),
            'warning filters': len(warnings.filters),
            'threads': threading.active_count()}


def spoil(arrays):
    """The caller does what it wants with arrays it has received"""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.ndim:
            a[...] = 77


def run_sequence(keys, overwrite):
    before = global_state()
    out = []
    for key in keys:
        res = compute(key)
        out.append(plain(res))
        if overwrite:
            spoil(res)
    after = global_state()
    return out, [k for k in before if before[k] != after[k]]


def sequence(ctx, overwrite=False):
    keys = pick_history(ctx, ctx.randint(2, 4))
    for key in keys:
        reference(ctx, key)
    keys = keys + keys
    keys = [keys[i] for i in ctx.rng.permutation(len(keys))]
    ctx.note(history=[label(k) for k in keys])
    status, res = isolated(run_sequence, keys, overwrite)
    ctx.check(status == 'ok', 'computation fails after others', error=res)
    out, changed = res
    for key, got in zip(keys, out):
        same(ctx, got, key, 'history')
    ctx.check(not changed, 'global state has been changed', what=changed)
    ctx.event('histories')
    if overwrite:
        ctx.event('overwritten')


def run_threads(plans, interval):
    sys.setswitchinterval(interval)
    out = [[] for _ in plans]
    errors = []
    go = threading.Event()

    def work(plan, res):
        go.wait()
        try:
            for key in plan:
                res.append(plain(compute(key)))
        except BaseException:
            errors.append(traceback.format_exc()[-2500:])

    threads = [threading.Thread(target=work, args=p) for p in zip(plans, out)]
    for t in threads:
        t.start()
    go.set()
    for t in threads:
        t.join()
    if errors:
        raise RuntimeError(errors[0])
    return out


def concurrent(ctx):
    """Threads which work on objects of their own"""
    keys = pick_history(ctx, ctx.randint(1, 3))
    for key in keys:
        reference(ctx, key)
    plans = []
    for _ in range(ctx.randint(2, 5)):
        plans.append([keys[i] for i in ctx.rng.permutation(len(keys))])
    interval = ctx.pick([1e-6, 1e-5, 1e-4])
    ctx.note(threads=[[label(k) for k in p] for p in plans])
    status, res = isolated(run_threads, plans, interval)
    ctx.check(status == 'ok', 'computation fails in threads', error=res)
    for plan, out in zip(plans, res):
        ctx.check(len(plan) == len(out), 'thread did not finish')
        for key, got in zip(plan, out):
            same(ctx, got, key, 'threads')
    ctx.event('threads', len(plans))


# -- generators ---------------------------------------------------------
def gen_values(kind, seed, size):
    """Generator of dense values which uses one of the package's iterators"""
    import mpnum as mp
    import mpnum.povm as mpp
    from mpnum import mpsmpo
    rng = np.random.RandomState(100 * seed + kind)
    n = (2, 3, 4)[size]
    if kind == 0:
        it = fam.mpa(rng, ((3,),) * n, 3).singularvals()
    elif kind == 1:
        it = fam.mpa(rng, ((2, 2),) * n, 2).axis_iter()
    elif kind == 2:
        it = mpsmpo.reductions_mpo(fam.mpa(rng, ((2, 2),) * n, 2), 1)
    elif kind == 3:
        it = (mpsmpo.pmps_to_mpo(x) for x in mpsmpo.reductions_pmps(
            fam.mpa(rng, ((2, 2),) * n, 2), 1))
    elif kind == 4:
        it = (mpsmpo.pmps_to_mpo(x) for x in mpsmpo.reductions_mps_as_pmps(
            fam.mpa(rng, ((2,),) * n, 2), 1))
    elif kind == 5:
        it = mpsmpo.reductions_mps_as_mpo(fam.mpa(rng, ((2,),) * n, 2), 1)
    elif kind == 6:
        v = fam.mpa(rng, ((2,),) * n, 2)
        v /= fam.dn.norm(fam.dn.tens(v))
        lst = mpp.pauli_mpps(1, 2).repeat(n)
        it = lst.sample(np.random.RandomState(seed), v, 5, 'cond')
    elif kind == 7:
        v = fam.mpa(rng, ((2,),) * n, 2)
        v /= fam.dn.norm(fam.dn.tens(v))
        it = mpp.pauli_mpps(1, 2).repeat(n).pmf(v, 'mps')
    elif kind == 8:
        v = fam.mpa(rng, ((2,),) * n, 2)
        v /= fam.dn.norm(fam.dn.tens(v))
        it = mpp.pauli_mpp(1, 2).block_pmfs_as_array(v, 'mps')
    else:
        it = mp.regular_slices(3 + n, 3, 1)
        it = (np.array([s.start, s.stop]) for s in it)
    for x in it:
        yield fam.val(x)


KINDS = 10


def run_turns(keys, turns):
    its = [gen_values(*k) for k in keys]
    out = [[] for _ in keys]
    done = [False] * len(keys)
    for i in turns:
        if not done[i]:
            try:
                out[i].append(next(its[i]))
            except StopIteration:
                done[i] = True
    for i, it in enumerate(its):
        out[i] += list(it)
    return out


def generators(ctx):
    kinds = ctx.rng.permutation(KINDS)[:ctx.randint(1, 3)]
    size = ctx.randint(0, 2)
    keys = [(int(k), int(s), size) for k in kinds
            for s in ctx.rng.permutation(SEEDS)[:2]]
    turns = [ctx.randint(0, len(keys) - 1) for _ in range(40)]
    refs = []
    for k in keys:
        name = ('generator',) + k
        if name not in REFERENCE:
            status, res = isolated(lambda: list(gen_values(*k)))
            ctx.check(status == 'ok', 'generator failed', error=res)
            REFERENCE[name] = res
        refs.append(REFERENCE[name])
    status, res = isolated(run_turns, keys, turns)
    ctx.check(status == 'ok', 'generators fail if advanced in turns',
              error=res, keys=keys)
    for k, got, ref in zip(keys, res, refs):
        ctx.check(len(got) == len(ref), 'generator: number of elements',
                  key=k)
        for x, y in zip(got, ref):
            ctx.close(x, y, 'generator advanced in turns', scale=1.,
                      rtol=1e-9, key=k)
    ctx.signature(keys, turns)
    ctx.nontrivial = len(keys) > 1
    ctx.event('generators', len(keys))


def shared(ctx):
    """Several threads read the same objects"""
    seed, n = ctx.randint(0, 10 ** 6), ctx.randint(2, 4)
    workers = ctx.randint(2, 5)

    def compute_all():
        import mpnum as mp
        rng = np.random.RandomState(seed)
        a, b = (fam.mpa(rng, ((2, 2),) * n, 2) for _ in range(2))
        v = fam.mpa(rng, ((2,),) * n, 2)
        v /= fam.dn.norm(fam.dn.tens(v))
        m = fam.measurement(rng, n)
        tasks = [lambda: mp.dot(a, b), lambda: a + b, lambda: mp.inner(a, b),
                 lambda: mp.sandwich(a, v), lambda: a.T, lambda: a.to_array(),
                 lambda: a.adj(), lambda: mp.dot(b, v), lambda: 2 * a,
                 lambda: mp.sumup([a, b]), lambda: mp.trace(a),
                 lambda: a.compression('svd', rank=2)[0],
                 lambda: m.pmf_as_array(v, 'mps'), lambda: m.pmf(v, 'mps'),
                 lambda: m.sample(np.random.RandomState(3), v, 4, mode='mps')]
        return tasks

    def alone():
        return [fam.val(t()) for t in compute_all()]

    def together():
        sys.setswitchinterval(1e-6)
        tasks = compute_all()
        out, errors = [], []

        def work(k):
            try:
                order = np.random.RandomState(k).permutation(len(tasks))
                out.append([(int(i), fam.val(tasks[i]())) for i in order])
            except BaseException:
                errors.append(traceback.format_exc()[-2500:])

        ts = [threading.Thread(target=work, args=(k,))
              for k in range(workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise RuntimeError(errors[0])
        return out

    status, ref = isolated(alone)
    ctx.check(status == 'ok', 'computation failed', error=ref)
    status, res = isolated(together)
    ctx.check(status == 'ok', 'threads which share operands fail', error=res)
    for one in res:
        for i, x in one:
            ctx.close(x, ref[i], 'threads which share operands', scale=1.,
                      rtol=1e-9, task=i)
    ctx.signature('shared', seed, n, workers)
    ctx.nontrivial = True
    ctx.event('shared', workers)


# -- the same objects, modified between two queries ----------------------
def queries(a, b, v, p, m, lst):
    """Many functions of the same objects, as (name, function)"""
    import mpnum as mp
    from mpnum import mpsmpo
    n = len(v)
    mix = mpsmpo.pmps_to_mpo
    return [
        ('inner', lambda: mp.inner(a, b)), ('norm', lambda: mp.norm(a)),
        ('normdist', lambda: mp.normdist(a, b)),
        ('to_array', lambda: a.to_array()),
        ('to_array_global', lambda: v.to_array_global()),
        ('sum', lambda: a.sum()), ('trace', lambda: mp.trace(b)),
        ('partialtrace', lambda: mp.partialtrace(b, [(0, 1)] + [None] *
                                                 (n - 1))),
        ('add', lambda: a + b), ('sumup', lambda: mp.sumup([b, a])),
        ('dot', lambda: mp.dot(a, b)), ('dot mps', lambda: mp.dot(a, v)),
        ('sandwich', lambda: mp.sandwich(a, v)),
        ('adj', lambda: a.adj()), ('T', lambda: b.T),
        ('conj', lambda: v.conj()), ('copy', lambda: a.copy()),
        ('group', lambda: a.group_sites(n)), ('get', lambda: a.get((0,) * n)),
        ('reverse', lambda: v.reverse()), ('ravel', lambda: a.ravel()),
        ('compression', lambda: a.compression('svd', relerr=1e-9)[0]),
        ('singular values', lambda: np.concatenate(
            list(v.copy().singularvals()) or [np.zeros(0)])),
        ('local_sum', lambda: mp.local_sum([a, b])),
        ('reductions', lambda: mp.chain(
            list(mpsmpo.reductions_mpo(a, 1)))),
        ('reductions mps', lambda: mp.chain(
            list(mpsmpo.reductions_mps_as_mpo(v, 1)))),
        ('reductions pmps', lambda: mp.chain(
            [mix(x) for x in mpsmpo.reductions_pmps(p, 1)])),
        ('mps_to_mpo', lambda: mpsmpo.mps_to_mpo(v)),
        ('pmps_to_mpo', lambda: mix(p)),
        ('dm_to_array', lambda: mpsmpo.pmps_dm_to_array(p)),
        ('pmf', lambda: m.pmf(v, 'mps')),
        ('pmf_as_array', lambda: m.pmf_as_array(v, 'mps', eps=np.inf)),
        ('pmf_as_array pmps', lambda: m.pmf_as_array(p, 'pmps', eps=np.inf)),
        ('pmf_as_array mpdo', lambda: m.pmf_as_array(a, 'mpdo', eps=np.inf)),
        ('probability_map', lambda: m.probability_map),
        ('elements', lambda: np.array([fam.val(x) for x in m.elements])),
        ('povm embed', lambda: m.embed(n + 1, 0, 2)),
        ('list pmf', lambda: mp.chain(list(lst.pmf(v, 'mps')))),
        ('dtype', lambda: np.array([str(x.dtype) for x in (a, b, v, p)])),
        ('ranks', lambda: np.array([x.ranks for x in (a, b, v, p)])),
        ('size', lambda: np.array([a.size, b.size, v.size, p.size])),
    ]


def modified(ctx):
    import mpnum as mp
    import mpnum.povm as mpp
    rng, n = ctx.rng, ctx.randint(1, 4)

    def scaled(shape, r):
        return mp.MPArray(fam.chain(rng, shape, r, ctx.chance(.6)))

    a, b = (scaled(((2, 2),) * n, 2) for _ in range(2))
    v, p = scaled(((2,),) * n, 2), scaled(((2, 2),) * n, 2)
    m, k = fam.measurement(rng, n), fam.measurement(rng, n)
    lst = mpp.MPPovmList([m, k])
    objs = [a, b, v, p]
    changed = []
    for step in range(ctx.randint(2, 4)):
        fresh = [mp.MPArray([np.array(t) for t in fam.dn.tens(x)])
                 for x in objs]
        fm, fk = (mpp.MPPovm([np.array(t) for t in fam.dn.tens(x)])
                  for x in (m, k))
        ref = queries(*(fresh + [fm, mpp.MPPovmList([fm, fk])]))
        now = queries(*(objs + [m, lst]))
        for i in rng.permutation(len(now))[:ctx.randint(8, len(now))]:
            name, fun = now[i]
            x, y = fun(), ref[i][1]()
            x, y = fam.val(x), fam.val(y)
            if y.dtype.kind in 'fc' and not np.isfinite(y).all():
                continue  # not a state
            if x.dtype.kind in 'fc':
                ctx.close(x, y, 'objects changed in place since the last '
                          'query: ' + name, scale=1., rtol=1e-7,
                          changes=changed)
            else:
                ctx.check(x.shape == y.shape and bool((x == y).all()),
                          'objects changed in place since the last query: ' +
                          name, got=x, expected=y, changes=changed)
            if x.ndim and x.flags.writeable and x.dtype.kind in 'fc':
                x[...] = 55
        for _ in range(ctx.randint(1, 3)):
            if ctx.chance(.2):
                i = ctx.randint(0, n - 1)
                new = fam.measurement(rng, 1)
                m.lt[i] = np.array(new.lt[0])
                changed.append(('povm', i))
            else:
                i = ctx.randint(0, 3)
                changed.append((i, gen.change_in_place(ctx, objs[i])))
        ctx.event('modified')
    ctx.signature('modified', n, changed)
    ctx.nontrivial = True


# -- objects which the caller received and modifies ----------------------
def makers(n, d, seed):
    """(name, function) for objects made from plain parameters"""
    import mpnum as mp
    import mpnum.povm as mpp
    from mpnum import factory
    from mpnum.utils import physics
    rs = lambda: np.random.RandomState(seed)
    gamma = .1 * (seed % 7)
    return [
        ('eye', lambda: [mp.eye(n, d)]),
        ('zero', lambda: [mp.zero(n, d, 2)]),
        ('diagonal_mpa', lambda: [mp.diagonal_mpa(np.arange(1., d + 1), n)]),
        ('cXY_local_terms', lambda: list(
            physics.cXY_local_terms(n + 2, gamma))),
        ('mpo_cH', lambda: [physics.mpo_cH(
            physics.cXY_local_terms(n + 2, gamma))]),
        ('sparse_cH', lambda: [physics.sparse_cH(physics.cXY_local_terms(
            n + 2, gamma)).toarray()]),
        ('pauli_mpp', lambda: [mpp.pauli_mpp(n, d)]),
        ('pauli_mpps', lambda: list(mpp.pauli_mpps(n, d).mpps)),
        ('block', lambda: list(mpp.pauli_mpp(1, d).block(n).mpps)),
        ('list block', lambda: list(mpp.pauli_mpps(1, d).block(n).mpps)),
        ('list repeat', lambda: list(mpp.pauli_mpps(1, d).repeat(n).mpps)),
        ('repeat', lambda: [mpp.pauli_mpp(1, d).repeat(n)]),
        ('embed', lambda: [mpp.pauli_mpp(1, d).embed(n, n - 1, d)]),
        ('MPPovm.eye', lambda: [mpp.MPPovm.eye([d] * n)]),
        ('from_local_povm', lambda: [mpp.MPPovm.from_local_povm(
            mpp.x_povm(d), n)]),
        ('povm maps', lambda: [mpp.pauli_povm(d).probability_map,
                               mpp.pauli_povm(d).linear_inversion_map,
                               mpp.x_povm(d).probability_map,
                               mpp.y_povm(d).probability_map,
                               mpp.z_povm(d).linear_inversion_map]),
        ('povm elements', lambda: [x for f in (
            mpp.pauli_povm, mpp.x_povm, mpp.y_povm, mpp.z_povm)
            for x in f(d)]),
        ('mppovm map', lambda: [mpp.pauli_mpp(n, d).probability_map]),
        ('random', lambda: [mp.random_mpa(n, d, 2, randstate=rs()),
                            mp.random_mps(n, d, 2, randstate=rs()),
                            mp.random_mpo(n, d, 2, randstate=rs()),
                            mp.random_mpdo(n, d, 2, randstate=rs())]),
        ('random_local_ham', lambda: [factory.random_local_ham(
            n + 1, d, randstate=rs())]),
        ('identity embedding', lambda: [mp.embed_slice(
            n + 1, slice(0, 1), mp.eye(1, d)), mp.inject(mp.eye(2, d), 1, n)]),
    ]


def received(ctx):
    """The caller modifies objects it received and asks again"""
    n, d, seed = ctx.randint(1, 3), ctx.randint(2, 3), ctx.randint(0, 999)
    fs = makers(n, d, seed)
    fs = [fs[i] for i in ctx.rng.permutation(len(fs))[:ctx.randint(3, 8)]]
    val = fam.val
    refs = [[np.array(val(x)) for x in f()] for _, f in fs]
    import mpnum as mp
    for turn in range(2):
        for (name, f), ref in zip(fs, refs):
            objs = f()
            ctx.check(len(objs) == len(ref), 'number of objects', name=name)
            for x, y in zip(objs, ref):
                ctx.close(val(x), y, 'result after the caller modified an '
                          'earlier result', scale=1., rtol=1e-9, name=name,
                          parameters=(n, d, seed))
            for x in objs:
                if isinstance(x, mp.MPArray):
                    x *= ctx.pick([2., -3., 1j])
                    k = ctx.randint(0, len(x) - 1)
                    x.lt[k] = x.lt[k] + 1
                elif x.flags.writeable:
                    x[...] = 66
            ctx.event('received')
    ctx.signature('received', n, d, seed, [x for x, _ in fs])
    ctx.nontrivial = True


# -- nearly equal parameters ---------------------------------------------
def with_parameter(kind, x, seed):
    import mpnum as mp
    import mpnum.povm as mpp
    import mpnum.povm.localpovm as localpovm
    from mpnum import special
    from mpnum.utils import physics
    rng = np.random.RandomState(seed)
    n = 3
    a, b = (fam.mpa(rng, ((2,),) * n, 3) for _ in range(2))
    if kind == 0:
        return list(physics.cXY_local_terms(3, x))[:1]
    if kind == 1:
        return [physics.cXY_E0(6, x), physics.cXY_E0(10, x)]
    if kind == 2:
        return [mp.sumup([a, b], weights=[x, 1.]), x * a, a / x]
    if kind == 3:
        p = localpovm.concat((mpp.x_povm(2), mpp.z_povm(2)), (x, 1 - x))
        return [np.array(list(p)), p.probability_map, p.linear_inversion_map]
    if kind == 4:
        vs = [fam.mpa(rng, ((2,),) * n, 1) for _ in range(2)]
        return [special.sumup(vs, 2, weights=[x, 1.])]
    if kind == 5:
        v = mp.MPArray.from_kron([np.array([np.cos(x), np.sin(x)])] * n)
        return [mpp.pauli_mpp(n, 2).pmf_as_array(v, 'mps'),
                mpp.pauli_mpp(n, 2).pmf(v, 'mps'),
                mpp.pauli_mpp(n, 2).lfun(np.ones(1), [
                    lambda out: out.sum(1)], v, 'mps')[0]]
    if kind == 6:
        v = mp.MPArray.from_kron([np.array([np.cos(x), np.sin(x)])] * n)
        return [mp.sandwich(mp.eye(n, 2), v + a), mp.inner(v, a),
                mp.norm(v + a), mp.normdist(v, a), v.get((0,) * n)]
    return [mp.diagonal_mpa(np.array([x, 1., 2.]), 2)]


def near(ctx):
    kind, seed = ctx.randint(0, 7), ctx.randint(0, 99)
    x = ctx.rng.uniform(.2, .8)
    if ctx.chance(.5):
        x = round(x, 2)
    xs = [x, x * (1 + ctx.pick([1e-3, 1e-5, 1e-7])), x, -x if kind in (
        0, 1, 2, 4, 6) else x / 2]
    xs = [xs[i] for i in ctx.rng.permutation(4)]

    def calc(values):
        return [[np.array(fam.val(y)) for y in
                 with_parameter(kind, v, seed)] for v in values]

    refs = []
    for v in xs:
        status, res = isolated(calc, [v])
        ctx.check(status == 'ok', 'computation failed', error=res)
        refs.append(res[0])
    status, res = isolated(calc, xs)
    ctx.check(status == 'ok', 'computation failed', error=res)
    for got, ref, v in zip(res, refs, xs):
        for g, r in zip(got, ref):
            ctx.close(g, r, 'nearly equal parameters', scale=1e-3, rtol=1e-11,
                      values=xs, value=v, kind=kind)
    ctx.signature('near', kind, seed, xs)
    ctx.nontrivial = True
    ctx.event('near')


SCENARIOS = [('sequence', sequence),
             ('overwriting', lambda ctx: sequence(ctx, True)),
             ('concurrent', concurrent), ('generators', generators),
             ('sequence2', sequence), ('shared', shared),
             ('modified', modified), ('received', received),
             ('modified2', modified), ('near', near)]
REQUIRED = ['results_compared', 'threads', 'generators', 'shared',
            'overwritten', 'fresh_processes', 'modified',
            'received', 'near']
