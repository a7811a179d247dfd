# encoding: utf-8
"""C13: storing and loading"""
from __future__ import division

import copy
import os
import pickle
import shutil
import tempfile

import h5py
import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from .. import dense as dn, gen
from ..util import expect_mpa, unchanged

PROP = 'C13'
RULE = ('MPAs of all dtypes, leg counts and canonical forms; one or several '
        'per file, in groups, overwriting older files, loaded by paths, open '
        'files and groups; non-trivial: more than one site and rank above one')
QUICK, THOROUGH = 840, 6720


def same(ctx, got, lts, form, msg):
    ctx.check(isinstance(got, mp.MPArray), msg + ': not an MPArray')
    now = dn.tens(got)
    ctx.check(len(now) == len(lts), msg + ': number of sites', got=len(now))
    for i, (a, b) in enumerate(zip(now, lts)):
        ctx.check(a.shape == b.shape and a.dtype == b.dtype,
                  msg + ': shape or dtype', site=i, got=(a.shape, a.dtype),
                  expected=(b.shape, b.dtype))
        ctx.check(np.array_equal(a, b) or (np.isnan(b).any() and
                                           a.tobytes() == b.tobytes()),
                  msg + ': values', site=i)
    ctx.check(tuple(got.canonical_form) == tuple(form),
              msg + ': canonical form', got=got.canonical_form, expected=form)
    ctx.event('loaded')


def usable(ctx, got, lts):
    """A loaded array can be used and modified like any other"""
    if len(lts) > 30:
        ref = dn.norm(lts)
        if ctx.chance(.5):
            got *= 3.0
            ref *= 3
        ctx.close(mp.norm(got), ref, 'norm after load (long)', scale=ref)
        ctx.event('used')
        return
    arr, shape = dn.dense(lts), dn.shape_of(lts)
    single = gen.rtol_of(lts)
    scale = 1e-2 * dn.bound(lts)
    what = ctx.randint(0, 3)
    if what == 0 and lts[0].dtype.kind != 'i':
        got.canonicalize()
        expect_mpa(ctx, got, arr, shape, 'canonicalized after load', scale,
                   single)
        defect = dn.claim_defect(got)
        ctx.check(defect is None, 'after load: ' + str(defect))
    elif what == 1:
        expect_mpa(ctx, got + got, 2 * arr, shape, 'sum after load', scale,
                   single)
    elif what == 2 and lts[0].dtype.kind != 'i':
        got *= 3.0
        expect_mpa(ctx, got, 3 * arr, shape, 'scaled after load', scale,
                   single)
    else:
        ctx.close(mp.norm(got.copy()) if lts[0].dtype.kind != 'i' else
                  np.linalg.norm(got.to_array()), np.linalg.norm(arr),
                  'norm after load', scale=scale, rtol=single)
    ctx.event('used')


def some_mpa(ctx, **kw):
    if 'sites' not in kw and ctx.chance(.03):
        n = ctx.randint(95, 130)              # three-digit site names
        a = gen.build(ctx, gen.rand_tensors(
            ctx, ((1,),) * (n - 8) + ((2,),) * 8,
            dtype=ctx.pick(('f8', 'c16')), wild=False, max_rank=2))
        ctx.event('very_long')
    elif ctx.chance(.1):
        kw['sites'] = ctx.randint(11, 14)     # two-digit site names
        a = gen.rand_mpa(ctx, max_legs=1, min_legs=1, max_dim=2,
                         max_size=20000, **kw)
        ctx.event('long')
    else:
        a = gen.rand_mpa(ctx, max_size=600, **kw)
    if ctx.chance(.3) and a.lt[0].dtype.kind != 'i':
        n = len(a)
        a.canonicalize(*ctx.pick([(None, None), (0, 1), (n - 1, n),
                                  (n // 2, n // 2 + 1)]))
    ctx.event('dtype:' + a.lt[0].dtype.char)
    return a


def with_dir(fun):
    def scenario(ctx):
        tmp = tempfile.mkdtemp(prefix='mpnum-c13-')
        try:
            fun(ctx, tmp)
        finally:
            shutil.rmtree(tmp)
    scenario.__name__ = fun.__name__
    return scenario


def by_path(ctx, tmp):
    a = some_mpa(ctx)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    path = os.path.join(tmp, 'a.h5')
    a.dump(path)
    unchanged(ctx, a, lts, 'dump', form)
    got = mp.MPArray.load(path)
    same(ctx, got, lts, form, 'load by path')
    # nothing left open: the file can be replaced and the loaded array lives on
    if ctx.chance(.5):
        b = some_mpa(ctx)
        blts, bform = dn.tens(b), tuple(b.canonical_form)
        b.dump(path)
        same(ctx, mp.MPArray.load(path), blts, bform, 'overwritten file')
        ctx.event('overwritten')
    else:
        os.unlink(path)
    same(ctx, got, lts, form, 'array loaded before')
    usable(ctx, got, lts)
    unchanged(ctx, a, lts, 'original after use of the loaded array', form)


def groups(ctx, tmp):
    """Several arrays in one file"""
    count = ctx.randint(2, 5)
    path = os.path.join(tmp, 'many.h5')
    names = ['x', 'deep/er/group', '7', 'name with blank', '0'][:count]
    mpas = [some_mpa(ctx) for _ in names]
    keep = [(dn.tens(a), tuple(a.canonical_form)) for a in mpas]
    with h5py.File(path, 'w') as f:
        for name, a in zip(names, mpas):
            a.dump(f.create_group(name))
        if ctx.chance(.3):
            k = ctx.randint(0, count - 1)
            same(ctx, mp.MPArray.load(f[names[k]]), keep[k][0], keep[k][1],
                 'load from the open file')
    order = list(ctx.rng.permutation(count))
    with h5py.File(path, 'r') as f:
        res = {k: mp.MPArray.load(f[names[k]]) for k in order}
    for k in order:
        same(ctx, res[k], keep[k][0], keep[k][1], 'group {}'.format(names[k]))
        unchanged(ctx, mpas[k], keep[k][0], 'dump', keep[k][1])
    k = ctx.randint(0, count - 1)
    usable(ctx, res[k], keep[k][0])
    ctx.event('groups', count)


def chained(ctx, tmp):
    """dump -> load -> operate -> dump ... keeps the represented array"""
    a = gen.rand_mpa(ctx, max_size=600, dtypes=('f8', 'c16'))
    arr, shape = dn.dense(dn.tens(a)), dn.shape_of(dn.tens(a))
    scale = 1e-2 * dn.bound(dn.tens(a))
    for step in range(ctx.randint(2, 5)):
        what = ctx.randint(0, 4)
        n = len(a)
        if what == 0:
            a.canonicalize(left=ctx.randint(0, n - 1))
        elif what == 1:
            a.canonicalize(right=ctx.randint(1, n))
        elif what == 2:
            f = ctx.pick([2.0, -0.5, 1.25])
            a = a * f
            arr, scale = arr * f, scale * abs(f)
        elif what == 3:
            a = a.conj()
            arr = arr.conj()
        else:
            a = a + a
            arr, scale = arr * 2, scale * 2
        lts, form = dn.tens(a), tuple(a.canonical_form)
        path = os.path.join(tmp, 's{}.h5'.format(step % 2))
        a.dump(path)
        a = mp.MPArray.load(path)
        same(ctx, a, lts, form, 'step {}'.format(step))
        expect_mpa(ctx, a, arr, shape, 'represented array', scale)
        ctx.event('chained')


def subclass(ctx, tmp):
    """load as class method of derived classes, attributes as documented"""
    a = some_mpa(ctx)
    lts, form = dn.tens(a), tuple(a.canonical_form)
    path = os.path.join(tmp, 'sub.h5')

    class Derived(mp.MPArray):
        pass

    a.dump(path)
    got = Derived.load(path)
    ctx.check(isinstance(got, Derived), 'load ignores the class')
    same(ctx, got, lts, form, 'derived class')
    with h5py.File(path, 'r') as f:
        same(ctx, mp.MPArray.load(f), lts, form, 'load from root group')
    ctx.event('subclass')


def missing(ctx, tmp):
    """Loading from nothing is an error and leaves no file behind"""
    path = os.path.join(tmp, 'missing.h5')
    ctx.raises(Exception, lambda: mp.MPArray.load(path), 'missing file')
    ctx.check(os.listdir(tmp) == [], 'load created files')
    with h5py.File(path, 'w') as f:
        f.create_group('empty')
    with h5py.File(path, 'r') as f:
        ctx.raises(Exception, lambda: mp.MPArray.load(f['empty']),
                   'empty group')
    # reading does not change the file
    a = some_mpa(ctx)
    a.dump(path)
    with open(path, 'rb') as f:
        raw = f.read()
    mp.MPArray.load(path)
    with open(path, 'rb') as f:
        ctx.check(f.read() == raw, 'load changed the file')
    ctx.event('file_unchanged')


def pickled(ctx):
    """Pickles and deep copies (as used by multiprocessing)"""
    a = some_mpa(ctx)
    povm = None
    if ctx.chance(.2):
        povm = a = mpp.MPPovm.from_local_povm(mpp.pauli_povm(2),
                                              ctx.randint(1, 3))
    lts, form = dn.tens(a), tuple(a.canonical_form)
    if ctx.chance(.3):
        got = copy.deepcopy(a)
        ctx.event('deepcopy')
    else:
        got = pickle.loads(pickle.dumps(a, ctx.randint(
            2, pickle.HIGHEST_PROTOCOL)))
    unchanged(ctx, a, lts, 'pickling', form)
    same(ctx, got, lts, form, 'pickle')
    ctx.check(type(got) is type(a), 'pickle: class', got=type(got))
    ctx.raises(ValueError, lambda: got.lt[0].__setitem__(Ellipsis, 0),
               'local tensors of an unpickled array are read-only')
    if povm is None:
        usable(ctx, got, lts)
    unchanged(ctx, a, lts, 'original after use of the copy', form)
    ctx.event('pickled')


SCENARIOS = [('by_path', with_dir(by_path)), ('groups', with_dir(groups)),
             ('by_path2', with_dir(by_path)), ('chained', with_dir(chained)),
             ('subclass', with_dir(subclass)), ('missing', with_dir(missing)),
             ('pickled', pickled)]
REQUIRED = ['loaded', 'used', 'overwritten', 'groups', 'chained', 'subclass',
            'long', 'very_long', 'refusals', 'file_unchanged', 'pickled', 'deepcopy']
