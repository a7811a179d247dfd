# encoding: utf-8
"""Shared oracles"""
from __future__ import division

import os
import pickle
import traceback

import numpy as np

import mpnum as mp

from . import dense as dn


def expect_mpa(ctx, res, ref, shape, msg, scale=0.0, rtol=1e-8):
    """`res` has to be an MPArray representing the dense array `ref` (local
    form) with the legs `shape` at its sites."""
    ctx.check(isinstance(res, mp.MPArray), msg + ': not an MPArray',
              type=type(res))
    shape = tuple(tuple(int(d) for d in s) for s in shape)
    defect = dn.chain_defect(res)
    ctx.check(defect is None, msg + ': malformed chain', defect=defect)
    lts = dn.tens(res)
    ctx.check(dn.shape_of(lts) == shape, msg + ': wrong legs',
              got=dn.shape_of(lts), expected=shape)
    got = dn.dense(lts)
    ref = np.asarray(ref).reshape(got.shape) \
        if np.asarray(ref).size == got.size else np.asarray(ref)
    scale = max(scale, 1e-2 * dn.bound(lts))
    ctx.close(got, ref, msg + ': wrong array', scale=scale, rtol=rtol)
    ctx.event('values_compared', int(got.size))


def expect_scalar(ctx, got, ref, msg, scale=0.0, rtol=1e-8):
    got = np.asarray(got)
    ctx.check(got.size == 1 and got.ndim == 0, msg + ': not a scalar',
              shape=got.shape)
    ctx.close(got, np.asarray(ref).reshape(()), msg, scale=scale, rtol=rtol)


def unchanged(ctx, mpa, before, msg, form=None):
    """Local tensors of `mpa` bitwise equal to the snapshot `before`"""
    now = dn.tens(mpa)
    ctx.check(len(now) == len(before), msg + ': length changed')
    for i, (a, b) in enumerate(zip(now, before)):
        ctx.check(a.shape == b.shape and a.dtype == b.dtype and
                  np.array_equal(a, b), msg + ': local tensor changed', site=i)
    if form is not None:
        ctx.check(tuple(mpa.canonical_form) == tuple(form),
                  msg + ': canonical form changed', got=mpa.canonical_form,
                  expected=form)


def isolated(fun, *args):
    """Result of fun(*args) in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fun(*args))
            except BaseException:
                out = ('error', traceback.format_exc()[-2500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, 2)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return 'error', 'process ended without a result'
    return pickle.loads(data)


class OtherArray(mp.MPArray):
    """A type of the user"""


def result_type(ctx, fun, arg, keyword, name):
    """The documented type of the result: that of the (first) operand unless
    another one is requested"""
    for first in (mp.MPArray, OtherArray):
        a = arg(first)
        ctx.check(type(fun(a)) is first, name + ': type of the operand '
                  'expected')
        for want in (mp.MPArray, OtherArray):
            ctx.check(type(fun(a, **{keyword: want})) is want,
                      name + ': other type than requested', requested=want)
    ctx.event('result_types')
