# encoding: utf-8
"""Reference model: what an MPArray represents, computed without mpnum.

Everything here works on plain lists of local tensors (or dense arrays) and
uses numpy only.
"""
from __future__ import division

import numpy as np


def tens(mpa):
    """Snapshot (copies) of the local tensors of an MPArray"""
    return [np.array(t) for t in mpa.lt]


def shape_of(lts):
    return tuple(tuple(t.shape[1:-1]) for t in lts)


def ranks_of(lts):
    return tuple(t.shape[0] for t in lts[1:])


def dense_virtual(lts):
    """Contract local tensors, keep the outer virtual legs"""
    res = lts[0]
    for t in lts[1:]:
        a = res.reshape((-1, res.shape[-1]))
        b = t.reshape((t.shape[0], -1))
        res = np.dot(a, b).reshape(res.shape[:-1] + t.shape[1:])
    return res


def dense(lts):
    """The represented array in local form"""
    if not isinstance(lts, (list, tuple)):
        lts = tens(lts)
    assert lts[0].shape[0] == 1 and lts[-1].shape[-1] == 1
    for a, b in zip(lts[:-1], lts[1:]):
        assert a.shape[-1] == b.shape[0], 'virtual legs do not match'
    res = dense_virtual(lts)
    return res.reshape(res.shape[1:-1])


def raw_bound(lts):
    """Largest entry of the contraction of |entries|"""
    v = None
    for t in lts:
        m = abs(t).reshape((t.shape[0], -1, t.shape[-1])).max(1) \
            if t.size else np.zeros((t.shape[0], t.shape[-1]))
        m = m.astype(float)
        v = m if v is None else np.dot(v, m)
    return float(v.max()) if v.size else 0.0


def is_single(lts):
    return any(t.dtype in (np.dtype('f4'), np.dtype('c8')) for t in lts)


def bound(lts):
    """Rounding error scale: largest entry of the contraction of |entries|,
    weighted down for double precision (see DESIGN.md, tolerances)"""
    return raw_bound(lts) * (1.0 if is_single(lts) else 1e-3)


def noise(*chains):
    """Rounding error scale of an expression which is linear in each chain"""
    res = 1e-2 if any(is_single(c) for c in chains) else 1e-5
    for c in chains:
        res *= raw_bound(c)
    return res


def entry(lts, index):
    """Single entry; `index[i]` is a tuple with one value per leg"""
    v = np.ones((1, 1))
    for t, ix in zip(lts, index):
        v = np.dot(v, t[(slice(None),) + tuple(ix) + (slice(None),)])
    return v[0, 0]


def inner(lts1, lts2):
    """<1|2> with transfer matrices (works for long chains)"""
    v = np.ones((1, 1))
    for a, b in zip(lts1, lts2):
        a = a.reshape((a.shape[0], -1, a.shape[-1])).conj()
        b = b.reshape((b.shape[0], -1, b.shape[-1]))
        v = np.einsum('ab,apc,bpd->cd', v, a, b, optimize=True) \
            if max(a.size, b.size) > 200 else \
            np.tensordot(np.tensordot(v, a, axes=(0, 0)), b,
                         axes=((0, 1), (0, 1)))
    return v[0, 0]


def norm(lts):
    """l2 norm, with rescaling to survive long chains"""
    v = np.ones((1, 1))
    logn = 0.0
    for a in lts:
        a = a.reshape((a.shape[0], -1, a.shape[-1]))
        v = np.tensordot(np.tensordot(v, a.conj(), axes=(0, 0)), a,
                         axes=((0, 1), (0, 1)))
        s = abs(v).max()
        if s == 0:
            return 0.0
        v = v / s
        logn += np.log(s)
    return float(np.exp(0.5 * (logn + np.log(abs(v[0, 0])))))


def overlap_defect(lts1, lts2):
    """|| a - b || / max(||a||, ||b||) for long chains (accuracy ~ 1e-8)"""
    naa, nbb = inner(lts1, lts1).real, inner(lts2, lts2).real
    nab = inner(lts1, lts2)
    m = max(naa, nbb)
    if m == 0:
        return 0.0
    return float(np.sqrt(max(0.0, (naa + nbb - 2 * nab.real) / m)))


def site_axes(shape):
    """Positions of the legs of each site in the local-form dense array"""
    out, pos = [], 0
    for s in shape:
        out.append(list(range(pos, pos + len(s))))
        pos += len(s)
    return out


def is_left_canonical(t, tol):
    m = t.reshape((-1, t.shape[-1]))
    return abs(np.dot(m.conj().T, m) - np.eye(m.shape[1])).max() <= tol


def is_right_canonical(t, tol):
    m = t.reshape((t.shape[0], -1))
    return abs(np.dot(m, m.conj().T) - np.eye(m.shape[0])).max() <= tol


def claim_defect(mpa, tol=None):
    """None if the canonical form reported by `mpa` is truthful"""
    left, right = mpa.canonical_form
    lts = tens(mpa)
    n = len(lts)
    if not (0 <= left <= n and 0 <= right <= n):
        return 'canonical form {} out of range'.format((left, right))
    for i, t in enumerate(lts):
        if tol is None:
            single = t.dtype in (np.dtype('f4'), np.dtype('c8'))
            eps = 1e-3 if single else 1e-8
        else:
            eps = tol
        if i < left and not is_left_canonical(t, eps):
            return 'site {} of {} is not left-canonical, form {}'.format(
                i, n, (left, right))
        if i >= right and not is_right_canonical(t, eps):
            return 'site {} of {} is not right-canonical, form {}'.format(
                i, n, (left, right))
    return None


def chain_defect(mpa):
    """None if the chain of local tensors is well formed"""
    lts = tens(mpa)
    if len(lts) != len(mpa):
        return 'len() differs from number of local tensors'
    if lts[0].shape[0] != 1 or lts[-1].shape[-1] != 1:
        return 'outer virtual legs {} {}'.format(lts[0].shape, lts[-1].shape)
    for i, (a, b) in enumerate(zip(lts[:-1], lts[1:])):
        if a.shape[-1] != b.shape[0]:
            return 'virtual legs between {} and {} differ: {} {}'.format(
                i, i + 1, a.shape, b.shape)
    return None


def schmidt(arr, shape, cut):
    """Singular values of the bipartition [0, cut) | [cut, n)"""
    left = int(np.prod([d for s in shape[:cut] for d in s], dtype=int))
    return np.linalg.svd(arr.reshape((left, -1)), compute_uv=False)


def reshape_sites(arr, shape):
    """Dense local-form array with one (raveled) axis per site"""
    return arr.reshape([int(np.prod(s, dtype=int)) for s in shape])


def global_matrix(lts):
    """Matrix of an MPO given by its local tensors (row legs first)"""
    arr = dense(lts)
    n = len(lts)
    order = list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2))
    rows = int(np.prod([t.shape[1] for t in lts], dtype=int))
    return arr.transpose(order).reshape((rows, -1))


def sandwich(bra, mpo, ket):
    """<bra|mpo|ket> from transfer matrices"""
    v = np.ones((1, 1, 1))
    for x, o, y in zip(bra, mpo, ket):
        v = np.tensordot(v, x.conj(), axes=(0, 0))         # o y p x'
        v = np.tensordot(v, o, axes=((0, 2), (0, 1)))      # y x' q o'
        v = np.tensordot(v, y, axes=((0, 2), (0, 1)))      # x' o' y'
    return v[0, 0, 0]
