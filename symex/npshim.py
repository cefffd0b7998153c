"""The module the code under test sees as ``numpy``.

Functions with a symbolic model are implemented here on SymArray; anything
else is the real numpy (directly when no symbolic value is involved, otherwise
on arrays of symbolic objects, where element operations fork)."""
import builtins
import operator
import types
import warnings

import numpy as np
import z3

from .engine import Unsupported, cur
from . import values as V
from . import arr as A
from .arr import (OBJ, SymArray, asarr, conc_bools, conc_ints, emap, fill_obj,
                  has_sym, is_arraylike, obj0, sort_arr, _sorted_ix)
from .values import (BOOL, F64, INTP, PYF, SV, SymBool, cast_raw, is_term, mk,
                     num, raw_cmp, truth, unwrap)

_real_isinstance = isinstance
BIG = 300000


def dim(x):
    """a dimension length -> concrete int"""
    if _real_isinstance(x, (SV, SymBool)):
        return x.__index__()
    return operator.index(x)


def dims(shape):
    if hasattr(shape, '__symarray__'):
        shape = shape.__symarray__()
    if _real_isinstance(shape, (tuple, list, SymArray, np.ndarray)):
        return tuple(dim(i) for i in shape)
    return (dim(shape),)


def dt_of(dtype, default=None):
    if dtype is None:
        return default
    if dtype is builtins.int or getattr(dtype, '_shim_of', None) is builtins.int:
        return INTP
    if dtype is builtins.float or getattr(dtype, '_shim_of', None) is builtins.float:
        return F64
    if dtype is builtins.bool or getattr(dtype, '_shim_of', None) is builtins.bool:
        return BOOL
    if getattr(dtype, '_shim_of', None) is builtins.str:
        return np.dtype(str)
    return np.dtype(dtype)


def _alloc(shape, dtype, val):
    shape = dims(shape)
    dt = dt_of(dtype, F64)
    if any(s < 0 for s in shape):
        raise ValueError("negative dimensions are not allowed")
    n = 1
    for s in shape:
        n *= s
    if n > BIG:
        raise Unsupported("array of %d elements" % n)
    if dt.kind in 'iufb':
        return SymArray(fill_obj(shape, cast_raw(val, dt)), dt)
    return SymArray(fill_obj(shape, val), dt)


# ------------------------------------------------------------- constructors
def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=None):
    r = _in_order(asarr(x, dt_of(dtype), copy=copy), order)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _in_order(r, order):
    if order == 'C' and not r.flags['C_CONTIGUOUS']:
        return SymArray(np.asarray(r.a, order='C'), r.dtype)
    if order == 'F' and not r.flags['F_CONTIGUOUS']:
        return SymArray(np.asarray(r.a, order='F'), r.dtype)
    return r


def asarray(x, dtype=None, order=None):
    return _in_order(asarr(x, dt_of(dtype)), order)


asanyarray = asarray


def asfortranarray(x, dtype=None):
    return asarray(x, dtype, 'F')


def require(a, dtype=None, requirements=None, *, like=None):
    want = {str(k).upper() for k in requirements or ()}
    for k in ('C', 'F'):
        if want & {k, k + '_CONTIGUOUS', k + 'CONTIGUOUS', {'C': 'CONTIGUOUS', 'F': 'FORTRAN'}[k]}:
            return asarray(a, dtype, k)
    return asarray(a, dtype)


def ascontiguousarray(x, dtype=None):
    r = asarr(x, dt_of(dtype))
    if r.flags['C_CONTIGUOUS']:
        return r
    return SymArray(np.ascontiguousarray(r.a), r.dtype)


def zeros(shape, dtype=None, order='C'):
    return _alloc(shape, dtype, 0)


def ones(shape, dtype=None, order='C'):
    return _alloc(shape, dtype, 1)


def empty(shape, dtype=None, order='C'):
    dt = dt_of(dtype, F64)
    r = _alloc(shape, dt, 0)
    # uninitialised memory: arbitrary values
    if dt.kind in 'iuf':
        e = cur()
        n = e.path_state.setdefault('uninit', 0)
        f = r.a.reshape(-1)
        for i in range(f.size):
            t = z3.Int('uninit!%d' % (n + i))
            lo, hi = (-2 ** 53, 2 ** 53) if dt.kind == 'f' else V.irange(dt)
            V.set_bounds(t, lo, hi)
            f[i] = t
        e.path_state['uninit'] = n + f.size
    return r


def full(shape, fill_value, dtype=None, order='C'):
    if dtype is None:
        dtype = asarr(fill_value).dtype
    r = _alloc(shape, dtype, 0)
    r[...] = fill_value
    return r


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return zeros(a.shape if shape is None else shape, dtype or a.dtype)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return ones(a.shape if shape is None else shape, dtype or a.dtype)


def empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return empty(a.shape if shape is None else shape, dtype or a.dtype)


def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = asarr(a)
    return full(a.shape if shape is None else shape, fill_value, dtype or a.dtype)


def arange(*args, **kw):
    dtype = dt_of(kw.pop('dtype', None))
    start, stop, step = 0, None, kw.pop('step', 1)
    if 'start' in kw:
        start = kw.pop('start')
    if 'stop' in kw:
        stop = kw.pop('stop')
    if len(args) == 1:
        if stop is None:
            stop = args[0]
        else:
            start = args[0]
    elif len(args) == 2:
        start, stop = args
    elif len(args) == 3:
        start, stop, step = args
    if not has_sym((start, stop, step)):
        r = np.arange(start, stop, step, dtype=dtype)
        if r.size > BIG:
            raise Unsupported("arange too long")
        return asarr(r)
    for v in (start, stop, step):
        if _real_isinstance(v, SV) and V.isfloat_dt(v.dt) and not z3.is_int(v.t):
            raise Unsupported("arange over reals")
    if dtype is None:
        # numpy: promotion of start, stop and their differences
        smp = [A._elem_sample(v) for v in (start, stop, step)]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            dtype = np.arange(*smp).dtype
    step_c = step.__index__() if _real_isinstance(step, SV) else int(step)
    rs, re_ = num(unwrap(start)[0]), num(unwrap(stop)[0])
    ln = V.to_z3(re_) - V.to_z3(rs)
    if step_c != 1:
        ln = (ln + (step_c - 1)) / step_c if step_c > 0 else \
            (-ln + (-step_c - 1)) / (-step_c)
    if truth(raw_cmp('le', ln, 0)):
        n = 0
    else:
        n = cur().concretise(ln, why='arange length')
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = cast_raw(V.raw_op('add', rs, i * step_c, None), dtype)
    return SymArray(out, dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym((start, stop, num)):
        return asarr(np.linspace(start, stop, num, endpoint, dtype=dtype))
    n = dim(num)
    div = (n - 1) if endpoint else n
    step = (stop - start) / div
    return asarr([start + i * step for i in range(n)], F64)


# ---------------------------------------------------------------- combining
def _promote(arrs):
    ds = [a.dtype for a in arrs]
    if any(d == OBJ for d in ds):
        return OBJ
    return np.result_type(*ds)


def concatenate(arrays, axis=0, out=None, dtype=None, casting=None):
    arrs = [asarr(a) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if any(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    dt = dt_of(dtype) or _promote(arrs)
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    parts = [a.astype(dt).a if a.dtype != dt else a.a for a in arrs]
    return SymArray(np.concatenate(parts, axis=axis), dt)


def stack(arrays, axis=0, out=None):
    arrs = [asarr(a) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to stack")
    if len({a.shape for a in arrs}) != 1:
        raise ValueError("all input arrays must have the same shape")
    dt = _promote(arrs)
    parts = [a.astype(dt).a if a.dtype != dt else a.a for a in arrs]
    r = SymArray(np.stack(parts, axis=axis), dt)
    if out is not None:
        out[...] = r
        return out
    return r


def vstack(arrs, **k):
    return concatenate([atleast_2d(a) for a in arrs], 0)


def hstack(arrs, **k):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)


def append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    if axis is None:
        a, v, axis = a.ravel(), v.ravel(), 0
    return concatenate([a, v], axis)


def insert(arr, obj, values, axis=None):
    a = asarr(arr)
    if axis is not None and a.ndim > 1:
        raise Unsupported("insert nd")
    a = a.ravel()
    i = dim(obj) if not _real_isinstance(obj, (list, tuple)) else None
    if i is None:
        raise Unsupported("insert list")
    v = atleast_1d(values).astype(a.dtype)
    return concatenate([a[:i], v, a[i:]])


def delete(arr, obj, axis=None):
    a = asarr(arr)
    n = a.shape[axis or 0] if axis is not None else a.size
    if axis is None:
        a = a.ravel()
        axis = 0
    keep = np.ones(n, dtype=bool)
    if _real_isinstance(obj, slice):
        keep[A.norm_slice(obj, n)] = False
    else:
        ix = A.prep_key(asarr(obj) if not _real_isinstance(obj, int) else obj, (n,))
        keep[ix] = False
    return a[(slice(None),) * axis + (keep,)]


def array_split(ary, indices_or_sections, axis=0):
    a = asarr(ary)
    n = a.shape[axis]
    ios = indices_or_sections
    if _real_isinstance(ios, (SymArray, np.ndarray, list, tuple)):
        cuts = [0] + [int(i) for i in conc_ints(asarr(ios).ravel())] + [n]
    else:
        k = dim(ios)
        each, extra = divmod(n, k)
        cuts = [0]
        for i in range(k):
            cuts.append(cuts[-1] + each + (1 if i < extra else 0))
    pre = (slice(None),) * axis
    return [a[pre + (slice(cuts[i], cuts[i + 1]),)] for i in range(len(cuts) - 1)]


def split(ary, indices_or_sections, axis=0):
    ios = indices_or_sections
    if not _real_isinstance(ios, (SymArray, np.ndarray, list, tuple)):
        if asarr(ary).shape[axis] % dim(ios):
            raise ValueError("array split does not result in an equal division")
    return array_split(ary, ios, axis)


class _RClass:
    def __init__(self, axis=0):
        self._axis = axis

    def __getitem__(self, key):
        if not _real_isinstance(key, tuple):
            key = (key,)
        parts = []
        scalars = []
        for k in key:
            if _real_isinstance(k, slice):
                step = k.step if k.step is not None else 1
                parts.append(arange(k.start or 0, k.stop, step))
            elif _real_isinstance(k, str):
                raise Unsupported("r_ with string")
            else:
                a = asarr(k)
                if a.ndim == 0:
                    a = a.reshape(1)
                    scalars.append(len(parts))
                parts.append(a)
        # numpy lets scalars adopt the arrays' dtype (value-based)
        arr_dts = [p.dtype for i, p in enumerate(parts) if i not in scalars]
        if arr_dts and scalars:
            dt = np.result_type(*arr_dts, *[
                np.asarray(A._elem_sample(parts[i][0])) for i in scalars])
        else:
            dt = _promote(parts)
        return concatenate([p.astype(dt) for p in parts], self._axis)


r_ = _RClass()


class _CClass:
    def __getitem__(self, key):
        return stack([asarr(k) for k in key], axis=-1)


c_ = _CClass()


# ------------------------------------------------------------------ set ops
def _in_terms(x, elems, dx, de):
    acc = False
    for e in elems:
        acc = V.bool_op('or', acc, raw_cmp('eq', x, e, dx, de))
    return acc


def isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    if _real_isinstance(test_elements, (set, frozenset)) or (
            hasattr(test_elements, '_sym_set')):
        # numpy treats a set as a single object: nothing matches
        a = asarr(element)
        return SymArray(fill_obj(a.shape, bool(invert)), BOOL)
    a, b = asarr(element), asarr(test_elements)
    # numpy promotes both to a common dtype before comparing... but compares
    # integers exactly; a float operand compares in double precision
    elems = list(b.a.flat)
    r = emap(lambda x: _in_terms(x, elems, a.dtype, b.dtype), a.a)
    if invert:
        r = emap(V.raw_not, r)
    if r.ndim == 0:
        return SymArray(r, BOOL)
    return SymArray(r, BOOL)


def in1d(ar1, ar2, assume_unique=False, invert=False, kind=None):
    return isin(asarr(ar1).ravel(), ar2, invert=invert)


def unique(ar, return_index=False, return_inverse=False, return_counts=False,
           axis=None, equal_nan=True):
    if axis is not None:
        raise Unsupported("unique axis")
    a = asarr(ar).ravel()
    row = list(a.a)
    order = _sorted_ix(row)
    groups = []
    for i in order:
        if groups and truth(raw_cmp('eq', row[groups[-1][0]], row[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = np.empty(len(groups), dtype=object)
    for j, g in enumerate(groups):
        vals[j] = row[g[0]]
    res = [SymArray(vals, a.dtype)]
    if return_index:
        res.append(asarr(np.array([min(g) for g in groups], dtype=np.intp)))
    if return_inverse:
        inv = np.zeros(len(row), dtype=np.intp)
        for j, g in enumerate(groups):
            inv[g] = j
        res.append(asarr(inv))
    if return_counts:
        res.append(asarr(np.array([len(g) for g in groups], dtype=np.intp)))
    return res[0] if len(res) == 1 else tuple(res)


def union1d(a, b):
    return unique(concatenate([asarr(a).ravel(), asarr(b).ravel()]))


def intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    if return_indices:
        r = intersect1d(a, b)
        return r, asarr([int((a == v).argmax()) for v in r], np.intp), asarr([int((b == v).argmax()) for v in r], np.intp)
    if a.size == 0 or b.size == 0:
        dt = _promote([a, b])
        return SymArray(np.empty(0, dtype=object), dt)
    dt = _promote([a, b])
    a2, b2 = a.astype(dt), b.astype(dt)
    ua = unique(a2)
    keep = [x for x in ua.a
            if truth(_in_terms(x, list(b2.a), dt, dt))]
    out = np.empty(len(keep), dtype=object)
    for i, x in enumerate(keep):
        out[i] = x
    return SymArray(out, dt)


def setdiff1d(a, b, assume_unique=False):
    a = unique(a) if not assume_unique else asarr(a).ravel()
    return a[isin(a, b, invert=True)]


def setxor1d(a, b, assume_unique=False):
    a, b = unique(asarr(a).ravel()), unique(asarr(b).ravel())
    return sort_arr(concatenate([a[isin(a, b, invert=True)], b[isin(b, a, invert=True)]]), -1)


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if weights is not None or x.ndim != 1:
        raise Unsupported("bincount with weights")
    if not x.size:
        return zeros(int(minlength), np.intp)
    if not np.can_cast(x.dtype, np.intp, 'safe'):
        raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % x.dtype)
    if truth(raw_cmp('lt', x.min().t if hasattr(x.min(), 't') else x.min(), 0)):
        raise ValueError("'list' argument must have no negative elements")
    n = max(int(x.max()) + 1, int(minlength))
    return asarr([(x == i).sum() for i in range(n)], np.intp)


def select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist):
        raise ValueError('list of cases must be same length as list of conditions')
    dt = _promote([asarr(c) for c in choicelist])
    r = asarr(default).astype(dt) if not (_real_isinstance(default, int) and default == 0) else asarr(np.zeros((), dt))
    for c, v in zip(list(condlist)[::-1], list(choicelist)[::-1]):
        r = where(c, asarr(v).astype(dt), r)
    return r


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = asarr(a)
    if axis is not None and a.ndim > 1 or keepdims or not a.size:
        raise Unsupported("median")
    b, n = sort_arr(a.ravel(), -1), a.size
    return (b[(n - 1) // 2] + b[n // 2]) / 2


def take_along_axis(arr, indices, axis):
    arr, indices = asarr(arr), asarr(indices)
    if arr.ndim != 1 or indices.ndim != 1:
        raise Unsupported("take_along_axis nd")
    return arr[indices]


# ------------------------------------------------------------------ queries
def nonzero(a):
    return asarr(a).nonzero()


def flatnonzero(a):
    return asarr(a).ravel().nonzero()[0]


def argwhere(a):
    return stack(asarr(a).nonzero(), axis=-1)


def count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    b = SymArray(emap(lambda x: cast_raw(x, BOOL), a.a), BOOL)
    r = A.reduce_arr('sum', b, axis, np.int64, keepdims)
    if axis is None and _real_isinstance(r, np.integer):
        return int(r)
    if axis is None and _real_isinstance(r, SV):
        return mk(r.t, None)
    return r


def where(cond, x=None, y=None):
    if x is None and y is None:
        return asarr(cond).nonzero()
    c, a, b = asarr(cond), asarr(x), asarr(y)
    # dtype: promotion is value based for python scalars
    dt = np.result_type(
        a.dtype if a.ndim else (a.dtype if not a.size else np.asarray(A._elem_sample(a[()]))),
        b.dtype if b.ndim else np.asarray(A._elem_sample(b[()])))

    def f(k, p, q):
        k = cast_raw(k, BOOL)
        if k is True:
            return cast_raw(p, dt)
        if k is False:
            return cast_raw(q, dt)
        p, q = cast_raw(p, dt), cast_raw(q, dt)
        if dt.kind == 'b':
            return z3.If(k, V.to_z3(p), V.to_z3(q))
        for v in (p, q):
            if not is_term(v) and v != v:
                return p if truth(k) else q
        tp, tq = V._pair(p, q)
        return z3.If(k, tp, tq)
    r = emap(f, c.a, a.a, b.a)
    return SymArray(r, dt)


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None:
        a = a[sorter]
    vv = asarr(v)
    n = a.size

    def one(x):
        # binary search like numpy
        lo, hi = 0, n
        while lo < hi:
            mid = (lo + hi) // 2
            if side == 'left':
                less = truth(raw_cmp('lt', a.a[mid], x, a.dtype, vv.dtype))
            else:
                less = not truth(raw_cmp('lt', x, a.a[mid], vv.dtype, a.dtype))
            if less:
                lo = mid + 1
            else:
                hi = mid
        return lo
    if vv.ndim == 0:
        return np.intp(one(vv.a[()]))
    return SymArray(emap(one, vv.a), INTP)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def array_equal(a1, a2, equal_nan=False):
    try:
        a, b = asarr(a1), asarr(a2)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    r = (a == b)
    if _real_isinstance(r, (bool, np.bool_, SymBool)):
        return bool(r)
    return bool(r.all())


def array_equiv(a, b):
    try:
        return bool(asarr(a == b).all())
    except ValueError:
        return False


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarr(a), asarr(b)
    d = A.SymArray(emap(lambda x: A._abs(x, None), asarr(a - b).a), F64)
    lim = A.SymArray(emap(lambda x: A._abs(x, None), b.a), F64) * rtol + atol
    return d <= lim


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(asarr(isclose(a, b, rtol, atol)).all())


def any_(a, axis=None, out=None, keepdims=False):
    return A.reduce_arr('any', a, axis, None, keepdims)


def all_(a, axis=None, out=None, keepdims=False):
    return A.reduce_arr('all', a, axis, None, keepdims)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None):
    r = A.reduce_arr('sum', a, axis, dt_of(dtype), keepdims)
    return r if initial is None else r + initial


def prod(a, axis=None, dtype=None, out=None, keepdims=False):
    return A.reduce_arr('prod', a, axis, dt_of(dtype), keepdims)


def amin(a, axis=None, out=None, keepdims=False, initial=None):
    return asarr(a).min(axis, None, keepdims, initial)


def amax(a, axis=None, out=None, keepdims=False, initial=None):
    return asarr(a).max(axis, None, keepdims, initial)


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    return asarr(a).mean(axis)


def ptp(a, axis=None):
    return asarr(a).ptp(axis)


def cumsum(a, axis=None, dtype=None, out=None):
    return A.cumsum_arr(a, axis, dt_of(dtype))


def argmin(a, axis=None):
    return asarr(a).argmin(axis)


def argmax(a, axis=None):
    return asarr(a).argmax(axis)


def sort(a, axis=-1, kind=None, order=None):
    return sort_arr(asarr(a), axis)


def argsort(a, axis=-1, kind=None, order=None):
    return A.argsort_arr(asarr(a), axis)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    parts = []
    if prepend is not None:
        parts.append(atleast_1d(prepend))
    parts.append(a)
    if append is not None:
        parts.append(atleast_1d(append))
    if len(parts) > 1:
        a = concatenate(parts, axis)
    for _ in range(n):
        ax = axis % a.ndim
        hi = a[(slice(None),) * ax + (slice(1, None),)]
        lo = a[(slice(None),) * ax + (slice(None, -1),)]
        a = (hi != lo) if a.dtype.kind == 'b' else (hi - lo)
    return a


def ediff1d(a):
    return diff(asarr(a).ravel())


def repeat(a, repeats, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if _real_isinstance(repeats, (SV, SymBool)):
        if V.isfloat_dt(repeats.dt):
            raise TypeError("Cannot cast array data from dtype('float64') to "
                            "dtype('int64') according to the rule 'safe'")
        reps = np.array(repeats.__index__())
        if repeats.dt is not None and not np.can_cast(repeats.dt, np.int64, 'safe'):
            pass   # 0-d uint64 values are accepted when they fit
    else:
        r = asarr(repeats)
        if not np.can_cast(r.dtype, np.int64, 'safe') and r.ndim > 0:
            raise TypeError("Cannot cast array data from dtype('%s') to "
                            "dtype('int64') according to the rule 'safe'" % r.dtype)
        if r.dtype.kind == 'f':
            raise TypeError("Cannot cast array data from dtype('float64') to "
                            "dtype('int64') according to the rule 'safe'")
        reps = conc_ints(r, why='repeat count')
    return SymArray(np.repeat(a.a, reps, axis=axis), a.dtype)


def tile(a, reps):
    a = asarr(a)
    reps = tuple(dim(i) for i in reps) if _real_isinstance(reps, (tuple, list)) else dim(reps)
    return SymArray(np.tile(a.a, reps), a.dtype)


def take(a, indices, axis=None, out=None, mode='raise'):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ix = indices if _real_isinstance(indices, (int, SV)) else asarr(indices)
    return a[(slice(None),) * axis + (ix,)]


def compress(condition, a, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return a[(slice(None),) * axis + (asarr(condition).astype(bool),)]


def choose(a, choices):
    raise Unsupported("choose")


# -------------------------------------------------------------------- shape
def _shape_fn(name):
    real = getattr(np, name)

    def f(a, *args, **kw):
        a = asarr(a)
        return SymArray(real(a.a, *args, **kw), a.dtype)
    f.__name__ = name
    return f


moveaxis = _shape_fn('moveaxis')
swapaxes = _shape_fn('swapaxes')
transpose = _shape_fn('transpose')
squeeze = _shape_fn('squeeze')
expand_dims = _shape_fn('expand_dims')
ravel = _shape_fn('ravel')
flip = _shape_fn('flip')
flipud = _shape_fn('flipud')
fliplr = _shape_fn('fliplr')
rollaxis = _shape_fn('rollaxis')
rot90 = _shape_fn('rot90')
triu = None
del triu


def roll(a, shift, axis=None):
    a = asarr(a)
    return SymArray(np.roll(a.a, dim(shift), axis), a.dtype)


def reshape(a, newshape, order='C'):
    a = asarr(a)
    return a.reshape(dims(newshape))


def broadcast_to(a, shape, subok=False):
    a = asarr(a)
    return SymArray(np.broadcast_to(a.a, dims(shape)), a.dtype)


def broadcast_arrays(*args, subok=False):
    arrs = [asarr(a) for a in args]
    return [SymArray(x, a.dtype) for x, a in
            zip(np.broadcast_arrays(*[a.a for a in arrs]), arrs)]


def atleast_1d(*a):
    r = [asarr(x) if asarr(x).ndim else asarr(x).reshape(1) for x in a]
    return r[0] if len(r) == 1 else r


def atleast_2d(*a):
    def one(x):
        x = asarr(x)
        while x.ndim < 2:
            x = x[None]
        return x
    r = [one(x) for x in a]
    return r[0] if len(r) == 1 else r


def shape(a):
    return asarr(a).shape


def ndim(a):
    return asarr(a).ndim


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def meshgrid(*xi, copy=True, sparse=False, indexing='xy'):
    arrs = [asarr(x) for x in xi]
    return [SymArray(g, a.dtype) for g, a in zip(
        np.meshgrid(*[a.a for a in arrs], indexing=indexing, copy=copy, sparse=sparse), arrs)]


def copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        dst[where] = asarr(src)[where] if asarr(src).ndim else src
    else:
        dst[...] = src


def copy(a, order='K', subok=False):
    return asarr(a).copy()


def around(a, decimals=0, out=None):
    ar = asarr(a)
    if ar.dtype.kind in 'iu' and decimals >= 0:
        return a

    def f(x):
        if not is_term(x):
            return float(np.around(x, decimals))
        if z3.is_int(x) and decimals >= 0:
            return x
        if decimals == 0:
            return z3.ToReal(A.round_half_even(x))
        m = 10 ** decimals
        return z3.ToReal(A.round_half_even(x * m)) / m
    r = emap(f, ar.a)
    if r.ndim == 0:
        return mk(r[()], ar.dtype)
    return SymArray(r, ar.dtype)


def clip(a, a_min, a_max, out=None):
    return asarr(a).clip(a_min, a_max)


def nan_to_num(x, *a, **k):
    x = asarr(x)
    return SymArray(emap(lambda v: 0.0 if not is_term(v) and v != v else v, x.a), x.dtype)


def dot(a, b):
    return A.arr_matmul(a, b)


def matmul(a, b):
    return A.arr_matmul(a, b)


def cross(a, b):
    a, b = asarr(a), asarr(b)
    if a.shape == (3,) and b.shape == (3,):
        return asarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                      a[0] * b[1] - a[1] * b[0]])
    raise Unsupported("cross")


def isscalar(x):
    return _real_isinstance(x, (SV, SymBool)) or np.isscalar(x)


def can_cast(a, b, casting='safe'):
    return np.can_cast(getattr(a, 'dtype', a), np.dtype(b), casting)


def result_type(*args):
    return np.result_type(*[a.dtype if is_arraylike(a) else
                            A._elem_sample(a) if _real_isinstance(a, (SV, SymBool)) else a
                            for a in args])


def fromiter(it, dtype, count=-1):
    return asarr(list(it), dt_of(dtype))


_BUSY = []


def _obj_fallback(func, args, kwargs):
    """real numpy on object arrays whose elements are symbolic values"""
    def low(x):
        if _real_isinstance(x, SymArray):
            out = np.empty(x.shape, dtype=object)
            fo = out.reshape(-1)
            for i, r in enumerate(x.a.flat):
                fo[i] = mk(r, x.dtype)
            return out
        if _real_isinstance(x, (list, tuple)):
            return type(x)(low(i) for i in x)
        return x
    if any(f is func for f in _BUSY):
        raise Unsupported("numpy.%s" % getattr(func, '__name__', func))
    _BUSY.append(func)
    try:
        r = func(*[low(a) for a in args], **{k: low(v) for k, v in kwargs.items()})
    except (TypeError, ValueError, IndexError) as e:
        raise Unsupported("numpy.%s: %s" % (getattr(func, '__name__', func), e))
    finally:
        _BUSY.pop()

    def up(r):
        if _real_isinstance(r, np.ndarray):
            return asarr(r)
        if _real_isinstance(r, (tuple, list)):
            return type(r)(up(i) for i in r)
        return r
    return up(r)


def dispatch_function(func, args, kwargs):
    name = func.__name__
    f = _TABLE.get(name)
    if f is not None:
        return f(*args, **kwargs)
    return _obj_fallback(func, args, kwargs)


# --------------------------------------------------------------- module face
class _NpTypeMeta(type):
    def __call__(cls, *args, **kw):
        if not args:
            return cls.real(*args, **kw)
        x = args[0]
        if hasattr(x, '__symarray__'):
            x = x.__symarray__()
        if _real_isinstance(x, (SV, SymBool)):
            d = cls.dtype
            return mk(cast_raw(x.t, d), d)
        if _real_isinstance(x, SymArray):
            r = x.astype(cls.dtype)
            return r[()] if r.ndim == 0 else r
        if has_sym(x):
            return asarr(x, cls.dtype)
        if _real_isinstance(x, str):
            from .tokens import parse_token
            p = parse_token(x)
            if p is not None:
                return cls(p[0])
        r = cls.real(*args, **kw)
        return asarr(r) if _real_isinstance(r, np.ndarray) else r

    def __instancecheck__(cls, x):
        if _real_isinstance(x, (SV, SymBool)):
            return x.dt is not None and x.dt is not PYF and \
                issubclass(x.dt.type, cls.real)
        return _real_isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, 'real', c), cls.real)

    def __eq__(cls, o):
        return o is cls.__dict__.get('real') or o is type.__getattribute__(cls, 'real') or \
            (getattr(o, 'real', None) is cls.real) or (
                cls.concrete and _real_isinstance(o, np.dtype) and o == cls.dtype)

    def __hash__(cls):
        return hash(cls.real)

    def __repr__(cls):
        return repr(cls.real)


def _mk_nptype(real, concrete):
    ns = {'real': real, 'concrete': concrete}
    if concrete:
        ns['dtype'] = np.dtype(real)
    return _NpTypeMeta(real.__name__, (), ns)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return _real_isinstance(x, (SymArray, np.ndarray))

    def __call__(cls, *a, **k):
        return empty(*a, **k)


class ndarray(metaclass=_NdMeta):
    real = np.ndarray


class _Ufunc:
    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__
        self.__doc__ = real.__doc__

    def _go(self, method, args, kw):
        args = tuple(a.__symarray__() if hasattr(a, '__symarray__') and not
                     _real_isinstance(a, SymArray) else a for a in args)
        if has_sym(args) or has_sym(tuple(kw.values())):
            args2 = tuple(asarr(a) if _real_isinstance(a, (list, tuple)) else a for a in args)
            return A.dispatch_ufunc(self.real, method, args2, dict(kw))
        r = self.real(*args, **kw) if method == '__call__' else \
            getattr(self.real, method)(*args, **kw)
        return asarr(r) if _real_isinstance(r, np.ndarray) else r

    def __call__(self, *args, **kw):
        return self._go('__call__', args, kw)

    def reduce(self, *args, **kw):
        if len(args) > 1:
            kw['axis'] = args[1]
            args = args[:1]
        kw.setdefault('axis', 0)
        return self._go('reduce', args, kw)

    def accumulate(self, *args, **kw):
        return self._go('accumulate', args, kw)

    def outer(self, *args, **kw):
        return self._go('outer', args, kw)

    def at(self, a, indices, b=None):
        ix = asarr(indices)
        for j, i in enumerate(conc_ints(ix.ravel())):
            bb = asarr(b)
            v = bb[()] if bb.ndim == 0 else bb[j]
            a[int(i)] = A.call_ufunc(self.real.__name__, self.real, (a[int(i)], v))


def _char_add(x, y):
    x, y = asarr(x), asarr(y)

    def s(v):
        return str(v)
    r = emap(lambda a, b: s(a) + s(b), x.a, y.a)
    return SymArray(r, np.dtype('U64')) if r.ndim else str(r[()])


_TABLE = {}
for _n, _f in list(globals().items()):
    if _real_isinstance(_f, types.FunctionType) and not _n.startswith('_') and \
            _n not in ('dim', 'dims', 'dt_of', 'dispatch_function', 'mk', 'asarr',
                       'cast_raw', 'is_term', 'num', 'raw_cmp', 'truth', 'unwrap',
                       'cur', 'conc_bools', 'conc_ints', 'emap', 'fill_obj',
                       'has_sym', 'is_arraylike', 'obj0', 'sort_arr'):
        _TABLE[_n.rstrip('_')] = _f
_TABLE.update(min=amin, max=amax, product=prod, round=around, round_=around,
              concatenate=concatenate)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__version__ = np.__version__
        self._types = {}
        for k, v in _TABLE.items():
            if k in ('isscalar',):
                pass
            self.__dict__[k] = v
        self.ndarray = ndarray
        self.r_ = r_
        self.c_ = c_
        char = types.SimpleNamespace(add=_char_add)
        self.core = types.SimpleNamespace(defchararray=char)
        self.char = char
        self.random = np.random
        self.linalg = _Linalg()
        self.testing = np.testing

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(np, name)
        if _real_isinstance(real, type) and issubclass(real, np.generic):
            abstract = real in (np.generic, np.number, np.integer, np.inexact,
                                np.floating, np.signedinteger, np.unsignedinteger,
                                np.complexfloating, np.flexible, np.character)
            v = _mk_nptype(real, not abstract)
        elif _real_isinstance(real, np.ufunc):
            v = _Ufunc(real)
        elif _real_isinstance(real, (types.FunctionType, types.BuiltinFunctionType)):
            v = _wrap_real(real)
        elif real is np.dtype:
            v = dt_shim
        else:
            v = real
        self.__dict__[name] = v
        return v


class _Linalg:
    def __getattr__(self, name):
        real = getattr(np.linalg, name)
        if name == 'norm':
            def norm(x, ord=None, axis=None):
                if has_sym(x):
                    raise Unsupported("linalg.norm")
                return real(np.asarray(x), ord, axis)
            return norm
        return _wrap_real(real) if callable(real) and not _real_isinstance(real, type) else real


class _DtMeta(type):
    def __instancecheck__(cls, x):
        return _real_isinstance(x, np.dtype)

    def __call__(cls, x, *a, **k):
        return dt_of(x) if not a and not k else np.dtype(x, *a, **k)


class dt_shim(metaclass=_DtMeta):
    pass


def _conc_sym_arrays(x):
    """real numpy results stay real; nothing symbolic inside"""
    return x


def _wrap_real(real):
    def f(*args, **kw):
        args = tuple(a.__symarray__() if hasattr(a, '__symarray__') and not
                     _real_isinstance(a, SymArray) else a for a in args)
        args = tuple(getattr(a, 'real', a) if _real_isinstance(a, type) else a for a in args)
        if 'dtype' in kw:
            kw['dtype'] = dt_of(kw['dtype'])
        if has_sym(args) or has_sym(tuple(kw.values())):
            if all(_all_conc(a) for a in args) and all(_all_conc(v) for v in kw.values()):
                r = real(*[_lower(a) for a in args], **{k: _lower(v) for k, v in kw.items()})
                return _up(r)
            return _obj_fallback(real, args, kw)
        return _up(real(*args, **kw))
    f.__name__ = getattr(real, '__name__', 'f')
    return f


def _up(r):
    if _real_isinstance(r, np.ndarray) and r.dtype.kind in 'biuf' and r.size <= BIG:
        return asarr(r)
    if type(r) in (tuple, list):
        return type(r)(_up(i) for i in r)
    return r


def _all_conc(x):
    if _real_isinstance(x, (SV, SymBool)):
        return False
    if _real_isinstance(x, SymArray):
        return not any(is_term(i) for i in x.a.flat)
    if _real_isinstance(x, (list, tuple)):
        return all(_all_conc(i) for i in x)
    return True


def _lower(x):
    if _real_isinstance(x, SymArray):
        return np.asarray(x)
    if type(x) in (list, tuple):
        return type(x)(_lower(i) for i in x)
    return x


numpy_shim = NumpyShim()
