"""Symbolic numpy arrays: concrete shape, possibly symbolic elements."""
import builtins
import operator
import warnings

import numpy as np
import z3

from .engine import Unsupported, cur
from . import values as V
from .values import (BOOL, F64, INTP, PYF, SV, SymBool, cast_raw, is_boolish,
                     is_term, mk, num, raw_cmp, raw_not, raw_op, result_dtype,
                     truth, unwrap)

OBJ = np.dtype(object)


def is_arraylike(x):
    return isinstance(x, (SymArray, np.ndarray))


def has_sym(x, depth=3):
    if isinstance(x, (SV, SymBool, SymArray)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, slice):
        return has_sym((x.start, x.stop, x.step), depth - 1)
    if isinstance(x, np.ndarray) and x.dtype == OBJ:
        return any(isinstance(i, (SV, SymBool)) for i in x.flat)
    return False


def obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def fill_obj(shape, x):
    a = np.empty(shape, dtype=object)
    if is_term(x):
        flat = a.reshape(-1)
        for i in range(flat.size):
            flat[i] = x
    else:
        a[...] = x
    return a


def emap(f, *arrs):
    """elementwise map on object ndarrays with broadcasting"""
    if len(arrs) == 1:
        src = arrs[0]
        out = np.empty(src.shape, dtype=object)
        fo = out.reshape(-1)
        for i, x in enumerate(src.flat):
            fo[i] = f(x)
        return out
    bc = np.broadcast_arrays(*arrs)
    out = np.empty(bc[0].shape, dtype=object)
    fo = out.reshape(-1)
    for i, xs in enumerate(zip(*(b.flat for b in bc))):
        fo[i] = f(*xs)
    return out


_SAMPLE_CACHE = {}


def _elem_sample(x):
    """A concrete stand-in with the same numpy type behaviour"""
    if isinstance(x, (SV, SymBool)):
        if x.dt is None:
            if z3.is_bool(x.t):
                return True
            lo, hi = V.bounds(x.t)
            if lo is not None and hi is not None and -2 ** 63 <= lo and hi < 2 ** 63:
                return 1
            if cur().fork(z3.And(x.t >= -2 ** 63, x.t < 2 ** 63)):
                return 1
            if cur().fork(z3.And(x.t >= 0, x.t < 2 ** 64)):
                return 2 ** 63
            return 2 ** 70
        if x.dt is PYF:
            return 1.0
        return x.dt.type(1)
    return x


def asarr(x, dtype=None, copy=False):
    """Anything -> SymArray"""
    if dtype is not None:
        dtype = np.dtype(dtype)
    if isinstance(x, SymArray):
        if dtype is not None and dtype != x.dtype:
            return x.astype(dtype)
        return x.copy() if copy else x
    if hasattr(x, '__symarray__'):
        return asarr(x.__symarray__(), dtype)
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ and has_sym(x):
            return asarr_list(x.tolist(), dtype, shape=x.shape)
        if x.dtype.kind in 'biuf':
            r = SymArray(x.astype(object), x.dtype)
        elif x.dtype.kind in 'SUOMm':
            r = SymArray(x.astype(object), x.dtype)
        else:
            raise Unsupported("array dtype %s" % x.dtype)
        return r.astype(dtype) if dtype is not None and dtype != r.dtype else r
    if isinstance(x, (SV, SymBool)) or np.isscalar(x) or x is None:
        u = unwrap(x)
        if u is None:
            a = np.asarray(x, dtype=dtype)
            return SymArray(a.astype(object), a.dtype)
        raw, dt = u
        d = np.asarray(_elem_sample(x)).dtype if isinstance(x, (SV, SymBool)) \
            else np.asarray(x).dtype
        if dtype is None:
            dtype = d
        return SymArray(obj0(cast_raw(raw, dtype)), dtype)
    if hasattr(x, '__iter__') or hasattr(x, '__len__'):
        return asarr_list(x, dtype)
    a = np.asarray(x, dtype=dtype)
    return SymArray(a.astype(object), a.dtype)


def asarr_list(x, dtype=None, shape=None):
    if not isinstance(x, (list, tuple)):
        if isinstance(x, (set, frozenset, dict)) or not hasattr(x, '__getitem__'):
            # numpy makes a 0-d object array of sets and iterators
            a = np.empty((), dtype=object)
            a[()] = x
            if dtype is not None and dtype != OBJ:
                raise TypeError("int() argument must be a string, a bytes-like "
                                "object or a real number, not %r"
                                % type(x).__name__)
            return SymArray(a, OBJ)
        x = list(x)
    shp, flat = [], []

    def walk(v, depth):
        if isinstance(v, SymArray) or isinstance(v, np.ndarray):
            sub = asarr(v)
            for i, d in enumerate(sub.shape):
                note(depth + i, d)
            if sub.ndim == 0:
                flat.append(sub[()])
            else:
                flat.extend(mk(r, sub.dtype) for r in sub.a.flat)
            return depth + sub.ndim
        if isinstance(v, (list, tuple, range)) or (
                hasattr(v, '__symarray__')):
            if hasattr(v, '__symarray__'):
                return walk(v.__symarray__(), depth)
            note(depth, len(v))
            d = depth + 1
            for i in v:
                d = walk(i, depth + 1)
            return d
        flat.append(v)
        return depth

    def note(depth, n):
        if len(shp) <= depth:
            shp.append(n)
        elif shp[depth] != n:
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
    walk(x, 0)
    if int(np.prod(shp)) != len(flat):
        raise ValueError("setting an array element with a sequence. The "
                         "requested array has an inhomogeneous shape")
    if dtype is None:
        if not flat:
            dtype = F64
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                dtype = np.array([_elem_sample(v) for v in flat]).dtype
    if dtype == OBJ:
        arr = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            arr[i] = v
        return SymArray(arr.reshape(shape if shape is not None else shp), OBJ)
    arr = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        u = unwrap(v)
        if u is None:
            arr[i] = np.array([v]).astype(dtype)[0].item() \
                if dtype.kind not in 'SU' else v
        else:
            arr[i] = cast_raw(u[0], dtype)
    return SymArray(arr.reshape(shape if shape is not None else shp), dtype)


# ------------------------------------------------------------------ indices
def clamp_bound(v, n, default, step_neg=False):
    """slice bound -> concrete int in range, forking as needed"""
    if v is None:
        return None
    if isinstance(v, (SV, SymBool)):
        if V.isfloat_dt(v.dt):
            raise TypeError("slice indices must be integers or None or have an "
                            "__index__ method")
        if isinstance(v, SymBool):
            return int(v)
        t = v.t
        if truth(raw_cmp('ge', t, n)):
            return n
        if truth(raw_cmp('lt', t, 0)):
            t2 = t + n
            if truth(raw_cmp('lt', t2, 0)):
                return -n - 1 if n else -1
            return cur().concretise(t, why='slice bound')
        return cur().concretise(t, why='slice bound')
    if isinstance(v, SymArray) and v.ndim == 0:
        return clamp_bound(v[()], n, default)
    return v


def norm_slice(s, n):
    return slice(clamp_bound(s.start, n, 0), clamp_bound(s.stop, n, n),
                 s.step if not isinstance(s.step, (SV, SymBool))
                 else s.step.__index__())


def conc_index(k):
    if isinstance(k, (SV, SymBool)):
        if V.isfloat_dt(k.dt):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        if isinstance(k, SymBool):
            return bool(k)
        return k
    return k


def sym_int_index(k, n):
    """Symbolic scalar index into an axis of length n -> concrete int"""
    t = k.t
    if truth(raw_cmp('ge', t, n)) or truth(raw_cmp('lt', t, -n)):
        raise IndexError("index is out of bounds for axis with size %d" % n)
    return cur().concretise(t, limit=n * 2 + 2, why='array index')


def conc_bools(arr):
    out = np.empty(arr.shape, dtype=bool)
    fo = out.reshape(-1)
    for i, x in enumerate(arr.a.flat):
        fo[i] = truth(x)
    return out


def conc_ints(arr, why='index array'):
    out = np.empty(arr.shape, dtype=np.intp)
    fo = out.reshape(-1)
    for i, x in enumerate(arr.a.flat):
        x = num(x)
        fo[i] = x if not is_term(x) else cur().concretise(x, why=why)
    return out


def prep_key(key, shape):
    """index expression -> concrete numpy index expression"""
    tup = key if isinstance(key, tuple) else (key,)
    n_ax = 0
    for k in tup:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (SymArray, np.ndarray)) and k.dtype.kind == 'b':
            n_ax += k.ndim
        else:
            n_ax += 1
    out = []
    ax = 0
    for k in tup:
        if hasattr(k, '__symarray__'):
            k = k.__symarray__()
        if k is None:
            out.append(k)
            continue
        if k is Ellipsis:
            out.append(k)
            ax += len(shape) - n_ax
            continue
        n = shape[ax] if 0 <= ax < len(shape) else 0
        if isinstance(k, slice):
            out.append(norm_slice(k, n))
            ax += 1
        elif isinstance(k, (SV, SymBool)):
            k = conc_index(k)
            out.append(sym_int_index(k, n) if isinstance(k, SV) else k)
            ax += 1
        elif isinstance(k, SymArray):
            if k.dtype.kind == 'b':
                out.append(conc_bools(k))
                ax += k.ndim
            elif k.dtype.kind in 'iu':
                out.append(conc_ints(k) if k.ndim else int(conc_ints(k)))
                ax += 1
            else:
                if k.size == 0 and False:
                    pass
                raise IndexError("arrays used as indices must be of integer "
                                 "(or boolean) type")
        elif isinstance(k, (list, tuple)) and has_sym(k):
            k = asarr(k)
            out.append(conc_bools(k) if k.dtype.kind == 'b' else conc_ints(k))
            ax += 1
        else:
            out.append(k)
            ax += 1
    return tuple(out) if isinstance(key, tuple) else out[0]


# ------------------------------------------------------------------ SymArray
class SymArray:
    __array_priority__ = 1e5
    __hash__ = None

    def __init__(self, a, dtype):
        if not isinstance(a, np.ndarray):
            a = obj0(a)
        self.a = a
        self._dt = np.dtype(dtype)

    # -- attributes --
    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a = self.a.reshape(tuple(operator.index(i) for i in s)
                                if isinstance(s, (tuple, list)) else s)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self._dt.itemsize * self.size

    @property
    def T(self):
        return SymArray(self.a.T, self._dt)

    @property
    def flat(self):
        return iter([mk(r, self._dt) for r in self.a.flat])

    @property
    def base(self):
        return None

    @property
    def strides(self):
        return tuple(s // self.a.itemsize * self._dt.itemsize
                     for s in self.a.strides)

    @property
    def flags(self):
        return self.a.flags

    @property
    def real(self):
        return self

    @property
    def data(self):
        return SymBuffer(self)

    def __symarray__(self):
        return self

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self._wrap(self.a[i]) if self.ndim > 1 else mk(self.a[i], self._dt)

    def _wrap(self, r):
        return SymArray(r, self._dt)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        k = prep_key(key, self.shape)
        # element or sub-array?
        r = self.a[k]
        if isinstance(r, np.ndarray):
            return SymArray(r, self._dt)
        return mk(r, self._dt)

    def __setitem__(self, key, value):
        k = prep_key(key, self.shape)
        v = asarr(value)
        vv = emap(lambda x: cast_raw(x, self._dt), v.a) if v.dtype != self._dt \
            or self._dt.kind == 'f' else v.a
        tgt = self.a[k]
        if not isinstance(tgt, np.ndarray):
            if vv.size != 1:
                raise ValueError("setting an array element with a sequence.")
            vv = vv.reshape(())[()]
            self.a[k] = vv
            return
        if vv.ndim == 0:
            x = vv[()]
            self.a[k] = fill_obj(tgt.shape, x)
        else:
            # numpy allows leading 1s to be dropped
            while vv.ndim > tgt.ndim and vv.shape[0] == 1:
                vv = vv[0]
            self.a[k] = np.broadcast_to(vv, tgt.shape)

    def __contains__(self, x):
        return builtins.bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return truth(self.a.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def _single(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python "
                            "scalars")
        return mk(self.a.reshape(-1)[0], self._dt)

    def __int__(self):
        return int(self._single())

    def __float__(self):
        return float(self._single())

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a "
                            "scalar index")
        return self._single().__index__()

    def __array__(self, dtype=None):
        # Leaving the symbolic world: concretise every element
        out = np.empty(self.shape, dtype=self._dt)
        fo = out.reshape(-1)
        for i, x in enumerate(self.a.flat):
            fo[i] = x if not is_term(x) else _conc_elem(x)
        return out.astype(dtype) if dtype is not None else out

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from .npshim import dispatch_function
        return dispatch_function(func, args, kwargs)

    # -- operators --
    def _b(self, op, o, rev=False):
        if not _operand(o):
            return NotImplemented
        return arr_binop(op, o, self) if rev else arr_binop(op, self, o)

    def _ib(self, op, o):
        r = arr_binop(op, self, o)
        if r.dtype != self._dt and not np.can_cast(r.dtype, self._dt, 'same_kind'):
            raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to "
                            "dtype('%s') with casting rule 'same_kind'"
                            % (op, r.dtype, self._dt))
        r = r.astype(self._dt) if r.dtype != self._dt else r
        if r.shape != self.shape:
            raise ValueError("non-broadcastable output operand")
        self.a[...] = r.a
        return self

    def __add__(self, o): return self._b('add', o)
    def __radd__(self, o): return self._b('add', o, True)
    def __sub__(self, o): return self._b('sub', o)
    def __rsub__(self, o): return self._b('sub', o, True)
    def __mul__(self, o): return self._b('mul', o)
    def __rmul__(self, o): return self._b('mul', o, True)
    def __truediv__(self, o): return self._b('truediv', o)
    def __rtruediv__(self, o): return self._b('truediv', o, True)
    def __floordiv__(self, o): return self._b('floordiv', o)
    def __rfloordiv__(self, o): return self._b('floordiv', o, True)
    def __mod__(self, o): return self._b('mod', o)
    def __rmod__(self, o): return self._b('mod', o, True)
    def __pow__(self, o): return self._b('pow', o)
    def __and__(self, o): return self._b('and', o)
    def __rand__(self, o): return self._b('and', o, True)
    def __or__(self, o): return self._b('or', o)
    def __ror__(self, o): return self._b('or', o, True)
    def __xor__(self, o): return self._b('xor', o)
    def __iadd__(self, o): return self._ib('add', o)
    def __isub__(self, o): return self._ib('sub', o)
    def __imul__(self, o): return self._ib('mul', o)
    def __itruediv__(self, o): return self._ib('truediv', o)
    def __ifloordiv__(self, o): return self._ib('floordiv', o)
    def __imod__(self, o): return self._ib('mod', o)
    def __iand__(self, o): return self._ib('and', o)
    def __ior__(self, o): return self._ib('or', o)

    def __matmul__(self, o):
        return arr_matmul(self, o)

    def __rmatmul__(self, o):
        return arr_matmul(o, self)

    def __eq__(self, o): return arr_cmp('eq', self, o)
    def __ne__(self, o): return arr_cmp('ne', self, o)
    def __lt__(self, o): return arr_cmp('lt', self, o)
    def __le__(self, o): return arr_cmp('le', self, o)
    def __gt__(self, o): return arr_cmp('gt', self, o)
    def __ge__(self, o): return arr_cmp('ge', self, o)

    def __invert__(self):
        if self._dt.kind == 'b':
            return SymArray(emap(raw_not, self.a), BOOL)
        return arr_binop('sub', -1, self) if self._dt.kind == 'i' else \
            arr_binop('xor', self, self._dt.type(np.iinfo(self._dt).max))

    def __neg__(self):
        return SymArray(emap(lambda x: raw_op('sub', 0, x, self._dt), self.a), self._dt)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return SymArray(emap(lambda x: _abs(x, self._dt), self.a), self._dt)

    # -- methods --
    def astype(self, dtype, order=None, casting=None, subok=None, copy=True):
        dt = np.dtype(dtype)
        if dt.kind == 'U' and self._dt.kind in 'iufb':
            return SymArray(emap(lambda x: str(mk(x, self._dt)), self.a), np.dtype('U32'))
        if dt.kind in 'SU' or self._dt.kind in 'SUO' and dt.kind == 'O':
            return SymArray(self.a.copy(), dt)
        if dt == self._dt:
            return self.copy()
        if self._dt.kind == 'O':
            def f(x):
                u = unwrap(x)
                return cast_raw(u[0], dt) if u else np.array(x).astype(dt).item()
            return SymArray(emap(f, self.a), dt)
        return SymArray(emap(lambda x: cast_raw(x, dt), self.a), dt)

    def view(self, dtype=None, *a):
        if dtype is None:
            return SymArray(self.a, self._dt)
        dt = np.dtype(dtype)
        if dt == self._dt:
            return SymArray(self.a, dt)
        if dt.kind in 'iu' and self._dt.kind in 'iu' and dt.itemsize == self._dt.itemsize:
            return SymArray(emap(lambda x: V.wrap(x, dt), self.a), dt)
        raise Unsupported("view")

    def copy(self, order='C'):
        return SymArray(self.a.copy(), self._dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(i) for i in x]
            return mk(x, PYF if self._dt.kind == 'f' else
                      (None if self._dt.kind in 'iub' else OBJ))
        if self.ndim == 0:
            return conv(self.a[()])
        return [conv(x) for x in self.a.tolist()]

    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]].item()
        return self._single().item()

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return SymArray(self.a.reshape(tuple(operator.index(i) for i in shape)),
                        self._dt)

    def ravel(self, order='C'):
        return SymArray(self.a.ravel(), self._dt)

    def flatten(self, order='C'):
        return SymArray(self.a.flatten(), self._dt)

    def transpose(self, *axes):
        if len(axes) == 1 and (isinstance(axes[0], (tuple, list)) or axes[0] is None):
            axes = axes[0]
        return SymArray(self.a.transpose(axes) if axes else self.a.transpose(),
                        self._dt)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self._dt)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self._dt)

    def repeat(self, n, axis=None):
        from . import npshim
        return npshim.repeat(self, n, axis)

    def compress(self, condition, axis=None):
        from . import npshim
        return npshim.compress(condition, self, axis)

    def take(self, ix, axis=None, **kw):
        from . import npshim
        return npshim.take(self, ix, axis)

    def nonzero(self):
        b = conc_bools(self)
        return tuple(asarr(i) for i in b.nonzero())

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1, kind=None):
        self.a[...] = sort_arr(self, axis).a

    def argsort(self, axis=-1, kind=None):
        return argsort_arr(self, axis)

    def searchsorted(self, v, side='left', sorter=None):
        from . import npshim
        return npshim.searchsorted(self, v, side, sorter)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_arr('sum', self, axis, dtype, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_arr('prod', self, axis, dtype, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        s = reduce_arr('sum', self, axis, F64, keepdims)
        n = self.size if axis is None else int(np.prod(
            [self.shape[i] for i in ((axis,) if isinstance(axis, int) else axis)]))
        return s / float(n)

    def any(self, axis=None, out=None, keepdims=False):
        return reduce_arr('any', self, axis, None, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return reduce_arr('all', self, axis, None, keepdims)

    def min(self, axis=None, out=None, keepdims=False, initial=None):
        if initial is not None:
            from . import npshim
            if axis is not None and self.ndim > 1 or keepdims:
                raise Unsupported("min with initial")
            return npshim.concatenate([self.ravel(), npshim.asarr([initial]).astype(self.dtype)]).min()
        return reduce_arr('min', self, axis, None, keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None):
        if initial is not None:
            from . import npshim
            if axis is not None and self.ndim > 1 or keepdims:
                raise Unsupported("max with initial")
            return npshim.concatenate([self.ravel(), npshim.asarr([initial]).astype(self.dtype)]).max()
        return reduce_arr('max', self, axis, None, keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum_arr(self, axis, dtype)

    def argmax(self, axis=None):
        return arg_extreme(self, axis, 'gt')

    def argmin(self, axis=None):
        return arg_extreme(self, axis, 'lt')

    def round(self, decimals=0, out=None):
        from . import npshim
        return npshim.around(self, decimals)

    def clip(self, lo=None, hi=None, out=None):
        r = self
        if lo is not None:
            r = arr_binop('max', r, lo)
        if hi is not None:
            r = arr_binop('min', r, hi)
        return r

    def dot(self, o):
        return arr_matmul(self, o)

    def tobytes(self, order='C'):
        return SymBuffer(self)

    def __repr__(self):
        return 'SymArray(%s, dtype=%s)' % (
            ', '.join(str(mk(r, self._dt)) for r in self.a.flat), self._dt)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


class SymBuffer:
    """memory of an array, as handed to a serialiser"""
    def __init__(self, arr):
        self.arr = arr

    def __len__(self):
        return len(self.arr)

    @property
    def nbytes(self):
        return self.arr.nbytes


def _conc_elem(x):
    if z3.is_bool(x):
        return truth(x)
    v = cur().concretise(x, limit=6, why='array leaves the symbolic world')
    if is_term(v):
        return float(v.as_fraction())
    return v


def _abs(x, dt):
    if not is_term(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def _operand(o):
    return isinstance(o, (SymArray, np.ndarray, SV, SymBool, int, float,
                          np.generic, list, tuple)) or hasattr(o, '__symarray__')


def _split(o):
    """operand -> (object ndarray, dt, is_array)"""
    if isinstance(o, SymArray):
        return o.a, o.dtype, o.ndim > 0
    if isinstance(o, (SV, SymBool)):
        return obj0(o.t), o.dt, False
    u = unwrap(o) if not isinstance(o, np.ndarray) else None
    if u is not None:
        return obj0(u[0]), u[1], False
    a = asarr(o)
    return a.a, a.dtype, a.ndim > 0


def arr_binop(op, x, y):
    ax, dx, fx = _split(x)
    ay, dy, fy = _split(y)
    if dx is not None and dx is not PYF and dx.kind in 'SUO' or \
            dy is not None and dy is not PYF and dy.kind in 'SUO':
        f = getattr(operator, op)
        return SymArray(emap(f, ax, ay), OBJ)
    if not fx and not fy and ax.ndim == 0 and ay.ndim == 0 and not (
            isinstance(x, (SymArray, np.ndarray)) or isinstance(y, (SymArray, np.ndarray))):
        rdt = result_dtype(op, ax[()], dx, False, ay[()], dy, False)
    else:
        # symbolic Python int meeting an array: dtype may depend on its size
        rx = ax.reshape(-1)[0] if (dx is None and ax.size) else None
        ry = ay.reshape(-1)[0] if (dy is None and ay.size) else None
        rdt = result_dtype(op, rx if rx is not None else 1, dx, fx,
                           ry if ry is not None else 1, dy, fy)
        if rdt is None or rdt is PYF:
            rdt = INTP if rdt is None else F64
    res = emap(lambda a, b: raw_op(op, a, b, rdt, dx, dy), ax, ay)
    if res.ndim == 0:
        return mk(res[()], rdt)
    return SymArray(res, rdt)


def arr_cmp(op, x, y):
    if not _operand(y) and not isinstance(y, (bytes, str)):
        if y is None:
            return SymArray(fill_obj(x.shape, op == 'ne'), BOOL)
        return NotImplemented
    ax, dx, fx = _split(x)
    ay, dy, fy = _split(y)
    try:
        np.broadcast_shapes(ax.shape, ay.shape)
    except ValueError:
        if op in ('eq', 'ne'):
            raise ValueError("operands could not be broadcast together")
        raise
    res = emap(lambda a, b: raw_cmp(op, a, b, dx, dy), ax, ay)
    if res.ndim == 0:
        return mk(res[()], BOOL)
    return SymArray(res, BOOL)


def arr_matmul(x, y):
    x, y = asarr(x), asarr(y)
    if x.ndim == 1 and y.ndim == 1:
        return (x * y).sum()
    if x.ndim == 2 and y.ndim == 1:
        return asarr([(x[i] * y).sum() for i in range(x.shape[0])])
    if x.ndim == 1 and y.ndim == 2:
        return asarr([(x * y[:, j]).sum() for j in range(y.shape[1])])
    if x.ndim == 2 and y.ndim == 2:
        return asarr([[(x[i] * y[:, j]).sum() for j in range(y.shape[1])]
                      for i in range(x.shape[0])])
    raise Unsupported("matmul ndim")


# ---------------------------------------------------------------- reductions
def _axis_reduce(f, a, axis, keepdims, empty):
    if axis is None:
        flat = list(a.flat)
        r = f(flat) if flat else empty()
        out = obj0(r)
        if keepdims:
            out = out.reshape((1,) * a.ndim)
        return out
    if isinstance(axis, (tuple, list)):
        axes = sorted((ax % a.ndim for ax in axis), reverse=True)
        keep = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(keep + sorted(axes))
        b = b.reshape([a.shape[i] for i in keep] + [-1]) if b.size or True else b
        r = _axis_reduce(f, b, b.ndim - 1, False, empty)
        if keepdims:
            r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return r
    axis = operator.index(axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.AxisError(axis, a.ndim)
    axis %= a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        row = list(b[ix])
        out[ix] = f(row) if row else empty()
    if keepdims:
        out = np.expand_dims(out, axis)
    return out


def reduce_arr(kind, x, axis=None, dtype=None, keepdims=False):
    x = asarr(x)
    dt = x.dtype
    if kind in ('sum', 'prod'):
        if dtype is None:
            rdt = np.add.reduce(np.ones(1, dt)).dtype if dt.kind != 'O' else OBJ
        else:
            rdt = np.dtype(dtype)
        if dt.kind == 'O':
            vals = emap(lambda v: unwrap(v)[0], x.a)
            rdt = F64
        else:
            vals = x.a
        op = 'add' if kind == 'sum' else 'mul'
        start = 0 if kind == 'sum' else 1
        if rdt.kind in 'iu':
            def f(row):
                tot = start
                terms = []
                for v in row:
                    v = cast_raw(v, rdt)
                    if kind == 'sum':
                        if is_term(v):
                            terms.append(v)
                        else:
                            tot += v
                    else:
                        tot = raw_op('mul', tot, v, rdt)
                if terms:
                    if tot:
                        terms.append(z3.IntVal(tot))
                    tot = terms[0] if len(terms) == 1 else z3.Sum(terms)
                return V.wrap(tot, rdt) if kind == 'sum' else tot
        else:
            def f(row):
                tot = cast_raw(start, rdt)
                for v in row:
                    tot = raw_op(op, tot, v, rdt)
                return tot
        r = _axis_reduce(f, vals, axis, keepdims, lambda: cast_raw(start, rdt))
    elif kind in ('any', 'all'):
        rdt = BOOL

        def f(row):
            row = [cast_raw(v, BOOL) for v in row]
            acc = kind == 'all'
            for v in row:
                acc = V.bool_op('and' if kind == 'all' else 'or', acc, v)
            return acc
        r = _axis_reduce(f, x.a, axis, keepdims, lambda: kind == 'all')
    else:
        rdt = dt

        def f(row):
            acc = row[0]
            for v in row[1:]:
                acc = raw_op(kind, acc, v, dt)
            return acc

        def empty():
            raise ValueError("zero-size array to reduction operation %simum "
                             "which has no identity" % kind)
        r = _axis_reduce(f, x.a, axis, keepdims, empty)
    if r.ndim == 0:
        return mk(r[()], rdt)
    return SymArray(r, rdt)


def cumsum_arr(x, axis=None, dtype=None):
    x = asarr(x)
    rdt = np.dtype(dtype) if dtype is not None else np.cumsum(np.ones(1, x.dtype)).dtype
    a = x.a.reshape(-1) if axis is None else x.a
    ax = 0 if axis is None else axis
    b = np.moveaxis(a, ax, 0)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[1:]):
        tot = 0
        for i in range(b.shape[0]):
            tot = raw_op('add', tot, b[(i,) + ix], rdt)
            out[(i,) + ix] = tot
    return SymArray(np.moveaxis(out, 0, ax), rdt)


def arg_extreme(x, axis, op):
    a = x.a
    if axis is not None and x.ndim > 1:
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for ix in np.ndindex(*b.shape[:-1]):
            out[ix] = _argx(list(b[ix]), op)
        return SymArray(out, INTP)
    return np.intp(_argx(list(a.flat), op))


def _argx(row, op):
    if not row:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, len(row)):
        if truth(raw_cmp(op, row[i], row[best])):
            best = i
    return best


def _sorted_ix(row):
    """stable insertion sort deciding comparisons symbolically"""
    order = []
    for i, x in enumerate(row):
        j = len(order)
        while j > 0 and truth(raw_cmp('lt', x, row[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return order


def argsort_arr(x, axis=-1):
    if x.ndim == 1:
        return asarr(np.array(_sorted_ix(list(x.a)), dtype=np.intp))
    raise Unsupported("argsort nd")


def sort_arr(x, axis=-1):
    if axis is None:
        x = x.ravel()
        axis = 0
    b = np.moveaxis(x.a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        row = list(b[ix])
        for j, i in enumerate(_sorted_ix(row)):
            out[ix + (j,)] = row[i]
    return SymArray(np.moveaxis(out, -1, axis), x.dtype)


# -------------------------------------------------------------- ufuncs
_UF = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'truediv',
       'true_divide': 'truediv', 'floor_divide': 'floordiv', 'remainder': 'mod',
       'mod': 'mod', 'power': 'pow', 'maximum': 'max', 'minimum': 'min',
       'fmax': 'max', 'fmin': 'min', 'bitwise_and': 'and', 'bitwise_or': 'or',
       'bitwise_xor': 'xor', 'left_shift': 'lshift', 'right_shift': 'rshift'}
_UC = {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt', 'less_equal': 'le',
       'greater': 'gt', 'greater_equal': 'ge'}


def un_elem(f, x, dt=None):
    ax, dx, _ = _split(x)
    r = emap(f, ax)
    d = dt if dt is not None else dx
    if r.ndim == 0:
        return mk(r[()], d)
    return SymArray(r, d)


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    kwargs.pop('casting', None)
    dtype = kwargs.pop('dtype', None)
    if method == '__call__':
        where = kwargs.pop('where', True)
        if where is not True:
            raise Unsupported("ufunc where=")
        r = call_ufunc(name, ufunc, inputs)
        if dtype is not None:
            r = r.astype(dtype)
    elif method in ('reduce',):
        x = asarr(inputs[0])
        if x.ndim == 1 and x.size and (name not in (
                'add', 'multiply', 'logical_or', 'logical_and', 'maximum', 'minimum') and
                not (x.dtype == BOOL and name in ('bitwise_or', 'bitwise_and'))):
            r = x[0]
            for i in range(1, x.size):
                r = call_ufunc(name, ufunc, (r, x[i]))
            return r
        kind = {'add': 'sum', 'multiply': 'prod', 'logical_or': 'any',
                'logical_and': 'all', 'maximum': 'max', 'minimum': 'min',
                'bitwise_or': 'any', 'bitwise_and': 'all'}.get(name)
        if kind is None:
            raise Unsupported("ufunc.reduce %s" % name)
        r = reduce_arr(kind, inputs[0], kwargs.get('axis', 0), dtype,
                       kwargs.get('keepdims', False))
    elif method == 'accumulate' and name != 'add' and asarr(inputs[0]).ndim == 1 and dtype is None:
        x = asarr(inputs[0])
        out_, r = [], None
        for i in range(x.size):
            r = x[i] if r is None else call_ufunc(name, ufunc, (r, x[i]))
            out_.append(r)
        r = asarr(out_) if out_ else x
    elif method == 'accumulate' and name == 'add':
        r = cumsum_arr(inputs[0], kwargs.get('axis', 0), dtype)
    elif method == 'outer':
        x, y = asarr(inputs[0]), asarr(inputs[1])
        r = call_ufunc(name, ufunc, (x.reshape(x.shape + (1,) * y.ndim), y))
    else:
        raise Unsupported("ufunc.%s" % method)
    if out is not None:
        tgt = out[0] if isinstance(out, tuple) else out
        tgt[...] = r
        return tgt
    return r


def call_ufunc(name, ufunc, inputs):
    if name in _UF:
        return arr_binop(_UF[name], *inputs)
    if name in _UC:
        return arr_cmp(_UC[name], *inputs)
    if name in ('logical_and', 'logical_or', 'logical_xor'):
        x = un_elem(lambda v: cast_raw(v, BOOL), inputs[0], BOOL)
        y = un_elem(lambda v: cast_raw(v, BOOL), inputs[1], BOOL)
        return arr_binop(name[8:], x, y)
    x = inputs[0]
    if name == 'logical_not':
        return un_elem(lambda v: raw_not(cast_raw(v, BOOL)), x, BOOL)
    if name == 'invert':
        return ~asarr(x) if not isinstance(x, (SV, SymBool)) else ~x
    if name == 'negative':
        return -asarr(x) if not isinstance(x, (SV, SymBool)) else -x
    if name in ('absolute', 'fabs'):
        ax, dx, _ = _split(x)
        return un_elem(lambda v: _abs(v, dx), x)
    if name == 'isnan':
        return un_elem(lambda v: (not is_term(v)) and bool(np.isnan(v)), x, BOOL)
    if name == 'isinf':
        return un_elem(lambda v: (not is_term(v)) and bool(np.isinf(v)), x, BOOL)
    if name == 'isfinite':
        return un_elem(lambda v: is_term(v) or bool(np.isfinite(v)), x, BOOL)
    if name in ('floor', 'ceil', 'rint', 'trunc'):
        def f(v):
            if not is_term(v):
                return float(getattr(np, name)(v))
            if z3.is_int(v):
                return v
            if name == 'floor':
                return z3.ToReal(z3.ToInt(v))
            if name == 'ceil':
                return -z3.ToReal(z3.ToInt(-v))
            if name == 'trunc':
                return z3.ToReal(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
            return z3.ToReal(round_half_even(v))
        ax, dx, _ = _split(x)
        d = dx if V.isfloat_dt(dx) else F64
        return un_elem(f, x, F64 if d is PYF else d)
    if name == 'square':
        return arr_binop('mul', x, x)
    if name == 'sqrt':
        raise Unsupported("sqrt")
    if name == 'positive':
        return x
    if name == 'sign':
        ax, dx, _ = _split(x)
        return un_elem(lambda v: int(np.sign(v)) if not is_term(v) else
                       z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0))), x)
    raise Unsupported("ufunc %s" % name)


def round_half_even(v):
    f = z3.ToInt(v)
    r = v - z3.ToReal(f)
    h = z3.Q(1, 2)
    return z3.If(r < h, f, z3.If(r > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
