"""pandas / xarray on symbolic values.

The real pandas and xarray run.  What they see instead of symbolic values:

* in *index* positions (coordinates, indexes, selections): integer *labels*
  chosen so that order and equality among labels is exactly that of the
  symbolic values on this path (decided by z3, forking where both outcomes are
  possible);
* in *data* positions: opaque handles in object arrays.

Results are lifted back.  Arithmetic on labels would be meaningless, so an
unknown label coming back makes the path undecided rather than wrong."""
import builtins
import types

import numpy as np
import z3

from . import arr as A
from . import values as V
from .arr import OBJ, SymArray, asarr
from .containers import SymDict, SymKeys, SymSet
from .engine import Unsupported, cur
from .values import PYF, SV, SymBool, cast_raw, is_term, mk, raw_cmp, truth

_isinstance = builtins.isinstance
SMALL = 2 ** 20
LO, HI = 2 ** 40, 2 ** 52


class _Table:
    def __init__(self):
        self.ents = []      # sorted [(label, raw)]
        self.by_id = {}
        self.by_label = {}


def _table():
    t = cur().path_state.get('labels')
    if t is None:
        t = cur().path_state['labels'] = _Table()
    return t


def label_of(raw):
    """raw int -> int label"""
    if not is_term(raw):
        if not _isinstance(raw, int) or raw < SMALL:
            return raw
    elif z3.is_real(raw) or z3.is_bool(raw):
        raise Unsupported("real-valued label")
    else:
        lo, hi = V.bounds(raw)
        if lo is None or lo < SMALL:
            if hi is not None and hi < SMALL or truth(raw_cmp('lt', raw, SMALL)):
                return cur().concretise(raw, why='small label')
    tb = _table()
    if is_term(raw):
        got = tb.by_id.get(raw.get_id())
        if got is not None:
            return got
    lo, hi = 0, len(tb.ents)
    while lo < hi:
        mid = (lo + hi) // 2
        lab, r = tb.ents[mid]
        if truth(raw_cmp('eq', raw, r)):
            if is_term(raw):
                tb.by_id[raw.get_id()] = lab
                cur().keep.append(raw)
            return lab
        if truth(raw_cmp('lt', raw, r)):
            hi = mid
        else:
            lo = mid + 1
    a = tb.ents[lo - 1][0] if lo else LO
    b = tb.ents[lo][0] if lo < len(tb.ents) else (
        HI if not tb.ents else min(HI, a + 2 ** 32))
    lab = (a + b) // 2
    if lab in (a, b):
        raise Unsupported("label space exhausted")
    tb.ents.insert(lo, (lab, raw))
    tb.by_label[lab] = raw
    if is_term(raw):
        tb.by_id[raw.get_id()] = lab
        cur().keep.append(raw)
    return lab


def raw_of(lab):
    if not LO <= lab <= HI:
        return lab
    tb = _table()
    if lab not in tb.by_label:
        raise Unsupported("arithmetic on labels inside pandas/xarray")
    return tb.by_label[lab]


# ------------------------------------------------------------------ lowering
def low_index(x):
    """value -> what real pandas/xarray sees, in an index position"""
    if _isinstance(x, PProxy):
        return x._r
    if _isinstance(x, (ClassProxy, ModProxy, FuncProxy)):
        return x._r
    if hasattr(x, '__symarray__'):
        x = x.__symarray__()
    if _isinstance(x, SymArray):
        if x.dtype.kind in 'iu':
            vals = [label_of(r) for r in x.a.flat]
            return np.array(vals, dtype=x.dtype).reshape(x.shape) if \
                x.dtype.itemsize == 8 else _narrow(vals, x)
        if x.dtype.kind == 'b':
            return A.conc_bools(x)
        if x.dtype.kind == 'f':
            if any(is_term(r) for r in x.a.flat):
                vals = [label_of(r) if is_term(r) and z3.is_int(r) else r for r in x.a.flat]
                return np.array(vals, dtype=float).reshape(x.shape)
            return x.a.astype(x.dtype)
        return x.a
    if _isinstance(x, SV):
        if V.isfloat_dt(x.dt):
            if z3.is_int(x.t):
                return float(label_of(x.t))
            raise Unsupported("real-valued label")
        lab = label_of(x.t)
        return lab if x.dt is None else x.dt.type(lab) if x.dt.itemsize == 8 else np.int64(lab)
    if _isinstance(x, SymBool):
        return bool(x)
    if _isinstance(x, bool):
        return x
    if _isinstance(x, int):
        return label_of(x)
    if _isinstance(x, np.integer):
        lab = label_of(int(x))
        return x if lab == int(x) else type(x)(lab)
    if _isinstance(x, np.ndarray):
        if x.dtype.kind in 'iu' and x.dtype.itemsize == 8:
            return np.array([label_of(int(i)) for i in x.flat], dtype=x.dtype).reshape(x.shape)
        return x
    return _low_struct(x, low_index)


def _narrow(vals, x):
    if any(v >= LO for v in vals):
        return np.array(vals, dtype=np.int64).reshape(x.shape)
    return np.array(vals, dtype=x.dtype).reshape(x.shape)


def _low_struct(x, f):
    if _isinstance(x, slice):
        return slice(f(x.start), f(x.stop), f(x.step))
    if type(x) in (list, tuple):
        return type(x)(f(i) for i in x)
    if _isinstance(x, dict):
        return {(low_index(k) if not _isinstance(k, str) else k): f(v)
                for k, v in x.items()}
    if _isinstance(x, (SymSet, set, frozenset)):
        return [f(i) for i in x] if any(A.has_sym(i) for i in x) else set(x)
    if _isinstance(x, SymKeys):
        return [f(i) for i in x]
    if type(x) in (map, filter, zip, types.GeneratorType):
        return [f(i) for i in x]
    if _isinstance(x, type) and hasattr(x, 'real') and _isinstance(getattr(x, 'real'), type):
        return x.real
    if hasattr(x, '_shim_of'):
        return x._shim_of
    if _isinstance(x, types.FunctionType) or _isinstance(x, types.MethodType):
        return _wrap_cb(x)
    if hasattr(x, 'real') and _isinstance(getattr(x, 'real', None), np.ufunc):
        return x.real
    return x


def _wrap_cb(fn):
    def cb(*args, **kw):
        return low_data(fn(*[lift(a) for a in args], **{k: lift(v) for k, v in kw.items()}))
    return cb


def low_data(x):
    """value -> data position"""
    if hasattr(x, '__symarray__') and not _isinstance(x, (PProxy, SymArray)):
        x = x.__symarray__()
    if _isinstance(x, SymArray):
        if x.dtype.kind in 'SUO':
            return x.a
        if not any(is_term(r) for r in x.a.flat):
            return x.a.astype(x.dtype)
        if x.dtype.kind == 'b':
            return A.conc_bools(x)
        if x.dtype.kind in 'iu':
            w = 0
            for r in x.a.flat:
                lo, hi = V.bounds(r)
                if lo is None or hi is None or hi - lo > 8:
                    w = 9
                    break
            if w == 0:
                return A.conc_ints(x, why='small data').astype(x.dtype)
        out = np.empty(x.shape, dtype=object)
        fo = out.reshape(-1)
        for i, r in enumerate(x.a.flat):
            fo[i] = SV(V.to_z3(r), x.dtype) if not (
                _isinstance(r, float) and r != r) else float('nan')
        return out
    if _isinstance(x, (SV, SymBool)):
        return x
    if _isinstance(x, (PProxy, ClassProxy, ModProxy, FuncProxy)):
        return x._r
    if type(x) is list and A.has_sym(x):
        return low_data(asarr(x))
    return _low_struct(x, low_data)


# ------------------------------------------------------------------- lifting
def lift_obj_array(r, owner):
    els = list(r.flat)
    num = all(_isinstance(e, (SV, SymBool, np.number, np.bool_, bool, int, float)) for e in els)
    if not els or not num:
        if any(_isinstance(e, tuple) for e in els):
            out = np.empty(r.shape, dtype=object)
            fo = out.reshape(-1)
            for i, e in enumerate(els):
                fo[i] = lift(e)
            return out
        return r
    dts = []
    nan = False
    for e in els:
        if _isinstance(e, float) and e != e:
            nan = True
        elif _isinstance(e, (SV, SymBool)):
            dts.append(np.dtype('i8') if e.dt is None else V.F64 if e.dt is PYF else e.dt)
        else:
            dts.append(np.asarray(e).dtype)
    if not dts:
        return asarr(r.astype(float))
    dt = np.result_type(*dts)
    if nan and dt.kind in 'iub':
        dt = np.dtype('f4') if owner == 'xarray' and dt.itemsize <= 2 else V.F64
    out = np.empty(r.shape, dtype=object)
    fo = out.reshape(-1)
    for i, e in enumerate(els):
        if _isinstance(e, (SV, SymBool)):
            t = e.t
            if is_term(t) and z3.is_int_value(t):
                t = t.as_long()
            fo[i] = cast_raw(t, dt)
        elif _isinstance(e, float) and e != e:
            fo[i] = e
        else:
            fo[i] = cast_raw(e.item() if _isinstance(e, np.generic) else e, dt)
    return SymArray(out, dt)


def lift(r, owner=None):
    if r is None or _isinstance(r, (str, bytes, bool, np.bool_, SV, SymBool, SymArray, PProxy)):
        return r
    if _isinstance(r, np.ndarray):
        k = r.dtype.kind
        if k == 'O':
            return lift_obj_array(r, owner)
        if k in 'iu':
            s = asarr(r)
            if r.dtype.itemsize == 8 and r.size and r.max() >= LO:
                return SymArray(A.emap(raw_of, s.a), r.dtype)
            return s
        if k == 'f':
            if r.size and np.nanmax(np.append(r, 0)) >= LO:
                return SymArray(A.emap(
                    lambda v: raw_of(int(v)) if v == v and LO <= v <= HI else v,
                    asarr(r).a), r.dtype)
            return asarr(r)
        if k == 'b':
            return asarr(r)
        return r
    if _isinstance(r, (int, np.integer)):
        v = int(r)
        if v >= LO:
            return mk(raw_of(v), r.dtype if _isinstance(r, np.integer) else None)
        return r
    if _isinstance(r, (float, np.floating)):
        v = float(r)
        if v == v and LO <= v <= HI:
            return mk(raw_of(int(v)), r.dtype if _isinstance(r, np.floating) else PYF)
        return r
    if type(r) in (list, tuple):
        return type(r)(lift(i, owner) for i in r)
    if type(r) is dict:
        d = SymDict()
        for k, v in r.items():
            d[lift(k, owner)] = lift(v, owner)
        return d
    if _isinstance(r, slice):
        return slice(lift(r.start), lift(r.stop), lift(r.step))
    mod = getattr(type(r), '__module__', '') or ''
    if _isinstance(r, types.ModuleType):
        if r.__name__.split('.')[0] in ('pandas', 'xarray'):
            return ModProxy(r)
        return r
    if _isinstance(r, type):
        if issubclass(r, BaseException):
            return r
        if (r.__module__ or '').split('.')[0] in ('pandas', 'xarray'):
            return ClassProxy(r)
        return r
    if callable(r) and _isinstance(r, (types.FunctionType, types.MethodType,
                                       types.BuiltinFunctionType)):
        return FuncProxy(r)
    if mod.split('.')[0] in ('pandas', 'xarray'):
        return PProxy(r)
    if _isinstance(r, types.GeneratorType) or type(r).__name__ in (
            'zip', 'map', 'list_iterator', 'tuple_iterator'):
        return (lift(i, owner) for i in r)
    if mod.startswith('collections') and hasattr(r, 'keys'):
        return SymDict((k, lift(v)) for k, v in r.items())
    return r


def _owner(r):
    return (getattr(type(r), '__module__', '') or '').split('.')[0]


def _is_data(r):
    """does this real object hold handles (object data)?"""
    try:
        d = getattr(r, 'dtype', None)
        if d is not None:
            return d == object
        ds = getattr(r, 'dtypes', None)
        if ds is not None:
            return any(d == object for d in ds)
    except Exception:
        pass
    return False


_DATA_METHODS = {'fillna', 'where', 'mask', 'clip', 'add', 'sub', 'mul', 'div', 'apply',
                 'map', 'copy', 'astype', 'assign_attrs', 'sum', 'mean', 'transpose'}


class FuncProxy:
    def __init__(self, r, data_first=False):
        object.__setattr__(self, '_r', r)
        self.__name__ = getattr(r, '__name__', 'f')
        self._data = self.__name__ in _DATA_METHODS

    def __call__(self, *args, **kw):
        low = low_data if self._data else low_index
        a = [low(x) for x in args]
        k = {n: low(v) for n, v in kw.items()}
        selfobj = getattr(self._r, '__self__', None)
        return lift(self._r(*a, **k), _owner(selfobj) if selfobj is not None else None)

    def __getattr__(self, name):
        return lift(getattr(self._r, name))


_DATA_CLASSES = {'Series', 'DataFrame', 'DataArray', 'Variable', 'Dataset', 'IndexVariable'}
_INDEX_KW = {'index', 'coords', 'columns', 'name', 'dims', 'dtype', 'attrs', 'copy'}


class ClassProxy:
    def __init__(self, r):
        object.__setattr__(self, '_r', r)
        self.__name__ = r.__name__

    def __call__(self, *args, **kw):
        c = self._r
        if c.__name__ in _DATA_CLASSES:
            a = [low_data(x) if i == 0 else low_index(x) for i, x in enumerate(args)]
            k = {n: (low_index(v) if n in _INDEX_KW else low_data(v)) for n, v in kw.items()}
            if c.__name__ == 'Variable' and len(args) > 1:
                a[1] = low_data(args[1])
            if c.__name__ == 'Dataset' and len(args) > 1:
                a[1] = low_index(args[1])
        else:
            a = [low_index(x) for x in args]
            k = {n: low_index(v) for n, v in kw.items()}
        return lift(c(*a, **k))

    def __instancecheck__(self, x):
        return _isinstance(getattr(x, '_r', x) if _isinstance(x, PProxy) else x, self._r)

    def __getattr__(self, name):
        return lift(getattr(self._r, name))

    def __getitem__(self, k):
        return lift(self._r[low_index(k)])

    def __eq__(self, o):
        return getattr(o, '_r', o) is self._r

    def __hash__(self):
        return hash(self._r)


class ModProxy:
    def __init__(self, r):
        object.__setattr__(self, '_r', r)
        self.__name__ = r.__name__

    def __getattr__(self, name):
        return lift(getattr(self._r, name))


def _real_dtype(r):
    """dtype a Series/DataArray would have had with real data"""
    v = getattr(r, 'values', None)
    if _isinstance(v, np.ndarray) and v.dtype == object:
        s = lift_obj_array(v, _owner(r))
        return s.dtype
    return r.dtype


class PProxy:
    __array_priority__ = 1e7
    __array_ufunc__ = None

    def __init__(self, r):
        object.__setattr__(self, '_r', r)

    def __symarray__(self):
        v = getattr(self._r, 'values', None)
        if v is None:
            raise Unsupported("array of %s" % type(self._r).__name__)
        s = lift(v, _owner(self._r))
        return asarr(s)

    def __getattr__(self, name):
        if name == 'dtype' and hasattr(self._r, 'dtype'):
            return _real_dtype(self._r)
        if name == 'data' and _isinstance(getattr(self._r, 'data', None), np.ndarray):
            return lift(self._r.values, _owner(self._r))
        return lift(getattr(self._r, name), _owner(self._r))

    def __setattr__(self, name, v):
        low = low_data if name in ('values', 'data') else low_index
        setattr(self._r, name, low(v))

    def __getitem__(self, k):
        return lift(self._r[low_index(k)], _owner(self._r))

    def __setitem__(self, k, v):
        self._r[low_index(k)] = low_data(v)

    def __delitem__(self, k):
        del self._r[low_index(k)]

    def __call__(self, *a, **k):
        return lift(self._r(*[low_index(x) for x in a],
                            **{n: low_index(v) for n, v in k.items()}), _owner(self._r))

    def __contains__(self, k):
        return low_index(k) in self._r

    def __iter__(self):
        for x in self._r:
            yield lift(x, _owner(self._r))

    def __len__(self):
        return len(self._r)

    def __bool__(self):
        return bool(self._r)

    def __int__(self):
        return int(self._scalar())

    def __float__(self):
        return float(self._scalar())

    def __index__(self):
        return self._scalar().__index__()

    def _scalar(self):
        a = self.__symarray__()
        return a._single()

    def __symint__(self):
        from .containers import _int_make
        return _int_make(self._scalar())

    def __repr__(self):
        return '<%s proxy>' % type(self._r).__name__

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __hash__(self):
        return hash(self._r)

    def __copy__(self):
        return PProxy(self._r.copy())

    def __deepcopy__(self, memo):
        return PProxy(self._r.copy(deep=True))

    def _op(self, name, o):
        low = low_data if _is_data(self._r) else low_index
        r = getattr(self._r, name)(low(o))
        if r is NotImplemented:
            return r
        return lift(r, _owner(self._r))


def _mkop(name):
    def op(self, o):
        return self._op(name, o)
    op.__name__ = name
    return op


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor'):
    setattr(PProxy, '__%s__' % _n, _mkop('__%s__' % _n))
    setattr(PProxy, '__r%s__' % _n, _mkop('__r%s__' % _n))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(PProxy, '__%s__' % _n, _mkop('__%s__' % _n))


def _unary(name):
    def op(self):
        return lift(getattr(self._r, name)(), _owner(self._r))
    return op


for _n in ('__neg__', '__pos__', '__abs__', '__invert__'):
    setattr(PProxy, _n, _unary(_n))


# --------------------------------------------------------------------- dask
class MiniDask:
    """dask.array stand-in: eager, but with dask's checks on chunks"""
    __array_priority__ = 1e6

    def __init__(self, getter, shape, dtype):
        self._get = getter
        self._shape = shape
        self.dtype = np.dtype(dtype)

    @property
    def shape(self):
        return tuple(mk(s, None) if is_term(s) else s for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    def __len__(self):
        return self.shape[0].__index__()

    def compute(self, **kw):
        return self._get(())

    def __symarray__(self):
        return self.compute()

    def __array__(self, dtype=None):
        return np.asarray(self.compute())

    def __getitem__(self, key):
        # laziness matters only for size: evaluate the row selection
        a = self._get(key)
        if not _isinstance(a, SymArray):
            return a
        return MiniDask.of(a)

    @classmethod
    def of(cls, a):
        return cls(lambda k: a[k] if k != () else a, a.shape, a.dtype)

    def __getattr__(self, name):
        if name in ('rechunk', 'persist'):
            return lambda *a, **k: self
        a = object.__getattribute__(self, 'compute')()
        v = getattr(a, name)
        if callable(v):
            def f(*args, **kw):
                r = v(*args, **kw)
                return MiniDask.of(r) if _isinstance(r, SymArray) else r
            return f
        return MiniDask.of(v) if _isinstance(v, SymArray) else v


def da_from_array(x, chunks='auto', name=None, lock=False, asarray=None, fancy=True,
                  getitem=None, meta=None, inline_array=False):
    from . import h5shim
    shape = tuple(V.unwrap(s)[0] for s in x.shape)
    if _isinstance(chunks, tuple):
        for c, s in zip(chunks, shape):
            if _isinstance(c, (int, SV, np.integer)):
                # dask refuses to chunk a non-empty axis into chunks of 0
                if truth(raw_cmp('eq', V.unwrap(c)[0], 0)) and truth(raw_cmp('gt', s, 0)):
                    if cur().path_state.get('dask0') is None:
                        pass
                    raise ZeroDivisionError("integer division or modulo by zero")

    def get(k):
        if _isinstance(x, h5shim.Dataset):
            return asarr(x[k]) if k == () else x[k]
        return x[k]
    return MiniDask(get, shape, x.dtype)


def da_concatenate(seq, axis=0, allow_unknown_chunksizes=False):
    from . import npshim
    seq = list(seq)
    if not seq:
        raise ValueError("Need array(s) to concatenate")
    arrs = [asarr(s.compute() if _isinstance(s, MiniDask) else s) for s in seq]
    return MiniDask.of(npshim.concatenate(arrs, axis=axis))


def _da_module():
    m = types.ModuleType('dask.array')
    m.from_array = da_from_array
    m.concatenate = da_concatenate

    def wrap(name):
        def f(*args, **kw):
            from . import npshim
            r = getattr(npshim.numpy_shim, name)(*args, **kw)
            return MiniDask.of(r) if _isinstance(r, SymArray) else r
        return f
    for n in ('zeros', 'ones', 'empty', 'full', 'stack', 'where', 'moveaxis', 'asarray', 'arange'):
        setattr(m, n, wrap(n))
    m.Array = MiniDask
    d = types.ModuleType('dask')
    d.array = m
    return d, m


def modules():
    import pandas
    import xarray
    d, da = _da_module()
    return {'pandas': ModProxy(pandas), 'xarray': ModProxy(xarray),
            'dask': d, 'dask.array': da}
