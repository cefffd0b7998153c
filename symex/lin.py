"""Arrays of linear forms.

For code which only combines symbolic numbers linearly (detector geometry), an
array element is a row of K coefficients over a few symbolic reals (column 0 is
the constant), so that arrays of millions of elements stay within reach: every
operation is a numpy operation on the coefficients, and the properties checked
at the end go to z3 as queries over the symbolic reals.  Rounding, comparing and
dividing with remainder fork the path over the feasible integers.

Floating point operations are exact here; the properties are stated with a
tolerance far above the rounding errors of the real code."""
import builtins
import fractions
import re
import types

import numpy as np
import z3

from . import engine as E

K = 6      # columns: constant + at most 5 symbolic numbers


class Reg:
    def __init__(self):
        self.terms = []
        self.mag = []


def reg():
    st = E.cur().path_state
    if 'lin' not in st:
        st['lin'] = Reg()
    return st['lin']


def _rat(x):
    f = fractions.Fraction(float(x))
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def register(term, mag):
    """a new symbolic number (z3 real term) -> its column"""
    r = reg()
    for i, t in enumerate(r.terms):
        if t.eq(term):
            return i + 1
    r.terms.append(term)
    r.mag.append(float(mag))
    if len(r.terms) >= K:
        raise E.Unsupported("too many symbolic numbers for the linear arrays")
    return len(r.terms)


def var(term, mag):
    i = register(term, mag)
    c = np.zeros(K)
    c[i] = 1
    return LinArray(c)


def row_term(row):
    r = reg()
    acc = _rat(row[0])
    for i, t in enumerate(r.terms, 1):
        if row[i]:
            acc = acc + _rat(row[i]) * t
    return acc


def is_const(c):
    return not c[..., 1:].any()


def aslin(x):
    if isinstance(x, LinArray):
        return x
    if hasattr(x, 't') and z3.is_expr(getattr(x, 't')):
        t = x.t
        if z3.is_int(t):
            t = z3.ToReal(t)
        return var(t, 1e3)
    if isinstance(x, (list, tuple)) and has_lin(x):
        return LinArray(np.stack([aslin(v).c for v in x]))
    a = np.asarray(x)
    if a.dtype == object:
        raise E.Unsupported("object array among linear forms")
    c = np.zeros(a.shape + (K,))
    c[..., 0] = a
    return LinArray(c)


def has_lin(x, depth=0):
    if isinstance(x, LinArray):
        return True
    if hasattr(x, 't') and not isinstance(x, np.ndarray) and z3.is_expr(getattr(x, 't', None)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_lin(v, depth + 1) for v in x)
    return False


def _unique_rows(c):
    """distinct rows, and which of them each row is"""
    flat = np.ascontiguousarray(c.reshape(-1, c.shape[-1]))
    if len(flat) == 0:
        return flat, np.zeros(0, int)
    if (flat == flat[0]).all():
        return flat[:1].copy(), np.zeros(len(flat), int)
    # sort by one column at a time (faster than np.unique on rows)
    inv = np.zeros(len(flat), int)
    for k in range(flat.shape[1]):
        v, i = np.unique(flat[:, k], return_inverse=True)
        if len(v) > 1:
            inv = np.unique(inv * len(v) + i.reshape(-1), return_inverse=True)[1].reshape(-1)
    first = np.unique(inv, return_index=True)[1]
    return flat[first], inv


def _concretise(c, how):
    """elementwise integer of each form -> native float array (forks)"""
    out = np.empty(c.shape[:-1])
    sym = c[..., 1:].any(axis=-1)
    f = {'round': np.around, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc}[how]
    out[~sym] = f(c[..., 0][~sym])
    if sym.any():
        rows, inv = _unique_rows(c[sym])
        if len(rows) > 64:
            raise E.Unsupported("rounding many symbolic numbers")
        vals = np.empty(len(rows))
        for i, row in enumerate(rows):
            t = row_term(row)
            if how == 'round':
                k = z3.ToInt(t + z3.Q(1, 2))
            elif how == 'floor':
                k = z3.ToInt(t)
            elif how == 'ceil':
                k = -z3.ToInt(-t)
            else:
                k = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
            vals[i] = E.cur().concretise(k, limit=60, why='rounding')
        out[sym] = vals[inv]
    return out


STRUCT = {n: getattr(np, n) for n in (
    'stack concatenate vstack hstack dstack column_stack tile repeat roll take broadcast_to '
    'atleast_1d atleast_2d atleast_3d rot90 broadcast_arrays where append insert delete block choose '
    'take_along_axis compress hsplit vsplit dsplit meshgrid diagonal select copy resize').split() if hasattr(np, n)}
LINEAR = {n: getattr(np, n) for n in (
    'sum mean diff cumsum einsum dot tensordot inner outer kron cross average trace nansum nanmean').split()}
_ROUND = {'rint': 'round', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc'}


def _map(x, f):
    if isinstance(x, LinArray):
        return f(x)
    if isinstance(x, list):
        return [_map(v, f) for v in x]
    if isinstance(x, tuple):
        return tuple(_map(v, f) for v in x)
    return x


def _structural(func, args, kwargs, promote):
    """func only rearranges elements: apply it to element numbers"""
    rows = []
    pos = [0]

    def number(x):
        n = x.size
        ids = np.arange(pos[0], pos[0] + n).reshape(x.shape)
        pos[0] += n
        rows.append(x.c.reshape(-1, K))
        return ids

    args = tuple(promote(a) for a in args)
    args = _map(args, number)
    kwargs = {k: _map(v, number) for k, v in kwargs.items()}
    res = func(*args, **kwargs)
    table = np.concatenate(rows)

    def back(r):
        if isinstance(r, (list, tuple)):
            return type(r)(back(v) for v in r)
        return LinArray(table[r])
    return back(res)


def _promote_all(x):
    if isinstance(x, (list, tuple)):
        if has_lin(x):
            return type(x)(_promote_all(v) for v in x)
        return x
    return x


class LinArray:
    __array_priority__ = 1000

    def __init__(self, c, dtype=np.float64):
        self.c = c
        self.dtype = np.dtype(dtype)

    # ---- properties
    @property
    def shape(self):
        return self.c.shape[:-1]

    @shape.setter
    def shape(self, s):
        self.c = self.c.reshape(tuple(np.atleast_1d(s)) + (K,))

    @property
    def ndim(self):
        return self.c.ndim - 1

    @property
    def size(self):
        return int(np.prod(self.shape))

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return iter(self.ravel())

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __len__(self):
        if not self.ndim:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        if not self.ndim:
            raise TypeError("iteration over a 0-d array")
        return (LinArray(self.c[i], self.dtype) for i in range(len(self)))

    def __repr__(self):
        return 'LinArray(%r)' % (self.shape,)

    def __format__(self, spec):
        if self.ndim:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return text(self, spec)

    def __str__(self):
        return text(self, '') if not self.ndim else repr(self)

    def __array__(self, *a, **k):
        if is_const(self.c):
            return np.array(self.c[..., 0])
        raise E.Unsupported("conversion of linear forms to a real array")

    # ---- indexing
    @staticmethod
    def _ix(ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        ix = tuple(np.asarray(i) if isinstance(i, LinArray) else i for i in ix)
        if any(i is Ellipsis for i in ix):
            return ix + (slice(None),)
        return ix

    def __getitem__(self, ix):
        return LinArray(self.c[self._ix(ix)], self.dtype)

    def __setitem__(self, ix, v):
        self.c[self._ix(ix)] = aslin(v).c

    # ---- structure
    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if order not in ('C', None):
            raise E.Unsupported("reshape order")
        if -1 in s and self.size == 0:
            raise E.Unsupported("reshape of an empty array")
        return LinArray(self.c.reshape(tuple(s) + (K,)), self.dtype)

    def ravel(self, *a):
        return self.reshape(self.size)

    def flatten(self, *a):
        return self.reshape(self.size).copy()

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0] or ()
        axes = tuple(a % self.ndim for a in axes) or tuple(range(self.ndim))[::-1]
        return LinArray(self.c.transpose(axes + (self.ndim,)), self.dtype)

    def swapaxes(self, a, b):
        return LinArray(self.c.swapaxes(a % self.ndim, b % self.ndim), self.dtype)

    def squeeze(self, axis=None):
        return LinArray(np.squeeze(self[..., np.newaxis].c, axis=tuple(
            i for i, n in enumerate(self.shape) if n == 1) if axis is None else axis)[..., 0, :]
            if axis is None else np.squeeze(self.c, axis=axis if axis >= 0 else axis - 1), self.dtype)

    def copy(self, *a, **k):
        return LinArray(self.c.copy(), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def repeat(self, *a, **k):
        return np.repeat(self, *a, **k)

    def take(self, *a, **k):
        return np.take(self, *a, **k)

    def astype(self, dt, **kw):
        dt = np.dtype(getattr(dt, '_shim_of', dt))
        if dt.kind == 'f':
            return LinArray(self.c.copy(), dt)
        if dt.kind in 'iu':
            return _concretise(self.c, 'trunc').astype(dt)
        raise E.Unsupported("cast of linear forms to %s" % dt)

    def tolist(self):
        return [x.tolist() if x.ndim else x for x in self] if self.ndim else self

    def item(self, *a):
        return LinArray(self.c.reshape(-1, K)[a[0] if a else 0])

    # ---- arithmetic
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        kw.pop('casting', None), kw.pop('dtype', None)
        where = kw.pop('where', True)
        if where is not True:
            raise E.Unsupported("ufunc where=")
        if method == 'reduce' and ufunc in (np.add, np.minimum, np.maximum):
            f = {np.add: np.sum, np.minimum: np.min, np.maximum: np.max}[ufunc]
            kw.pop('initial', None)
            return f(inputs[0], axis=kw.get('axis', 0), keepdims=kw.get('keepdims', False))
        if method == 'outer' and ufunc is np.multiply:
            return np.outer(*inputs)
        if method == 'at':
            raise E.Unsupported("ufunc.at")
        if method != '__call__' or kw:
            raise E.Unsupported("ufunc %s.%s of linear forms" % (ufunc.__name__, method))
        res = self._ufunc(ufunc, inputs)
        if out is not None:
            o = out[0]
            if not isinstance(o, LinArray):
                raise E.Unsupported("linear forms stored in a real array")
            o.c[...] = aslin(res).c
            return o
        return res

    @staticmethod
    def _ufunc(ufunc, inputs):
        n = ufunc.__name__
        dts = [getattr(x, 'dtype', None) for x in inputs if isinstance(x, (LinArray, np.ndarray))]
        rdt = np.dtype('f8')
        if dts and all(d == np.dtype('f4') for d in dts if d is not None):
            rdt = np.dtype('f4')
        L = [aslin(x) for x in inputs]
        if n in ('add', 'subtract'):
            a, b = L
            return LinArray(a.c + b.c if n == 'add' else a.c - b.c, rdt)
        if n == 'negative':
            return LinArray(-L[0].c, rdt)
        if n == 'positive':
            return LinArray(L[0].c.copy(), rdt)
        if n == 'multiply':
            a, b = L
            if is_const(a.c):
                return LinArray(a.c[..., :1] * b.c, rdt)
            if is_const(b.c):
                return LinArray(a.c * b.c[..., :1], rdt)
            raise E.Unsupported("product of symbolic numbers")
        if n in ('divide', 'true_divide') and is_const(L[1].c):
            return LinArray(L[0].c / L[1].c[..., :1], rdt)
        if n in ('divide', 'true_divide') and POISON_DIV[0]:
            return Poison()
        if n in ('divmod', 'floor_divide', 'remainder') and is_const(L[1].c):
            q = _concretise(L[0].c / L[1].c[..., :1], 'floor')
            r = LinArray(L[0].c - aslin(q).c * L[1].c[..., :1])
            return (q, r) if n == 'divmod' else q if n == 'floor_divide' else r
        if n in _ROUND:
            return _concretise(L[0].c, _ROUND[n])
        if n in ('isnan', 'isinf', 'isfinite'):
            return ufunc(L[0].c[..., 0])
        if n == 'matmul':
            return _linear(np.matmul, inputs, {})
        if all(is_const(x.c) for x in L):
            r = ufunc(*[x.c[..., 0] for x in L])
            return r if r.dtype.kind in 'b' else aslin(r)
        if n in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'):
            d = L[0].c - L[1].c
            cmp = {'less': lambda t: t < 0, 'less_equal': lambda t: t <= 0, 'greater': lambda t: t > 0,
                   'greater_equal': lambda t: t >= 0, 'equal': lambda t: t == 0, 'not_equal': lambda t: t != 0}[n]
            return _decide(d, lambda t: cmp(t))
        if n in ('absolute', 'fabs', 'sign'):
            s = np.where(_decide(L[0].c, lambda t: t >= 0), 1.0, -1.0)
            if n == 'sign':
                return np.where(_decide(L[0].c, lambda t: t == 0), 0.0, s)
            return L[0] * s
        if n in ('minimum', 'maximum', 'fmin', 'fmax'):
            a, b = L
            shape = np.broadcast_shapes(a.shape, b.shape)
            ca, cb = np.broadcast_to(a.c, shape + (K,)), np.broadcast_to(b.c, shape + (K,))
            less = _decide(ca - cb, lambda t: t <= 0)
            return LinArray(np.where((less if n.endswith('min') or n == 'minimum' else ~less)[..., None], ca, cb), rdt)
        raise E.Unsupported("%s of linear forms" % n)

    def __array_function__(self, func, types_, args, kwargs):
        n = func.__name__
        if n in ('around', 'round', 'round_'):
            dec = kwargs.get('decimals', args[1] if len(args) > 1 else 0)
            if dec:
                raise E.Unsupported("rounding to decimals")
            return _concretise(aslin(args[0]).c, 'round')
        if n == 'fix':
            return _concretise(aslin(args[0]).c, 'trunc')
        if n in ('min', 'amin', 'max', 'amax', 'nanmin', 'nanmax'):
            return _extreme(aslin(args[0]), kwargs.get('axis', args[1] if len(args) > 1 else None),
                            'min' in n, kwargs.get('keepdims', False))
        if n == 'ptp':
            a, ax = aslin(args[0]), kwargs.get('axis', args[1] if len(args) > 1 else None)
            return _extreme(a, ax, False) - _extreme(a, ax, True)
        if n == 'moveaxis':
            a = args[0]
            probe = np.empty((1,) * a.ndim)
            src, dst = (args[1:] + (None, None))[:2]
            src, dst = kwargs.get('source', src), kwargs.get('destination', dst)
            lab = np.empty(tuple(range(2, 2 + a.ndim)), dtype=bool)
            order = [s - 2 for s in np.moveaxis(lab, src, dst).shape]
            return a.transpose(tuple(order))
        if n in ('reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'copy') and isinstance(args[0], LinArray):
            return getattr(args[0], n)(*args[1:], **kwargs)
        if n == 'expand_dims':
            a, ax = args[0], kwargs.get('axis', args[1] if len(args) > 1 else None)
            axs = ax if isinstance(ax, tuple) else (ax,)
            nd = a.ndim + len(axs)
            return LinArray(np.expand_dims(a.c, tuple(x % nd for x in axs)), a.dtype)
        if n in ('split', 'array_split') and isinstance(args[0], LinArray):
            a = args[0]
            ax = kwargs.get('axis', args[2] if len(args) > 2 else 0) % a.ndim
            return [LinArray(p, a.dtype) for p in func(a.c, kwargs.get('indices_or_sections', args[1] if len(args) > 1 else None), axis=ax)]
        if n in ('flip', 'flipud', 'fliplr'):
            a = args[0]
            ax = {'flipud': 0, 'fliplr': 1}.get(n, kwargs.get('axis', args[1] if len(args) > 1 else None))
            axs = tuple(range(a.ndim)) if ax is None else ax if isinstance(ax, tuple) else (ax,)
            return LinArray(np.flip(a.c, tuple(x % a.ndim for x in axs)), a.dtype)
        if n in ('zeros_like', 'empty_like', 'ones_like', 'full_like'):
            v = {'ones_like': 1.0}.get(n, 0.0)
            if n == 'full_like':
                v = kwargs.get('fill_value', args[1] if len(args) > 1 else None)
            dt = kwargs.get('dtype')
            a = LinArray(np.zeros(kwargs.get('shape', args[0].shape) + (K,)), dt or args[0].dtype)
            if np.dtype(dt or 'f8').kind != 'f':
                return getattr(np, n)(np.empty(args[0].shape), *args[1:], **kwargs)
            a[...] = v
            return a
        if n == 'copyto':
            if kwargs.get('where', True) is not True:
                w = kwargs['where']
                args[0].c[w] = np.broadcast_to(aslin(args[1]).c, args[0].c.shape)[w]
            else:
                args[0][...] = args[1]
            return None
        if n in ('shape', 'ndim', 'size'):
            return getattr(args[0], n)
        if n in ('isscalar', 'iscomplexobj'):
            return False
        if n in ('result_type', 'can_cast'):
            return func(*[a.dtype if isinstance(a, LinArray) else a for a in args], **kwargs)
        if n == 'broadcast_to':
            a = aslin(args[0])
            shape = kwargs.get('shape', args[1] if len(args) > 1 else None)
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            return LinArray(np.broadcast_to(a.c, shape + (K,)), a.dtype)
        if n in STRUCT:
            if n == 'where' and (len(args) != 3 or isinstance(args[0], LinArray)):
                raise E.Unsupported("np.where on linear forms")

            def promote(x):
                if isinstance(x, (list, tuple)):
                    return type(x)(aslin(v) if not isinstance(v, (list, tuple)) else promote(v) for v in x) \
                        if has_lin(x) else x
                return x
            if n == 'where':
                args = (args[0], aslin(args[1]), aslin(args[2]))
            if n in ('append', 'insert'):
                args = tuple(aslin(a) if i in (0, len(args) - 1) and not isinstance(a, int) else a
                             for i, a in enumerate(args))
            return _structural(func, args, kwargs, promote)
        if n in LINEAR or n == 'solve' and (not isinstance(args[0], LinArray) or is_const(args[0].c)):
            return _linear(func, args, kwargs)
        if n in ('all', 'any', 'allclose', 'array_equal', 'isclose', 'sort', 'argsort', 'unique', 'histogram', 'argmin',
                 'argmax', 'clip', 'median', 'nonzero', 'count_nonzero', 'linspace', 'full'):
            pass
        if all(is_const(x.c) for x in _lins((args, kwargs))):
            r = func(*_map(args, lambda x: x.c[..., 0]), **{k: _map(v, lambda x: x.c[..., 0]) for k, v in kwargs.items()})
            return r
        raise E.Unsupported("np.%s of linear forms" % n)

    def _op(name, rev=False):
        u = getattr(np, name)

        def f(self, o):
            if isinstance(o, (list, tuple)):
                o = aslin(o) if has_lin(o) else np.asarray(o)
            return LinArray._ufunc(u, (o, self) if rev else (self, o))
        return f

    __add__, __radd__ = _op('add'), _op('add', True)
    __sub__, __rsub__ = _op('subtract'), _op('subtract', True)
    __mul__, __rmul__ = _op('multiply'), _op('multiply', True)
    __truediv__, __rtruediv__ = _op('divide'), _op('divide', True)
    __floordiv__, __mod__ = _op('floor_divide'), _op('remainder')
    __divmod__ = _op('divmod')
    __matmul__, __rmatmul__ = _op('matmul'), _op('matmul', True)
    __lt__, __le__, __gt__, __ge__ = _op('less'), _op('less_equal'), _op('greater'), _op('greater_equal')
    __eq__, __ne__ = _op('equal'), _op('not_equal')
    __hash__ = None

    def __neg__(self):
        return LinArray(-self.c, self.dtype)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return LinArray._ufunc(np.absolute, (self,))

    def _iop(name):
        u = getattr(np, name)

        def f(self, o):
            if isinstance(o, (list, tuple)):
                o = aslin(o) if has_lin(o) else np.asarray(o)
            self.c[...] = aslin(LinArray._ufunc(u, (self, o))).c
            return self
        return f
    __iadd__, __isub__, __imul__, __itruediv__ = _iop('add'), _iop('subtract'), _iop('multiply'), _iop('divide')

    # ---- conversions
    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return builtins.bool(_decide(self.c, lambda t: t != 0))

    def __float__(self):
        if self.size == 1 and is_const(self.c):
            return float(self.c.reshape(-1, K)[0, 0])
        raise E.Unsupported("float() of a linear form")

    def __int__(self):
        return int(_concretise(self.c.reshape(-1, K), 'trunc')[0])

    def __round__(self, n=None):
        if n:
            raise E.Unsupported("rounding to decimals")
        return int(_concretise(self.c.reshape(-1, K), 'round')[0])

    def __floor__(self):
        return int(_concretise(self.c.reshape(-1, K), 'floor')[0])

    def __ceil__(self):
        return int(_concretise(self.c.reshape(-1, K), 'ceil')[0])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('min', 'max', 'sum', 'mean', 'round', 'dot', 'cumsum', 'ptp'):
            f = getattr(np, name)
            return lambda *a, **k: f(self, *a, **k)
        raise AttributeError("'numpy.ndarray' object has no attribute %r (model)" % name)

    def sv(self):
        from . import values as V
        return V.mk(row_term(self.c.reshape(-1, K)[0]), np.dtype('f8'))


POISON_DIV = [False]


class Poison:
    """the result of a division which is not linear: fine as long as nobody uses it"""
    def __getattr__(self, name):
        raise E.Unsupported("division by a symbolic number")


_SPEC = re.compile(r'([+ -]?)(?:\.(\d+))?([efgEFGr]?)$')


def text(x, spec=''):
    """text of a number: a token for its magnitude, with the sign and exponent as Python writes them"""
    e = E.cur()
    row = x.c.reshape(-1, K)[0]
    if not row[1:].any():
        return format(float(row[0]), spec)
    m = _SPEC.match(spec)
    if not m:
        raise E.Unsupported("format %r of a symbolic number" % spec)
    sign, prec, kind = m.groups()
    t = row_term(row)
    neg = e.fork(t < 0)
    v = -row if neg else row.copy()
    sci = ''
    if kind in 'fF' and kind:
        n = int(prec) if prec is not None else 6
        if n < 13:
            noise = e.fresh_real('rounding%d' % len(e.token_terms), z3.RealVal('-1/%d' % (2 * 10 ** n)),
                                 z3.RealVal('1/%d' % (2 * 10 ** n)))
            v = v + np.eye(K)[register(noise, 10. ** -n)]
    elif kind in 'eE' and kind or kind in 'gG' and kind:
        if int(prec or 6) < 13:
            raise E.Unsupported("rounded text of a symbolic number")
    elif prec is not None and int(prec) < 15:
        raise E.Unsupported("rounded text of a symbolic number")
    if kind in 'eE' and kind or kind not in ('f', 'F', 'r') and e.fork(z3.And(t != 0, t < _rat(1e-4), t > _rat(-1e-4))):
        sci = '|e-05'
    n = len(e.token_terms)
    e.token_terms.append((LinArray(v), spec))
    return ('-' if neg else sign if sign in '+ ' else '') + '\u27e6%d%s\u27e7' % (n, sci)


def parse(s):
    """float(s)"""
    from .tokens import parse_token
    s = s.strip()
    sg, body = (-1. if s[0] == '-' else 1., s[1:]) if s[:1] in ('+', '-') and len(s) > 1 else (1., s)
    p = parse_token(body)
    if p is None:
        return float(s)
    return p[0] * sg


def format_float_positional(x, precision=None, unique=True, fractional=True, trim='k', sign=False, **kw):
    if isinstance(x, LinArray) and is_const(x.c):
        x = np.float64(x.c.reshape(-1, K)[0, 0])
    if not isinstance(x, LinArray):
        return np.format_float_positional(x, precision, unique, fractional, trim, sign, **kw)
    if precision is not None:
        return text(x, ('+' if sign else '') + '.%df' % precision)
    return text(x, ('+' if sign else '') + 'r')


def _lins(x):
    if isinstance(x, LinArray):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from _lins(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from _lins(v)


def _decide(c, fn):
    """elementwise truth of a condition on each form (forks)"""
    out = np.empty(c.shape[:-1], dtype=bool)
    rows, inv = _unique_rows(c)
    if len(rows) > 4000:
        raise E.Unsupported("many comparisons of symbolic numbers")
    vals = np.empty(len(rows), dtype=bool)
    e = E.cur()
    for i, row in enumerate(rows):
        if not row[1:].any():
            vals[i] = z3.is_true(z3.simplify(fn(_rat(row[0]))))
        else:
            vals[i] = e.fork(fn(row_term(row)))
    out.reshape(-1)[:] = vals[inv]
    return out if out.ndim else np.bool_(out)


def _linear(func, args, kwargs):
    """func is linear in the one operand which is symbolic"""
    sym = [x for x in _lins((args, kwargs)) if not is_const(x.c)]
    if len(sym) > 1:
        raise E.Unsupported("product of symbolic numbers")
    if not sym:
        sym = list(_lins((args, kwargs)))[:1]
    cols = []
    for k in range(K):
        def col(x, k=k):
            return x.c[..., k] if x is sym[0] else x.c[..., 0]
        cols.append(func(*_map(args, col), **{n: _map(v, col) for n, v in kwargs.items()}))
    return LinArray(np.stack(cols, axis=-1))


def _extreme(a, axis, smallest, keepdims=False):
    nd = a.ndim
    if axis is None:
        axis = tuple(range(nd))
    axis = tuple(x % nd for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    rest = [i for i in range(nd) if i not in axis]
    c = np.transpose(a.c, rest + list(axis) + [nd])
    rshape = tuple(a.shape[i] for i in rest)
    c = c.reshape((int(np.prod(rshape)), -1, K))
    if c.shape[1] == 0:
        raise ValueError("zero-size array to reduction operation")
    out = np.zeros((c.shape[0], K))
    e = E.cur()
    sgn = 1 if smallest else -1
    for i in range(c.shape[0]):
        rows = c[i] * sgn
        if not rows[:, 1:].any():
            out[i, 0] = sgn * rows[:, 0].min()
            continue
        # for equal coefficients only the smallest constant matters
        key = np.round(rows[:, 1:], 13)
        u, inv = np.unique(key, axis=0, return_inverse=True)
        if len(u) > 300:
            raise E.Unsupported("minimum of many different linear forms")
        inv = inv.reshape(-1)
        best = []
        for j in range(len(u)):
            sel = np.nonzero(inv == j)[0]
            best.append(rows[sel[np.argmin(rows[sel, 0])]])
        # fork over which form is the smallest
        cands = list(range(len(best)))
        terms = [row_term(b) for b in best]
        w = 0
        for j in cands[1:]:
            if e.fork(terms[j] < terms[w]):
                w = j
        out[i] = sgn * best[w]
    out = out.reshape(rshape + (K,))
    if keepdims:
        out = np.expand_dims(out, axis)
    return LinArray(out, a.dtype)


# ------------------------------------------------------------- numpy stand-in
class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, LinArray))


class ndarray(metaclass=_NdMeta):
    def __new__(cls, *a, **k):
        return np.ndarray(*a, **k)


def _make(name):
    f = getattr(np, name)

    def g(shape, *args, **kw):
        fill = kw.get('fill_value', args[0] if args and name == 'full' else None)
        dt = kw.get('dtype', None)
        pos = args[1:] if name == 'full' else args
        if dt is None and pos:
            dt = pos[0]
        if has_lin(fill) or np.dtype(dt if dt is not None else 'f8').kind == 'f':
            shp = (int(shape),) if not isinstance(shape, (tuple, list)) else tuple(int(s) for s in shape)
            if not has_lin(fill) and not ARRAYS_LIN[0]:
                return f(shape, *args, **kw)
            out = LinArray(np.zeros(shp + (K,)), dt if dt is not None else 'f8')
            if name == 'ones':
                out.c[..., 0] = 1
            elif name == 'full':
                out[...] = fill
            return out
        return f(shape, *args, **kw)
    return g


def _array(name):
    f = getattr(np, name)

    def g(x, *args, **kw):
        if not has_lin(x):
            return f(x, *args, **kw)
        dt = kw.get('dtype', args[0] if args else None)
        r = aslin(x)
        if dt is not None and np.dtype(dt).kind != 'f':
            return r.astype(dt)
        if name == 'array' and kw.get('copy', True):
            r = r.copy()
        return r
    return g


ARRAYS_LIN = [True]


class _NP(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np, name)


def numpy_module(arrays_lin=True):
    """a stand-in for numpy; arrays_lin: new float arrays can hold linear forms"""
    ARRAYS_LIN[0] = arrays_lin
    m = _NP('numpy')
    for n in ('zeros', 'empty', 'ones', 'full'):
        setattr(m, n, _make(n))
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        setattr(m, n, _array(n))
    m.ndarray = ndarray
    m.format_float_positional = format_float_positional
    return m


# -------------------------------------------------------------- session part
class SymLin:
    def __init__(self, S):
        self.S = S

    def var(self, name, lo, hi):
        v = self.S.real(name, lo, hi)
        return var(v.t, max(abs(lo), abs(hi)))

    def arr(self, x):
        return aslin(x)

    def close(self, got, exp, tol, msg):
        S, e = self.S, E.cur()
        if not isinstance(got, (LinArray, np.ndarray)):
            S.check(False, msg + ' (an array)')
            return
        S.check(tuple(got.shape) == tuple(exp.shape), msg + ' (shape)')
        d = aslin(got).c - aslin(exp).c
        flat = d.reshape(-1, K)
        if not len(flat):
            return
        if np.isnan(flat).any():
            S.check(False, msg + ' (not a number)')
            return
        r = reg()
        env = np.abs(flat).max(axis=0)
        t = _rat(env[0])
        for i, v in enumerate(r.terms, 1):
            if env[i]:
                t = t + _rat(env[i]) * z3.If(v >= 0, v, -v)
        cond = t <= _rat(tol)
        if e.entailed(cond):
            e.check(cond, msg)
            return
        # look at the elements which can differ most
        mag = np.array([1.0] + r.mag + [0.0] * (K - 1 - len(r.mag)))
        worst = (np.abs(flat) * mag).sum(axis=1)
        rows, _ = _unique_rows(flat[worst > tol])
        rows = rows[np.argsort(-(np.abs(rows) * mag).sum(axis=1))]
        for row in rows[:8]:
            t = row_term(row)
            e.check(z3.And(t <= _rat(tol), -t <= _rat(tol)), msg)
        if len(rows) > 8:
            acc = []
            for row in rows[8:400]:
                t = row_term(row)
                acc += [t <= _rat(tol), -t <= _rat(tol)]
            e.check(z3.And(*acc), msg)
            if len(rows) > 400:
                raise E.Unsupported("too many different linear forms to compare")

    def least(self, got, tol, what):
        """the smallest element is 0"""
        e = E.cur()
        rows = aslin(got).c.reshape(-1, K)
        u, inv = _unique_rows(np.round(rows[:, 1:], 12))
        if len(u) > 300:
            raise E.Unsupported("minimum of many different linear forms")
        mins = []
        for j in range(len(u)):
            sel = np.nonzero(inv == j)[0]
            mins.append(row_term(rows[sel[np.argmin(rows[sel, 0])]]))
        e.check(z3.And(*[m >= _rat(-tol) for m in mins]), what + ' is not negative')
        e.check(z3.Or(*[m <= _rat(tol) for m in mins]), 'the smallest ' + what + ' is zero')

    def below(self, lo, hi, msg):
        """every element of lo is at most that of hi"""
        rows, _ = _unique_rows((aslin(hi) - aslin(lo)).c.reshape(-1, K))
        if np.isnan(rows).any():
            self.S.check(False, msg + ' (not a number)')
            return
        free = rows[:, 1:].any(axis=1)
        self.S.check(bool((rows[~free, 0] >= -1e-9).all()), msg)
        E.cur().check(z3.And(*[row_term(r) >= _rat(-1e-9) for r in rows[free]]), msg)


class ConcLin:
    def __init__(self, S):
        self.S = S

    def var(self, name, lo, hi):
        return np.float64(self.S.real(name, lo, hi))

    def arr(self, x):
        return np.asarray(x, dtype=np.float64)

    def close(self, got, exp, tol, msg):
        self.S.check(tuple(got.shape) == tuple(exp.shape), msg + ' (shape)')
        if got.size:
            self.S.check(bool((np.abs(np.asarray(got, 'f8') - exp) <= tol * 1.01 + 1e-15).all()), msg)

    def least(self, got, tol, what):
        self.S.check(bool(np.min(got) >= -tol), what + ' is not negative')
        self.S.check(bool(np.min(got) <= tol), 'the smallest ' + what + ' is zero')

    def below(self, lo, hi, msg):
        self.S.check(bool((np.asarray(hi) - np.asarray(lo) >= -2e-9).all()), msg)


def session(S):
    return SymLin(S) if S.symbolic else ConcLin(S)
