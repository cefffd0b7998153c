"""Symbolic scalars and the arithmetic they obey.

*raw* values are concrete Python numbers or z3 terms.  ``dt`` is a numpy dtype,
``None`` for plain Python ints/bools, or ``PYF`` for Python floats.
Integers of fixed width wrap; integer-valued doubles are rounded (round half to
even) beyond 2**53; other doubles are idealised as reals (reported).
"""
import builtins
import fractions
import math
import operator
import warnings

import numpy as np
import z3

from . import engine as E
from .engine import Unsupported, cur

PYF = 'pyfloat'
F64 = np.dtype('f8')
BOOL = np.dtype('?')
INTP = np.dtype('i8')
_real_isinstance = isinstance

real_idealised = [0]


def is_term(x):
    return _real_isinstance(x, z3.ExprRef)


def is_boolish(x):
    return _real_isinstance(x, (bool, np.bool_, z3.BoolRef))


# ---------------------------------------------------------------- intervals
_bmemo = {}


def set_bounds(term, lo, hi):
    _bmemo[term.get_id()] = (term, lo, hi)


def bounds(t):
    if _real_isinstance(t, int):
        return t, t
    if not is_term(t):
        return None, None
    m = _bmemo.get(t.get_id())
    if m is not None and m[0].eq(t):
        return m[1], m[2]
    lo, hi = _bounds(t)
    if len(_bmemo) > 200000:
        for k in [k for k, v in _bmemo.items() if not z3.is_const(v[0])]:
            del _bmemo[k]
    _bmemo[t.get_id()] = (t, lo, hi)
    return lo, hi


def _bounds(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    if not z3.is_int(t) or not z3.is_app(t):
        return None, None
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in ch:
            l, h = bounds(c)
            lo = None if (lo is None or l is None) else lo + l
            hi = None if (hi is None or h is None) else hi + h
        return lo, hi
    if k == z3.Z3_OP_SUB:
        lo, hi = bounds(ch[0])
        for c in ch[1:]:
            l, h = bounds(c)
            lo = None if (lo is None or h is None) else lo - h
            hi = None if (hi is None or l is None) else hi - l
        return lo, hi
    if k == z3.Z3_OP_UMINUS:
        l, h = bounds(ch[0])
        return (None if h is None else -h), (None if l is None else -l)
    if k == z3.Z3_OP_MUL:
        lo, hi = 1, 1
        for c in ch:
            l, h = bounds(c)
            if None in (lo, hi, l, h):
                return None, None
            ps = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(ps), max(ps)
        return lo, hi
    if k == z3.Z3_OP_ITE:
        l1, h1 = bounds(ch[1])
        l2, h2 = bounds(ch[2])
        return (None if None in (l1, l2) else min(l1, l2),
                None if None in (h1, h2) else max(h1, h2))
    if k in (z3.Z3_OP_IDIV,) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        d = ch[1].as_long()
        l, h = bounds(ch[0])
        return (None if l is None else l // d), (None if h is None else h // d)
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        return 0, ch[1].as_long() - 1
    return None, None


# ---------------------------------------------------------------- raw casts
def to_z3(x):
    """raw -> z3 term"""
    if is_term(x):
        return x
    if _real_isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if _real_isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if _real_isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite float in term")
        if x == int(x):
            return z3.IntVal(int(x))
        fr = fractions.Fraction(x)
        return z3.RealVal(fr)
    raise Unsupported("to_z3 %r" % type(x))


def bool_to_int(x):
    if _real_isinstance(x, (bool, np.bool_)):
        return int(x)
    return z3.If(x, z3.IntVal(1), z3.IntVal(0))


def num(x):
    """raw -> numeric raw (booleans become 0/1)"""
    if is_boolish(x):
        return bool_to_int(x)
    return x


def _pair(a, b):
    """make two numeric raws compatible z3 terms"""
    a, b = to_z3(num(a)), to_z3(num(b))
    if a.sort() != b.sort():
        if z3.is_int(a):
            a = z3.ToReal(a)
        if z3.is_int(b):
            b = z3.ToReal(b)
    return a, b


def irange(dt):
    ii = np.iinfo(dt)
    return int(ii.min), int(ii.max)


def wrap(t, dt):
    """Integer raw -> value stored in integer dtype dt"""
    lo, hi = irange(dt)
    if _real_isinstance(t, int):
        if lo <= t <= hi:
            return t
        return (t - lo) % (hi - lo + 1) + lo
    bl, bh = bounds(t)
    if bl is not None and bh is not None and bl >= lo and bh <= hi:
        return t
    c = z3.And(t >= lo, t <= hi)
    if cur().entailed(c):
        return t
    if cur().fork(c):
        return t
    return (t - lo) % (hi - lo + 1) + lo


P53 = 2 ** 53


def round_f64(t):
    """Integer-sorted raw -> nearest double (as integer raw)"""
    if not is_term(t):
        return int(float(t))
    bl, bh = bounds(t)
    if bl is not None and bh is not None and -P53 <= bl and bh <= P53:
        return t
    e = cur()
    if e.fork(z3.And(t >= -P53, t <= P53)):
        return t
    for k in range(1, 66):
        m = 2 ** k
        if e.fork(z3.And(t >= -(P53 << k), t <= (P53 << k))):
            q = t / m
            r = t % m
            half = m // 2
            q2 = z3.If(r < half, q, z3.If(r > half, q + 1,
                                          z3.If(q % 2 == 0, q, q + 1)))
            return q2 * m
    raise Unsupported("huge double")


def cast_raw(x, dt, src=None):
    """Convert raw x to dtype dt (numpy .astype semantics)"""
    if dt is None or dt is PYF:
        return x
    k = dt.kind
    if k == 'b':
        if is_boolish(x):
            return x
        if is_term(x):
            return x != 0
        return bool(x)
    if k in 'iu':
        x = num(x)
        if _real_isinstance(x, float):
            if math.isnan(x) or math.isinf(x):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return int(np.array([x]).astype(dt)[0])
            return wrap(int(x), dt)
        if is_term(x) and z3.is_real(x):
            x = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        return wrap(x, dt)
    if k == 'f':
        x = num(x)
        if not is_term(x):
            if dt == F64:
                return float(x)
            return float(np.array(x).astype(dt))
        if z3.is_int(x):
            if dt == F64:
                return round_f64(x)
            if dt == np.dtype('f4'):
                bl, bh = bounds(x)
                if bl is not None and bh is not None and -2 ** 24 <= bl and bh <= 2 ** 24:
                    return x
                if cur().entailed(z3.And(x >= -2 ** 24, x <= 2 ** 24)):
                    return x
                raise Unsupported("f4 rounding")
        return x
    if k == 'O':
        return x
    raise Unsupported("cast to %s" % dt)


# ------------------------------------------------------------- dtype rules
_dtcache = {}
_SPLITS = [-2 ** 63, -2 ** 31, -2 ** 15, -2 ** 7, 0, 2 ** 7, 2 ** 8, 2 ** 15,
           2 ** 16, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64]
_REPS = [-2 ** 63 - 1, -2 ** 40, -2 ** 20, -2 ** 10, -1, 1, 200, 2 ** 10,
         40000, 2 ** 20, 3 * 10 ** 9, 2 ** 40, 2 ** 63 + 1, 2 ** 65]

_NPOPS = {
    'add': np.add, 'sub': np.subtract, 'mul': np.multiply,
    'truediv': np.true_divide, 'floordiv': np.floor_divide,
    'mod': np.remainder, 'pow': np.power,
    'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor,
    'lshift': np.left_shift, 'rshift': np.right_shift,
    'max': np.maximum, 'min': np.minimum,
}


def _sample(dt, arr, val=1):
    if dt is None:
        return val
    if dt is PYF:
        return 1.0
    return np.ones(1, dt) if arr else dt.type(1)


def _np_result(op, da, aa, va, db, ab, vb):
    key = (op, da, aa, va if da is None else None, db, ab,
           vb if db is None else None)
    try:
        return _dtcache[key]
    except KeyError:
        pass
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            x, y = _sample(da, aa, va), _sample(db, ab, vb)
            if aa or ab or op in ('max', 'min'):
                r = _NPOPS[op](x, y)
            else:
                r = getattr(operator, {'and': 'and_', 'or': 'or_'}.get(op, op)
                            if op not in ('add', 'sub', 'mul', 'truediv',
                                          'floordiv', 'mod', 'pow', 'xor',
                                          'lshift', 'rshift') else op)(x, y)
            res = np.asarray(r).dtype
        except TypeError as e:
            res = TypeError(str(e))
        except OverflowError as e:
            res = OverflowError(str(e))
    _dtcache[key] = res
    return res


def result_dtype(op, a, da, aa, b, db, ab):
    """dtype of `a op b`; may fork on the magnitude of Python ints"""
    if (da is None or da is PYF) and (db is None or db is PYF) and not (aa or ab):
        if op == 'truediv':
            return PYF
        if da is PYF or db is PYF:
            return PYF
        return None

    def reps(x, d):
        if d is not None or not is_term(x):
            return [(x if _real_isinstance(x, (int, bool)) else 1, None)]
        if z3.is_bool(x):
            return [(True, None)]
        bl, bh = bounds(x)
        out = []
        for i, r in enumerate(_REPS):
            lo = None if i == 0 else _SPLITS[i - 1]
            hi = None if i == len(_REPS) - 1 else _SPLITS[i]
            # interval [lo, hi)
            if bl is not None and hi is not None and bl >= hi:
                continue
            if bh is not None and lo is not None and bh < lo:
                continue
            out.append((r, (lo, hi)))
        return out

    ra, rb = reps(a, da), reps(b, db)
    if len(ra) == 1 and len(rb) == 1:
        res = _np_result(op, da, aa, ra[0][0], db, ab, rb[0][0])
    else:
        groups = []
        t, rs, first = (a, ra, True) if len(ra) > 1 else (b, rb, False)
        if len(ra) > 1 and len(rb) > 1:
            raise Unsupported("two symbolic python ints with an array")
        for r, iv in rs:
            res = (_np_result(op, da, aa, r, db, ab, rb[0][0]) if first else
                   _np_result(op, da, aa, ra[0][0], db, ab, r))
            if groups and repr(groups[-1][0]) == repr(res):
                groups[-1][2] = iv[1]
            else:
                groups.append([res, iv[0], iv[1]])
        res = None
        for g in groups[:-1]:
            if cur().fork(t < g[2]):
                res = g[0]
                break
        else:
            res = groups[-1][0]
    if _real_isinstance(res, Exception):
        raise res
    return res


# ----------------------------------------------------------------- raw ops
def _concrete(x):
    return not is_term(x)


def raw_op(op, a, b, rdt, da=None, db=None):
    """Compute a op b in result dtype rdt on raws"""
    if rdt is not None and rdt is not PYF:
        if rdt.kind == 'O':
            raise Unsupported("object arithmetic")
        if rdt.kind == 'b':
            return bool_op(op, a, b)
        a = cast_raw(a, rdt)
        b = cast_raw(b, rdt)
    else:
        if op in ('and', 'or', 'xor') and is_boolish(a) and is_boolish(b):
            return bool_op(op, a, b)
        a, b = num(a), num(b)
        if rdt is PYF:
            if _concrete(a):
                a = float(a)
            if _concrete(b):
                b = float(b)
    if _concrete(a) and _concrete(b):
        return _conc_op(op, a, b, rdt)
    isf = rdt is PYF or (rdt is not None and rdt.kind == 'f')
    for x in (a, b):
        if _concrete(x) and _real_isinstance(x, float) and not math.isfinite(x):
            if math.isnan(x):
                return float('nan')
            if op in ('min', 'max') :
                o = b if x is a else a
                big = (x > 0) == (op == 'max')
                return x if big else o
            raise Unsupported("inf arithmetic")
    if op in ('add', 'sub', 'mul', 'max', 'min'):
        if op == 'mul' and not isf:
            if is_term(a) and is_term(b):
                a, b = small_or_conc(a, b)
                if _concrete(a) and _concrete(b):
                    return _conc_op(op, a, b, rdt)
        ta, tb = _pair(a, b)
        if op == 'add':
            r = ta + tb
        elif op == 'sub':
            r = ta - tb
        elif op == 'mul':
            r = ta * tb
        elif op == 'max':
            r = z3.If(ta >= tb, ta, tb)
        else:
            r = z3.If(ta <= tb, ta, tb)
        return finish(r, rdt)
    if op == 'truediv':
        ta, tb = to_z3(a), to_z3(b)
        if cur().fork(tb == 0) if is_term(b) else (b == 0):
            if rdt is PYF:
                raise ZeroDivisionError("division by zero")
            raise Unsupported("float division by zero")
        if z3.is_int_value(tb):
            n = tb.as_long()
            if z3.is_int(ta) and cur().entailed(ta % n == 0) and n != 0:
                return finish(ta / n if n > 0 else -(ta / -n), rdt)
        real_idealised[0] += 1
        if z3.is_int(ta):
            ta = z3.ToReal(ta)
        if z3.is_int(tb):
            tb = z3.ToReal(tb)
        return ta / tb
    if op in ('floordiv', 'mod'):
        ta, tb = _pair(a, b)
        if is_term(b) and not z3.is_int_value(tb):
            if cur().fork(tb == 0):
                if rdt is None:
                    raise ZeroDivisionError("integer division or modulo by zero")
                if not isf:
                    return 0
                return float('nan')
            if z3.is_int(tb):
                bv = cur().concretise(tb, why='symbolic divisor')
                tb = z3.IntVal(bv)
            else:
                raise Unsupported("symbolic real floor division")
        if z3.is_int(ta) and z3.is_int(tb):
            n = tb.as_long()
            if n == 0:
                if rdt is None or rdt is PYF:
                    raise ZeroDivisionError("division by zero")
                return 0 if not isf else float('nan')
            if n > 0:
                q, m = ta / n, ta % n
            else:
                q = (-ta) / (-n)
                m = ta - q * n
            return finish(q if op == 'floordiv' else m, rdt)
        if op == 'floordiv':
            return z3.ToReal(z3.ToInt(ta / tb))
        return ta - tb * z3.ToReal(z3.ToInt(ta / tb))
    if op == 'pow':
        if _concrete(b) and float(b) == int(b) and 0 <= b <= 4:
            r = to_z3(1)
            ta = to_z3(a)
            for _ in range(int(b)):
                r = ta * r if not z3.is_int_value(r) else ta
            return finish(r if b else z3.IntVal(1), rdt)
        raise Unsupported("pow")
    if op in ('and', 'or', 'xor', 'lshift', 'rshift'):
        ca = a if _concrete(a) else cur().concretise(a, why='bit operation')
        cb = b if _concrete(b) else cur().concretise(b, why='bit operation')
        return _conc_op(op, ca, cb, rdt)
    raise Unsupported("op %s" % op)


def small_or_conc(a, b):
    """product of two int terms: concretise the one with the small range"""
    la, ha = bounds(a)
    lb, hb = bounds(b)
    wa = None if None in (la, ha) else ha - la
    wb = None if None in (lb, hb) else hb - lb
    if wa is not None and wa <= 40 and (wb is None or wa <= wb):
        return cur().concretise(a, why='product'), b
    if wb is not None and wb <= 40:
        return a, cur().concretise(b, why='product')
    return a, b


def finish(r, rdt):
    if not is_term(r):
        return r
    if rdt is None:
        return r
    if rdt is PYF:
        if z3.is_int(r):
            return round_f64(r)
        real_idealised[0] += 1
        return r
    if rdt.kind in 'iu':
        return wrap(r, rdt)
    if rdt.kind == 'f':
        if z3.is_int(r):
            return cast_raw(r, rdt)
        real_idealised[0] += 1
        return r
    return r


def _conc_op(op, a, b, rdt):
    if rdt is None:
        return {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
                'truediv': operator.truediv, 'floordiv': operator.floordiv,
                'mod': operator.mod, 'pow': operator.pow, 'and': operator.and_,
                'or': operator.or_, 'xor': operator.xor,
                'lshift': operator.lshift, 'rshift': operator.rshift,
                'max': builtins.max, 'min': builtins.min}[op](a, b)
    dt = F64 if rdt is PYF else rdt
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r = _NPOPS[op](np.array([a]).astype(dt), np.array([b]).astype(dt))
    return r[0].item()


def bool_op(op, a, b):
    if op in ('and', 'mul', 'min'):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(to_z3(a), to_z3(b))
    if op in ('or', 'add', 'max'):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(to_z3(a), to_z3(b))
    if op == 'xor':
        if _concrete(a) and _concrete(b):
            return bool(a) != bool(b)
        return z3.Xor(to_z3(a), to_z3(b))
    if op == 'sub':
        raise TypeError("numpy boolean subtract, the `-` operator, is not "
                        "supported, use the bitwise_xor, the `^` operator, or "
                        "the logical_xor function instead.")
    raise Unsupported("bool %s" % op)


def raw_not(a):
    if _concrete(a):
        return not a
    return z3.Not(a)


_PYCMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt,
          'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def isfloat_dt(d):
    return d is PYF or (d is not None and d.kind == 'f')


def isnum(x):
    return is_term(x) or _real_isinstance(
        x, (int, float, bool, np.number, np.bool_))


def raw_cmp(op, a, b, da=None, db=None):
    if _concrete(a) and _concrete(b):
        return bool(_PYCMP[op](a, b))
    if not (isnum(a) and isnum(b)):
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        raise TypeError("'%s' not supported between symbolic number and %r"
                        % (op, type(b if is_term(a) else a)))
    if is_boolish(a) and is_boolish(b) and op in ('eq', 'ne'):
        x = to_z3(a) == to_z3(b)
        return x if op == 'eq' else z3.Not(x)
    a, b = num(a), num(b)
    for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge',
                                        'ge': 'le'}.get(op, op))):
        if _concrete(y) and _real_isinstance(y, float) and not math.isfinite(y):
            if math.isnan(y):
                return o == 'ne'
            return {'eq': False, 'ne': True, 'lt': y > 0, 'le': y > 0,
                    'gt': y < 0, 'ge': y < 0}[o]
    # numpy int-vs-float comparison happens in double precision
    if da is not None and db is not None and da is not PYF and db is not PYF:
        if da.kind == 'f' and db.kind in 'iu':
            b = cast_raw(b, F64)
        elif db.kind == 'f' and da.kind in 'iu':
            a = cast_raw(a, F64)
    ta, tb = _pair(a, b)
    if ta.eq(tb):
        return op in ('eq', 'le', 'ge')
    if z3.is_int(ta):
        la, ha = bounds(ta)
        lb, hb = bounds(tb)
        if None not in (ha, lb) and ha < lb:
            return op in ('ne', 'lt', 'le')
        if None not in (la, hb) and la > hb:
            return op in ('ne', 'gt', 'ge')
    return _cmp_term(op, ta, tb)


def _cmp_term(op, ta, tb):
    # canonical forms so that the fact cache sees through < / > / >= variants
    if op == 'eq':
        if ta.get_id() > tb.get_id() and not z3.is_int_value(tb):
            ta, tb = tb, ta
        return ta == tb
    if op == 'ne':
        return z3.Not(_cmp_term('eq', ta, tb))
    if op == 'lt':
        return ta < tb
    if op == 'gt':
        return tb < ta
    if op == 'ge':
        return z3.Not(ta < tb)
    return z3.Not(tb < ta)


def truth(x):
    """raw boolean -> Python bool, forking if needed"""
    if not is_term(x):
        return bool(x)
    if z3.is_bool(x):
        neg = False
        while z3.is_not(x):
            x = x.arg(0)
            neg = not neg
        r = cur().fork(x)
        return (not r) if neg else r
    return cur().fork(x != 0)


# ----------------------------------------------------------------- wrappers
def mk(raw, dt):
    """raw + dtype -> value handed to the code under test"""
    if is_term(raw):
        if z3.is_bool(raw):
            if z3.is_true(raw):
                raw = True
            elif z3.is_false(raw):
                raw = False
            else:
                return SymBool(raw, dt)
        elif z3.is_int_value(raw):
            raw = raw.as_long()
        else:
            return SV(raw, dt)
    if dt is None:
        return raw
    if dt is PYF:
        return float(raw)
    if dt.kind == 'O':
        return raw
    if dt.kind in 'iu':
        return dt.type(int(raw))
    return dt.type(raw)


def unwrap(x):
    """value -> (raw, dt, is_number)"""
    if _real_isinstance(x, (SV, SymBool)):
        return x.t, x.dt
    if _real_isinstance(x, bool):
        return x, None
    if _real_isinstance(x, int):
        return x, None
    if _real_isinstance(x, float) and not _real_isinstance(x, np.generic):
        return x, PYF
    if _real_isinstance(x, np.bool_):
        return bool(x), BOOL
    if _real_isinstance(x, np.generic) and x.dtype.kind in 'iuf':
        return x.item(), x.dtype
    return None


def _scalar_operand(x):
    return _real_isinstance(x, (SV, SymBool, int, float, np.bool_, np.number))


class _Num:
    __slots__ = ()
    __array_priority__ = 1e6

    def _bin(self, op, other, rev=False):
        if not _scalar_operand(other):
            from .arr import is_arraylike, arr_binop
            if is_arraylike(other):
                return arr_binop(op, other, self) if rev else arr_binop(op, self, other)
            return NotImplemented
        u = unwrap(other)
        if u is None:
            return NotImplemented
        (a, da), (b, db) = (self.t, self.dt), u
        if rev:
            a, da, b, db = b, db, a, da
        rdt = result_dtype(op, a, da, False, b, db, False)
        return mk(raw_op(op, a, b, rdt, da, db), rdt)

    def _cmp(self, op, other):
        if not _scalar_operand(other):
            from .arr import is_arraylike, arr_cmp
            if is_arraylike(other):
                return arr_cmp(op, self, other)
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        b, db = unwrap(other)
        r = raw_cmp(op, self.t, b, self.dt, db)
        npy = (self.dt is not None and self.dt is not PYF) or (
            db is not None and db is not PYF)
        return mk(r, BOOL if npy else None)

    def __add__(self, o): return self._bin('add', o)
    def __radd__(self, o): return self._bin('add', o, True)
    def __sub__(self, o): return self._bin('sub', o)
    def __rsub__(self, o): return self._bin('sub', o, True)
    def __mul__(self, o):
        if _real_isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin('mul', o)
    def __rmul__(self, o):
        if _real_isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin('mul', o, True)
    def __truediv__(self, o): return self._bin('truediv', o)
    def __rtruediv__(self, o): return self._bin('truediv', o, True)
    def __floordiv__(self, o): return self._bin('floordiv', o)
    def __rfloordiv__(self, o): return self._bin('floordiv', o, True)
    def __mod__(self, o): return self._bin('mod', o)
    def __rmod__(self, o): return self._bin('mod', o, True)
    def __divmod__(self, o): return self // o, self % o
    def __pow__(self, o): return self._bin('pow', o)
    def __rpow__(self, o): return self._bin('pow', o, True)
    def __and__(self, o): return self._bin('and', o)
    def __rand__(self, o): return self._bin('and', o, True)
    def __or__(self, o): return self._bin('or', o)
    def __ror__(self, o): return self._bin('or', o, True)
    def __xor__(self, o): return self._bin('xor', o)
    def __rxor__(self, o): return self._bin('xor', o, True)
    def __lshift__(self, o): return self._bin('lshift', o)
    def __rlshift__(self, o): return self._bin('lshift', o, True)
    def __rshift__(self, o): return self._bin('rshift', o)
    def __rrshift__(self, o): return self._bin('rshift', o, True)
    def __eq__(self, o): return self._cmp('eq', o)
    def __ne__(self, o): return self._cmp('ne', o)
    def __lt__(self, o): return self._cmp('lt', o)
    def __le__(self, o): return self._cmp('le', o)
    def __gt__(self, o): return self._cmp('gt', o)
    def __ge__(self, o): return self._cmp('ge', o)

    def __hash__(self):
        return hash(cur().concretise(to_z3(num(self.t)), limit=6, why='hash of a symbolic value'))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from .arr import dispatch_ufunc
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from .npshim import dispatch_function
        return dispatch_function(func, args, kwargs)

    def __repr__(self):
        return self._text()

    def __str__(self):
        return self._text()

    def __format__(self, spec):
        return self._text(spec)

    def _text(self, spec=''):
        if 'digits' in cur().path_state and not isfloat_dt(self.dt):
            from .digits import text
            return text(to_z3(num(self.t)), spec)
        from .tokens import token_for
        return token_for(self, spec)

    # numpy scalar attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        if self.dt is None or self.dt is PYF:
            raise AttributeError("'%s' object has no attribute 'dtype'"
                                 % ('int' if self.dt is None else 'float'))
        return self.dt

    def item(self):
        if is_boolish(self.t):
            return mk(self.t, None)
        return mk(self.t, PYF if isfloat_dt(self.dt) else None)

    def astype(self, dt, **kw):
        dt = np.dtype(dt)
        return mk(cast_raw(self.t, dt), dt)

    def tolist(self):
        return self.item()

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _as_arr(self):
        from .arr import asarr
        return asarr(self)

    def __getattr__(self, name):
        if name in ('sum', 'any', 'all', 'min', 'max', 'reshape', 'ravel',
                    'flatten', 'nonzero', 'squeeze', 'round', 'clip') and \
                self.dt is not None and self.dt is not PYF:
            return getattr(self._as_arr(), name)
        raise AttributeError(name)


class SV(_Num):
    __slots__ = ('t', 'dt')

    def __init__(self, t, dt=None):
        self.t = t
        self.dt = dt

    def __bool__(self):
        return truth(raw_cmp('ne', self.t, 0))

    def __index__(self):
        if isfloat_dt(self.dt):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretise(self.t, why='symbolic value used as an index/length')

    def __int__(self):
        v = cast_py_int(self)
        return v.__index__() if isinstance(v, SV) else int(v)

    def __float__(self):
        v = cur().concretise(self.t, limit=6, why='float() of a symbolic value')
        if is_term(v):
            v = fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(v)

    def __neg__(self):
        if self.dt is None:
            return mk(-self.t, None)
        if self.dt is not PYF and self.dt.kind == 'u':
            return mk(wrap(-self.t, self.dt), self.dt)
        return mk(finish(-self.t, self.dt), self.dt)

    def __pos__(self):
        return self

    def __invert__(self):
        if isfloat_dt(self.dt):
            raise TypeError("bad operand type for unary ~")
        return mk(finish(-1 - self.t, self.dt), self.dt)

    def __abs__(self):
        return mk(finish(z3.If(self.t >= 0, self.t, -self.t), self.dt), self.dt)

    def __round__(self, n=None):
        if z3.is_int(self.t):
            return mk(self.t, None) if n is None else self
        if n is not None:
            raise Unsupported("round(x, n)")
        f = z3.ToInt(self.t)
        r = self.t - z3.ToReal(f)
        h = z3.Q(1, 2)
        return mk(z3.If(r < h, f, z3.If(r > h, f + 1, z3.If(
            f % 2 == 0, f, f + 1))), None)

    def __floor__(self):
        return mk(self.t if z3.is_int(self.t) else z3.ToInt(self.t), None)

    def __ceil__(self):
        return mk(self.t if z3.is_int(self.t) else -z3.ToInt(-self.t), None)

    def __trunc__(self):
        return cast_py_int(self)

    def is_integer(self):
        if z3.is_int(self.t):
            return True
        return truth(z3.IsInt(self.t))

    def bit_length(self):
        raise Unsupported("bit_length")


class SymBool(_Num):
    __slots__ = ('t', 'dt')

    def __init__(self, t, dt=None):
        self.t = t
        self.dt = dt

    def __bool__(self):
        return truth(self.t)

    def __index__(self):
        return int(truth(self.t))

    def __int__(self):
        return int(truth(self.t))

    def __float__(self):
        return float(truth(self.t))

    def __invert__(self):
        if self.dt is None:
            return ~int(truth(self.t))
        return mk(raw_not(self.t), self.dt)

    def __neg__(self):
        return -int(self)

    def __hash__(self):
        return hash(bool(self))


def cast_py_int(x):
    """int(x) keeping it symbolic"""
    t = num(x.t)
    if is_term(t) and z3.is_real(t):
        t = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    if not is_term(t):
        return int(t)
    return mk(t, None)


def cast_py_float(x):
    t = num(x.t)
    if is_term(t) and z3.is_int(t):
        t = round_f64(t)
    return mk(t, PYF)
