"""set / dict / builtins as seen by the code under test.

Containers keyed by symbolic values compare keys with ``==`` (forking) rather
than by hash; everything else behaves like the built-in container."""
import builtins
import collections

import numpy as np
import z3

from . import values as V
from .arr import SymArray, asarr, has_sym
from .engine import Unsupported, cur
from .tokens import parse_token
from .values import PYF, SV, SymBool, cast_py_float, cast_py_int, is_term

_isinstance = builtins.isinstance


def is_sym_key(k):
    if _isinstance(k, (SV, SymBool)):
        return True
    if type(k) is tuple:
        return any(is_sym_key(i) for i in k)
    return False


def num_key(k):
    return _isinstance(k, (int, float, np.number, SV, SymBool))


def keq(a, b):
    """equality of keys, forking when symbolic"""
    if a is b:
        return True
    if type(a) is tuple or type(b) is tuple:
        if not (type(a) is tuple and type(b) is tuple and len(a) == len(b)):
            return False
        return all(keq(x, y) for x, y in zip(a, b))
    if is_sym_key(a) or is_sym_key(b):
        if not (num_key(a) and num_key(b)):
            return False
    return bool(a == b)


class SymSet(set):
    """A set which may hold symbolic members"""
    _sym_set = True
    _frozen = False

    def __init__(self, it=()):
        super().__init__()
        self._syms = []
        for x in _iter(it):
            SymSet._put(self, x)

    def _put(self, x):
        if SymSet._find(self, x) is None:
            if is_sym_key(x):
                self._syms.append(x)
            else:
                set.add(self, x)

    def _find(self, x):
        """-> (member,) or None"""
        if is_sym_key(x):
            for y in self._syms:
                if keq(x, y):
                    return (y,)
            for y in _ordered(set.__iter__(self)):
                if keq(x, y):
                    return (y,)
            return None
        if set.__contains__(self, x):
            return (x,)
        if num_key(x) or type(x) is tuple:
            for y in self._syms:
                if keq(x, y):
                    return (y,)
        return None

    # queries
    def __contains__(self, x):
        return self._find(x) is not None

    def __iter__(self):
        yield from _ordered(set.__iter__(self))
        yield from list(self._syms)

    def __len__(self):
        return set.__len__(self) + len(self._syms)

    def __bool__(self):
        return len(self) > 0

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self))

    __str__ = __repr__

    # mutation
    def add(self, x):
        self._put(x)

    def discard(self, x):
        m = self._find(x)
        if m is not None:
            if is_sym_key(m[0]):
                self._syms = [y for y in self._syms if y is not m[0]]
            else:
                set.discard(self, m[0])

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        set.clear(self)
        self._syms = []

    def update(self, *others):
        for o in others:
            for x in _iter(o):
                self._put(x)

    def copy(self):
        return self._mk(self)

    def __copy__(self):
        return self._mk(self)

    def _mk(self, it):
        return type(self)(it)

    # algebra
    def union(self, *others):
        r = SymSet(self)
        for o in others:
            r.update(o)
        return self._mk(r) if self._frozen else r

    def intersection(self, *others):
        r = SymSet(self)
        for o in others:
            o = o if _isinstance(o, SymSet) else SymSet(o)
            r = SymSet([x for x in r if x in o])
        return self._mk(r) if self._frozen else r

    def difference(self, *others):
        r = SymSet(self)
        for o in others:
            o = o if _isinstance(o, SymSet) else SymSet(o)
            r = SymSet([x for x in r if x not in o])
        return self._mk(r) if self._frozen else r

    def symmetric_difference(self, o):
        o = SymSet(o)
        r = SymSet([x for x in self if x not in o] + [x for x in o if x not in self])
        return self._mk(r) if self._frozen else r

    def intersection_update(self, *others):
        r = self.intersection(*others)
        self.clear()
        self.update(r)

    def difference_update(self, *others):
        r = self.difference(*others)
        self.clear()
        self.update(r)

    def symmetric_difference_update(self, o):
        r = self.symmetric_difference(o)
        self.clear()
        self.update(r)

    def issubset(self, o):
        o = o if _isinstance(o, (SymSet,)) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in _iter(o))

    def isdisjoint(self, o):
        return not self.intersection(o)

    def __or__(self, o):
        return self.union(o) if _setlike(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if _setlike(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if _setlike(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if _setlike(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self) if _setlike(o) else NotImplemented

    def __rand__(self, o):
        return SymSet(o).intersection(self) if _setlike(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if _setlike(o) else NotImplemented

    def __rxor__(self, o):
        return SymSet(o).symmetric_difference(self) if _setlike(o) else NotImplemented

    def __ior__(self, o):
        if self._frozen:
            return self.union(o)
        self.update(o)
        return self

    def __iand__(self, o):
        if self._frozen:
            return self.intersection(o)
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        if self._frozen:
            return self.difference(o)
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not _setlike(o):
            return NotImplemented
        if not self._syms and not getattr(o, '_syms', None):
            return set.__eq__(self, o)
        o = o if _isinstance(o, SymSet) else SymSet(o)
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o) if _setlike(o) else NotImplemented

    def __lt__(self, o):
        return (self.issubset(o) and len(self) != len(o)) if _setlike(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if _setlike(o) else NotImplemented

    def __gt__(self, o):
        return (self.issuperset(o) and len(self) != len(o)) if _setlike(o) else NotImplemented

    __hash__ = None


class SymFrozenSet(SymSet):
    _frozen = True

    def add(self, x):
        raise AttributeError("'frozenset' object has no attribute 'add'")

    def update(self, *o):
        raise AttributeError("'frozenset' object has no attribute 'update'")

    discard = remove = None

    def __hash__(self):
        if self._syms:
            raise Unsupported("hash of frozenset with symbolic members")
        return hash(frozenset(set.__iter__(self)))

    def union(self, *others):
        r = SymSet(self)
        for o in others:
            r.update(o)
        return SymFrozenSet(r)


def _setlike(o):
    return _isinstance(o, (set, frozenset, SymSet, type({}.keys()), SymKeys))


def _ordered(it):
    """deterministic order for re-execution (hash order is not)"""
    l = list(it)
    try:
        l.sort(key=_okey)
    except TypeError:
        pass
    return l


def _okey(x):
    if _isinstance(x, (int, float, np.number)):
        return (0, float(x), '')
    if _isinstance(x, str):
        return (1, 0.0, x)
    return (2, 0.0, str(type(x)) + (getattr(x, 'filename', None) or repr(x)))


def _iter(o):
    if _isinstance(o, SymArray):
        return iter(o)
    if type(o) in (set, frozenset):
        return iter(_ordered(o))
    return iter(o)


class SymKeys:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __and__(self, o):
        return SymSet(self).intersection(o)

    def __or__(self, o):
        return SymSet(self).union(o)

    def __sub__(self, o):
        return SymSet(self).difference(o)

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __eq__(self, o):
        return SymSet(self) == (o if _isinstance(o, SymSet) else SymSet(o))

    def isdisjoint(self, o):
        return SymSet(self).isdisjoint(o)

    def __repr__(self):
        return 'dict_keys(%r)' % list(self)

    __hash__ = None


class _Missing:
    pass


class SymDict(dict):
    """dict whose keys may be symbolic numbers (or tuples containing them)"""

    def __init__(self, *args, **kw):
        super().__init__()
        self._ks = []        # [(key, [value])] for symbolic keys
        self._order = None
        self.update(*args, **kw)

    def _find_sym(self, k):
        for ent in self._ks:
            if keq(k, ent[0]):
                return ent
        return None

    def _lookup(self, k):
        """-> ('d', key) | ('s', ent) | None"""
        if is_sym_key(k):
            ent = self._find_sym(k)
            if ent is not None:
                return 's', ent
            for kk in list(dict.keys(self)):
                if keq(k, kk):
                    return 'd', kk
            return None
        if dict.__contains__(self, k):
            return 'd', k
        if self._ks and (num_key(k) or type(k) is tuple):
            ent = self._find_sym(k)
            if ent is not None:
                return 's', ent
        return None

    def __contains__(self, k):
        return self._lookup(k) is not None

    def __getitem__(self, k):
        m = self._lookup(k)
        if m is None:
            if hasattr(self, '__missing__'):
                return self.__missing__(k)
            raise KeyError(k)
        if m[0] == 'd':
            return dict.__getitem__(self, m[1])
        return m[1][1]

    def __setitem__(self, k, v):
        m = self._lookup(k)
        if m is None:
            if is_sym_key(k):
                self._ks.append([k, v])
            else:
                dict.__setitem__(self, k, v)
        elif m[0] == 'd':
            dict.__setitem__(self, m[1], v)
        else:
            m[1][1] = v

    def __delitem__(self, k):
        m = self._lookup(k)
        if m is None:
            raise KeyError(k)
        if m[0] == 'd':
            dict.__delitem__(self, m[1])
        else:
            self._ks = [e for e in self._ks if e is not m[1]]

    def get(self, k, default=None):
        m = self._lookup(k)
        if m is None:
            return default
        return dict.__getitem__(self, m[1]) if m[0] == 'd' else m[1][1]

    def setdefault(self, k, default=None):
        m = self._lookup(k)
        if m is None:
            self[k] = default
            return default
        return dict.__getitem__(self, m[1]) if m[0] == 'd' else m[1][1]

    def pop(self, k, *default):
        m = self._lookup(k)
        if m is None:
            if default:
                return default[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v

    def popitem(self):
        if self._ks:
            k, v = self._ks.pop()
            return k, v
        return dict.popitem(self)

    def clear(self):
        dict.clear(self)
        self._ks = []

    def update(self, *args, **kw):
        for a in args:
            if hasattr(a, 'keys'):
                for k in a.keys():
                    self[k] = a[k]
            else:
                for k, v in a:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __iter__(self):
        yield from list(dict.keys(self))
        for k, _ in list(self._ks):
            yield k

    def __len__(self):
        return dict.__len__(self) + len(self._ks)

    def __bool__(self):
        return len(self) > 0

    def __reversed__(self):
        return iter(list(self)[::-1])

    def keys(self):
        return SymKeys(self)

    def values(self):
        return [self._val(k) for k in self]

    def _val(self, k):
        if not is_sym_key(k):
            return dict.__getitem__(self, k)
        for ent in self._ks:
            if ent[0] is k:
                return ent[1]
        return self[k]

    def items(self):
        return [(k, self._val(k)) for k in self]

    def copy(self):
        return type(self)(self) if type(self) is SymDict else self.__copy__()

    def __copy__(self):
        return SymDict(self)

    def __deepcopy__(self, memo):
        import copy
        return SymDict([(k, copy.deepcopy(v, memo)) for k, v in self.items()])

    def __eq__(self, o):
        if not _isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not bool(o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.items())

    @classmethod
    def fromkeys(cls, it, value=None):
        d = SymDict()
        for k in _iter(it):
            d[k] = value
        return d


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        super().__init__(*args, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def __copy__(self):
        return SymDefaultDict(self.default_factory, self)

    copy = __copy__


class SymOrderedDict(SymDict):
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if not last:
            items = self.items()
            self.clear()
            self[k] = v
            self.update(items)
        else:
            self[k] = v


class SymCounter(SymDict):
    def __init__(self, it=(), **kw):
        super().__init__()
        if hasattr(it, 'keys'):
            self.update(it)
        else:
            for x in _iter(it):
                self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: -kv[1])
        return r if n is None else r[:n]


# ------------------------------------------------------------- type shims
class _ShimMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, '_shim_of', c), cls._shim_of)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls._shim_of or getattr(o, '_shim_of', None) is cls._shim_of

    def __hash__(cls):
        return hash(cls._shim_of)

    def __repr__(cls):
        return repr(cls._shim_of)

    def __getattr__(cls, name):
        return getattr(cls._shim_of, name)

    def __or__(cls, o):
        return (cls, o)

    def __class_getitem__(cls, k):
        return cls


def _mkshim(name, real, check, make, **ns):
    d = dict(_shim_of=real, _check=staticmethod(check), _make=staticmethod(make))
    d.update(ns)
    return _ShimMeta(name, (), d)


def _int_make(x=0, *a, **k):
    if _isinstance(x, (SV, SymBool)):
        return cast_py_int(x)
    if _isinstance(x, SymArray):
        x = x._single()
        return cast_py_int(x) if _isinstance(x, (SV, SymBool)) else int(x)
    if _isinstance(x, str):
        p = parse_token(x)
        if p is not None:
            return cast_py_int(p[0])
        if not x.isascii():
            from . import digits
            if digits.has(x):
                return V.mk(digits.parse(x), None)
    if hasattr(x, '__symint__'):
        return x.__symint__()
    return int(x, *a, **k)


def _float_make(x=0.0):
    if _isinstance(x, (SV, SymBool)):
        return cast_py_float(x)
    if _isinstance(x, SymArray):
        x = x._single()
        return cast_py_float(x) if _isinstance(x, (SV, SymBool)) else float(x)
    if _isinstance(x, str):
        p = parse_token(x)
        if p is not None:
            return cast_py_float(p[0])
    return float(x)


def _bool_make(x=False):
    if _isinstance(x, SymBool):
        return V.mk(x.t, None)
    if _isinstance(x, SV):
        return V.mk(V.raw_cmp('ne', x.t, 0), None)
    return bool(x)


def _is_int(x):
    if _isinstance(x, SV):
        return x.dt is None
    if _isinstance(x, SymBool):
        return x.dt is None
    return _isinstance(x, int)


def _is_float(x):
    if _isinstance(x, SV):
        return x.dt is PYF or x.dt == np.dtype('f8')
    return _isinstance(x, float)


def _is_bool(x):
    if _isinstance(x, SymBool):
        return x.dt is None
    return _isinstance(x, bool)


int_shim = _mkshim('int', int, _is_int, _int_make, dtype=np.dtype(int))
float_shim = _mkshim('float', float, _is_float, _float_make, dtype=np.dtype(float))
bool_shim = _mkshim('bool', bool, _is_bool, _bool_make, dtype=np.dtype(bool))
set_shim = _mkshim('set', set, lambda x: _isinstance(x, set) and not
                   _isinstance(x, SymFrozenSet), lambda it=(): SymSet(it))
frozenset_shim = _mkshim('frozenset', frozenset,
                         lambda x: _isinstance(x, (frozenset, SymFrozenSet)),
                         lambda it=(): SymFrozenSet(it))
dict_shim = _mkshim('dict', dict, lambda x: _isinstance(x, dict),
                    lambda *a, **k: SymDict(*a, **k), fromkeys=SymDict.fromkeys)
defaultdict_shim = _mkshim('defaultdict', collections.defaultdict,
                           lambda x: _isinstance(x, (collections.defaultdict, SymDefaultDict)),
                           lambda *a, **k: SymDefaultDict(*a, **k))


def _real_cls(c):
    if type(c) is tuple:
        return tuple(_real_cls(i) for i in c)
    return c


def isinstance_shim(x, cls):
    if type(cls) is tuple:
        return any(isinstance_shim(x, c) for c in cls)
    # undo raw builtins leaking through real modules
    if cls is int:
        return _is_int(x)
    if cls is float:
        return _is_float(x)
    if cls is bool:
        return _is_bool(x)
    if cls is np.ndarray:
        return _isinstance(x, (np.ndarray, SymArray))
    if _isinstance(x, (SV, SymBool)) and _isinstance(cls, type) and \
            issubclass(cls, np.generic):
        return x.dt is not None and x.dt is not PYF and issubclass(x.dt.type, cls)
    import numbers
    if _isinstance(x, (SV, SymBool)) and cls in (numbers.Number, numbers.Real,
                                                 numbers.Integral, numbers.Complex):
        return cls is not numbers.Integral or z3.is_int(V.num(x.t)) and not V.isfloat_dt(x.dt)
    return _isinstance(x, cls)


def round_shim(x, n=None):
    return round(x) if n is None else round(x, n)


def type_shim(*args):
    if len(args) == 1:
        x = args[0]
        if _isinstance(x, SV):
            if x.dt is None:
                return int_shim
            if x.dt is PYF:
                return float_shim
            return x.dt.type
        if _isinstance(x, SymSet):
            return frozenset_shim if x._frozen else set_shim
        return type(x)
    return type(*args)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, type)

    def __call__(cls, *args, **kw):
        if len(args) == 1:
            return type_shim(*args)
        return type(*args, **kw)


def range_shim(*args):
    return range(*args)


def sorted_shim(it, *, key=None, reverse=False):
    return sorted(_iter(it), key=key, reverse=reverse)


def hash_shim(x):
    return hash(x)


def mk_set(*items):
    return SymSet(items)


def mk_dict(pairs):
    d = SymDict()
    for tag, k, v in pairs:
        if tag:
            d.update(k)
        else:
            d[k] = v
    return d


collections_overrides = dict(defaultdict=defaultdict_shim,
                             OrderedDict=SymOrderedDict, Counter=SymCounter)

builtin_overrides = dict(
    int=int_shim, float=float_shim, bool=bool_shim, set=set_shim,
    frozenset=frozenset_shim, dict=dict_shim, isinstance=isinstance_shim,
    sorted=sorted_shim,
)
