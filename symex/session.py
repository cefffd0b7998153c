"""The scenario API.

A scenario is a function of a session: it describes symbolic inputs, builds
EuXFEL files, calls the code under test and states the property.  The same
scenario runs on two backends:

* SymSession: symbolic values, files in the h5py stand-in, z3 decides;
* ConcSession: the values of a counterexample, real HDF5 files in a scratch
  directory and the real libraries (used to replay counterexamples and to
  validate the encoding)."""
import builtins
import fractions
import os
import shutil
import sys
import tempfile

import numpy as np


class CheckFailed(Exception):
    pass


class Discard(Exception):
    """the concrete values do not satisfy the scenario's assumptions"""


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc
        self.ok = exc is None

    def raised(self, *types):
        return self.exc is not None and any(
            t == type(self.exc).__name__ or (isinstance(t, type) and isinstance(self.exc, t))
            or any(c.__name__ == t for c in type(self.exc).__mro__)
            for t in types)

    def __repr__(self):
        return 'Outcome(%r, %r)' % (self.value, self.exc)


class Data:
    """A dataset whose rows are all distinguishable: value = base + row*stride + i"""
    def __init__(self, S, dtype, trailing=(), base=0, rows=None):
        self.S = S
        self.dtype = np.dtype(dtype)
        self.trailing = tuple(trailing)
        self.base = base
        self.inner = int(np.prod(self.trailing)) if self.trailing else 1
        self.rows = rows          # dim0 (value or None -> decided by file builder)
        self.const = None

    def elem(self, row, ix=()):
        flat = int(np.ravel_multi_index(ix, self.trailing)) if self.trailing else 0
        return row * self.inner + (self.base + flat)

    def row(self, row):
        """-> list of the elements of a row (C order)"""
        return [self.elem(row, ix) for ix in np.ndindex(*self.trailing)]

    def conc(self, n):
        a = np.arange(n * self.inner, dtype=np.int64).reshape((n,) + self.trailing) + self.base
        return a.astype(self.dtype)


class FnData(Data):
    """A dataset with explicitly given per-row values: fn(row, ix) -> value.
    Row-dependent values must be given as a list (small number of rows)."""
    def __init__(self, S, dtype, values, trailing=()):
        super().__init__(S, dtype, trailing, 0)
        self.values = list(values)
        self.rows = len(self.values)

    def elem(self, row, ix=()):
        v = self.values[row]
        for i in ix:
            v = v[i]
        return v

    def conc(self, n):
        a = np.array(self.values, dtype=self.dtype).reshape((len(self.values),) + self.trailing)
        return a


class Session:
    symbolic = False
    SENTINEL = object()

    def call(self, fn, *args, **kw):
        try:
            return Outcome(fn(*args, **kw))
        except CheckFailed:
            raise
        except Exception as e:
            return Outcome(exc=e)

    def tids(self, n, prefix='t', lo=2 ** 20, hi=2 ** 50, order='inc'):
        """n train IDs, strictly increasing"""
        out = []
        for i in range(n):
            t = self.int('%s%d' % (prefix, i), lo, hi)
            if order == 'inc' and out:
                self.assume(out[-1] < t)
            out.append(t)
        return out

    def counts(self, n, hi, prefix='c', lo=0):
        return [self.int('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def firsts(self, counts, prefix='f', hi=1000, lo=0, contiguous=False):
        """First-indices of consecutive trains' entries.  With contiguous=True
        entries are stored back to back starting anywhere (as real files do);
        trains without data keep the running position."""
        n = len(counts)
        out = []
        if contiguous:
            pos = self.int(prefix + '0', lo, hi) if n else 0
            for i in range(n):
                out.append(pos)
                pos = pos + counts[i]
            return out, pos
        for i in range(n):
            out.append(self.int('%s%d' % (prefix, i), lo, hi))
        return out, None

    def eq_array(self, got, expected, msg, dtype=None, shape=None):
        """got has this shape / dtype and exactly these elements"""
        shp, els, dt = self.elems(got)
        exp = list(expected)
        if shape is not None:
            self.check(tuple(shp) == tuple(shape), msg + ' (shape)')
        self.check(len(els) == len(exp), msg + ' (number of elements)')
        if dtype is not None:
            self.check(dt == np.dtype(dtype), msg + ' (dtype)')
        self.check(self.And(*[a == b for a, b in zip(els, exp)]), msg)

    def add_file(self, name, *, tids, ctrl=None, inst=None, version='0.5', pad=0,
                 tid_dtype='u8', extra_sources=0, rows_slack=0, raw_sources=None, ctrl_index=None):
        """Describe a EuXFEL file.

        ctrl: {source: {key: Data}}
        inst: {source: {group: dict(keys={key: Data}, firsts=, counts=, style='count'|'status',
               nrows=)}}"""
        n = len(tids)
        ds = []        # (path, kind, payload)
        tid_vals = list(tids) + [0] * pad
        ds.append(('INDEX/trainId', 'vec', (tid_dtype, tid_vals)))
        srcs = []
        for src, keys in (ctrl or {}).items():
            srcs.append('CONTROL/' + src)
            cf, cc = (ctrl_index or {}).get(src, (list(range(n)), [1] * n))
            ds.append(('INDEX/%s/first' % src, 'vec', ('u8', list(cf) + [0] * pad)))
            ds.append(('INDEX/%s/count' % src, 'vec', ('u8', list(cc) + [0] * pad)))
            for key, d in keys.items():
                ds.append(('CONTROL/%s/%s' % (src, key.replace('.', '/')), 'data',
                           (d, n + pad if d.rows is None else d.rows)))
        for src, groups in (inst or {}).items():
            for group, g in groups.items():
                srcs.append('INSTRUMENT/%s/%s' % (src, group))
                cs, fs = list(g['counts']), list(g['firsts'])
                if g.get('style', 'count') == 'count':
                    ds.append(('INDEX/%s/%s/first' % (src, group), 'vec', ('u8', fs + [0] * pad)))
                    ds.append(('INDEX/%s/%s/count' % (src, group), 'vec', ('u8', cs + [0] * pad)))
                else:
                    sts = [self.If(c > 0, 1, 0) for c in cs]
                    lasts = [self.If(c > 0, f + c - 1, f) for f, c in zip(fs, cs)]
                    ds.append(('INDEX/%s/%s/first' % (src, group), 'vec', ('u8', fs + [0] * pad)))
                    ds.append(('INDEX/%s/%s/last' % (src, group), 'vec', ('u8', lasts + [0] * pad)))
                    ds.append(('INDEX/%s/%s/status' % (src, group), 'vec', ('u4', sts + [0] * pad)))
                nrows = g.get('nrows')
                if nrows is None:
                    nrows = 0
                    for f, c in zip(fs, cs):
                        nrows = self.Max(nrows, self.If(c > 0, f + c, 0))
                    nrows = nrows + rows_slack
                for key, d in g['keys'].items():
                    ds.append(('INSTRUMENT/%s/%s' % (src, (group + '.' + key if group else key)
                                                     .replace('.', '/')), 'data',
                               (d, nrows if d.rows is None else d.rows)))
        if raw_sources is not None:
            srcs = raw_sources
        p = 'METADATA/dataSourceId' if version == '0.5' else 'METADATA/dataSources/dataSourceId'
        ds.append((p, 'bytes', [s.encode() for s in srcs] + [b''] * extra_sources))
        if version != '0.5':
            ds.append(('METADATA/dataFormatVersion', 'bytes', [version.encode()]))
        return self.write_h5(name, ds)


def relayout(a, order):
    if order == 'F':
        return np.asfortranarray(a)
    if order == 'rev':             # negative strides
        return np.ascontiguousarray(a[::-1])[::-1]
    if order == 'part':            # part of a larger array
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if order == 'T':
        return np.ascontiguousarray(a.T).T
    return np.array(a, order='C')


# ---------------------------------------------------------------- symbolic
class SymSession(Session):
    symbolic = True

    def __init__(self, kd, cfg):
        from . import engine, values, arr, npshim, h5shim
        self.kd = kd
        self.cfg = cfg
        self.V, self.A, self.E, self.h5 = values, arr, engine, h5shim
        self.np = npshim.numpy_shim
        self.e = engine.cur()
        self.notes = []

    def module(self, name):
        import importlib
        return importlib.import_module('karabo_data' + ('.' + name if name else ''))

    # inputs
    def int(self, name, lo=None, hi=None, dt=None):
        t = self.e.fresh_int(name, lo, hi)
        self.V.set_bounds(t, lo, hi)
        if lo is not None and lo == hi:
            return lo
        return self.V.mk(t, np.dtype(dt) if dt is not None else None)

    def real(self, name, lo=None, hi=None, dt='f8'):
        t = self.e.fresh_real(name, lo, hi)
        return self.V.mk(t, np.dtype(dt) if dt not in (None, 'py') else self.V.PYF)

    def bool(self, name):
        return self.V.mk(self.e.fresh_bool(name), None)

    def choose(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        if isinstance(i, int):
            return options[i]
        return options[self.e.concretise(i.t, limit=len(options) + 1)]

    def conc(self, v):
        """fork over the possible values of v"""
        if isinstance(v, (self.V.SV, self.V.SymBool)):
            return int(v.__index__())
        return int(v)

    def assume(self, c):
        if isinstance(c, self.V.SymBool):
            self.e.assume_term(c.t)
        elif not c:
            raise self.E.PathAbort()

    def check(self, c, msg):
        self.e.check(c.t if isinstance(c, self.V.SymBool) else builtins.bool(c), msg)

    def fork(self, c):
        return builtins.bool(c)

    # logic without forking
    def _b(self, c):
        import z3
        if isinstance(c, self.V.SymBool):
            return c.t
        if isinstance(c, self.V.SV):
            return c.t != 0
        return builtins.bool(c)

    def And(self, *cs):
        acc = True
        for c in cs:
            acc = self.V.bool_op('and', acc, self._b(c))
        return self.V.mk(acc, None)

    def Or(self, *cs):
        acc = False
        for c in cs:
            acc = self.V.bool_op('or', acc, self._b(c))
        return self.V.mk(acc, None)

    def Not(self, c):
        return self.V.mk(self.V.raw_not(self._b(c)), None)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def If(self, c, a, b):
        import z3
        c = self._b(c)
        if c is True:
            return a
        if c is False:
            return b
        ra, rb = self.V._pair(self.V.unwrap(a)[0], self.V.unwrap(b)[0])
        isf = self.V.isfloat_dt(self.V.unwrap(a)[1]) or self.V.isfloat_dt(self.V.unwrap(b)[1])
        return self.V.mk(z3.If(c, ra, rb), self.V.PYF if isf else None)

    def Max(self, a, b):
        return self.If(a >= b, a, b)

    def Min(self, a, b):
        return self.If(a <= b, a, b)

    def Sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def plain(self, x):
        """numpy-typed number -> Python-typed number of the same value"""
        if isinstance(x, (self.V.SV, self.V.SymBool)):
            return x.item()
        if isinstance(x, np.generic):
            return x.item()
        if hasattr(x, '__symarray__'):
            return self.plain(x.__symarray__()._single())
        return x

    # reading results
    def elems(self, x):
        x = self.A.asarr(x)
        return x.shape, [self.V.mk(r, None if x.dtype.kind in 'iub' else x.dtype
                                   if x.dtype.kind == 'O' else self.V.PYF)
                         for r in x.a.flat], x.dtype

    def array(self, vals, dtype=None):
        return self.A.asarr(list(vals), dtype)

    def is_array(self, x):
        return self.A.is_arraylike(x)

    # files
    def path(self, name):
        return '/scratch/' + name

    def osfs(self):
        from .osmodel import SymOS
        return SymOS(self)

    def digit_fs(self):
        """a file system whose names may contain symbolic digits"""
        from .digits import DigitOS
        return DigitOS(self)

    def digits(self, n, name, lead_zero=True):
        """-> (text of n digits, the number)"""
        from . import digits
        s = digits.fresh(n, name + '_', lead_zero)
        return s, self.V.mk(digits.value(s), None)

    def capture(self, fn, *args, **kw):
        """-> (outcome, printed text)"""
        from .loader import world
        world.printed = []
        r = self.call(fn, *args, **kw)
        return r, '\n'.join(t for t, f in world.printed) + '\n'

    def write_h5(self, name, ds):
        h5 = self.h5
        path = self.path(name)
        root = h5.Group(None, '/')
        for p, kind, payload in ds:
            parts = [q for q in p.split('/') if q]
            node = root
            for q in parts[:-1]:
                node = node._children.setdefault(
                    q, h5.Group(None, node.name.rstrip('/') + '/' + q))
            if kind == 'vec':
                dt, vals = payload
                c = h5.Full(self.A.asarr_list(list(vals), np.dtype(dt)))
            elif kind == 'bytes':
                a = np.empty(len(payload), dtype=object)
                a[:] = payload
                c = h5.Full(self.A.SymArray(a, self.A.OBJ))
            elif kind == 'data':
                d, n = payload
                V = self.V

                def elem(row, ix, d=d):
                    if isinstance(d, FnData):
                        row = row if isinstance(row, int) else self.e.concretise(row)
                    else:
                        row = V.mk(row, None)
                    return V.cast_raw(V.unwrap(d.elem(row, ix))[0], d.dtype)
                c = h5.Rows(V.unwrap(n)[0], d.trailing, d.dtype, elem)
            elif kind == 'group':
                node._children.setdefault(parts[-1], h5.Group(
                    None, node.name.rstrip('/') + '/' + parts[-1]))
                continue
            else:
                raise ValueError(kind)
            node._children[parts[-1]] = h5.Dataset(None, '/' + '/'.join(parts), c)
        h5.fs()[path] = root
        w = self.e.path_state.get('osfs')
        if w is not None:
            w.put_h5(path, 1, 0)
        return path

    def corrupt_file(self, name):
        path = self.path(name)
        self.h5.fs()[path] = OSError("Unable to open file (file signature not found)")
        w = self.e.path_state.get('osfs')
        if w is not None:
            w.put_h5(path, 1, 0)
        return path

    def h5file(self, path):
        return self.h5.File(path, 'r')

    def open_files(self):
        """names of the HDF5 files which are open"""
        import gc
        gc.collect()
        fs = [r() for r in self.E.cur().path_state.get('h5open_files', [])]
        return sorted({str(f.filename) for f in fs if f is not None and not f._closed})

    def wire(self):
        from .wire import SymWire
        return SymWire

    def layout(self, a, order):
        """the same array in another memory layout"""
        return self.A.SymArray(relayout(a.a, order), a.dtype)

    def text_is(self, got, parts):
        """condition: got is the text of these parts (strings and numbers)"""
        from .tokens import TOKEN_RE
        if hasattr(got, '__symarray__'):
            got = got.__symarray__()._single()
        if isinstance(got, bytes):
            got = got.decode()
        conds, pos = [], 0
        want = ''
        for p in parts:
            if isinstance(p, (self.V.SV,)):
                if got[pos:pos + len(want)] != want:
                    return False
                pos += len(want)
                want = ''
                m = TOKEN_RE.match(got, pos)
                if m:
                    v, spec = self.e.token_terms[int(m.group(1))]
                    if spec not in ('', 'd'):
                        return False
                    conds.append(self.V.mk(v.t, None) == self.V.mk(p.t, None))
                    pos = m.end()
                    continue
                import re
                m = re.compile(r'-?\d+').match(got, pos)
                if not m:
                    return False
                conds.append(self.V.mk(p.t, None) == builtins.int(m.group(0)))
                pos = m.end()
            else:
                want += str(p)
        if got[pos:] != want:
            m = TOKEN_RE.search(got[pos:])
            if not m or TOKEN_RE.sub('@', got[pos:]).count('@') > 1:
                return False
            # a number where the expectation is concrete
            v, spec = self.e.token_terms[builtins.int(m.group(1))]
            a, b = got[pos:][:m.start()], got[pos:][m.end():]
            mid = want[len(a):len(want) - len(b)] if b else want[len(a):]
            if not want.startswith(a) or not want.endswith(b) or not mid.lstrip('-').isdigit():
                return False
            conds.append(self.V.mk(v.t, None) == builtins.int(mid))
        return self.And(*conds)

    def text(self, v):
        return str(v)


# ---------------------------------------------------------------- concrete
class ConcSession(Session):
    symbolic = False

    def __init__(self, kd, cfg, values):
        self.kd = kd
        self.cfg = cfg
        self.values = values
        self.np = np
        self.dir = None
        self.checks = 0
        self.notes = []

    def module(self, name):
        import importlib
        return importlib.import_module('karabo_data' + ('.' + name if name else ''))

    def cleanup(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)

    def int(self, name, lo=None, hi=None, dt=None):
        if lo is not None and lo == hi:
            return lo
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else 0
        v = int(fractions.Fraction(int(v[0]), int(v[1]))) if isinstance(v, (list, tuple)) else int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard(name)
        return np.dtype(dt).type(v) if dt is not None else v

    def real(self, name, lo=None, hi=None, dt='f8'):
        v = self.values.get(name, [str(lo or 0), '1'])
        if isinstance(v, builtins.bool) or not isinstance(v, (list, tuple)):
            v = [v, 1]
        v = float(fractions.Fraction(int(v[0]), int(v[1])))
        return v if dt in (None, 'py') else np.dtype(dt).type(v)

    def bool(self, name):
        return builtins.bool(self.values.get(name, False))

    def choose(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def conc(self, v):
        return int(v)

    def assume(self, c):
        if not c:
            raise Discard("assumption")

    def check(self, c, msg):
        self.checks += 1
        if not builtins.bool(c):
            raise CheckFailed(msg)

    def fork(self, c):
        return builtins.bool(c)

    def And(self, *cs):
        return all(builtins.bool(c) for c in cs)

    def Or(self, *cs):
        return any(builtins.bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or builtins.bool(b)

    def If(self, c, a, b):
        return a if c else b

    def Max(self, a, b):
        return a if a >= b else b

    def Min(self, a, b):
        return a if a <= b else b

    def Sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def plain(self, x):
        if isinstance(x, np.generic):
            return x.item()
        if hasattr(x, 'values') or isinstance(x, np.ndarray):
            return np.asarray(x).item()
        return x

    def elems(self, x):
        if hasattr(x, 'compute') and not hasattr(x, 'coords'):
            x = x.compute()
        a = np.asarray(x)
        return a.shape, [v.item() if isinstance(v, np.generic) else v
                         for v in (a.flat if a.dtype.kind != 'O' else list(a.flat))], a.dtype

    def array(self, vals, dtype=None):
        return np.array(list(vals), dtype=dtype)

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    def osfs(self):
        from .osmodel import ConcOS
        return ConcOS(self)

    def digit_fs(self):
        return self.osfs()

    def digits(self, n, name, lead_zero=True):
        s = ''.join(str(self.int('%s_%d' % (name, i), 0 if lead_zero or i else 1, 9)) for i in range(n))
        return s, int(s)

    def capture(self, fn, *args, **kw):
        import contextlib
        import io
        b = io.StringIO()
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):
            r = self.call(fn, *args, **kw)
        return r, b.getvalue()

    def path(self, name):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='verif-replay-')
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write_h5(self, name, ds):
        import h5py
        path = self.path(name)
        final, path = path, path + '.new'
        # (an earlier version of the file may still be open)
        with h5py.File(path, 'w') as f:
            for p, kind, payload in ds:
                if kind == 'vec':
                    dt, vals = payload
                    a = np.array([int(v) if np.dtype(dt).kind in 'iu' else v for v in vals],
                                 dtype=dt)
                    f.create_dataset(p, data=a, maxshape=(None,))
                elif kind == 'bytes':
                    d = f.create_dataset(p, (len(payload),), maxshape=(None,),
                                         dtype=h5py.special_dtype(vlen=bytes))
                    if payload:
                        d[:] = payload
                elif kind == 'group':
                    f.require_group(p)
                else:
                    d, n = payload
                    n = int(n)
                    if n * d.inner > 10_000_000:
                        # only the beginning is filled in
                        if n * d.inner > 2 ** 60:
                            raise Discard("dataset too large")
                        a = d.conc(1000)
                        h = f.create_dataset(p, shape=(n,) + d.trailing, dtype=d.dtype, chunks=True,
                                             maxshape=(None,) + d.trailing)
                        h[:len(a)] = a
                        continue
                    a = d.conc(n)
                    f.create_dataset(p, data=a, maxshape=(None,) + d.trailing)
        os.replace(path, final)
        return final

    def corrupt_file(self, name):
        path = self.path(name)
        with open(path, 'wb') as f:
            f.write(b'this is not an HDF5 file\n' * 10)
        return path

    def h5file(self, path):
        import h5py
        return h5py.File(path, 'r')

    def open_files(self):
        import gc
        gc.collect()
        out = set()
        for fd in os.listdir('/proc/self/fd'):
            try:
                p = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if p.endswith('.h5') and p.startswith(os.path.realpath(self.dir) + '/'):
                out.add(self.dir + p[len(os.path.realpath(self.dir)):])
        return sorted(out)

    def wire(self):
        from .wire import ConcWire
        return ConcWire

    def layout(self, a, order):
        return relayout(a, order)

    def text_is(self, got, parts):
        if isinstance(got, bytes):
            got = got.decode()
        return str(got) == ''.join(str(p) for p in parts)

    def text(self, v):
        return str(v)
