"""Stand-in for h5py: in-memory files whose datasets may have symbolic length
and contents.  Selection rules follow h5py 3.2."""
import operator
import posixpath
import re as _re

import numpy as np
import z3

from . import arr as A
from . import values as V
from .arr import SymArray, asarr, has_sym, prep_key
from .containers import SymDict
from .engine import Unsupported, cur
from .values import SV, SymBool, is_term, mk, raw_cmp, truth


def fs():
    return cur().path_state.setdefault('h5fs', {})


class Content:
    """how a dataset's elements are found"""


class Rows(Content):
    """element(row, inner) -> raw; any number of rows"""
    def __init__(self, dim0, trailing, dtype, elem):
        self.dim0 = dim0            # raw
        self.trailing = tuple(trailing)
        self.dtype = np.dtype(dtype)
        self.elem = elem

    def read_rows(self, rows):
        out = np.empty((len(rows),) + self.trailing, dtype=object)
        for i, r in enumerate(rows):
            for ix in np.ndindex(*self.trailing):
                out[(i,) + ix] = self.elem(r, ix)
        return out


class Full(Content):
    def __init__(self, arr):
        self.arr = arr


class AttrDict(dict):
    pass


class Node:
    def __init__(self, file, name):
        self.file_node = file
        self.name = name
        self.attrs = AttrDict()

    @property
    def file(self):
        return self.file_node

    @property
    def parent(self):
        return self.file_node[posixpath.dirname(self.name)]


class Group(Node):
    def __init__(self, file, name):
        super().__init__(file, name)
        self._children = {}

    def _root(self):
        return self.file_node if self.file_node is not None else self

    def _resolve(self, path):
        if isinstance(path, bytes):
            path = path.decode()
        if not isinstance(path, str):
            raise TypeError("Accessing a group is done with bytes or str, "
                            "not %s" % type(path))
        node = self._root()._tree if path.startswith('/') else self._grp()
        for part in path.split('/'):
            if part in ('', '.'):
                continue
            if not isinstance(node, Group) or part not in node._children:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % part)
            node = node._children[part]
            if isinstance(node, SoftLink):
                node = self._root()._tree._resolve_abs(node.path, self._root())
        return node

    def _resolve_abs(self, path, root):
        return root._resolve(path)

    def _grp(self):
        return self

    def _check_open(self):
        if self._root()._closed:
            raise ValueError("Not a location (invalid object ID)")

    def __getitem__(self, path):
        self._check_open()
        return self._resolve(path)

    def get(self, path, default=None):
        try:
            return self[path]
        except KeyError:
            return default

    def __contains__(self, path):
        try:
            self._resolve(path)
            return True
        except KeyError:
            return False

    def keys(self):
        return sorted(self._grp()._children)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._grp()._children)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def visititems(self, func):
        self._check_open()

        def walk(g, prefix):
            for k in sorted(g._children):
                ch = g._children[k]
                if isinstance(ch, SoftLink):
                    continue
                r = func(prefix + k, ch)
                if r is not None:
                    return r
                if isinstance(ch, Group):
                    r = walk(ch, prefix + k + '/')
                    if r is not None:
                        return r
        return walk(self._grp(), '')

    def visit(self, func):
        return self.visititems(lambda name, obj: func(name))

    def _writable(self):
        root = self._root()
        self._check_open()
        if root.mode == 'r':
            raise ValueError("Unable to create group (no write intent on file)")

    def create_group(self, path):
        self._writable()
        node = self._root()._tree if path.startswith('/') else self._grp()
        created = False
        for part in [p for p in path.split('/') if p]:
            if part not in node._children:
                g = Group(self._root(), posixpath.join(node.name, part))
                node._children[part] = g
                created = True
            node = node._children[part]
            if not isinstance(node, Group):
                raise ValueError("Unable to create group (message type not found)")
        if not created:
            raise ValueError("Unable to create group (name already exists)")
        return node

    def require_group(self, path):
        if path in self:
            return self[path]
        return self.create_group(path)

    def _attach(self, path, obj):
        self._writable()
        if isinstance(path, bytes):
            path = path.decode()
        parts = [p for p in path.split('/') if p]
        node = self._root()._tree if path.startswith('/') else self._grp()
        for part in parts[:-1]:
            if part not in node._children:
                node._children[part] = Group(self._root(), posixpath.join(node.name, part))
            node = node._children[part]
            if not isinstance(node, Group):
                raise ValueError("Unable to create dataset (component not found)")
        if parts[-1] in node._children:
            raise (RuntimeError if isinstance(obj, SoftLink) else ValueError)(
                "Unable to create dataset (name already exists)")
        node._children[parts[-1]] = obj
        if isinstance(obj, Dataset):
            obj.name = posixpath.join(node.name, parts[-1])
            obj.file_node = self._root()

    def __setitem__(self, path, value):
        if isinstance(value, (SoftLink, Group, Dataset)):
            self._attach(path, value)
            return
        self.create_dataset(path, data=value)

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None,
                       chunks=None, compression=None, fillvalue=None, **kw):
        from .npshim import dims, dt_of
        dtype = dt_of(dtype) if dtype is not None else None
        if hasattr(data, '__symarray__'):
            data = data.__symarray__()
        if isinstance(data, Dataset):
            data = data[()]
        if data is not None:
            if isinstance(data, str):
                a = SymArray(A.obj0(data), A.OBJ)
            else:
                a = asarr(data)
            if a.dtype.kind == 'U':
                raise TypeError("No conversion path for dtype: %r" % a.dtype)
            if dtype is not None and dtype != a.dtype:
                a = a.astype(dtype)
            a = a.copy()
            if shape is not None:
                a = a.reshape(*dims(shape))
        else:
            dt = dtype if dtype is not None else np.dtype('f4')
            fv = 0 if fillvalue is None else fillvalue
            shp = dims(shape) if shape is not None else ()
            if dt.kind == 'O':
                a = SymArray(A.fill_obj(shp, b''), dt)
            else:
                a = SymArray(A.fill_obj(shp, V.cast_raw(fv, dt)), dt)
        ds = Dataset(self._root(), name, Full(a))
        ds.maxshape = maxshape
        self._attach(name, ds)
        return ds

    def require_dataset(self, name, shape, dtype, **kw):
        if name in self:
            return self[name]
        return self.create_dataset(name, shape, dtype, **kw)

    def create_virtual_dataset(self, name, layout, fillvalue=None):
        a = layout.build(fillvalue)
        ds = Dataset(self._root(), name, Full(a))
        ds.is_virtual = True
        ds.vds_sources = list(layout.sources)
        ds.vds_filled = layout.filled
        ds.fillvalue = fillvalue
        self._attach(name, ds)
        return ds

    def copy(self, source, dest, name=None, **kw):
        raise Unsupported("h5 copy")

    def __repr__(self):
        return '<HDF5 group "%s">' % self.name


class SoftLink:
    def __init__(self, path):
        self.path = path


class ExternalLink:
    def __init__(self, filename, path):
        raise Unsupported("ExternalLink")


class _FileId:
    def __init__(self, f):
        self.f = f

    def get_vfd_handle(self):
        w = cur().path_state.get('osfs')
        if w is not None:
            return w.h5_handle(self.f)
        raise NotImplementedError("no fd")

    @property
    def valid(self):
        return not self.f._closed

    def __bool__(self):
        return not self.f._closed


class File(Group):
    def __init__(self, name, mode=None, libver=None, **kw):
        if hasattr(name, '__fspath__'):
            name = name.__fspath__()
        self.filename = name
        self.mode = mode or 'r'
        self._closed = False
        hook = cur().path_state.get('h5open')
        if hook is not None:
            hook(name, self.mode)
        files = fs()
        w = cur().path_state.get('osfs')
        if hasattr(w, 'canon'):
            name = w.canon(name)
        if self.mode in ('w', 'w-', 'x'):
            tree = Group(None, '/')
            w = cur().path_state.get('osfs')
            if w is not None:
                w.h5_created(name)
            files[name] = tree
        else:
            if name not in files:
                if self.mode == 'a':
                    files[name] = Group(None, '/')
                else:
                    raise OSError("Unable to open file (unable to open file: "
                                  "name = '%s', errno = 2)" % name)
            tree = files[name]
            if isinstance(tree, Exception):
                raise tree
        if self.mode in ('w-', 'x', 'a', 'r+', 'w'):
            self.mode = 'r+'
        self._tree = tree
        w = cur().path_state.get('osfs')
        if w is not None:
            w.h5_opened(self, name)
        Node.__init__(self, self, '/')
        self.attrs = tree.attrs
        import weakref
        cur().path_state.setdefault('h5open_files', []).append(weakref.ref(self))
        # bind datasets' file reference
        self.id = _FileId(self)

    @property
    def _children(self):
        return self._tree._children

    @_children.setter
    def _children(self, v):
        pass

    def _root(self):
        return self

    def _grp(self):
        return self._tree

    def _resolve(self, path):
        node = super()._resolve(path)
        if isinstance(node, Dataset):
            return node.bind(self)
        if isinstance(node, Group) and not isinstance(node, File):
            return BoundGroup(self, node)
        return node

    def close(self):
        self._closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __bool__(self):
        return not self._closed

    def __repr__(self):
        return '<HDF5 file "%s" (mode %s)>' % (posixpath.basename(self.filename), self.mode)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class BoundGroup(Group):
    """A group seen through an open file"""
    def __init__(self, file, grp):
        Node.__init__(self, file, grp.name)
        self._g = grp
        self.attrs = grp.attrs

    @property
    def _children(self):
        return self._g._children

    def _grp(self):
        return self._g

    def _resolve(self, path):
        if path.startswith('/'):
            return self.file_node._resolve(path)
        node = Group._resolve(self, path)
        if isinstance(node, Dataset):
            return node.bind(self.file_node)
        if isinstance(node, Group) and not isinstance(node, (File, BoundGroup)):
            return BoundGroup(self.file_node, node)
        return node


class _Shape(tuple):
    pass


def sel_len(shape, key):
    pass


class Dataset(Node):
    is_virtual = False
    fillvalue = 0
    maxshape = None
    chunks = None

    def __init__(self, file, name, content):
        super().__init__(file, name)
        self.content = content

    def bind(self, file):
        if self.file_node is file:
            return self
        d = Dataset.__new__(type(self))
        d.__dict__.update(self.__dict__)
        d.file_node = file
        return d

    def _check_open(self):
        if isinstance(self.file_node, File) and self.file_node._closed:
            raise ValueError("Not a dataset (not a dataset)")

    @property
    def dtype(self):
        c = self.content
        return c.dtype if isinstance(c, Rows) else c.arr.dtype

    @property
    def shape(self):
        self._check_open()
        c = self.content
        if isinstance(c, Rows):
            return (mk(c.dim0, None),) + c.trailing
        return c.arr.shape

    @property
    def ndim(self):
        c = self.content
        return 1 + len(c.trailing) if isinstance(c, Rows) else c.arr.ndim

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __len__(self):
        return operator.index(self.shape[0]) if not isinstance(self.shape[0], SV) \
            else self.shape[0].__index__()

    def len(self):
        return self.shape[0]

    def __bool__(self):
        return True

    def __hash__(self):
        return hash((self.name, id(self.content)))

    def __eq__(self, o):
        return isinstance(o, Dataset) and o.content is self.content

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, key):
        self._check_open()
        return self._read(key)

    def __array__(self, dtype=None):
        return np.asarray(self[()])

    def __symarray__(self):
        return asarr(self[()])

    def astype(self, dt):
        raise Unsupported("Dataset.astype")

    def asstr(self, *a):
        return _AsStr(self)

    def _read(self, key):
        tup = key if isinstance(key, tuple) else (key,)
        if tup == ():
            tup = (Ellipsis,)
        tup = tuple(k.__symarray__() if hasattr(k, '__symarray__') and not
                    isinstance(k, SymArray) else k for k in tup)
        nell = sum(1 for k in tup if k is Ellipsis)
        if nell > 1:
            raise ValueError("Only one ellipsis may be used.")
        nd = self.ndim
        if nell == 0:
            tup = tup + (Ellipsis,)
        i = [j for j, k in enumerate(tup) if k is Ellipsis][0]
        fill = nd - (len(tup) - 1)
        if fill < 0:
            raise TypeError("%d indexing arguments for %d dimensions" % (len(tup) - 1, nd))
        had_all_int = fill == 0 and nell == 0
        tup = tup[:i] + (slice(None),) * fill + tup[i + 1:]
        if nd == 0:
            return mk(self.content.arr.a[()], self.dtype)
        c = self.content
        if isinstance(c, Rows):
            n0 = c.dim0
        else:
            n0 = c.arr.shape[0]
        k0, rest = tup[0], tup[1:]
        rest = tuple(self._inner_key(k, n) for k, n in zip(
            rest, c.trailing if isinstance(c, Rows) else c.arr.shape[1:]))
        if sum(isinstance(k, (list, np.ndarray)) for k in rest) + (
                isinstance(k0, (list, np.ndarray, SymArray))) > 1:
            raise TypeError("Only one indexing vector or array is currently allowed")
        rows, scalar = self._row_sel(k0, n0)
        if isinstance(c, Rows):
            block = c.read_rows(rows)
        else:
            rows = [cur().concretise(r, why='row of a stored array') if is_term(r) else int(r)
                    for r in rows]
            block = c.arr.a[np.array(rows, dtype=np.intp)] if rows else \
                c.arr.a[:0]
        block = block[(slice(None),) + rest]
        if scalar:
            block = block[0]
        if isinstance(block, np.ndarray):
            if block.ndim == 0:
                return mk(block[()], self.dtype)
            return SymArray(block.copy(), self.dtype)
        return mk(block, self.dtype)

    def _inner_key(self, k, n):
        k = prep_key(k, (n,)) if not isinstance(k, (int, np.integer)) else int(k)
        if isinstance(k, slice):
            s, e, st = k.indices(n)
            if st < 1:
                raise ValueError("Step must be >= 1 (got %d)" % st)
            if e < s:
                e = s
            return slice(s, e, st)
        if isinstance(k, int):
            if k < 0:
                k += n
            if not 0 <= k < n:
                raise IndexError("Index (%s) out of range for (0-%s)" % (k, n - 1))
            return k
        if isinstance(k, (list, np.ndarray)):
            kk = np.asarray(k)
            if kk.dtype.kind == 'b':
                if kk.shape != (n,):
                    raise TypeError("boolean index did not match")
                return kk.nonzero()[0]
            if kk.size and kk.dtype.kind == 'f':
                raise TypeError("Selection coordinates must be integers")
            if any(b <= a for a, b in zip(kk, kk[1:])):
                raise TypeError("Indexing elements must be in increasing order")
            if kk.size and (kk[-1] >= n or kk[0] < 0):
                raise IndexError("Fancy indexing out of range for (0-%s)" % (n - 1))
            return kk.astype(np.intp)
        raise Unsupported("h5 inner selection %r" % (type(k),))

    def _row_sel(self, k, n):
        """-> (list of row raws, scalar?)"""
        if isinstance(k, slice):
            st = 1 if k.step is None else operator.index(k.step)
            if st < 1:
                raise ValueError("Step must be >= 1 (got %d)" % st)
            s = _clamp(k.start, n, 0)
            e = _clamp(k.stop, n, n)
            if truth(raw_cmp('le', e, s)):
                return [], False
            ln = V.raw_op('sub', e, s, None)
            if st != 1:
                ln = V.raw_op('floordiv', V.raw_op('add', ln, st - 1, None), st, None)
            cnt = ln if not is_term(ln) else cur().concretise(ln, why='rows read')
            if cnt > (100000 if not is_term(s) else 4000):
                raise Unsupported("reading %d rows" % cnt)
            return [V.raw_op('add', s, i * st, None) for i in range(cnt)], False
        if isinstance(k, SymArray) and k.ndim == 0:
            k = k[()]
        if isinstance(k, (SV, SymBool)) or isinstance(k, (int, np.integer)) and not \
                isinstance(k, (bool, np.bool_)):
            if isinstance(k, SV) and V.isfloat_dt(k.dt):
                raise TypeError("Simple selections can only process integers")
            r = k.t if isinstance(k, SV) else int(k)
            if isinstance(k, SymBool):
                raise Unsupported("bool index into dataset")
            if truth(raw_cmp('lt', r, 0)):
                r = V.raw_op('add', r, n, None)
                if truth(raw_cmp('lt', r, 0)):
                    raise IndexError("Index out of range")
            if truth(raw_cmp('ge', r, n)):
                raise IndexError("Index out of range")
            return [r], True
        if isinstance(k, (float, np.floating)):
            raise TypeError("Simple selections can only process integers")
        if isinstance(k, (list, tuple, np.ndarray, SymArray)):
            a = asarr(k)
            if a.dtype.kind == 'b':
                b = A.conc_bools(a)
                nn = n if not is_term(n) else cur().concretise(n)
                if b.shape != (nn,):
                    raise TypeError("Boolean indexing array has incompatible shape")
                return [int(i) for i in b.nonzero()[0]], False
            if a.ndim != 1:
                raise TypeError("Only 1D arrays allowed for fancy indexing")
            if a.dtype.kind not in 'iu' and a.size:
                raise TypeError("Indexing arrays must have integer dtypes")
            rows = list(a.a)
            for i, r in enumerate(rows):
                if truth(raw_cmp('lt', r, 0)):
                    raise IndexError("Fancy indexing out of range")
                if truth(raw_cmp('ge', r, n)):
                    raise IndexError("Fancy indexing out of range")
                if i and not truth(raw_cmp('lt', rows[i - 1], r)):
                    raise TypeError("Indexing elements must be in increasing order")
            return rows, False
        raise TypeError("Illegal index %r" % (k,))

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        if hasattr(dest, '__symarray__') and not isinstance(dest, SymArray):
            raise Unsupported("read_direct target")
        data = asarr(self[source_sel if source_sel is not None else ()])
        tgt = dest[dest_sel] if dest_sel is not None else dest
        # HDF5 only requires equal numbers of points (up to broadcasting)
        if not isinstance(tgt, (SymArray, np.ndarray)):
            raise TypeError("read_direct needs an array")
        if data.size != tgt.size:
            raise TypeError("Can't broadcast %s -> %s" % (data.shape, tgt.shape))
        if data.size == 0:
            raise ZeroDivisionError("integer division or modulo by zero")   # as h5py 3.2 does
        d = data.reshape(*tgt.shape) if data.shape != tgt.shape else data
        if dest_sel is not None:
            dest[dest_sel] = d
        else:
            dest[...] = d

    def __setitem__(self, key, value):
        self._check_open()
        if isinstance(self.content, Rows):
            raise Unsupported("write to a symbolic dataset")
        if isinstance(self.file_node, File) and self.file_node.mode == 'r':
            raise OSError("Can't write data (no write intent on file)")
        a = self.content.arr
        v = asarr(value)
        if a.dtype.kind in 'OSU':
            tgt = a.a[prep_key(key, a.shape)]
            if isinstance(tgt, np.ndarray):
                if v.ndim and v.shape != tgt.shape and v.size != tgt.size:
                    raise TypeError("Can't broadcast %s -> %s" % (v.shape, tgt.shape))
                conv = A.emap(lambda x: x.encode() if isinstance(x, str) else x, v.a)
                a.a[prep_key(key, a.shape)] = conv
            else:
                x = v.a[()]
                a.a[prep_key(key, a.shape)] = x.encode() if isinstance(x, str) else x
            return
        a[key] = v

    def resize(self, size, axis=None):
        raise Unsupported("resize")

    def __repr__(self):
        return '<HDF5 dataset "%s": dtype %s>' % (self.name, self.dtype)


class _AsStr:
    def __init__(self, ds):
        self.ds = ds

    def __getitem__(self, k):
        r = self.ds[k]
        if isinstance(r, SymArray):
            return SymArray(A.emap(lambda x: x.decode() if isinstance(x, bytes) else x, r.a), A.OBJ)
        return r.decode() if isinstance(r, bytes) else r


def _clamp(v, n, default):
    """slice bound on an axis of (raw, maybe symbolic) length n -> raw"""
    if v is None:
        return default
    if isinstance(v, SymArray) and v.ndim == 0:
        v = v[()]
    if isinstance(v, (SV, SymBool)):
        if V.isfloat_dt(v.dt):
            raise TypeError("slice indices must be integers or None or have an "
                            "__index__ method")
        r = V.num(v.t)
    else:
        r = operator.index(v)
    if truth(raw_cmp('lt', r, 0)):
        r = V.raw_op('add', r, n, None)
        if truth(raw_cmp('lt', r, 0)):
            return 0
        return r
    if truth(raw_cmp('ge', r, n)):
        return n
    return r


class VirtualSource:
    def __init__(self, path_or_dataset, name=None, shape=None, dtype=None, maxshape=None):
        if isinstance(path_or_dataset, Dataset):
            self.ds = path_or_dataset
        else:
            f = File(path_or_dataset, 'r')
            self.ds = f[name]
        self.sel = Ellipsis
        self.dtype = self.ds.dtype

    @property
    def shape(self):
        if self.sel is Ellipsis:
            return self.ds.shape
        return self.data().shape

    def __len__(self):
        return self.shape[0].__index__() if isinstance(self.shape[0], SV) else self.shape[0]

    def __getitem__(self, key):
        if self.sel is not Ellipsis:
            raise RuntimeError("VirtualSource objects can only be sliced once.")
        v = VirtualSource.__new__(VirtualSource)
        v.ds, v.sel, v.dtype = self.ds, key, self.dtype
        return v

    def data(self):
        return asarr(self.ds._read(self.sel if self.sel is not Ellipsis else ()))


class VirtualLayout:
    def __init__(self, shape, dtype, maxshape=None, filename=None):
        from .npshim import dims, dt_of
        self.shape = dims(shape)
        self.dtype = dt_of(dtype)
        self.maxshape = maxshape
        self.writes = []
        self.sources = []
        self.filled = np.zeros(self.shape, dtype=bool)

    def __bool__(self):
        return True

    def __setitem__(self, key, source):
        data = source.data()
        # selections on the layout are plain hyperslabs
        k = _layout_key(key, self.shape)
        tgt_shape = self.filled[k].shape
        if int(np.prod(tgt_shape)) != data.size:
            raise ValueError("number of elements in src dataspace does not match "
                             "dest dataspace: %s vs %s" % (data.shape, tgt_shape))
        self.writes.append((k, data.reshape(*tgt_shape)))
        self.sources.append(source)
        self.filled[k] = True

    def build(self, fillvalue):
        fv = 0
        if fillvalue is not None:
            if self.dtype.kind == 'f':
                fv = float(fillvalue)
            elif fillvalue == fillvalue:
                fv = fillvalue
        out = SymArray(A.fill_obj(self.shape, V.cast_raw(fv, self.dtype)), self.dtype)
        for k, d in self.writes:
            out[k] = d
        return out


def _layout_key(key, shape):
    tup = key if isinstance(key, tuple) else (key,)
    out = []
    ax = 0
    n_ax = sum(1 for k in tup if k is not Ellipsis)
    for k in tup:
        if k is Ellipsis:
            out.append(k)
            ax += len(shape) - n_ax
            continue
        n = shape[ax]
        if isinstance(k, slice):
            for b in (k.start, k.stop):
                if isinstance(b, (float, np.floating)) or isinstance(b, SV) and V.isfloat_dt(b.dt):
                    raise TypeError("slice indices must be integers or None or have "
                                    "an __index__ method")
            k = A.norm_slice(k, n)
            s, e, st = k.indices(n)
            out.append(slice(s, max(s, e), st))
        else:
            i = operator.index(k) if not isinstance(k, SV) else A.sym_int_index(k, n)
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise ValueError("Index out of range")
            out.append(i)
        ax += 1
    return tuple(out)


def special_dtype(**kw):
    for k, v in kw.items():
        if k == 'vlen':
            if getattr(v, '_shim_of', v) in (bytes, str):
                return np.dtype('O')
        raise Unsupported("special_dtype")


def string_dtype(*a, **k):
    return np.dtype('O')


def vlen_dtype(t):
    return np.dtype('O')


def check_dtype(**kw):
    return None


def is_hdf5(path):
    return path in fs()


class version:
    version = '3.2.1'
    hdf5_version = '1.12.0'
    hdf5_version_tuple = (1, 12, 0)
    version_tuple = (3, 2, 1)


__version__ = '3.2.1'
