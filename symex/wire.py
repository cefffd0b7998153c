"""Models of msgpack, msgpack_numpy and message buffers for symbolic data."""
import types

import numpy as np

from .arr import SymArray, SymBuffer, asarr
from .engine import Unsupported, cur
from .values import SV, SymBool, isfloat_dt, mk


class Packed:
    """a packed message: stands for bytes which unpack to this structure"""
    def __init__(self, tree):
        self.tree = tree

    def __eq__(self, other):
        if not isinstance(other, Packed):
            return NotImplemented
        raise Unsupported("comparing packed messages")

    __hash__ = None

    def __len__(self):
        raise Unsupported("length of a packed message")


class Memory:
    """contents of a buffer: elements in memory order"""
    def __init__(self, elems, dtype):
        self.elems, self.dtype = elems, np.dtype(dtype)


def memory(part):
    """what goes on the wire for a message part"""
    if isinstance(part, SymBuffer):
        a = part.arr
        if a.flags['C_CONTIGUOUS']:
            return Memory(list(a.a.reshape(-1)), a.dtype)
        if a.flags['F_CONTIGUOUS']:
            return Memory(list(a.a.T.reshape(-1)), a.dtype)
        raise BufferError("memoryview: underlying buffer is not contiguous")
    if isinstance(part, (Packed, bytes, Memory)):
        return part
    if isinstance(part, memoryview):
        if not part.contiguous:
            raise BufferError("memoryview: underlying buffer is not contiguous")
        return part.tobytes('A')
    if isinstance(part, SymArray):
        return memory(SymBuffer(part))
    raise TypeError("%r does not support the buffer interface" % (part,))


def _pack(o, default, depth=0):
    if o is None or isinstance(o, (bool, str, bytes, bytearray)):
        return o
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, SymBool):
        return o
    if isinstance(o, SV):
        if isfloat_dt(o.dt):
            return o.item()
        if not (-2 ** 63 <= o and o < 2 ** 64):
            raise OverflowError("Integer value out of range")
        return o.item()
    if isinstance(o, (int, np.integer)):
        if not -2 ** 63 <= o < 2 ** 64:
            raise OverflowError("Integer value out of range")
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o)
    if isinstance(o, (SymBuffer, memoryview)):
        return memory(o)
    if isinstance(o, Memory):
        return o
    if isinstance(o, (list, tuple)):
        return [_pack(i, default) for i in o]
    if isinstance(o, dict) or type(o).__name__ in ('SymDict', 'OrderedDict', 'defaultdict'):
        return {k: _pack(v, default) for k, v in o.items()}
    if default is not None:
        r = default(o)
        if r is o:
            raise TypeError("can not serialize %r object" % type(o).__name__)
        return _pack(r, default)
    raise TypeError("can not serialize %r object" % type(o).__name__)


class Packer:
    def __init__(self, default=None, use_bin_type=True, **kw):
        if set(kw) - {'use_single_float', 'autoreset', 'strict_types', 'datetime',
                      'unicode_errors', 'buf_size'} or kw.get('use_single_float') or not use_bin_type:
            raise Unsupported("msgpack.Packer options")
        self.default = default

    def pack(self, o):
        return Packed(_pack(o, self.default))


def packb(o, **kw):
    return Packer(**kw).pack(o)


def _copy(t, hook):
    if isinstance(t, dict):
        d = {k: _copy(v, hook) for k, v in t.items()}
        return hook(d) if hook else d
    if isinstance(t, list):
        return [_copy(v, hook) for v in t]
    return t


def unpackb(p, raw=False, object_hook=None, **kw):
    if not isinstance(p, Packed):
        raise ValueError("not a packed message")
    return _copy(p.tree, object_hook)


def np_encode(o, chain=None):
    if isinstance(o, (SymArray, np.ndarray)):
        o = asarr(o)
        return {b'nd': True, b'type': o.dtype.str, b'kind': b'', b'shape': o.shape,
                b'data': Memory(list(np.ascontiguousarray(o.a).reshape(-1)), o.dtype)}
    return o if chain is None else chain(o)


def from_memory(mem, dtype, shape):
    dtype = np.dtype(dtype)
    if isinstance(mem, bytes) and not mem:
        mem = Memory([], dtype)
    if not isinstance(mem, Memory):
        raise Unsupported("bytes as array")
    if mem.dtype != dtype:
        if mem.dtype.itemsize * len(mem.elems) != dtype.itemsize * int(np.prod(shape)):
            raise ValueError("cannot reshape array")
        raise WrongType("memory of %s read as %s" % (mem.dtype, dtype))
    a = np.empty(len(mem.elems), dtype=object)
    a[:] = mem.elems
    return SymArray(a.reshape(tuple(shape)), dtype)


class WrongType(Exception):
    pass


def np_decode(o, chain=None):
    if b'nd' in o and o[b'nd'] is True:
        return from_memory(o[b'data'], o[b'type'], o[b'shape'])
    return o if chain is None else chain(o)


def modules():
    m = types.ModuleType('msgpack')
    m.Packer, m.packb, m.dumps, m.unpackb, m.loads = Packer, packb, packb, unpackb, unpackb
    n = types.ModuleType('msgpack_numpy')
    n.encode, n.decode = np_encode, np_decode
    return {'msgpack': m, 'msgpack_numpy': n}


# ------------------------------------------------------------- for scenarios
class SymWire:
    @staticmethod
    def wire(part):
        return memory(part)

    @staticmethod
    def unpack(p, numpy=False):
        return unpackb(p, object_hook=np_decode if numpy else None)

    from_buffer = staticmethod(from_memory)


class ConcWire:
    @staticmethod
    def wire(part):
        import zmq
        return zmq.Frame(part).bytes

    @staticmethod
    def unpack(p, numpy=False):
        import msgpack
        import msgpack_numpy
        return msgpack.unpackb(p, raw=False, strict_map_key=False,
                               object_hook=msgpack_numpy.decode if numpy else None)

    @staticmethod
    def from_buffer(buf, dtype, shape):
        return np.ndarray(tuple(shape), dtype=np.dtype(dtype), buffer=bytearray(buf) if buf else None)
