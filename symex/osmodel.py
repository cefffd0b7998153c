"""A small file system for scenarios which need one.

SymOS is what the code under test sees while it is executed symbolically:
directories and files with (possibly symbolic) size and modification time,
and operations which can be denied, made to fail, or end the process at any
point.  ConcOS does the same to the real file system in a scratch directory,
for replays: wrappers installed before karabo_data is imported, which do
nothing until a scenario asks for it."""
import builtins
import errno
import fnmatch
import io
import json
import os
import posixpath
import re
import tempfile

import numpy as np

SIZE0 = 2 ** 18


class Crash(BaseException):
    """the process is gone: nothing it does from here on has any effect"""


def make_exc(kind, path=None):
    if kind == 'perm':
        return PermissionError(errno.EACCES, 'Permission denied', path)
    if kind == 'rofs':
        return OSError(errno.EROFS, 'Read-only file system', path)
    if kind == 'nospc':
        return OSError(errno.ENOSPC, 'No space left on device', path)
    if kind == 'io':
        return OSError(errno.EIO, 'Input/output error', path)
    if kind == 'notdir':
        return NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
    if kind == 'intr':
        return KeyboardInterrupt()
    raise ValueError(kind)


class Plan:
    """What goes wrong: the nth operation of a kind, or everything of a kind
    below some path"""
    def __init__(self):
        self.crashed = False
        self.at = None           # (op, nth, mode, exc)
        self.deny = []           # (op or None, prefix, exc)
        self.counts = {}
        self.log = []
        self.active = False

    def step(self, op, path):
        if self.crashed:
            raise Crash()
        if not self.active:
            return
        self.log.append((op, path))
        for o, prefix, exc in self.deny:
            if o == op and (path == prefix or str(path).startswith(prefix.rstrip('/') + '/')):
                raise make_exc(exc, path)
        n = self.counts[op] = self.counts.get(op, 0) + 1
        if self.at is not None and self.at[0] == op and self.at[1] == n:
            if self.at[2] == 'crash':
                self.crashed = True
                raise Crash()
            if self.at[2] == 'other':
                # meanwhile, another process does something
                self.active = False
                try:
                    self.hook()
                finally:
                    self.active = True
                return
            raise make_exc(self.at[3], path)


# ------------------------------------------------------------------ symbolic
class JsonText:
    """The text json.dumps makes of a document"""
    def __init__(self, doc):
        self.doc = doc
        self.n = max(2, len(doc) if isinstance(doc, (list, dict)) else 0)

    def pieces(self):
        return [Half(self, i) for i in range(self.n)]

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def __add__(self, o):
        if isinstance(o, str) and not o.strip():
            return self
        raise TypeError("JSON text + other text")


class Half:
    def __init__(self, text, n):
        self.text, self.n = text, n


class Inode:
    _n = 0

    def __init__(self, kind, data=None, mtime=1.0, size=SIZE0):
        self.kind, self.mtime, self.size = kind, mtime, size
        self.data = data if data is not None else []     # list of pieces
        Inode._n += 1
        self.ino = Inode._n


class Stat:
    def __init__(self, ino):
        from .values import mk, PYF
        self.st_ino, self.st_dev = ino.ino, 1
        self.st_mtime = ino.mtime
        self.st_size = ino.size
        self.st_mode = 0o040755 if ino.kind == 'dir' else 0o100644

    @property
    def st_mtime_ns(self):
        return self.st_mtime * 1000000000

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, 1, 0, 0, self.st_size, 0, self.st_mtime, 0)[i]


class SymFile:
    def __init__(self, osm, path, inode, mode, fd=None):
        self.os, self.path, self.inode, self.mode = osm, path, inode, mode
        self.buf = []
        self.pos = 0
        self.closed = False
        self.name = path
        self._fd = fd if fd is not None else osm.new_fd(inode)
        self._read = False

    def fileno(self):
        return self._fd

    def write(self, text):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if 'r' in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation("not writable")
        self.os.plan.step('write', self.path)
        if isinstance(text, JsonText):
            ps = text.pieces()
            self.buf.append(ps[0])
            self.os.plan.step('write', self.path)
            self.buf += ps[1:]
            return len(ps)
        self.buf.append(text)
        return len(text)

    def flush(self):
        if self.buf:
            self.os.plan.step('flush', self.path)
        data = self.inode.data
        if 'a' in self.mode:
            self.pos = len(data)
        data += ['\0'] * (self.pos - len(data))
        data[self.pos:self.pos + len(self.buf)] = self.buf
        self.pos += len(self.buf)
        self.buf = []

    def read(self, *a):
        binary = 'b' in self.mode
        if self._read:
            return b'' if binary else ''
        self._read = True
        data = self.inode.data
        if any(isinstance(p, bytes) for p in data) and all(isinstance(p, (str, bytes)) for p in data):
            raw = b''.join(p.encode('utf-8') if isinstance(p, str) else p for p in data)
            return raw if binary else raw.decode('utf-8')
        r = self.os.join_pieces(data)
        return r.encode('utf-8') if binary else r

    def close(self):
        if self.closed:
            return
        if self.os.plan.crashed:
            raise Crash()
        self.closed = True
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if self.os.plan.crashed:
            raise Crash()
        self.close()

    def __iter__(self):
        return iter([self.read()])


class SymOS:
    def __init__(self, S, root='/scratch'):
        from . import engine
        self.S = S
        self.plan = Plan()
        self.inodes = {}
        self.fds = {}
        self.root = root
        self.mk('/')
        self.mk('/tmp')
        self.mk(root)
        engine.cur().path_state['osfs'] = self

    # -- set-up (scenario side)
    def mk(self, path):
        parts = [p for p in path.split('/') if p]
        cur = ''
        self.inodes.setdefault('/', Inode('dir'))
        for p in parts:
            cur += '/' + p
            self.inodes.setdefault(cur, Inode('dir'))

    def mkdir_(self, path):
        self.mk(path)

    def put_text(self, path, text):
        self.mk(posixpath.dirname(path))
        self.inodes[path] = Inode('file', [text])

    def put_h5(self, path, mtime, extra):
        """set the modification time (in 1/4096 s) and size of an
        HDF5 file made with S.write_h5"""
        self.mk(posixpath.dirname(path))
        self.inodes[path] = Inode('file', ['h5'], self.mtime(mtime), SIZE0 + extra)

    def mtime(self, q):
        return self.as_float(q) / 4096

    def size(self, extra):
        return SIZE0 + extra

    def raw(self, path):
        """the content of a file, for comparison"""
        if path not in self.inodes:
            return None
        d = self.inodes[path].data
        return [(p.text, p.n) if isinstance(p, Half) else p for p in d]

    def as_float(self, t):
        from .values import mk, unwrap, PYF, to_z3
        import z3
        if isinstance(t, (int, float)):
            return float(t)
        return mk(z3.ToReal(unwrap(t)[0]), PYF)

    def put_json(self, path, doc):
        self.mk(posixpath.dirname(path))
        self.inodes[path] = Inode('file', JsonText(jcopy(doc)).pieces())

    def delete(self, path):
        from . import h5shim
        self.inodes.pop(path, None)
        h5shim.fs().pop(path, None)

    def listing(self, path):
        return sorted(posixpath.basename(p) for p in self.inodes
                      if posixpath.dirname(p) == path.rstrip('/') and p != '/')

    def is_there(self, path):
        return path in self.inodes

    def load_json(self, path):
        """-> ('ok', document) or (why not, None)"""
        if path not in self.inodes:
            return 'absent', None
        try:
            return 'ok', SymJson.parse(self.join_pieces(self.inodes[path].data))
        except ValueError:
            return 'garbled', None

    def join_pieces(self, pieces):
        if any(isinstance(p, bytes) for p in pieces):
            b''.join(pieces).decode('utf-8')
        if not pieces:
            return ''
        if all(isinstance(p, str) for p in pieces):
            return ''.join(pieces)
        ps = [p for p in pieces if not (isinstance(p, str) and not p.strip())]
        if all(isinstance(p, Half) for p in ps) and all(p.text is ps[0].text for p in ps) and \
                [p.n for p in ps] == list(range(ps[0].text.n)):
            return ps[0].text
        return '[{"filename": '          # incomplete document

    def new_fd(self, inode):
        fd = 100 + len(self.fds)
        self.fds[fd] = inode
        return fd

    # -- what the code under test calls
    def _get(self, path):
        if isinstance(path, int):
            return self.fds[path]
        path = self._norm(path)
        if path not in self.inodes:
            parent = self.inodes.get(posixpath.dirname(path))
            if parent is not None and parent.kind != 'dir':
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        return self.inodes[path]

    def _norm(self, path):
        path = os.fspath(path)
        if not path.startswith('/'):
            path = '/cwd/' + path
        return posixpath.normpath(path)

    def stat(self, path, **k):
        if not isinstance(path, int):
            self.plan.step('stat', self._norm(path))
        return Stat(self._get(path))

    lstat = stat

    def fstat(self, fd):
        return Stat(self._get(fd))

    def access(self, path, mode=0):
        return self.path_exists(path)

    def listdir(self, path='.'):
        ino = self._get(path)
        if ino.kind != 'dir':
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        return self.listing(self._norm(path))

    def scandir(self, path='.'):
        from .engine import Unsupported
        raise Unsupported("os.scandir")

    def path_exists(self, path):
        try:
            self._get(path)
            return True
        except OSError:
            return False

    path_lexists = path_exists

    def path_isfile(self, path):
        return self.path_exists(path) and self._get(path).kind == 'file'

    def path_isdir(self, path):
        return self.path_exists(path) and self._get(path).kind == 'dir'

    def path_islink(self, path):
        return False

    def path_getmtime(self, path):
        return self.stat(path).st_mtime

    def path_getsize(self, path):
        return self.stat(path).st_size

    def path_samestat(self, a, b):
        return a.st_ino == b.st_ino and a.st_dev == b.st_dev

    def path_samefile(self, a, b):
        return self.path_samestat(self.stat(a), self.stat(b))

    def mkdir(self, path, mode=0o777):
        path = self._norm(path)
        self.plan.step('mkdir', path)
        if path in self.inodes:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if self._get(posixpath.dirname(path)).kind != 'dir':
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        self.inodes[path] = Inode('dir')

    def makedirs(self, path, mode=0o777, exist_ok=False):
        p = self._norm(path)
        if p in self.inodes:
            if exist_ok and self.inodes[p].kind == 'dir':
                return
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if not self.path_exists(posixpath.dirname(p)):
            self.makedirs(posixpath.dirname(p), exist_ok=True)
        self.mkdir(p)

    def unlink(self, path, **k):
        path = self._norm(path)
        self.plan.step('unlink', path)
        self._get(path)
        del self.inodes[path]

    remove = unlink

    def replace(self, a, b):
        a, b = self._norm(a), self._norm(b)
        self.plan.step('replace', b)
        ino = self._get(a)
        if a.startswith('/tmp/') and not b.startswith('/tmp/'):
            # the system's folder for temporary files is another file system
            raise OSError(errno.EXDEV, 'Invalid cross-device link', a)
        del self.inodes[a]
        self.inodes[b] = ino

    rename = replace

    def close(self, fd):
        pass

    def fsync(self, fd):
        pass

    def getpid(self):
        return 4242

    def getcwd(self):
        return '/cwd'

    def fdopen(self, fd, mode='r', *a, **k):
        return self.open(fd, mode)

    def chmod(self, *a, **k):
        pass

    def create(self, path):
        self.plan.step('create', path)
        if self._get(posixpath.dirname(path)).kind != 'dir':
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        self.inodes[path] = Inode('file')
        return self.inodes[path]

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        dir = self._norm(dir if dir is not None else '/tmp')
        path = posixpath.join(dir, '%s%08d%s' % (prefix or 'tmp', len(self.inodes), suffix or ''))
        ino = self.create(path)
        return self.new_fd(ino), path

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        dir = self._norm(dir if dir is not None else '/tmp')
        path = posixpath.join(dir, '%s%08d%s' % (prefix or 'tmp', len(self.inodes), suffix or ''))
        self.mk(path)
        return path

    def NamedTemporaryFile(self, mode='w+b', *a, delete=True, suffix=None, prefix=None, dir=None, **k):
        fd, path = self.mkstemp(suffix, prefix, dir)
        f = self.open(fd, 'w')
        f.name = f.path = path
        if delete:
            from .engine import Unsupported
            raise Unsupported("NamedTemporaryFile(delete=True)")
        return f

    def open(self, path, mode='r', *a, **k):
        if isinstance(path, int):
            ino = self.fds[path]
            p = [q for q, i in self.inodes.items() if i is ino]
            p = p[0] if p else '(deleted)'
            self.plan.step('open_w' if mode[0] != 'r' else 'open_r', p)
            if 'w' in mode:
                ino.data = []
            return SymFile(self, p, ino, mode, fd=path)
        path = self._norm(path)
        if 'x' in mode and path in self.inodes:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if mode[0] in 'wxa':
            if path not in self.inodes:
                self.create(path)
            else:
                self.plan.step('open_w', path)
            ino = self._get(path)
            if ino.kind == 'dir':
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
            if 'a' not in mode:
                ino.data = []
            return SymFile(self, path, ino, mode)
        self.plan.step('open_r', path)
        ino = self._get(path)
        if ino.kind == 'dir':
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        f = SymFile(self, path, ino, mode)
        if '+' in mode:
            from .engine import Unsupported
            raise Unsupported("open for update")
        return f

    def glob(self, pattern, recursive=False, **k):
        pat = self._norm(pattern)
        n = pat.count('/')
        rx = re.compile('/'.join(fnmatch.translate(p)[4:-3] if p else '' for p in pat.split('/')) + r'\Z', re.S)
        from . import h5shim
        # (paths match with the same number of components)
        return [p for p in sorted(self.inodes) if p.count('/') == n and
                all(fnmatch.fnmatchcase(a, b) for a, b in zip(p.split('/'), pat.split('/')))]

    # -- HDF5 files
    def h5_created(self, path):
        path = self._norm(path)
        if path not in self.inodes:
            self.create(path)
        self.inodes[path].data = ['h5']

    def h5_handle(self, f):
        h = getattr(f, '_fd_', None)
        if h is None:
            h = f._fd_ = self.new_fd(f._inode)
        return h

    def h5_opened(self, f, path):
        path = self._norm(path)
        self.plan.step('open_h5', path)
        f._inode = self._get(path)

    def run(self, fn, *args, **kw):
        """-> Outcome with .crashed"""
        from .session import Outcome, CheckFailed, Discard
        self.plan.active = True
        try:
            try:
                r = Outcome(fn(*args, **kw))
            except Crash as e:
                r = Outcome(exc=e)
            except KeyboardInterrupt as e:
                r = Outcome(exc=e)
            except Exception as e:
                if isinstance(e, (CheckFailed, Discard)):
                    raise
                r = Outcome(exc=e)
        finally:
            self.plan.active = False
            crashed, self.plan.crashed = self.plan.crashed, False
        r.crashed = crashed
        return r


def jcopy(o, root=True):
    """what json makes of an object (and back)"""
    from .values import SV, SymBool
    from .arr import SymArray
    if o is None or isinstance(o, (bool, str)) and not isinstance(o, (np.bool_,)):
        return o
    if isinstance(o, SymBool):
        return o
    if isinstance(o, SV):
        from .values import PYF
        dt = getattr(o, 'dt', None)
        if dt is not None and dt is not PYF and dt.kind in 'iub' or (
                dt is not None and dt is not PYF and dt.kind == 'f' and dt.itemsize != 8):
            raise TypeError("Object of type %s is not JSON serializable" % dt.name)
        if dt is not None and dt is not PYF:      # float64 is a float
            from .values import mk
            return mk(o.t, PYF)
        return o
    if isinstance(o, np.generic) and not isinstance(o, float):
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
    if isinstance(o, (int, float)):
        return o
    if isinstance(o, dict) or type(o).__name__ in ('SymDict', 'SymOrderedDict'):
        out = {}
        for k, v in o.items():
            if not isinstance(k, str):
                if k is None or isinstance(k, (bool, int, float)):
                    k = json.dumps(k)
                else:
                    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            out[k] = jcopy(v)
        return out
    if isinstance(o, (list, tuple)):
        return [jcopy(v) for v in o]
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


class SymJson:
    """stands in for the json module"""
    JSONDecodeError = json.JSONDecodeError
    __name__ = 'json'

    @staticmethod
    def parse(text):
        if isinstance(text, JsonText):
            return jcopy(text.doc)
        if isinstance(text, Half):
            return json.loads('[{"a": ')
        return json.loads(text)

    @staticmethod
    def dump(obj, fp, **kw):
        fp.write(JsonText(SymJson._conv(obj, kw)))

    @staticmethod
    def dumps(obj, **kw):
        return JsonText(SymJson._conv(obj, kw))

    @staticmethod
    def _conv(obj, kw):
        if kw.get('default') is not None or kw.get('cls') is not None:
            from .engine import Unsupported
            raise Unsupported("json.dump with default= or cls=")
        return jcopy(obj)

    @staticmethod
    def load(fp, **kw):
        return SymJson.parse(fp.read())

    @staticmethod
    def loads(s, **kw):
        return SymJson.parse(s)


# ------------------------------------------------------------------ concrete
_plan = None
_scratch = None
_orig = {}


def _mine(path):
    return _plan is not None and _scratch is not None and isinstance(path, (str, bytes)) and \
        os.fsdecode(path).startswith(_scratch)


class _FileProxy:
    def __init__(self, f, path):
        self._f, self._p = f, path

    def write(self, t):
        _plan.step('write', self._p)
        return self._f.write(t)

    def writelines(self, ls):
        for t in ls:
            self.write(t)

    def close(self):
        if self._f.closed:
            return
        if _plan.crashed:
            raise Crash()
        try:
            _plan.step('flush', self._p)
        except BaseException:
            # what was buffered does not reach the file
            fd = self._f.fileno()
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, fd)
            os.close(dn)
            self._f.close()
            raise
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if _plan.crashed:
            raise Crash()
        self.close()

    def __getattr__(self, n):
        return getattr(self._f, n)


def install_wrappers():
    """before karabo_data gets imported"""
    if _orig:
        return
    fdpaths = {}

    def wrap(name, op, which=0):
        f = _orig[name] = getattr(os, name)

        def g(*a, **k):
            p = a[which] if len(a) > which else None
            if _mine(p):
                _plan.step(op, os.fsdecode(p))
                if which == 1 and _plan.active and not _mine(os.path.abspath(a[0])):
                    # the system's folder for temporary files is another file system
                    raise OSError(errno.EXDEV, 'Invalid cross-device link', a[0])
            return f(*a, **k)
        g.__name__ = name
        setattr(os, name, g)
    wrap('replace', 'replace', 1)
    wrap('rename', 'replace', 1)
    wrap('unlink', 'unlink')
    wrap('remove', 'unlink')
    wrap('mkdir', 'mkdir')
    wrap('stat', 'stat')
    o = _orig['open'] = os.open

    def os_open(path, flags, *a, **k):
        if _mine(path):
            if flags & os.O_CREAT:
                _plan.step('create', os.fsdecode(path))
            fd = o(path, flags, *a, **k)
            fdpaths[fd] = os.fsdecode(path)
            return fd
        return o(path, flags, *a, **k)
    os.open = os_open
    bo = _orig['builtins.open'] = builtins.open

    def b_open(path, mode='r', *a, **k):
        p = fdpaths.get(path) if isinstance(path, int) else path
        if p is not None and hasattr(p, '__fspath__'):
            p = p.__fspath__()
        if not _mine(p) or not _plan.active and not _plan.crashed:
            return bo(path, mode, *a, **k)
        p = os.fsdecode(p)
        if mode[0] == 'r':
            _plan.step('open_r', p)
            return bo(path, mode, *a, **k)
        if isinstance(path, int) or os.path.exists(p):
            _plan.step('open_w', p)
        else:
            _plan.step('create', p)
        return _FileProxy(bo(path, mode, *a, **k), p)
    builtins.open = b_open
    io.open = b_open


class ConcOS:
    def __init__(self, S):
        global _plan, _scratch
        self.S = S
        self.root = os.path.dirname(S.path('x'))
        self.plan = _plan = Plan()
        _scratch = self.root

    def mkdir_(self, path):
        os.makedirs(path, exist_ok=True)

    def put_text(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())

    def put_h5(self, path, mtime, extra):
        assert os.path.getsize(path) <= SIZE0 + 10, path
        os.truncate(path, SIZE0 + int(extra))
        os.utime(path, ns=((int(mtime) * 10 ** 9 + 2048) // 4096,) * 2)

    def mtime(self, q):
        return int(q) / 4096

    def size(self, extra):
        return SIZE0 + int(extra)

    def raw(self, path):
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()

    def put_json(self, path, doc):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(doc, f)

    def delete(self, path):
        os.remove(path)

    def listing(self, path):
        return sorted(os.listdir(path))

    def is_there(self, path):
        return os.path.exists(path)

    def load_json(self, path):
        if not os.path.exists(path):
            return 'absent', None
        try:
            with open(path) as f:
                return 'ok', json.load(f)
        except ValueError:
            return 'garbled', None

    def run(self, fn, *args, **kw):
        from .session import Outcome, CheckFailed, Discard
        self.plan.active = True
        try:
            try:
                r = Outcome(fn(*args, **kw))
            except Crash as e:
                r = Outcome(exc=e)
            except KeyboardInterrupt as e:
                r = Outcome(exc=e)
            except Exception as e:
                if isinstance(e, (CheckFailed, Discard)):
                    raise
                r = Outcome(exc=e)
        finally:
            self.plan.active = False
            crashed, self.plan.crashed = self.plan.crashed, False
        r.crashed = crashed
        return r
