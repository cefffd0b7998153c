"""What the code under test sees of the operating system and other modules.

Only pure path functions of the real ``os`` are visible; everything that
touches the outside world goes to a model installed by the scenario
(``path_state['osfs']``) or is refused."""
import collections
import os
import types

from . import containers as C
from .engine import Unsupported, cur


def _osfs(op):
    w = cur().path_state.get('osfs')
    if w is None:
        raise Unsupported("file system access: %s" % op)
    return w


class _Path(types.ModuleType):
    """os.path"""
    _PURE = ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath', 'isabs',
             'commonprefix', 'commonpath', 'sep', 'relpath', 'altsep', 'pardir', 'curdir',
             'normcase', 'splitdrive', 'extsep', 'pathsep')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in self._PURE:
            return getattr(os.path, name)
        if name in ('abspath', 'realpath', 'expanduser', 'expandvars'):
            return lambda p: os.path.normpath(p if p.startswith('/') else os.path.join('/cwd', p))

        def f(*a, **k):
            return getattr(_osfs(name), 'path_' + name)(*a, **k)
        f.__name__ = name
        return f


class _Os(types.ModuleType):
    _PURE = ('sep', 'fspath', 'linesep', 'curdir', 'pardir', 'altsep', 'extsep', 'name',
             'PathLike', 'error', 'O_RDONLY', 'O_WRONLY', 'O_CREAT', 'O_EXCL', 'O_TRUNC',
             'O_RDWR', 'R_OK', 'W_OK', 'X_OK', 'F_OK', 'stat_result', 'devnull', 'SEEK_SET',
             'SEEK_END', 'SEEK_CUR')

    def __init__(self, path):
        super().__init__('os')
        self.path = path

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in self._PURE:
            return getattr(os, name)
        if name == 'environ':
            return dict()
        if not hasattr(os, name):
            raise AttributeError(name)

        def f(*a, **k):
            w = _osfs(name)
            g = getattr(w, name, None)
            if g is None:
                raise Unsupported("os.%s" % name)
            return g(*a, **k)
        f.__name__ = name
        return f


def os_modules():
    p = _Path('os.path')
    o = _Os(p)
    tf = types.ModuleType('tempfile')

    def mkstemp(*a, **k):
        return _osfs('mkstemp').mkstemp(*a, **k)

    def NamedTemporaryFile(*a, **k):
        return _osfs('NamedTemporaryFile').NamedTemporaryFile(*a, **k)

    def mkdtemp(*a, **k):
        return _osfs('mkdtemp').mkdtemp(*a, **k)

    tf.mkstemp, tf.NamedTemporaryFile, tf.mkdtemp = mkstemp, NamedTemporaryFile, mkdtemp
    tf.gettempdir = lambda: '/tmp'
    import glob as real_glob
    g = types.ModuleType('glob')

    def glob(pat, **k):
        return list(_osfs('glob').glob(pat, **k))

    def iglob(pat, **k):
        return iter(glob(pat, **k))
    g.glob, g.iglob = glob, iglob
    g.escape = real_glob.escape
    g.has_magic = real_glob.has_magic
    sh = types.ModuleType('shutil')

    def _sh(name):
        def f(*a, **k):
            w = _osfs('shutil.' + name)
            m = getattr(w, 'shutil_' + name, None)
            if m is None:
                raise Unsupported("shutil." + name)
            return m(*a, **k)
        return f
    for n in ('move', 'copy', 'copyfile', 'copy2', 'rmtree'):
        setattr(sh, n, _sh(n))
    return {'os': o, 'os.path': p, 'tempfile': tf, 'glob': g, 'shutil': sh}


class _Collections(types.ModuleType):
    def __getattr__(self, name):
        if name in C.collections_overrides:
            return C.collections_overrides[name]
        return getattr(collections, name)


def open_model(path, *a, **k):
    return _osfs('open').open(path, *a, **k)


def modules():
    d = os_modules()
    d['collections'] = _Collections('collections')
    from .osmodel import SymJson
    d['json'] = SymJson
    return d
