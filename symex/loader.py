"""Load karabo_data from /repo's current source for symbolic execution.

Every module is read from disk, lightly rewritten (set/dict displays and
%-formatting become calls that tolerate symbolic values) and executed with
shimmed builtins and library imports.  Nothing is cached between runs."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys
import types

from . import containers as C

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'karabo_data'


class Rewriter(ast.NodeTransformer):
    def _call(self, node, name, args):
        return ast.copy_location(ast.Call(
            func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, '__sx_set__', node.elts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple([ast.Constant(1), v, ast.Constant(None)], ast.Load()))
            else:
                pairs.append(ast.Tuple([ast.Constant(0), k, v], ast.Load()))
        return self._call(node, '__sx_dict__', [ast.List(pairs, ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return self._call(node, '__sx_setc__', [lc])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple([ast.Constant(0), node.key, node.value], ast.Load()),
                          generators=node.generators)
        return self._call(node, '__sx_dict__', [lc])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (
                isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return self._call(node, '__sx_mod__', [node.left, node.right])
        return node


_FMT = re.compile(r'%(\(\w+\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def sx_mod(fmt, args):
    from .values import SV, SymBool
    if not (isinstance(args, (SV, SymBool)) or (
            isinstance(args, tuple) and any(isinstance(a, (SV, SymBool)) for a in args))):
        return fmt % args
    seq = list(args) if isinstance(args, tuple) else [args]
    pos = [0]

    def sub(m):
        if m.group(5) == '%':
            return '%'
        a = seq[pos[0]]
        pos[0] += 1
        if isinstance(a, (SV, SymBool)):
            spec = (m.group(2) or '') + (m.group(3) or '')
            if m.group(4) is not None:
                spec += '.' + m.group(4)
            if m.group(5) in 'fFeEgG':
                spec += m.group(5)
            return format(a, spec)
        return m.group(0) % (a,)
    return _FMT.sub(sub, fmt)


class World:
    """What the loaded code sees of the outside world"""
    def __init__(self):
        self.modules = {}       # absolute module name -> stand-in


world = World()


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if name in world.modules and (fromlist or '.' not in name):
            return world.modules[name]
        if top in world.modules:
            if fromlist:
                if name in world.modules:
                    return world.modules[name]
                m = world.modules[top]
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
                return m
            return world.modules[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


def shim_builtins():
    d = dict(builtins.__dict__)
    d.update(C.builtin_overrides)
    d['__import__'] = _sym_import
    d['__sx_set__'] = C.mk_set
    d['__sx_setc__'] = C.SymSet
    d['__sx_dict__'] = C.mk_dict
    d['__sx_mod__'] = sx_mod
    d['print'] = _quiet_print
    d['open'] = _open
    d['memoryview'] = _memoryview
    return d


def _memoryview(x):
    return x.data if hasattr(x, '__symarray__') or type(x).__name__ == 'SymArray' else memoryview(x)


printed = []


def _quiet_print(*args, **kw):
    world.printed = getattr(world, 'printed', [])
    world.printed.append((' '.join(str(a) for a in args), kw.get('file')))


def _open(*a, **k):
    f = getattr(world, 'open', None)
    if f is None:
        from .engine import Unsupported
        raise Unsupported("open()")
    return f(*a, **k)


source_files = set()


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        rel = fullname.replace('.', '/')
        pkgfile = os.path.join(REPO, rel, '__init__.py')
        modfile = os.path.join(REPO, rel + '.py')
        if os.path.isfile(pkgfile):
            spec = importlib.util.spec_from_file_location(
                fullname, pkgfile, loader=self,
                submodule_search_locations=[os.path.dirname(pkgfile)])
        elif os.path.isfile(modfile):
            spec = importlib.util.spec_from_file_location(fullname, modfile, loader=self)
        else:
            return None
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, fn, 'exec', dont_inherit=True)
        source_files.add(fn)
        module.__dict__['__builtins__'] = shim_builtins()
        exec(code, module.__dict__)


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


# ---------------------------------------------------------- function tracing
executed = {}


def trace_functions():
    """record which functions of the code under test get executed"""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    tool = 3
    try:
        mon.use_tool_id(tool, 'symex')
    except ValueError:
        return
    root = os.path.join(REPO, PKG) + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root):
            q = code.co_qualname
            if not q.endswith('>') or 'lambda' in q:
                executed[(os.path.relpath(fn, REPO) + ':' + q)] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
