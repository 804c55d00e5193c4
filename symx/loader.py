"""Loads /repo/bloscpack from its current source for symbolic execution.

Every path gets fresh module objects.  The source is compiled once per process
after a small, behaviour-preserving AST rewrite that only makes operations
CPython performs in C visible to the engine (str %, `in`, subscripts, selected
str/bytes methods, constant-writing loops)."""
import ast
import builtins
import importlib
import io as real_io
import itertools
import os
import sys
import types

from . import core, stubs, fs as symfs
from .core import Unsupported
from . import text
from .text import sx_mod, wrap, has_token

REPO = os.environ.get('SX_REPO', '/repo')
PKG = 'bloscpack'

METHODS = {'join', 'format', 'startswith', 'endswith', 'index', 'count', 'find',
           'get', 'ljust', 'rjust'}


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name('__sx_in__', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = lambda x: x if x is not None else ast.Constant(None)
                sl = ast.Call(ast.Name('__sx_slice__', ast.Load()),
                              [none(sl.lower), none(sl.upper), none(sl.step)], [])
            elif any(isinstance(x, ast.Slice) for x in ast.walk(sl)):
                return node
            return ast.copy_location(ast.Call(
                ast.Name('__sx_getitem__', ast.Load()), [node.value, sl], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and \
                not any(isinstance(a, ast.Starred) for a in node.args) and \
                not any(k.arg is None for k in node.keywords):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_call__', ast.Load()),
                [f.value, ast.Constant(f.attr),
                 ast.Tuple(node.args, ast.Load()),
                 ast.Dict([ast.Constant(k.arg) for k in node.keywords],
                          [k.value for k in node.keywords])], []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__sx_wrap__', ast.Load()), [node], []), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_While(self, node):
        # bounds the number of iterations that depend on the inputs
        self.generic_visit(node)
        self.loops = getattr(self, 'loops', 0) + 1
        name = '__sx_loop_%d' % self.loops
        node.body.insert(0, ast.copy_location(ast.Expr(ast.Call(
            ast.Name(name, ast.Load()), [], [])), node.body[0]))
        first = ast.copy_location(ast.Assign(
            [ast.Name(name, ast.Store())],
            ast.Call(ast.Name('__sx_loop__', ast.Load()), [], [])), node)
        return [first, node]

    def visit_For(self, node):
        # for _ in range(N): X.write(CONSTANT)
        if not node.orelse and len(node.body) == 1 and isinstance(node.target, ast.Name):
            b = node.body[0]
            it = node.iter
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and \
                    isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'write' and \
                    plain(b.value.func.value, node.target.id) and \
                    len(b.value.args) == 1 and (isinstance(b.value.args[0], ast.Constant) or
                                                plain(b.value.args[0], node.target.id)) and \
                    not b.value.keywords and isinstance(it, ast.Call) and \
                    isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and \
                    len(it.args) == 1:
                n = self.visit(it.args[0])
                return ast.copy_location(ast.Expr(ast.Call(
                    ast.Name('__sx_repeat_write__', ast.Load()),
                    [b.value.func.value, b.value.args[0], n], [])), node)
        self.generic_visit(node)
        return node


def plain(node, but):
    """Is it a name, or an attribute of one, other than but?"""
    while isinstance(node, ast.Attribute):
        node = node.value
    return isinstance(node, ast.Name) and node.id != but


class Loop(object):
    """Counts the iterations of a loop in which the path forked."""

    def __init__(self):
        self.n = 0
        self.at = core.ENGINE.ndec if core.ENGINE is not None else 0

    def __call__(self):
        E = core.ENGINE
        if E is None or E.ndec == self.at:
            return
        self.at = E.ndec
        self.n += 1
        if self.n > max(E.unroll, 8):
            E.kill(core.Abort('cut', 'loop of more than %d iterations that depend on the inputs'
                              % max(E.unroll, 8)))


def sx_iter(*a):
    if len(a) != 2:
        return iter(*a)

    def gen():
        f, end = a
        loop = Loop()
        while True:
            loop()
            v = f()
            if v == end:
                return
            yield v
    return gen()


def wrap_fstring(s):
    return wrap(s)


_CODE = {}


def compile_module(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path, 'rb') as f:
            tree = ast.parse(f.read(), path)
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, 'exec', dont_inherit=True)
        _CODE[key] = c
    return c


def sx_open_guard(*a, **k):
    raise Unsupported('real open')


class World(object):
    """One fresh copy of bloscpack with its environment."""

    def __init__(self, plain_sizes=False):
        self.fs = symfs.SymFS()
        self.modules = {}
        self.printed = []
        self.blosc = stubs.BloscStub('blosc')
        self.numpy = stubs.NumpyStub(self.blosc)
        self.hashlib = stubs.HashlibStub('hashlib')
        self.zlib = stubs.ZlibStub('zlib')
        self.json = stubs.JSONStub('json')
        self.struct = stubs.StructStub('struct')
        self.os = stubs.OsStub(self.fs)
        self.io = stubs.IoStub(self.fs)
        self.six, self.moves = stubs.make_six()
        self.deprecated = stubs.make_deprecated()
        self.plain_sizes = plain_sizes
        self.argv = ['blpk']
        self.sys = self._make_sys()
        self.stub_modules = {
            'blosc': self.blosc, 'numpy': self.numpy, 'hashlib': self.hashlib,
            'zlib': self.zlib, 'json': self.json, 'struct': self.struct,
            'os': self.os, 'os.path': self.os.path, 'posixpath': self.os.path,
            'io': self.io, 'six': self.six, 'six.moves': self.moves,
            'deprecated': self.deprecated, 'sys': self.sys,
            'math': make_math(), 'tempfile': Blocked('tempfile'),
            'shutil': Blocked('shutil'), 'mmap': Blocked('mmap'),
            'binascii': make_binascii(self.zlib), 'operator': make_operator(),
            'functools': make_functools(), 'argparse': make_argparse(self), 're': make_re(), 'subprocess': Blocked('subprocess'),
        }
        self.builtins = self._make_builtins()

    def _make_sys(self):
        m = types.ModuleType('sys')
        for k in ('version_info', 'maxsize', 'exc_info', 'exit', 'byteorder', 'platform',
                  'version', 'getsizeof', 'implementation', 'hexversion', 'float_info',
                  'getdefaultencoding', 'getfilesystemencoding', 'modules'):
            setattr(m, k, getattr(sys, k))
        m.argv = self.argv
        m.stdout = OutStream(self.printed, 'out')
        m.stderr = OutStream(self.printed, 'err')
        return m

    def _print(self, *a, sep=' ', end='\n', file=None, flush=False):
        sep = ' ' if sep is None else sep
        end = '\n' if end is None else end
        text = str.__str__(sep).join(_text(x) for x in a) + end
        which = 'err' if file is self.sys.stderr else 'out'
        self.printed.append((which, text))

    def _make_builtins(self):
        b = dict(vars(builtins))
        b.update({
            'len': stubs.sx_len, 'int': stubs.SxInt, 'bool': stubs.SxBool,
            'float': stubs.SxFloat, 'str': stubs.SxStr, 'bytes': stubs.SxBytes,
            'bytearray': stubs.SxByteArray, 'memoryview': stubs.SxMemoryView,
            'range': stubs.SxRange, 'type': stubs.sx_type, 'min': stubs.sx_min,
            'max': stubs.sx_max, 'round': stubs.sx_round, 'bin': stubs.sx_bin,
            'ord': stubs.sx_ord, 'print': self._print, 'open': self.fs.open,
            'repr': sx_repr, 'divmod': sx_divmod, 'sum': sx_sum, 'abs': abs,
            'isinstance': sx_isinstance, 'any': sx_any, 'all': sx_all,
            '__import__': self._import,
            '__sx_mod__': sx_mod_any, '__sx_in__': stubs.sx_in, '__sx_getitem__': stubs.sx_getitem,
            '__sx_slice__': slice, '__sx_call__': stubs.sx_getattr_call, '__sx_wrap__': wrap_fstring,
            '__sx_repeat_write__': stubs.sx_repeat_write, '__sx_loop__': Loop, 'iter': sx_iter,
            'input': Blocked('input'), 'exec': Blocked('exec'), 'eval': Blocked('eval'),
        })
        return b

    # ------------------------------------------------------------ importing
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get('__package__') or PKG
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = base + ('.' + name if name else '')
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.modules[PKG] if level == 0 else m
        if full in self.stub_modules:
            if not fromlist and '.' in full:
                return self.stub_modules[full.split('.')[0]]
            return self.stub_modules[full]
        if full == '__future__' or full in ALLOWED or full.split('.')[0] in ALLOWED:
            return builtins.__import__(name, None, None, fromlist, 0)
        raise ModuleNotFoundError('No module named %r' % full, name=full)

    def load(self, full):
        m = self.modules.get(full)
        if m is not None:
            return m
        rel = full.split('.')
        path = os.path.join(REPO, *rel)
        if os.path.isdir(path):
            file, pkg = os.path.join(path, '__init__.py'), full
        else:
            file, pkg = path + '.py', full.rsplit('.', 1)[0]
        if not os.path.exists(file):
            raise ModuleNotFoundError('No module named %r' % full, name=full)
        if full != PKG and PKG not in self.modules and full.startswith(PKG + '.'):
            self.load(PKG)
            if full in self.modules:
                return self.modules[full]
        code = compile_module(file)
        m = types.ModuleType(full)
        m.__file__ = file
        m.__package__ = pkg
        m.__builtins__ = self.builtins
        if pkg == full:
            m.__path__ = [path]
        self.modules[full] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(full, None)
            raise
        if '.' in full:
            parent, leaf = full.rsplit('.', 1)
            if parent in self.modules:
                setattr(self.modules[parent], leaf, m)
        if full == PKG + '.pretty' and not self.plain_sizes:
            # size strings only appear in messages; C20 checks them
            m.double_pretty_size = _opaque_size
            m.pretty_size = _opaque_size
        return m

    def mod(self, name):
        return self.load(PKG + '.' + name)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return self.mod(name)

    def output(self, which=None):
        return ''.join(t for w, t in self.printed if which in (None, w))


def _text(x):
    if isinstance(x, str):
        return str.__str__(x)
    return str.__str__(stubs.SxStr(x))


class OutStream(object):
    def __init__(self, sink, which):
        self.sink, self.which = sink, which
        self.encoding = 'utf-8'

    def write(self, s):
        self.sink.append((self.which, _text(s)))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise real_io.UnsupportedOperation('fileno')


class Blocked(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s' % (self.__name__, k))

    def __call__(self, *a, **k):
        raise Unsupported(self.__name__)


def sx_isinstance(o, cls):
    if isinstance(o, (core.SymInt, core.SymBool, core.SymReal)):
        if cls is numbers_Integral:
            return isinstance(o, (core.SymInt, core.SymBool))
    return isinstance(o, cls)


import numbers
numbers_Integral = numbers.Integral


def _opaque_size(n):
    """Text of a size.  Also accepts what the real one accepts: numbers."""
    if isinstance(n, str) or n is None:
        raise TypeError('size must be a number')
    if isinstance(n, (core.SymInt, core.SymReal)):
        return wrap('size(' + core.ENGINE.token(n) + ')')
    return 'size(%s)' % n


def sx_mod_any(a, b):
    if isinstance(a, (str, bytes)):
        return sx_mod(a, b)
    return a % b


def sx_repr(x):
    return wrap(repr(x))


def sx_divmod(a, b):
    return divmod(a, b)


def sx_sum(items, start=0):
    for x in items:
        start = start + x
    return start


def sx_any(items):
    for x in items:
        if x:
            return True
    return False


def sx_all(items):
    for x in items:
        if not x:
            return False
    return True


def make_math():
    import math
    m = types.ModuleType('math')
    for k in dir(math):
        setattr(m, k, getattr(math, k))

    def sym(x):
        return isinstance(x, (core.SymInt, core.SymReal))
    m.floor = lambda x: x.__floor__() if sym(x) else math.floor(x)
    m.ceil = lambda x: x.__ceil__() if sym(x) else math.ceil(x)
    m.trunc = lambda x: x.__trunc__() if sym(x) else math.trunc(x)

    def isfinite(x):
        return True if sym(x) else math.isfinite(x)
    m.isfinite = isfinite
    m.isinf = lambda x: False if sym(x) else math.isinf(x)
    m.isnan = lambda x: False if sym(x) else math.isnan(x)
    for k in ('log', 'log2', 'log10', 'sqrt', 'exp', 'pow'):
        def f(x, *a, _r=getattr(math, k), _k=k):
            if sym(x) or any(sym(y) for y in a):
                raise Unsupported('math.%s' % _k)
            return _r(x, *a)
        setattr(m, k, f)
    return m


def make_binascii(z):
    m = types.ModuleType('binascii')
    import binascii
    m.crc32 = z.crc32
    m.hexlify = lambda b, *a: binascii.hexlify(b, *a) if isinstance(b, bytes) else \
        b.hex()
    m.Error = binascii.Error
    return m


def make_operator():
    import operator
    m = types.ModuleType('operator')
    for k in dir(operator):
        setattr(m, k, getattr(operator, k))
    m.index = lambda x: x if isinstance(x, core.SymInt) else operator.index(x)
    m.contains = lambda a, b: stubs.sx_in(b, a)
    m.getitem = stubs.sx_getitem
    return m


def make_functools():
    import functools
    m = types.ModuleType('functools')
    for k in dir(functools):
        setattr(m, k, getattr(functools, k))

    def no_cache(*a, **k):
        # memoisation is transparent for pure functions
        if len(a) == 1 and callable(a[0]):
            return functools.lru_cache(maxsize=None)(a[0])
        return functools.lru_cache(*a, **k)
    m.lru_cache = no_cache
    return m


class RePattern(object):
    """A compiled pattern that refuses text it cannot see through."""

    def __init__(self, p):
        self._p = p

    def __getattr__(self, k):
        f = getattr(self._p, k)
        return _re_guard(f) if callable(f) else f


def _re_guard(f):
    def g(*a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, str) and has_token(x) or isinstance(x, stubs.SymBytes):
                raise Unsupported('regular expression on symbolic text')
        return f(*[x._p if isinstance(x, RePattern) else x for x in a], **k)
    return g


def make_re():
    import re
    m = types.ModuleType('re')
    for k in dir(re):
        if not k.startswith('__'):
            v = getattr(re, k)
            setattr(m, k, _re_guard(v) if isinstance(v, types.FunctionType) else v)
    m.compile = lambda *a, **k: RePattern(re.compile(*a, **k))
    return m


def make_argparse(world):
    """The real argparse, reading this world's argv and writing to its sinks."""
    import argparse
    m = types.ModuleType('argparse')
    for k in dir(argparse):
        if not k.startswith('__'):
            setattr(m, k, getattr(argparse, k))

    class ArgumentParser(argparse.ArgumentParser):
        def __init__(self, prog=None, *a, **k):
            argparse.ArgumentParser.__init__(self, prog or world.argv[0], *a, **k)

        def parse_known_args(self, args=None, namespace=None):
            args = list(world.argv[1:]) if args is None else list(args)
            return argparse.ArgumentParser.parse_known_args(self, args, namespace)

        def _get_value(self, action, arg_string):
            f = self._registry_get('type', action.type, action.type)
            if f is None or isinstance(f, str):
                return argparse.ArgumentParser._get_value(self, action, wrap(arg_string))
            if f is stubs.SxStr and isinstance(arg_string, str):
                return wrap(arg_string)
            return argparse.ArgumentParser._get_value(self, action, wrap(arg_string))

        def _parse_optional(self, arg_string):
            ps = text.parts(arg_string) if has_token(arg_string) else []
            if ps and text.is_num(ps[0]):
                # any number looks like any other of the same sign
                like = '1' + ''.join(p if isinstance(p, str) else '1' for p in ps[1:])
                if not text.num_of(ps[0]) < 0:
                    return argparse.ArgumentParser._parse_optional(self, like)
                r = argparse.ArgumentParser._parse_optional(self, '-' + like)
                if r is None:
                    return None
                return tuple(wrap(arg_string) if x == '-' + like else x for x in r) if isinstance(r, tuple) else r
            return argparse.ArgumentParser._parse_optional(self, arg_string)

        def _check_value(self, action, value):
            if action.choices is not None and not stubs.sx_in(value, action.choices):
                raise argparse.ArgumentError(action, 'invalid choice')

        def _print_message(self, message, file=None):
            if message:
                which = 'out' if file is sys.stdout or file is world.sys.stdout else 'err'
                world.printed.append((which, message))

    m.ArgumentParser = ArgumentParser
    return m


ALLOWED = {'abc', 'collections', 'copy', 'pprint', 'itertools', 'contextlib',
           'ast', 'string', 'textwrap', 'types', 'typing', 'warnings', 'enum',
           'dataclasses', 'errno', 'numbers', 'decimal', 'fractions', 'time', 'datetime',
           'traceback', 'inspect', 'builtins', 'stat', 'array', 'bisect', 'heapq', 'random',
           'weakref', 'gettext', 'locale', 'codecs', 'atexit', 'threading', 'logging',
           'getopt', 'queue', 'concurrent', 'optparse', 'fnmatch', 'signal', 'platform', 'uuid'}
