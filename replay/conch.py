"""Concrete backend of the scenario interface: replays one model of the solver
on the real package (imported from /repo), in a scratch directory.

The checks are evaluated on what the real code did; nothing of the symbolic
machinery is used here."""
import builtins
import fractions
import hashlib
import importlib
import io
import json
import os
import random
import re
import shutil
import struct
import weakref
import sys
import tempfile
import zlib

import blosc
import numpy

REPO = os.environ.get('SX_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

REAL = {k: getattr(blosc, k) for k in ('compress', 'decompress', 'compress_ptr', 'decompress_ptr',
                                       'set_nthreads')}
REAL_NP = {k: getattr(numpy, k) for k in ('empty', 'zeros', 'ascontiguousarray', 'asfortranarray',
                                          'empty_like', 'zeros_like')}
REAL_OPEN = builtins.open
MAX_BYTES = 96 * 2 ** 20


class Stop(BaseException):
    """Ends the scenario."""

    def __init__(self, kind, label='', detail=None):
        BaseException.__init__(self, kind, label)
        self.kind, self.label, self.detail = kind, label, detail


class Fault(OSError):
    pass


class R(object):
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def is_a(self, *names):
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)

    @property
    def kind(self):
        return 'returned' if self.exc is None else type(self.exc).__name__

    @property
    def exit_code(self):
        if not isinstance(self.exc, SystemExit):
            return None
        c = self.exc.code
        return 0 if c is None else c if isinstance(c, int) else 1


class FaultCtl(object):
    def __init__(self, at, torn, kinds):
        self.at, self.torn, self.kinds = at, torn, kinds
        self.count, self.fired = 0, None

    def hit(self, what):
        if self.fired is not None or what not in self.kinds:
            return False
        here = self.count
        self.count += 1
        if self.at == here:
            self.fired = (what, here)
            return True
        return False


class FaultFile(object):
    """A real file whose reads and writes may be made to fail."""

    def __init__(self, f, H):
        self._f, self._H = f, H

    def read(self, *a):
        c = self._H._ctl
        if c is not None and c.hit('read'):
            raise Fault(5, 'injected read failure')
        return self._f.read(*a)

    def write(self, b):
        c = self._H._ctl
        if c is not None and c.hit('write'):
            if c.torn:
                self._f.write(bytes(b)[:len(b) // 2])
            raise Fault(28, 'injected write failure')
        return self._f.write(b)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()
        return False


def content(profile, name, n):
    rnd = random.Random('%s/%s' % (profile, name))
    if n > MAX_BYTES:
        raise Stop('toobig')
    if profile == 'zeros':
        return bytes([len(name) % 251]) * n
    if profile == 'mixed':
        k = n // 2
        return rnd.randbytes(k) + b'a' * (n - k)
    if profile == 'ramp':
        return (bytes(range(256)) * (n // 256 + 1))[:n]
    return rnd.randbytes(n)


class Modules(object):
    def __init__(self, H):
        self._H = H

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return importlib.import_module('bloscpack.' + k)

    @property
    def modules(self):
        return {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'bloscpack'}


class ConcH(object):
    sym = False

    def __init__(self, inputs, profile='random', tier='quick', **params):
        self.inputs, self.profile, self.tier, self.params = dict(inputs), profile, tier, params
        self.labels = []
        self.failed = None
        self.dir = tempfile.mkdtemp(prefix='sxreplay')
        self._ctl = None
        self._opened, self._removed = [], []
        self._calls, self._decomp, self._threads = [], [], []
        self._arrays, self._writes = [], []
        self._out, self._err = io.StringIO(), io.StringIO()
        self._outcome = None
        self._metas = {}
        self.bp = Modules(self)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------ running
    def run(self, scenario):
        cwd = os.getcwd()
        os.chdir(self.dir)
        self._install()
        try:
            self.restart()
            scenario(self)
            status = 'held'
        except Stop as s:
            status = s.kind
            if s.kind == 'failed':
                self.failed = {'label': s.label, 'detail': s.detail}
        finally:
            self._uninstall()
            os.chdir(cwd)
            shutil.rmtree(self.dir, ignore_errors=True)
        return status

    def restart(self):
        for k in list(sys.modules):
            if k == 'bloscpack' or k.startswith('bloscpack.'):
                del sys.modules[k]
        import bloscpack
        assert os.path.realpath(bloscpack.__file__).startswith(os.path.realpath(REPO) + os.sep), \
            bloscpack.__file__

    def _install(self):
        H = self

        def compress(b, typesize=8, clevel=9, shuffle=1, cname='blosclz', **k):
            if H._ctl is not None and H._ctl.hit('compress'):
                raise blosc.blosc_extension.error('injected compression failure')
            r = REAL['compress'](b, typesize, clevel, shuffle, cname, **k)
            H._calls.append(dict(typesize=typesize, clevel=clevel, shuffle=shuffle, cname=cname,
                                 nbytes=len(b), plain=bytes(b), out=r))
            return r

        def compress_ptr(address, items, typesize=8, clevel=9, shuffle=1, cname='blosclz', **k):
            if H._ctl is not None and H._ctl.hit('compress'):
                raise blosc.blosc_extension.error('injected compression failure')
            if items >= 0 and typesize:
                H._inside(address, items * typesize, 'memory read stays inside the array')
            r = REAL['compress_ptr'](address, items, typesize, clevel, shuffle, cname, **k)
            H._calls.append(dict(typesize=typesize, clevel=clevel, shuffle=shuffle, cname=cname,
                                 nbytes=items * typesize, plain=REAL['decompress'](r), out=r,
                                 address=address))
            return r

        def decompress(b, *a, **k):
            r = REAL['decompress'](b, *a, **k)
            H._decomp.append(bytes(b))
            return r

        def decompress_ptr(b, address, **k):
            nb = struct.unpack('<I', bytes(b)[4:8])[0] if len(b) >= 16 else 0
            if nb:
                H._inside(address, nb, 'memory write stays inside the array')
            r = REAL['decompress_ptr'](b, address, **k)
            H._decomp.append(bytes(b))
            H._writes.append((address, r))
            return r

        def set_nthreads(n):
            r = REAL['set_nthreads'](n)
            H._threads.append(n)
            REAL['set_nthreads'](4)
            return r

        for k, f in dict(compress=compress, compress_ptr=compress_ptr, decompress=decompress,
                         decompress_ptr=decompress_ptr, set_nthreads=set_nthreads).items():
            setattr(blosc, k, f)

        def npwrap(name):
            def f(*a, **k):
                r = REAL_NP[name](*a, **k)
                if name.startswith('empty') and r.size and not r.dtype.hasobject:
                    if r.flags.forc and r.itemsize:
                        r.reshape(-1, order='A').view(numpy.uint8)[:] = 0xA5
                H._arrays.append(weakref.ref(r))
                return r
            return f
        for k in REAL_NP:
            setattr(numpy, k, npwrap(k))

        def open_(path, mode='r', *a, **k):
            H._opened.append((path, mode))
            f = REAL_OPEN(path, mode, *a, **k)
            if H._ctl is not None and 'b' in mode:
                return FaultFile(f, H)
            return f
        self._open = open_

    def _uninstall(self):
        for k, f in REAL.items():
            setattr(blosc, k, f)
        for k, f in REAL_NP.items():
            setattr(numpy, k, f)

    def _inside(self, address, n, label):
        """Fails when the range is partly in an array that still exists and
        partly not; memory of arrays not known here is left to the content
        (MALLOC_PERTURB_ overwrites what was given back)."""
        bounds = getattr(numpy.lib, 'array_utils', numpy).byte_bounds
        partly = False
        for w in self._arrays:
            a = w()
            if a is None:
                continue
            lo, hi = bounds(a)
            if lo <= address and address + n <= hi:
                return
            partly = partly or lo < address + n and address < hi
        if n and partly:
            raise Stop('failed', label, 'address range of %d bytes' % n)

    # ------------------------------------------------------------- inputs
    def _in(self, name):
        if name not in self.inputs:
            raise Stop('diverged', name)
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        v = self._in(name)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Stop('diverged', name)
        return v

    def bool(self, name):
        return bool(self._in(name))

    def pick(self, name, options):
        v = self._in(name)
        for o in options:
            if o is v or (type(o) is type(v) and o == v) or repr(o) == v:
                return o
        raise Stop('diverged', name)

    def flag(self, name):
        return self.pick(name, [False, True])

    def assume(self, c):
        if not c:
            raise Stop('diverged', 'assumption')

    def prefer(self, c):
        pass

    def bytes(self, name, n):
        return content(self.profile, name, n)

    def altered(self, name, b):
        b = bytes(b)
        self.assume(len(b) > 0)
        old = {i: self.inputs.get('%s@[%d]' % (name, i)) for i in range(len(b))}
        new = {i: self.inputs.get('%s[%d]' % (name, i)) for i in old}
        if None not in new.values() and None not in old.values() and \
                (self.profile == 'random' or self.profile.startswith('seed')):
            # the differences of the model, in the real bytes
            diff = [i for i in old if old[i] != new[i]]
            if self.profile != 'random' and any(b[i] != old[i] for i in diff):
                raise Stop('diverged', name)
            v = bytearray(b)
            for i in diff:
                v[i] = new[i]
            if bytes(v) != b:
                return bytes(v)
        if self.profile != 'ramp':
            v = [self.inputs.get('%s[%d]' % (name, i)) for i in range(len(b))]
            if None not in v and bytes(v) != b:
                return bytes(v)
        i = {'zeros': 0, 'mixed': len(b) // 2, 'ramp': len(b) - 1}.get(
            self.profile, random.Random(name).randrange(len(b)))
        return b[:i] + bytes([b[i] ^ 0x5A]) + b[i + 1:]

    def byte_at(self, name, lo=0, hi=255):
        return self.int(name, lo, hi)

    def raw(self, name, n):
        return bytes(self._in('%s[%d]' % (name, i)) for i in range(n))

    def name(self, name, maxlen=16):
        return self._in(name)

    def numtext(self, value, places=0):
        return str(value)

    def decimal(self, name, places, lo, hi):
        k = self.int(name)
        v = fractions.Fraction(k, 10 ** places)
        if places:
            s = '%s%d.%0*d' % ('-' if k < 0 else '', abs(k) // 10 ** places, places, abs(k) % 10 ** places)
        else:
            s = str(k)
        return v, s

    def floor(self, v):
        return int(v // 1)

    def size_text(self, t):
        m = re.match(r'^(-?\d+(?:\.\d+)?)(.*)$', t, re.S)
        return (fractions.Fraction(m.group(1)), m.group(2)) if m else None

    def numbers(self, t):
        return [int(x) for x in re.findall(r'\d+', t)]

    def meta(self, name, nonempty=True):
        if name in self._metas:
            return self._metas[name]
        n = self.inputs.get('metalen_' + name, 40)
        if not nonempty:
            m = {}
        else:
            if n > MAX_BYTES:
                raise Stop('toobig')
            m = make_meta(name, n, self.profile, self.inputs.get('zlen'), len(self._metas))
        self._metas[name] = m
        return m

    def distinct_metas(self):
        pass

    def func(self, name, f):
        return f

    # ---------------------------------------------------------- operators
    def And(self, *c):
        return all(c)

    def Or(self, *c):
        return any(c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def If(self, c, a, b):
        return a if c else b

    def len(self, x):
        return len(x)

    def range(self, n):
        return range(n)

    def total(self, xs):
        return sum(xs)

    def concat(self, xs):
        return b''.join(bytes(x) for x in xs)

    def repeat(self, b, n):
        return b * n

    def eq(self, a, b):
        if isinstance(a, (bytes, bytearray, memoryview)) and isinstance(b, (bytes, bytearray, memoryview)):
            return bytes(a) == bytes(b)
        return a == b

    def same(self, a, b):
        if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)):
            return isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)) and \
                bytes(a) == bytes(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is b
        return bool(a == b) and isinstance(a, bool) == isinstance(b, bool) or \
            (isinstance(a, bool) != isinstance(b, bool) and bool(a == b))

    def is_plain(self, v):
        return True

    def fix(self, v):
        return v

    def nonlinear(self):
        pass

    def meta_len(self, meta):
        return len(json.dumps(meta, separators=(',', ':')))

    def is_int(self, v):
        return isinstance(v, int) and not isinstance(v, bool)

    def is_bytes(self, v):
        return isinstance(v, bytes)

    def is_str(self, v):
        return isinstance(v, str)

    def truth(self, c):
        return bool(c)

    def le(self, v, w, signed=False):
        return int(v).to_bytes(w, 'little', signed=signed)

    def u(self, b, off, w, signed=False):
        return int.from_bytes(b[off:off + w], 'little', signed=signed)

    def cut(self, b, a, e=None):
        return bytes(b)[a:e]

    # ------------------------------------------------------------- checks
    def check(self, cond, label, detail=None):
        self.labels.append(label)
        if not cond:
            raise Stop('failed', label, detail)

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def outcome(self, *v):
        self._outcome = list(v)

    def note(self, key, v):
        pass

    def possible(self, c):
        return bool(c)

    def call(self, fn, *a, **k):
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self._out, self._err
        builtins.open = self._open
        try:
            return R(fn(*a, **k))
        except (Stop, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if type(e).__name__ == 'Timeout':
                raise
            if os.environ.get('SX_TRACE'):
                import traceback
                traceback.print_exc(file=so)
            return R(exc=e.with_traceback(None))
        finally:
            sys.stdout, sys.stderr = so, se
            builtins.open = REAL_OPEN

    # -------------------------------------------------------------- files
    def path(self, name):
        return name

    def _p(self, name):
        p = os.path.join(self.dir, name)
        assert os.path.dirname(os.path.normpath(p)) == self.dir, p
        return p

    def put(self, name, b):
        with REAL_OPEN(self._p(name), 'wb') as f:
            f.write(bytes(b))

    def get(self, name):
        if not os.path.exists(self._p(name)):
            return None
        with REAL_OPEN(self._p(name), 'rb') as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self._p(name))

    def names(self):
        return sorted(os.listdir(self.dir))

    def unknown_files(self):
        pass

    def opened(self):
        return list(self._opened)

    def removed(self):
        return []

    def openfile(self, name, mode):
        return REAL_OPEN(self._p(name), mode)

    def memfile(self, b=b''):
        return io.BytesIO(bytes(b))

    def faults(self, at, torn=False, kinds=('read', 'write', 'compress')):
        self._ctl = FaultCtl(at, torn, kinds)
        return self._ctl

    def no_faults(self):
        self._ctl = None

    def stdout(self):
        return self._out.getvalue()

    def stderr(self):
        return self._err.getvalue()

    def clear_output(self):
        self._out, self._err = io.StringIO(), io.StringIO()

    # -------------------------------------------------------- environment
    def digest(self, name, b):
        b = bytes(b)
        if name == 'None':
            return b''
        if name == 'adler32':
            return struct.pack('<I', zlib.adler32(b) & 0xffffffff)
        if name == 'crc32':
            return struct.pack('<I', zlib.crc32(b) & 0xffffffff)
        return getattr(hashlib, name)(b).digest()

    def distinct_digests(self):
        pass

    def json_loads(self, b):
        return json.loads(b)

    def deflate(self, b, level):
        return zlib.compress(bytes(b), level)

    def json_dumps(self, v):
        return json.dumps(v, separators=(',', ':')).encode()

    def buffer(self, kind, b):
        return {'bytearray': bytearray, 'memoryview': memoryview}[kind](b)

    def inflate(self, b):
        return zlib.decompress(b)

    def deflate_len(self, b, level):
        return len(zlib.compress(bytes(b), level))

    def compressed(self):
        return list(self._calls)

    def clear_compressed(self):
        del self._calls[:]

    def blosc(self, b, typesize=8, clevel=7, shuffle=True, cname='blosclz'):
        return REAL['compress'](bytes(b), typesize, clevel, int(shuffle), cname)

    def unblosc(self, b):
        return REAL['decompress'](bytes(b))

    def decompressed(self):
        return list(self._decomp)

    # ---------------------------------------------------------------- CLI
    def cli(self, argv):
        old = sys.argv
        sys.argv = ['blpk'] + [str(a) for a in argv]
        try:
            return self.call(importlib.import_module('bloscpack.cli').main)
        finally:
            sys.argv = old

    def ncores(self):
        return blosc.ncores

    def threads_set(self):
        return list(self._threads)

    # -------------------------------------------------------------- numpy
    def dtype(self, name, itemsize, hasobject=False, **k):
        if hasobject:
            return numpy.dtype('O')
        d = numpy.dtype(name if not k.get('names') else k['descr'])
        assert d.itemsize == itemsize, (d, itemsize)
        return d

    def array(self, name, dtype, count, layout='C'):
        if dtype.hasobject:
            return numpy.array([object()] * count, dtype=dtype)
        if count * dtype.itemsize > MAX_BYTES:
            raise Stop('toobig')
        mem = numpy.frombuffer(bytearray(content(self.profile, name, count * dtype.itemsize)), numpy.uint8)
        flat = mem.view(dtype) if count else REAL_NP['empty']((0,), dtype)
        cols = next((c for c in (3, 2, 5, 7) if count % c == 0 and count // c > 1), 1)
        if layout == '0d':
            a = mem.view(dtype).reshape(())
        elif layout == 'both':
            a = flat
        elif cols == 1:
            raise Stop('diverged', 'shape')
        elif layout == 'C':
            a = flat.reshape(count // cols, cols)
        elif layout == 'F':
            a = flat.reshape(cols, count // cols).T
        else:
            wide = REAL_NP['zeros']((count, 2), dtype)
            wide[:, 0] = flat
            a = wide.reshape(count // cols, 2 * cols)[:, ::2]
        self._arrays.append(weakref.ref(a))
        return a

    def array_bytes(self, a, order):
        return a.tobytes(order)

    def array_order(self, a):
        return 'F' if numpy.isfortran(a) else 'C'


def make_meta(name, n, profile, zlen=None, index=0):
    """A JSON value whose compact ASCII dump has n characters, one per index."""
    rnd = random.Random('%s/%s' % (profile, name))
    if n <= 1:
        return 7 - index
    if n < 8:
        return [int('123456789'[index] * (n - 2))] if n > 2 else 70 + index
    k = n - 8
    if profile == 'zeros':
        s = 'a' * k
    elif profile == 'mixed':
        # aim at the deflated size of the model
        s = None
        if zlen is not None:
            lo, hi = 0, k
            rs = ''.join(rnd.choice(ALNUM) for _ in range(k))
            for _ in range(24):
                mid = (lo + hi) // 2
                z = len(zlib.compress(('{"%s":"%s"}' % ('klmnopq'[index], rs[:mid] + 'a' * (k - mid))).encode(), 6))
                if z < zlen:
                    lo = mid + 1
                else:
                    hi = mid
                if lo >= hi:
                    break
            s = rs[:lo] + 'a' * (k - lo)
        if s is None:
            s = ''.join(rnd.choice(ALNUM) for _ in range(k // 2)) + 'b' * (k - k // 2)
    elif profile == 'ramp':
        s = '\u00e9' * (k // 6) + 'x' * (k % 6)
    else:
        s = ''.join(rnd.choice(ALNUM) for _ in range(k))
    return {'klmnopq'[index]: s}


ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
