"""Stand-ins for everything outside bloscpack: Blosc, struct, zlib, hashlib,
json, numpy, os, io, six, deprecated.  Each returns an arbitrary value allowed
by the documented contract of the real thing (see DESIGN.md, 'Trusted base')."""
import copy as real_copy
import errno
import hashlib as real_hashlib
import io as real_io
import itertools
import json as real_json
import os as real_os
import re
import struct as real_struct
import sys as real_sys
import types
import weakref
import zlib as real_zlib

import z3

from . import core
from .core import (SymInt, SymBool, SymReal, And, Or, Not, mk, mkb, mkr, iexpr,
                   rexpr, boolexpr, Abort, Unsupported, LazyQuot, Formatted)
from .rope import (SymBytes, SymByteArray, CSeg, ISeg, BSeg, RSeg, OSeg, Blob,
                   as_segs, total, int_of_bytes, rope_same, split_at, zero_len)
from .text import (SymText, NumText, StrVar, JSONText, parts, sx_mod, sx_join,
                   wrap, has_token, num_of, is_num)
from .fs import Fault, SymFile, SymBytesIO, SymFS, TextFile

BLOSC_MAX_BUFFERSIZE = 2147483631
BLOSC_MAX_TYPESIZE = 255
BLOSC_MAX_THREADS = 256
NCORES = 8
COMPRESSORS = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']


def sx_len(x):
    f = getattr(type(x), 'sx_len', None)
    if f is not None:
        return x.sx_len()
    return len(x)


# ------------------------------------------------------------ builtin types
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SymInt, SymBool))

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, (int, SymInt, SymBool))

    def __call__(cls, x=0, *a, **k):
        return sx_int(x, *a, **k)

    def __eq__(cls, o):
        return o is cls or o is int or o is SymInt

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, k):
        return getattr(int, k)


class SxInt(metaclass=_IntMeta):
    __name__ = 'int'

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if isinstance(b, (SymBytes, SymByteArray)):
            b = b.rope if isinstance(b, SymByteArray) else b
            n = b.sx_len()
            if not isinstance(n, int):
                n = core.ENGINE.concretise(n.e, 'from_bytes length')
            return int_of_bytes(b.segs, byteorder, signed) if n else 0
        return int.from_bytes(b, byteorder, signed=signed)


def sx_int(x=0, *a, **k):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymReal):
        return x.trunc()
    if isinstance(x, str) and has_token(x):
        x = SymText(x)
        base = a[0] if a else k.get('base', 10)
        ps = parts(x.strip())
        if base == 10 and len(ps) == 1 and is_num(ps[0]):
            v = num_of(ps[0])
            places = getattr(ps[0], 'places', 0)
            if isinstance(v, SymInt) and places == 0:
                return v
            raise ValueError("invalid literal for int() with base 10: '%s'" % str.__str__(x))
        if base == 10 and len(ps) == 2 and ps[0] in ('-', '+') and is_num(ps[1]):
            v = num_of(ps[1])
            if isinstance(v, SymInt) and v >= 0:
                return -v if ps[0] == '-' else v
        if base != 10:
            raise Unsupported('int() of symbolic text in base %s' % base)
        if any(isinstance(p, StrVar) for p in ps):
            raise Unsupported('int() of symbolic text')
        raise ValueError("invalid literal for int() with base 10: '%s'" % str.__str__(x))
    return int(x, *a, **k)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SymBool))

    def __call__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (SymInt, SymReal)):
            return x != 0
        if isinstance(x, SymBytes):
            return x.sx_bool()
        return bool(x)

    def __eq__(cls, o):
        return o is cls or o is bool or o is SymBool

    def __hash__(cls):
        return hash(bool)


class SxBool(metaclass=_BoolMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymReal))

    def __call__(cls, x=0.0):
        return sx_float(x)

    def __eq__(cls, o):
        return o is cls or o is float or o is SymReal

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, k):
        return getattr(float, k)


class SxFloat(metaclass=_FloatMeta):
    pass


def sx_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return core.FloatOf(x)
    if isinstance(x, str) and has_token(x):
        ps = parts(SymText(x).strip())
        if len(ps) == 1 and is_num(ps[0]):
            return sx_float(num_of(ps[0]))
        raise ValueError('could not convert string to float')
    return float(x)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, str)

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, str)

    def __call__(cls, x='', *a, **k):
        if isinstance(x, SymText):
            return x
        if isinstance(x, SymBytes) and (a or k):
            return x.decode(*a, **k)
        return wrap(str(x, *a, **k))

    def __eq__(cls, o):
        return o is cls or o is str or o is SymText

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, k):
        return getattr(str, k)


class SxStr(metaclass=_StrMeta):
    pass


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bytes, SymBytes))

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, (bytes, SymBytes))

    def __call__(cls, x=b'', *a, **k):
        if isinstance(x, SymByteArray):
            return x.rope.simplified()
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymText):
            return x.encode(*a, **k)
        if isinstance(x, SymInt):
            return SymBytes.repeat(b'\0', x)
        if not isinstance(x, (bytes, bytearray, memoryview, str, int)):
            x = list(x)
            if any(isinstance(v, SymInt) for v in x):
                for v in x:
                    if not And(v >= 0, v <= 255):
                        raise ValueError('bytes must be in range(0, 256)')
                return SymBytes([BSeg(v) if isinstance(v, SymInt) else CSeg(bytes([v])) for v in x])
        return bytes(x, *a, **k)

    def __eq__(cls, o):
        return o is cls or o is bytes or o is SymBytes

    def __hash__(cls):
        return hash(bytes)

    def __getattr__(cls, k):
        return getattr(bytes, k)


class SxBytes(metaclass=_BytesMeta):
    @staticmethod
    def join(sep, items):
        return sx_join(sep, items)


class _ByteArrayMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bytearray, SymByteArray))

    def __call__(cls, x=b'', *a, **k):
        if isinstance(x, SymInt):
            x = SymBytes.repeat(b'\0', x)
        if isinstance(x, int) or isinstance(x, str) or isinstance(x, (list, tuple)):
            x = SxBytes(x, *a, **k) if not isinstance(x, int) else bytes(x)
        return SymByteArray(x)

    def __hash__(cls):
        return hash(bytearray)


class SxByteArray(metaclass=_ByteArrayMeta):
    pass


class _MemMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, memoryview)

    def __call__(cls, x):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymByteArray):
            return x.rope
        return memoryview(x)

    def __hash__(cls):
        return hash(memoryview)


class SxMemoryView(metaclass=_MemMeta):
    pass


class _RangeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (range, SymRange))

    def __call__(cls, *a):
        if any(isinstance(x, (SymInt, SymBool)) for x in a):
            return SymRange(*a)
        return range(*a)

    def __hash__(cls):
        return hash(range)


class SxRange(metaclass=_RangeMeta):
    pass


class SymRange(object):
    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a
        if isinstance(self.step, SymInt):
            self.step = core.ENGINE.concretise(self.step.e, 'range step')

    def sx_len(self):
        if self.step > 0:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // (-self.step)
        return core.If(n > 0, n, 0)

    def __len__(self):
        return core.ENGINE.concretise(iexpr(self.sx_len()), 'range length')

    def __iter__(self):
        v, k = self.start, 0
        while (v < self.stop) if self.step > 0 else (v > self.stop):
            if k >= core.ENGINE.unroll:
                core.ENGINE.kill(Abort('cut', 'loop over more than %d items' % core.ENGINE.unroll))
            yield v
            v = v + self.step
            k += 1

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, x):
        if self.step == 1:
            return bool(And(x >= self.start, x < self.stop))
        return any(x == y for y in self)

    def __getitem__(self, i):
        return list(self)[i]


class SxType(type):
    """type(x) for symbolic values."""


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return SxInt
        if isinstance(x, SymBool):
            return SxBool
        if isinstance(x, SymReal):
            return SxFloat
        if isinstance(x, SymText):
            return SxStr
        if isinstance(x, SymBytes):
            return SxBytes
        t = type(x)
        return {int: SxInt, bool: SxBool, str: SxStr, bytes: SxBytes, float: SxFloat}.get(t, t)
    return type(*a, **k)


def sx_round(x, n=None):
    return x.__round__(n) if isinstance(x, (SymInt, SymReal)) else (round(x) if n is None else round(x, n))


def sx_bin(x):
    if isinstance(x, (SymInt, SymBool)):
        x = core.ENGINE.concretise(iexpr(x), 'bin')
    return bin(x)


def sx_min(*a, **k):
    return _minmax(min, lambda x, y: x < y, a, k)


def sx_max(*a, **k):
    return _minmax(max, lambda x, y: x > y, a, k)


def _minmax(real, better, a, k):
    items = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (SymInt, SymReal)) for x in items):
        return real(items, **k)
    best = items[0]
    for x in items[1:]:
        c = better(x, best)
        if isinstance(c, SymBool) and not isinstance(x, SymReal) and not isinstance(best, SymReal):
            best = core.If(c, x, best)
        elif c:
            best = x
    return best


def sx_ord(x):
    if isinstance(x, SymBytes):
        return x[0]
    return ord(x)


def sx_in(x, c):
    """x in c"""
    if type(x) is str:
        x = wrap(x)
    if type(c) is str:
        c = wrap(c)
    if isinstance(c, SymText):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return c.__contains__(x)
    if isinstance(x, (SymText, SymInt, SymBool, SymReal, SymBytes)):
        if isinstance(c, str):
            if isinstance(x, SymText):
                # x in 'literal': equal to one of its substrings
                ps = parts(x)
                if len(ps) == 1 and not isinstance(ps[0], (str, StrVar)):
                    from .text import DigitChar
                    if isinstance(ps[0], DigitChar):
                        if not any(ch in '0123456789.-' for ch in c):
                            return False
                raise Unsupported('symbolic text in literal')
        elif isinstance(c, SymRange):
            return x in c
        elif isinstance(c, range) and isinstance(x, (SymInt, SymBool)) and abs(c.step) == 1:
            lo, hi = (c[0], c[-1]) if len(c) else (0, -1)
            return bool(And(x >= min(lo, hi), x <= max(lo, hi))) if len(c) else False
        elif isinstance(c, (dict, set, frozenset, list, tuple)) or hasattr(c, 'keys') \
                or type(c).__name__ in ('odict_keys', 'dict_keys', 'dict_values', 'odict_values', 'range'):
            conds = []
            for y in list(c):
                r = (y is x) or (x == y)
                if r is True:
                    return True
                if r is False:
                    continue
                conds.append(r)
            return bool(Or(*conds)) if conds else False
    return x in c


def sx_getitem(o, i):
    if type(o) is str:
        o = wrap(o)
    if type(o) in (list, tuple) and isinstance(i, (SymInt, SymBool)):
        n = len(o)
        i = i if isinstance(i, SymInt) else i._int()
        if isinstance(i, SymInt):
            if i < 0:
                i = i + n
            if isinstance(i, SymInt):
                if Or(i < 0, i >= n):
                    raise IndexError('list index out of range')
                i = core.ENGINE.concretise(i.e, 'list index')
            elif i < 0 or i >= n:
                raise IndexError('list index out of range')
        return o[i]
    if isinstance(o, dict) and isinstance(i, (SymInt, SymText, SymBytes, SymBool)) and type(o).__getitem__ in (dict.__getitem__,):
        for k in list(o):
            if i == k:
                return o[k]
        miss = getattr(type(o), '__missing__', None)
        if miss is not None:
            return miss(o, i)
        raise KeyError(i)
    if isinstance(i, slice) and type(o) in (bytes, str, list, tuple, memoryview) and \
            any(isinstance(x, SymInt) for x in (i.start, i.stop, i.step)):
        if type(o) in (bytes, memoryview):
            return SymBytes.of(o)[i]
        def c(x):
            return core.ENGINE.concretise(x.e, 'slice') if isinstance(x, SymInt) else x
        return o[slice(c(i.start), c(i.stop), c(i.step))]
    if type(o) is bytes and isinstance(i, SymInt):
        return SymBytes.of(o)[i]
    return o[i]


def sx_repeat_write(f, data, n):
    """for _ in range(n): f.write(data)   (data constant)"""
    if isinstance(n, SymInt) and isinstance(data, bytes) and isinstance(f, SymFile) \
            and len(set(data)) == 1:
        if n > 0:
            ctl = f.fs.faults
            k = None if ctl is None else ctl.hit_many('write', n)
            if k is None:
                f._open()
                f._put(SymBytes.repeat(data, n).segs)
            else:
                # k of them succeed
                f._put(SymBytes.repeat(data, k).segs)
                raise Fault(errno.ENOSPC, 'injected write failure')
        return
    if not isinstance(n, (int, SymInt)):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(n).__name__)
    for _ in SxRange(n):
        f.write(data)


def sx_getattr_call(obj, name, args, kwargs):
    """obj.name(*args, **kwargs) for names where real str/bytes need help."""
    if type(obj) is str:
        obj = wrap(obj)
    if name == 'join' and isinstance(obj, (str, bytes)) and len(args) == 1 and not kwargs:
        return sx_join(obj, args[0])
    if name == 'format' and isinstance(obj, str):
        return wrap(getattr(obj, name)(*args, **kwargs))
    if type(obj) in (str, bytes) and name in ('startswith', 'endswith', 'index', 'count', 'find') \
            and args and isinstance(args[0], (SymText, SymBytes)):
        if type(obj) is bytes:
            return getattr(SymBytes.of(obj), name)(*args, **kwargs)
        raise Unsupported('%s of symbolic text' % name)
    if type(obj) is list and name == 'index' and len(args) == 1 and isinstance(args[0], (SymText, SymInt)):
        for i, x in enumerate(obj):
            if x == args[0]:
                return i
        raise ValueError('not in list')
    if type(obj) is dict and name == 'get' and args and isinstance(args[0], (SymText, SymInt, SymBytes)):
        try:
            return sx_getitem(obj, args[0])
        except KeyError:
            return args[1] if len(args) > 1 else None
    if type(obj) in (bytes,) and name in ('ljust', 'rjust') and isinstance(args[0], SymInt):
        return getattr(SymBytes.of(obj), name)(*args)
    return getattr(obj, name)(*args, **kwargs)


# ------------------------------------------------------------------- struct
class StructStub(types.ModuleType):
    error = real_struct.error
    SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False),
             'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
             'q': (8, True), 'Q': (8, False)}

    def _parse(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        end = 'little'
        native = True
        if fmt and fmt[0] in '<>=!@':
            if fmt[0] in '>!':
                end = 'big'
            native = fmt[0] == '@'
            fmt = fmt[1:]
        out = []
        for m in re.finditer(r'(\d*)([a-zA-Z?])', fmt):
            cnt, c = m.groups()
            if c == 's':
                out.append(('s', int(cnt or 1), None))
            elif c == 'x':
                out.append(('x', int(cnt or 1), None))
            elif c == '?':
                out.extend([('?', 1, None)] * int(cnt or 1))
            elif c in self.SIZES:
                w, sg = self.SIZES[c]
                if native and c in 'lL':
                    w = 8
                out.extend([('n', w, sg)] * int(cnt or 1))
            else:
                raise Unsupported('struct format %s' % c)
        if native and len({w for k, w, s in out}) > 1:
            raise Unsupported('native struct alignment')
        return end, out

    def calcsize(self, fmt):
        end, items = self._parse(fmt)
        return sum(w for _, w, _ in items)

    def pack(self, fmt, *vals):
        end, items = self._parse(fmt)
        vals = list(vals)
        n = sum(1 for k, _, _ in items if k != 'x')
        if len(vals) != n:
            raise real_struct.error('pack expected %d items for packing (got %d)' % (n, len(vals)))
        segs = []
        for k, w, sg in items:
            if k == 'x':
                segs.append(CSeg(b'\0' * w))
                continue
            v = vals.pop(0)
            if k == 's':
                b = SymBytes.of(v)
                ln = b.sx_len()
                if ln > w:
                    b = SymBytes.of(b[:w])
                segs.extend(b.segs)
                segs.append(RSeg(0, w - b.sx_len()))
                continue
            if k == '?':
                v = SxBool(v)
                v = v._int() if isinstance(v, SymBool) else int(v)
                w, sg = 1, False
            if isinstance(v, SymBool):
                v = v._int()
            lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << (8 * w)) - 1)
            if isinstance(v, SymInt):
                if not And(v >= lo, v <= hi):
                    raise real_struct.error('argument out of range')
                segs.append(ISeg(v, w, end, sg) if w > 1 or sg else BSeg(v))
            else:
                if isinstance(v, SymReal) or not hasattr(v, '__index__'):
                    raise real_struct.error('required argument is not an integer')
                v = v.__index__()
                if not lo <= v <= hi:
                    raise real_struct.error('argument out of range')
                segs.append(CSeg(v.to_bytes(w, end, signed=sg)))
        return SymBytes(segs).simplified()

    def unpack(self, fmt, buf):
        end, items = self._parse(fmt)
        size = sum(w for _, w, _ in items)
        if isinstance(buf, (bytes, bytearray, memoryview)):
            return real_struct.unpack(fmt, buf)
        if not isinstance(buf, (SymBytes, SymByteArray)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(buf).__name__)
        buf = SymBytes.of(buf)
        if buf.sx_len() != size:
            raise real_struct.error('unpack requires a buffer of %d bytes' % size)
        return self._take(buf, end, items)

    def _take(self, buf, end, items):
        out = []
        segs = buf.segs
        for k, w, sg in items:
            a, segs = split_at(segs, w)
            if k == 'x':
                continue
            if k == 's':
                out.append(SymBytes(a).simplified())
            elif k == '?':
                v = int_of_bytes(SymBytes(a).segs, end, False)
                out.append(v != 0)
            else:
                out.append(int_of_bytes(SymBytes(a).segs, end, sg))
        return tuple(out)

    def unpack_from(self, fmt, buf, offset=0):
        end, items = self._parse(fmt)
        size = sum(w for _, w, _ in items)
        buf = SymBytes.of(buf)
        n = buf.sx_len()
        if n < offset + size:
            raise real_struct.error('unpack_from requires a buffer of at least %s bytes' % size)
        return self._take(SymBytes.of(buf[offset:offset + size]), end, items)

    def iter_unpack(self, fmt, buf):
        size = self.calcsize(fmt)
        buf = SymBytes.of(buf)
        n = buf.sx_len()
        if n % size != 0:
            raise real_struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
        i = 0
        k = 0
        while i < n:
            if k > core.ENGINE.unroll:
                core.ENGINE.kill(Abort('cut', 'iter_unpack over long bytes'))
            yield self.unpack(fmt, buf[i:i + size])
            i += size
            k += 1

    def pack_into(self, *a):
        raise Unsupported('struct.pack_into')

    def Struct(self, fmt):
        return _StructObj(self, fmt)


class _StructObj(object):
    def __init__(self, mod, fmt):
        self.mod, self.format = mod, fmt
        self.size = mod.calcsize(fmt)

    def pack(self, *v):
        return self.mod.pack(self.format, *v)

    def unpack(self, b):
        return self.mod.unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return self.mod.unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return self.mod.iter_unpack(self.format, b)


# ------------------------------------------------------------------- hashes
def digest_of(kind, size, rope, state=None):
    """Deterministic opaque digest of a rope."""
    E = core.ENGINE
    rope = SymBytes.of(rope)
    const = rope.simplified()
    if isinstance(const, bytes):
        if kind in ('adler32', 'crc32'):
            return getattr(real_zlib, kind)(const) & 0xffffffff
        return getattr(real_hashlib, kind)(const).digest()
    for k, r, out in E.hashes:
        if k == kind and rope_same(r, rope):
            return out
    if kind in ('adler32', 'crc32'):
        out = E.hidden_int(kind, 0, 2 ** 32 - 1)
        E.hash_consts.append(out.e)
    else:
        out = SymBytes.blob('%s_%d' % (kind, len(E.hashes)), size, digest=True)
    E.hashes.append((kind, rope, out))
    return out


def _running(kind, start):
    def f(data, value=start):
        E = core.ENGINE
        if as_segs(data) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if isinstance(value, int) and value == start:
            return digest_of(kind, 4, data)
        for k, r, out in E.hashes:
            if k == kind and isinstance(value, SymInt) and isinstance(out, SymInt) and out.e.eq(value.e):
                return digest_of(kind, 4, r + SymBytes.of(data))
        # unrelated start value: some other function of the data
        return digest_of('%s from %s' % (kind, value.e if isinstance(value, SymInt) else value), 4,
                         SymBytes.of(data) + SymBytes.blob('start', 1)) \
            if False else _other_digest(kind, value, data)
    f.__name__ = kind
    return f


def _other_digest(kind, value, data):
    E = core.ENGINE
    key = '%s start %s' % (kind, value.e if isinstance(value, SymInt) else value)
    rope = SymBytes.of(data)
    for k, r, out in E.hashes:
        if k == key and rope_same(r, rope):
            return out
    out = E.hidden_int(kind + '_other', 0, 2 ** 32 - 1)
    E.hashes.append((key, rope, out))
    return out


class HashObj(object):
    SIZES = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}

    def __init__(self, kind, data=b''):
        self.name, self.kind = kind, kind
        self.digest_size = self.SIZES[kind]
        self.block_size = 64
        if as_segs(data) is None:
            raise TypeError('object supporting the buffer API required')
        self.rope = SymBytes.of(data)

    def update(self, data):
        if as_segs(data) is None:
            raise TypeError('object supporting the buffer API required')
        self.rope = self.rope + SymBytes.of(data)
        if isinstance(self.rope, bytes):
            self.rope = SymBytes.of(self.rope)

    def digest(self):
        return digest_of(self.kind, self.digest_size, self.rope)

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        return HashObj(self.kind, self.rope)


class HashlibStub(types.ModuleType):
    algorithms_available = set(HashObj.SIZES)
    algorithms_guaranteed = set(HashObj.SIZES)

    def new(self, name, data=b'', **k):
        if name not in HashObj.SIZES:
            raise ValueError('unsupported hash type ' + name)
        return HashObj(name, data)

    def __getattr__(self, k):
        if k in HashObj.SIZES:
            def ctor(data=b'', **kw):
                return HashObj(k, data)
            ctor.__name__ = k
            return ctor
        if hasattr(real_hashlib, k):
            raise Unsupported('hashlib.%s' % k)
        raise AttributeError(k)


class ZlibStub(types.ModuleType):
    error = real_zlib.error
    Z_DEFAULT_COMPRESSION = -1
    MAX_WBITS = 15
    DEFLATED = 8

    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.adler32 = _running('adler32', 1)
        self.crc32 = _running('crc32', 0)

    def compress(self, data, level=-1, **k):
        E = core.ENGINE
        if 'wbits' in k:
            raise Unsupported('zlib wbits')
        if as_segs(data) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if not And(level >= -1, level <= 9):
            raise real_zlib.error('Bad compression level')
        rope = SymBytes.of(data)
        n = rope.sx_len()
        const = rope.simplified()
        if isinstance(const, bytes) and isinstance(level, int):
            return real_zlib.compress(const, level)
        E.zlib_levels = getattr(E, 'zlib_levels', []) + [level]
        for r, lv, out in E.codecs:
            if rope_same(r, rope) and (lv is level or E.entails(mkb(iexpr(lv) == iexpr(level)))):
                return out
        ln = E.hidden_int('zlen', 8)
        E.assume(ln <= n + n // 1000 + 64)
        E.assume(z3.Implies(iexpr(n) > 0, iexpr(ln) >= 9))
        if isinstance(level, (int, SymInt)):            # level 0 stores
            E.assume(z3.Implies(iexpr(level) == 0, iexpr(ln) >= iexpr(n) + 11))
        out = SymBytes.blob('z%d' % len(E.codecs), ln, zlib_of=rope, level=level)
        E.codecs.append((rope, level, out))
        E.inputs.setdefault('zlen', iexpr(ln))
        # what Deflate makes of long text of few or many kinds of characters
        E.soft.append(z3.Or(iexpr(ln) >= iexpr(n) + 2, z3.And(
            iexpr(ln) * 4 <= iexpr(n), iexpr(ln) >= 30, iexpr(n) >= 150)))
        return out

    def decompress(self, data, *a, **k):
        if as_segs(data) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        rope = SymBytes.of(data)
        if isinstance(rope.simplified(), bytes):
            return real_zlib.decompress(rope.simplified())
        for r, lv, out in core.ENGINE.codecs:
            if rope_same(out, rope):
                return r.simplified()
        n = rope.sx_len()
        if len(rope.segs) == 1 and rope.segs[0].kind == 'o' and core.ENGINE.hidden_bool('inflates'):
            return SymBytes.blob('inflated', core.ENGINE.hidden_int('inflen', 0))
        raise real_zlib.error('Error -3 while decompressing data: incorrect header check')

    def __getattr__(self, k):
        if hasattr(real_zlib, k):
            raise Unsupported('zlib.%s' % k)
        raise AttributeError(k)


# --------------------------------------------------------------------- json
class MetaValue(object):
    """An arbitrary JSON value supplied by the user (opaque), possibly falsy."""

    def __init__(self, name, nonempty=True, is_dict=True):
        self.name, self.nonempty, self.is_dict = name, nonempty, is_dict

    def __bool__(self):
        return bool(self.nonempty)

    def sx_len(self):
        if isinstance(self.nonempty, bool):
            return core.ENGINE.hidden_int('metaitems', 1 if self.nonempty else 0,
                                          None if self.nonempty else 0)
        return core.If(self.nonempty, 1, 0)

    def __repr__(self):
        return '<meta %s>' % self.name

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, MetaValue):
            return self.name == o.name
        if o is None:
            return False
        if isinstance(o, dict) and not o:
            return Not(self.nonempty) if not isinstance(self.nonempty, bool) else not self.nonempty
        if core.ENGINE.notes.get('_meta_distinct'):
            return False
        raise Unsupported('comparison of opaque metadata')

    def __ne__(self, o):
        return Not(self.__eq__(o))

    __hash__ = object.__hash__

    def __getitem__(self, k):
        raise Unsupported('item of opaque metadata')

    def __contains__(self, k):
        raise Unsupported('item of opaque metadata')

    def get(self, *a):
        raise Unsupported('item of opaque metadata')

    def copy(self):
        m = MetaValue(self.name, self.nonempty, self.is_dict)
        return m

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __setitem__(self, k, v):
        raise Unsupported('item assignment on opaque metadata')


def json_plain(o):
    """What json.loads(json.dumps(o)) returns, for symbolic leaves."""
    if isinstance(o, MetaValue) or o is None or isinstance(o, (bool, int, float, str, SymInt, SymBool, SymReal)):
        return o
    if isinstance(o, (list, tuple)):
        return [json_plain(x) for x in o]
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if isinstance(k, bool):
                k = 'true' if k else 'false'
            elif k is None:
                k = 'null'
            elif isinstance(k, (int, float)):
                k = str(k)
            elif not isinstance(k, str):
                raise TypeError('keys must be str, int, float, bool or None, not %s' % type(k).__name__)
            out[k] = json_plain(v)
        return out
    raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)


class JSONStub(types.ModuleType):
    JSONDecodeError = real_json.JSONDecodeError

    def dumps(self, obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
              cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
        if cls is not None or kw:
            raise Unsupported('json.dumps with cls')
        E = core.ENGINE
        plain = json_plain(obj)
        if not _symbolic(plain):
            return real_json.dumps(plain, skipkeys=skipkeys, ensure_ascii=ensure_ascii, indent=indent,
                                   separators=separators, sort_keys=sort_keys, allow_nan=allow_nan)
        key = 'ascii' if ensure_ascii else 'utf8'
        style = (repr(separators), repr(indent), bool(sort_keys))
        memo = E.notes.setdefault('_json', {})
        for (o, st, k), t in list(memo.values()):
            if st == style and k == key and json_same(o, plain):
                return t
        name = 'metalen'
        if isinstance(obj, MetaValue):
            name = 'metalen_' + obj.name
        lo, hi = json_size(plain, separators, indent)
        n = E.hidden_int(name, lo, hi)
        if name not in E.inputs:
            E.inputs[name] = iexpr(n)
            E.soft.append(iexpr(n) <= 200)
            E.soft.append(iexpr(n) >= 24)
        if key == 'ascii':
            nb = n
        else:
            nb = E.hidden_int(name + '_bytes', 0)
            E.assume(And(nb >= n, nb <= 3 * n))
            E.inputs.setdefault(name + '_bytes', iexpr(nb))
        blob = Blob('json%d' % len(memo), nb)
        j = JSONText(plain, n, nb, blob)
        blob.info['json'] = j
        t = SymText(E.token(j))
        memo[len(memo)] = ((plain, style, key), t)
        return t

    def loads(self, s, **kw):
        E = core.ENGINE
        if isinstance(s, SymBytes):
            s = s.decode()
        if isinstance(s, SymText):
            ps = parts(s)
            if len(ps) == 1 and isinstance(ps[0], JSONText):
                if ps[0].obj is None and 'json' not in ps[0].blob.info:
                    if E.hidden_bool('is_json'):
                        return MetaValue('unknown')
                    raise real_json.JSONDecodeError('Expecting value', 'x', 0)
                return real_copy.deepcopy(ps[0].obj)
            raise Unsupported('json.loads of symbolic text')
        return real_json.loads(s, **kw)

    def dump(self, obj, fp, **k):
        fp.write(self.dumps(obj, **k))

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)


def _symbolic(o):
    if isinstance(o, (list, tuple)):
        return any(_symbolic(x) for x in o)
    if isinstance(o, dict):
        return any(_symbolic(x) for x in o.values()) or any(_symbolic(x) for x in o)
    if isinstance(o, str):
        return has_token(o)
    return not (o is None or isinstance(o, (bool, int, float)))


def json_size(plain, separators, indent):
    """Bounds of the length of the dump."""
    leaves = []

    def fill(o):
        if isinstance(o, SymInt):
            leaves.append(o)
            return 0
        if isinstance(o, (list, tuple)):
            return [fill(x) for x in o]
        if isinstance(o, dict):
            return {k: fill(x) for k, x in o.items()}
        if _symbolic(o) or isinstance(o, str) and has_token(o):
            raise LookupError
        return o
    try:
        n = len(real_json.dumps(fill(plain), separators=separators, indent=indent))
    except (LookupError, TypeError):
        return (2 if not _is_small(plain) else 1), 2 ** 33
    E = core.ENGINE
    if all(E.entails(mkb(z3.And(v.e > -10 ** 18, v.e < 10 ** 18))) for v in leaves):
        return n, n + 19 * len(leaves)
    return n, 2 ** 33


def _is_small(plain):
    return plain is None or isinstance(plain, (bool, int, float, SymInt))


def json_same(a, b):
    if isinstance(a, MetaValue) or isinstance(b, MetaValue):
        return isinstance(a, MetaValue) and isinstance(b, MetaValue) and a.name == b.name
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if not isinstance(a, (int, SymInt)) or not isinstance(b, (int, SymInt)):
            return False
        return core.ENGINE.entails(mkb(iexpr(a) == iexpr(b)))
    if isinstance(a, SymText) or isinstance(b, SymText):
        return isinstance(a, str) and isinstance(b, str) and str.__eq__(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(json_same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(json_same(x, y) for x, y in zip(a, b))
    return a == b


# -------------------------------------------------------------------- blosc
class BloscError(Exception):
    pass


BloscError.__name__ = 'error'


class Comp(object):
    """One compressed buffer."""

    def __init__(self, **k):
        self.__dict__.update(k)


class BloscStub(types.ModuleType):
    BLOSC_MAX_TYPESIZE = MAX_TYPESIZE = BLOSC_MAX_TYPESIZE
    BLOSC_MAX_BUFFERSIZE = MAX_BUFFERSIZE = BLOSC_MAX_BUFFERSIZE
    BLOSC_MAX_THREADS = MAX_THREADS = BLOSC_MAX_THREADS
    NOSHUFFLE, SHUFFLE, BITSHUFFLE = 0, 1, 2
    BLOSC_VERSION_STRING = '1.21.7.dev'
    VERSION_STRING = BLOSC_VERSION_STRING
    __version__ = '1.11.4'
    ncores = nthreads = NCORES

    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.version = types.SimpleNamespace(__version__='1.11.4')
        ext = types.SimpleNamespace(error=BloscError)
        self.blosc_extension = ext
        self.threads_set = []
        self.writes = []           # decompress_ptr calls: (addr, nbytes, rope)
        self.arrays = []           # known memory: Memory
        self.violations = []
        self.calls = []            # compress calls

    def compressor_list(self, *a):
        return list(COMPRESSORS)

    cname_list = compressor_list

    def set_nthreads(self, n):
        if n > BLOSC_MAX_THREADS:
            raise ValueError('the number of threads cannot be larger than %d' % BLOSC_MAX_THREADS)
        self.threads_set.append(n)
        return self.ncores

    def set_releasegil(self, *a):
        return False

    def _check(self, n, typesize, clevel, shuffle, cname):
        if n > BLOSC_MAX_BUFFERSIZE:
            raise ValueError('cannot be larger than %d bytes' % BLOSC_MAX_BUFFERSIZE)
        for v in (typesize, clevel):
            if not isinstance(v, (int, SymInt, SymBool)):
                raise TypeError("'<=' not supported between instances of 'int' and %r" % type(v).__name__)
        if not And(typesize >= 1, typesize <= BLOSC_MAX_TYPESIZE):
            raise ValueError('typesize can only be in the 1-255 range.')
        if isinstance(shuffle, str) or shuffle is None:
            raise ValueError('shuffle can only be one of NOSHUFFLE, SHUFFLE and BITSHUFFLE.')
        sh = iexpr(shuffle)
        if not And(mkb(sh >= 0), mkb(sh <= 2)):
            raise ValueError('shuffle can only be one of NOSHUFFLE, SHUFFLE and BITSHUFFLE.')
        if not And(clevel >= 0, clevel <= 9):
            raise ValueError('clevel can only be in the 0-9 range.')
        if not sx_in(cname, COMPRESSORS):
            raise ValueError('cname can only be one of ...')

    def _produce(self, plain, n, typesize, clevel, shuffle, cname):
        E = core.ENGINE
        if E.notes.get('_compress_faults') is not None and E.notes['_compress_faults'].hit('compress'):
            raise BloscError('injected compression failure')
        call = dict(typesize=typesize, clevel=clevel, shuffle=shuffle, cname=cname,
                    nbytes=n, plain=plain)
        self.calls.append(call)
        args = (typesize, clevel, shuffle, cname)
        for c in E.compressions:
            if rope_same(c.plain, plain) and all(_same_arg(a, b) for a, b in zip(c.args, args)):
                call['out'] = c.rope
                return c.rope
        i = len(E.compressions)
        ct = E.hidden_int('ct%d' % i)
        ne = iexpr(n)
        E.assume(z3.And(ct.e >= 16, ct.e <= ne + 16, z3.Implies(ne > 0, ct.e >= 17),
                        z3.Implies(ne == 0, ct.e == 16)))
        E.soft.append(z3.Implies(ne < 128, ct.e == ne + 16))
        E.soft.append(z3.Or(ct.e == ne + 16, z3.And(ct.e <= ne / 2 + 16, ne >= 256)))
        E.inputs['ct%d' % i] = ct.e
        payload = Blob('chunk%d' % i, ct - 16)
        # bits 5 to 7 name the format of the codec
        fmt = {'blosclz': 0, 'lz4': 1, 'lz4hc': 1, 'snappy': 2, 'zlib': 3, 'zstd': 4}.get(cname)
        if fmt is None or type(cname) is not str:
            flags = E.hidden_int('flags', 0, 255)
        else:
            flags = 32 * fmt + E.hidden_int('flags', 0, 31)
        blocksize = E.hidden_int('blocksize', 1, 2 ** 31)
        segs = [CSeg(b'\x02\x01'), BSeg(flags),
                BSeg(typesize) if isinstance(typesize, SymInt) else CSeg(bytes([int(typesize)])),
                ISeg(n, 4, 'little', False), ISeg(blocksize, 4, 'little', False),
                ISeg(ct, 4, 'little', False), OSeg(payload, 0, ct - 16)]
        rope = call['out'] = SymBytes(segs)
        comp = Comp(plain=SymBytes.of(plain), n=n, ct=ct, rope=rope, payload=payload, args=args,
                    index=i)
        payload.info['comp'] = comp
        E.compressions.append(comp)
        return rope

    def compress(self, bytesobj, typesize=8, clevel=9, shuffle=1, cname='blosclz', **kw):
        if kw:
            raise TypeError('compress() got an unexpected keyword argument %r' % list(kw)[0])
        if as_segs(bytesobj) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(bytesobj).__name__)
        plain = SymBytes.of(bytesobj)
        n = plain.sx_len()
        self._check(n, typesize, clevel, shuffle, cname)
        return self._produce(plain, n, typesize, clevel, shuffle, cname)

    def compress_ptr(self, address, items, typesize=8, clevel=9, shuffle=1, cname='blosclz', **kw):
        if kw:
            raise TypeError('compress_ptr() got an unexpected keyword argument')
        if not isinstance(address, (int, SymInt)):
            raise TypeError('only int or long objects are supported as address')
        if items < 0:
            raise ValueError('items cannot be negative')
        n = items * typesize
        self._check(n, typesize, clevel, shuffle, cname)
        plain = self.read_memory(address, n)
        return self._produce(plain, n, typesize, clevel, shuffle, cname)

    def read_memory(self, address, n):
        """Bytes [address, address+n): the array they lie in, or a violation."""
        E = core.ENGINE
        for a in self.arrays:
            if zero_len(n):
                return SymBytes([])
            inside = And(address >= a._ptr, address + n <= a._ptr + a.nbytes)
            if a.relevant(address):
                E.prove(Or(a.alive(), n == 0), 'the memory read belongs to an array that still exists')
                E.prove(Or(inside, n == 0), 'memory read stays inside the array')
                return SymBytes([OSeg(a.blob, address - a._ptr, n)])
        if n == 0:
            return SymBytes([])
        E.prove(False, 'memory read stays inside the array')

    def decompress(self, bytes_like, as_bytearray=False, **k):
        if as_segs(bytes_like) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(bytes_like).__name__)
        out = self._plain(SymBytes.of(bytes_like))
        core.ENGINE.notes.setdefault('_decompressed', []).append(SymBytes.of(bytes_like))
        return SymByteArray(out) if as_bytearray else SymBytes.of(out).simplified()

    def _plain(self, rope):
        E = core.ENGINE
        n = rope.sx_len()
        if n == 0:
            return b''
        # a compressed buffer produced here?
        for s in rope.segs:
            if s.kind == 'o' and 'comp' in s.blob.info:
                c = s.blob.info['comp']
                if rope_same(c.rope, rope):
                    return c.plain
                break
        for c in E.compressions:
            # buffers whose payload is empty have no blob to go by
            if E.entails(mkb(iexpr(c.n) == 0)) and rope_same(SymBytes(c.rope.segs[:-1] if
                    c.rope.segs[-1].kind == 'o' else c.rope.segs), rope):
                return c.plain
        if n < 16:
            raise BloscError('Error 4 : not a Blosc buffer or header info is corrupted')
        ct = int_of_bytes(SymBytes.of(rope[12:16]).segs, 'little', False)
        nb = int_of_bytes(SymBytes.of(rope[4:8]).segs, 'little', False)
        if ct != n:
            raise BloscError('Error 4 : not a Blosc buffer or header info is corrupted')
        # foreign content: Blosc may reject it or return something of the
        # length in its header
        E.notes['_foreign'] = E.notes.get('_foreign', 0) + 1
        if E.hidden_bool('foreign_ok'):
            return SymBytes.blob('foreign%d' % E.notes['_foreign'], nb, foreign=True)
        raise BloscError('Error -1 while decompressing data')

    def decompress_ptr(self, bytes_like, address, **k):
        if as_segs(bytes_like) is None:
            raise TypeError('Input type must be a bytes-like object')
        if not isinstance(address, (int, SymInt)):
            raise TypeError('only int or long objects are supported as address')
        E = core.ENGINE
        rope = SymBytes.of(bytes_like)
        plain = SymBytes.of(self._plain(rope))
        E.notes.setdefault('_decompressed', []).append(rope)
        n = plain.sx_len()
        self.writes.append((address, n, plain))
        for a in self.arrays:
            if a.relevant(address):
                E.prove(Or(a.alive(), n == 0), 'the memory written belongs to an array that still exists')
                E.prove(Or(n == 0, And(address >= a._ptr, address + n <= a._ptr + a.nbytes)),
                        'memory write stays inside the array')
                a.writes.append((address - a._ptr, n, plain))
                return n
        if not (n == 0):
            E.prove(False, 'memory write stays inside the array')
        return n

    def get_nbytes(self, b):
        raise Unsupported('blosc.get_nbytes')

    def get_cbuffer_sizes(self, b):
        rope = SymBytes.of(b)
        if rope.sx_len() < 16:
            raise BloscError('not a blosc buffer')
        g = lambda i: int_of_bytes(SymBytes.of(rope[i:i + 4]).segs, 'little', False)
        return g(4), g(12), g(8)

    def cbuffer_sizes(self, b):
        return self.get_cbuffer_sizes(b)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('blosc.%s' % k)


def _same_arg(a, b):
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        ea, eb = iexpr(a), iexpr(b)
        if ea is None or eb is None:
            return False
        return bool(core.ENGINE.entails(mkb(ea == eb)))
    if isinstance(a, SymText) or isinstance(b, SymText):
        r = a == b
        return r if isinstance(r, bool) else bool(core.ENGINE.entails(r))
    return a == b


# ---------------------------------------------------------------------- os
class OsPathStub(types.ModuleType):
    def __init__(self, fs):
        types.ModuleType.__init__(self, 'os.path')
        self.fs = fs
        self.sep = '/'

    def exists(self, p):
        return self.fs.exists(p)

    lexists = isfile = exists

    def isdir(self, p):
        return False

    def getsize(self, p):
        return self.fs.getsize(p)

    def abspath(self, p):
        return p

    realpath = normpath = expanduser = abspath

    def splitext(self, p):
        if not isinstance(p, SymText):
            return real_os.path.splitext(p)
        i, j = p.rfind('/'), p.rfind('.')
        if j > i:
            base = p[i + 1:j]
            dots = base.strip('.') == '' if isinstance(base, str) else False
            if not dots:
                return p[:j], p[j:]
        return p, ''

    def split(self, p):
        if not isinstance(p, SymText):
            return real_os.path.split(p)
        i = p.rfind('/') + 1
        head, tail = p[:i], p[i:]
        if head != '' and head.rstrip('/') != '':
            head = head.rstrip('/')
        return head, tail

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def join(self, p, *rest):
        for x in rest:
            if x.startswith('/'):
                p = x
            elif p == '' or p.endswith('/'):
                p = p + x
            else:
                p = p + '/' + x
        return p

    def samefile(self, a, b):
        for x in (a, b):
            if not self.fs.exists(x):
                raise FileNotFoundError(errno.ENOENT, 'No such file', str(x))
        return self.fs.same_path(a, b)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = getattr(real_os.path, k)

        def g(*a, **kw):
            if any(isinstance(x, SymText) for x in a):
                raise Unsupported('os.path.%s of symbolic name' % k)
            return f(*a, **kw)
        return g


class OsStub(types.ModuleType):
    SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    F_OK, R_OK, W_OK = 0, 4, 2
    linesep, sep, curdir, pardir = '\n', '/', '.', '..'
    name = 'posix'
    error = OSError

    def __init__(self, fs):
        types.ModuleType.__init__(self, 'os')
        self.fs = fs
        self.path = OsPathStub(fs)
        self.environ = {}

    def remove(self, p):
        self.fs.remove(p)
    unlink = remove

    def rename(self, a, b):
        self.fs.rename(a, b)
    replace = rename

    def stat(self, p):
        return types.SimpleNamespace(st_size=self.fs.getsize(p))

    def access(self, p, mode):
        return self.fs.exists(p)

    def fstat(self, fd):
        raise Unsupported('os.fstat')

    def fsync(self, fd):
        pass

    def fspath(self, p):
        return p

    def getpid(self):
        return 4242

    def getenv(self, k, d=None):
        return d

    def geteuid(self):
        return 1000

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('os.%s' % k)


class IoStub(types.ModuleType):
    SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    BytesIO = SymBytesIO
    UnsupportedOperation = real_io.UnsupportedOperation
    IOBase = RawIOBase = BufferedIOBase = real_io.IOBase
    DEFAULT_BUFFER_SIZE = 8192
    StringIO = real_io.StringIO

    def __init__(self, fs):
        types.ModuleType.__init__(self, 'io')
        self.open = fs.open


def make_six():
    six = types.ModuleType('six')
    six.PY2, six.PY3 = False, True
    six.integer_types = (SxInt,)
    six.string_types = (SxStr,)
    six.text_type = SxStr
    six.binary_type = SxBytes
    six.class_types = (type,)
    moves = types.ModuleType('six.moves')
    moves.xrange = moves.range = SxRange
    moves.zip, moves.map, moves.filter = zip, map, filter
    moves.reduce = __import__('functools').reduce
    six.moves = moves
    six.BytesIO = SymBytesIO
    six.StringIO = real_io.StringIO
    six.iteritems = lambda d: iter(d.items())
    six.itervalues = lambda d: iter(d.values())
    six.iterkeys = lambda d: iter(d.keys())
    six.b = lambda s: s.encode('latin-1')
    six.u = lambda s: s
    six.int2byte = lambda i: SxBytes([i])
    six.byte2int = lambda b: b[0]
    six.indexbytes = lambda b, i: b[i]
    six.iterbytes = iter

    def ensure_binary(s, encoding='utf-8', errors='strict'):
        return s.encode(encoding) if isinstance(s, str) else s
    six.ensure_binary = ensure_binary
    six.ensure_str = lambda s, *a: s.decode() if not isinstance(s, str) else s
    six.ensure_text = six.ensure_str

    def with_metaclass(meta, *bases):
        class metaclass(type):
            def __new__(cls, name, this_bases, d):
                return meta(name, bases, d)
        return type.__new__(metaclass, 'temporary_class', (), {})
    six.with_metaclass = with_metaclass

    def add_metaclass(metaclass):
        def wrapper(cls):
            d = cls.__dict__.copy()
            d.pop('__dict__', None)
            d.pop('__weakref__', None)
            return metaclass(cls.__name__, cls.__bases__, d)
        return wrapper
    six.add_metaclass = add_metaclass
    return six, moves


def make_deprecated():
    m = types.ModuleType('deprecated')

    def deprecated(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f
    m.deprecated = deprecated
    return m


# -------------------------------------------------------------------- numpy
class SymDtype(object):
    def __init__(self, name, itemsize, hasobject=False, names=None, descr=None):
        self.str = name
        self.name = name
        self.itemsize = itemsize
        self.hasobject = hasobject
        self.names = names
        self.descr = descr if descr is not None else [('', name)]
        self.kind = 'O' if hasobject else 'f'
        self.fields = None if names is None else {n: None for n in names}
        self.subdtype = None
        self.char = 'O' if hasobject else 'd'
        self.isbuiltin = 1
        self.alignment = 1
        self.shape = ()
        self.base = self

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('dtype.%s' % k)

    def __eq__(self, o):
        return isinstance(o, SymDtype) and (o.str, repr(o.descr), o.names) == \
            (self.str, repr(self.descr), self.names)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.str)

    def __repr__(self):
        return 'dtype(%r)' % (self.str,)


class Memory(object):
    """The memory of an array; given back when the array is gone."""

    def __init__(self, a):
        self._ptr, self.nbytes, self.blob, self.writes = a._ptr, a.nbytes, a.blob, a.writes
        self.owner = weakref.ref(a)

    def alive(self):
        return self.owner() is not None

    def relevant(self, address):
        """Was the address computed from this base?"""
        e = iexpr(address)
        if not isinstance(e, z3.ExprRef):
            return False
        return _mentions(e, iexpr(self._ptr))


class SymArray(object):
    """An ndarray: a block of memory of its own, of symbolic size."""

    def __init__(self, mod, dtype, shape, size, order='C', contiguous=True, base=None, name='arr',
                 source=None, blob=None):
        E = core.ENGINE
        self.mod = mod
        self.dtype, self.shape, self.size = dtype, shape, size
        self.itemsize = dtype.itemsize
        self.nbytes = size * dtype.itemsize
        self.order = order                # 'C', 'F', 'both', 'none'
        self.contiguous = contiguous
        self._ptr = E.hidden_int('ptr', 4096) if base is None else base
        self.orders = {}
        self.new = False
        self.blob = Blob(name, self.nbytes) if blob is None else blob
        self.source = source              # array this is a contiguous copy of
        self.writes = []
        self.isfortran = order == 'F'
        self.ndim = len(shape) if isinstance(shape, (tuple, list)) else 1
        self.flags = Flags(order in ('C', 'both') and contiguous, order in ('F', 'both') and contiguous)
        mod._blosc.arrays.append(Memory(self))

    @property
    def __array_interface__(self):
        return {'data': (self._ptr, False), 'shape': self.shape, 'typestr': self.dtype.str,
                'strides': None, 'version': 3}

    @property
    def ctypes(self):
        return types.SimpleNamespace(data=self._ptr)

    @property
    def data(self):
        return SymBytes([OSeg(self.blob, 0, self.nbytes)])

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('ndarray.%s' % k)

    def copy(self, order='C'):
        if order not in ('C', 'F'):
            raise Unsupported('copy in order %r' % (order,))
        return self.mod.array_copy(self, order)

    def content(self, order):
        """The bytes of the elements in this order."""
        if order in ('C', 'F') and self.writes is not None and self.filled():
            if self.order in (order, 'both') and self.contiguous:
                return self.held()
        if self.order in (order, 'both') and self.contiguous:
            return self.data
        b = self.orders.get(order)
        if b is None:
            b = self.orders[order] = Blob('%s_%s' % (self.blob.name, order), self.nbytes)
        return SymBytes([OSeg(b, 0, self.nbytes)])

    def filled(self):
        return bool(self.writes)

    def held(self):
        """What was written into new memory, if that covers it in order."""
        pos, out = 0, []
        for off, n, b in self.writes:
            if not core.ENGINE.entails(mkb(iexpr(off) == iexpr(pos))):
                return None
            out.append(b)
            pos = pos + n
        if not core.ENGINE.entails(mkb(iexpr(pos) == iexpr(self.nbytes))):
            return None
        return sx_join(b'', out)

    def tobytes(self, order='C'):
        if order in ('A', None):
            order = 'F' if self.flags.fnc else 'C'
        return self.content(order)

    def __len__(self):
        raise Unsupported('len of array')

    def sx_len(self):
        return self.shape[0]

    def __getitem__(self, i):
        raise Unsupported('array indexing')

    def reshape(self, *a, **k):
        raise Unsupported('reshape')


class Flags(object):
    def __init__(self, c, f):
        self.c_contiguous, self.f_contiguous = c, f
        self.contiguous, self.fortran = c, f
        self.fnc = f and not c
        self.forc = f or c
        self.aligned = self.owndata = self.writeable = True

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('ndarray.flags.%s' % k)

    def __getitem__(self, k):
        m = {'C_CONTIGUOUS': self.c_contiguous, 'C': self.c_contiguous, 'CONTIGUOUS': self.c_contiguous,
             'F_CONTIGUOUS': self.f_contiguous, 'F': self.f_contiguous, 'FORTRAN': self.f_contiguous,
             'FNC': self.fnc, 'FORC': self.forc}
        if k in m:
            return m[k]
        if k in ('ALIGNED', 'OWNDATA', 'WRITEABLE', 'A', 'O', 'W'):
            return True
        raise Unsupported('ndarray.flags[%r]' % (k,))


def _mentions(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


class NumpyStub(types.ModuleType):
    def __init__(self, blosc):
        types.ModuleType.__init__(self, 'numpy')
        self._blosc = blosc
        self._dtypes = {}
        self.ndarray = SymArray
        self.created = 0
        self.integer = self.intp = self.int64 = self.int32 = ()
        self.bool_ = self.generic = ()

    def _register(self, dt):
        self._dtypes[repr(dt.str if dt.names is None else dt.descr)] = dt
        return dt

    def dtype(self, d, *a, **k):
        if isinstance(d, SymDtype):
            return d
        r = self._dtypes.get(repr(d))
        if r is not None:
            return r
        # an unrelated description: some dtype, or refused
        raise TypeError('data type %r not understood' % (d,))

    def isfortran(self, a):
        return a.flags.fnc

    def empty(self, shape, dtype=None, order='C', **k):
        if order not in ('C', 'F'):
            raise ValueError("only 'C' or 'F' order is permitted")
        dt = self.dtype(dtype)
        if isinstance(shape, (int, SymInt)):
            shape = (shape,)
        if not isinstance(shape, (tuple, list)):
            raise TypeError('shape')
        size = 1
        for s in shape:
            if not isinstance(s, (int, SymInt)) or isinstance(s, bool):
                raise TypeError('expected a sequence of integers')
            if s < 0:
                raise ValueError('negative dimensions are not allowed')
            size = size * s
        for key, val in core.ENGINE.notes.get('_sizes', []):
            # element count of a known symbolic shape
            if json_same(list(key), list(shape)):
                size = val
        a = SymArray(self, dt, tuple(shape), size, order='both' if _one_dim(shape) else order,
                     name='new%d' % self.created)
        a.new = True
        self.created += 1
        return a

    def zeros(self, *a, **k):
        r = self.empty(*a, **k)
        r.zeroed = True
        return r

    def array_copy(self, a, order):
        b = SymBytes.of(a.content(order))
        if len(b.segs) != 1 or b.segs[0].kind != 'o':
            raise Unsupported('copy of a computed array')
        return SymArray(self, a.dtype, a.shape, a.size, order=order, contiguous=True,
                        source=a, blob=b.segs[0].blob)

    def ascontiguousarray(self, a, dtype=None):
        if a.flags.c_contiguous:
            return a
        return self.array_copy(a, 'C')

    def array(self, a, dtype=None, copy=True, order='K', subok=False, ndmin=0):
        if not isinstance(a, SymArray) or dtype is not None or ndmin or order not in ('C', 'F'):
            raise Unsupported('numpy.array')
        if not copy and (a.flags.c_contiguous if order == 'C' else a.flags.f_contiguous):
            return a
        return self.array_copy(a, order)

    def asfortranarray(self, a, dtype=None):
        if a.flags.f_contiguous:
            return a
        return self.array_copy(a, 'F')

    def asarray(self, a, *r, **k):
        return a

    asanyarray = asarray

    def require(self, *a, **k):
        raise Unsupported('numpy.require')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('numpy.%s' % k)


def _one_dim(shape):
    return len(shape) <= 1
