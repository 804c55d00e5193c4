"""Symbolic byte strings: ropes of segments with symbolic lengths."""
import z3

from . import core
from .core import (SymInt, SymBool, And, Or, Not, mk, mkb, iexpr, boolexpr,
                   Abort, Unsupported)


def L(v):
    """length as z3 expr"""
    return iexpr(v)


class CSeg(object):
    __slots__ = ('b',)
    kind = 'c'

    def __init__(self, b):
        self.b = bytes(b)

    def length(self):
        return len(self.b)

    def __repr__(self):
        return 'C(%r)' % self.b


class ISeg(object):
    """An integer in a fixed-width encoding (value known to be in range)."""
    __slots__ = ('v', 'w', 'end', 'signed')
    kind = 'i'

    def __init__(self, v, w, end, signed):
        self.v, self.w, self.end, self.signed = v, w, end, signed

    def length(self):
        return self.w

    def unsigned(self):
        if not self.signed:
            return self.v
        e = iexpr(self.v)
        return mk(z3.If(e < 0, e + (1 << (8 * self.w)), e))

    def bytes(self):
        """list of byte values, in file order"""
        u = iexpr(self.unsigned())
        out = [mk(u if (self.w == 1) else (u / (1 << (8 * k))) % 256) for k in range(self.w)]
        if self.end == 'big':
            out.reverse()
        return out

    def __repr__(self):
        return 'I(%s,%d)' % (self.v if not isinstance(self.v, SymInt) else self.v.e, self.w)


class BSeg(object):
    """One byte with a symbolic value 0..255."""
    __slots__ = ('v',)
    kind = 'b'

    def __init__(self, v):
        self.v = v

    def length(self):
        return 1

    def __repr__(self):
        return 'B(%s)' % (self.v.e if isinstance(self.v, SymInt) else self.v)


class RSeg(object):
    """One constant byte repeated a symbolic number of times."""
    __slots__ = ('c', 'n')
    kind = 'r'

    def __init__(self, c, n):
        self.c, self.n = c, n

    def length(self):
        return self.n

    def __repr__(self):
        return 'R(%d x %s)' % (self.c, self.n.e if isinstance(self.n, SymInt) else self.n)


class Blob(object):
    """Opaque content with an identity; bytes of different blobs are unrelated."""

    def __init__(self, name, length, **info):
        self.name, self.length = name, length
        self.info = info

    def byte(self, off):
        E = core.ENGINE
        f = E._funcs.get(self)
        if f is None:
            f = z3.Function(E.fresh_name('byte_' + self.name), z3.IntSort(), z3.IntSort())
            E._funcs[self] = f
        e = f(iexpr(off))
        E.assume(z3.And(e >= 0, e <= 255))
        return mk(e)

    def __repr__(self):
        return self.name


class OSeg(object):
    """A slice of a blob."""
    __slots__ = ('blob', 'off', 'n')
    kind = 'o'

    def __init__(self, blob, off, n):
        self.blob, self.off, self.n = blob, off, n

    def length(self):
        return self.n

    def __repr__(self):
        f = lambda v: v.e if isinstance(v, SymInt) else v
        return 'O(%s,%s,%s)' % (self.blob.name, f(self.off), f(self.n))


def vsame(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        return a.e.eq(b.e)
    return False


def same_seg(x, y):
    if x.kind != y.kind:
        return False
    if x.kind == 'c':
        return x.b == y.b
    if x.kind == 'i':
        return (x.w, x.end, x.signed) == (y.w, y.end, y.signed) and vsame(x.v, y.v)
    if x.kind == 'b':
        return vsame(x.v, y.v)
    if x.kind == 'r':
        return x.c == y.c and vsame(x.n, y.n)
    return x.blob is y.blob and vsame(x.off, y.off) and vsame(x.n, y.n)


def zero_len(n):
    return isinstance(n, int) and n == 0


def explode(seg):
    """Segment of concrete length -> list of byte segments (CSeg of 1 / BSeg)."""
    if seg.kind == 'c':
        return [CSeg(seg.b[i:i + 1]) for i in range(len(seg.b))]
    if seg.kind == 'b':
        return [seg]
    if seg.kind == 'i':
        return [BSeg(v) if not isinstance(v, int) else CSeg(bytes([v])) for v in seg.bytes()]
    n = seg.length()
    if not isinstance(n, int):
        if not core.ENGINE.entails(mkb(z3.And(iexpr(n) >= 0, iexpr(n) <= 64))):
            raise Unsupported('byte view of a segment of symbolic length')
        n = core.ENGINE.concretise(iexpr(n), 'segment length')
    if n > 64:
        raise Unsupported('byte view of a long opaque segment')
    if seg.kind == 'r':
        return [CSeg(bytes([seg.c]))] * n
    return [BSeg(seg.blob.byte(seg.off + i)) for i in range(n)]


def split_seg(seg, k):
    """Split a segment at interior position k (0 < k < length on this path)."""
    if seg.kind == 'o':
        return [OSeg(seg.blob, seg.off, k)], [OSeg(seg.blob, seg.off + k, seg.n - k)]
    if seg.kind == 'r':
        return [RSeg(seg.c, k)], [RSeg(seg.c, seg.n - k)]
    if not isinstance(k, int):
        k = core.ENGINE.concretise(iexpr(k), 'split position')
    if seg.kind == 'c':
        return [CSeg(seg.b[:k])], [CSeg(seg.b[k:])]
    parts = explode(seg)
    return norm(parts[:k]), norm(parts[k:])


def norm(segs):
    """Merge adjacent segments where that is certain; drop empty ones."""
    out = []
    for s in segs:
        n = s.length()
        if zero_len(n):
            continue
        if s.kind == 'i' and isinstance(s.v, int):
            s = CSeg(s.v.to_bytes(s.w, s.end, signed=s.signed))
        if s.kind == 'b' and isinstance(s.v, int):
            s = CSeg(bytes([s.v]))
        if s.kind == 'r' and isinstance(s.n, int) and s.n <= 4096:
            s = CSeg(bytes([s.c]) * max(0, s.n))
        if out:
            p = out[-1]
            if p.kind == 'c' and s.kind == 'c':
                out[-1] = CSeg(p.b + s.b)
                continue
            if p.kind == 'r' and s.kind == 'r' and p.c == s.c:
                out[-1] = RSeg(p.c, p.n + s.n)
                continue
            if p.kind == 'r' and s.kind == 'c' and set(s.b) == {p.c}:
                out[-1] = RSeg(p.c, p.n + len(s.b))
                continue
            if p.kind == 'c' and s.kind == 'r' and set(p.b) == {s.c}:
                out[-1] = RSeg(s.c, s.n + len(p.b))
                continue
            if p.kind == 'o' and s.kind == 'o' and p.blob is s.blob:
                d = (p.off + p.n) - s.off
                if isinstance(d, int) and d == 0:
                    out[-1] = OSeg(p.blob, p.off, p.n + s.n)
                    continue
        out.append(s)
    return out


def total(segs):
    t = 0
    for s in segs:
        t = t + s.length()
    return t


def split_at(segs, pos):
    """(before, after) of a segment list at a position 0 <= pos <= length."""
    if isinstance(pos, int) and pos == 0:
        return [], list(segs)
    E = core.ENGINE
    cums = [0]
    for s in segs:
        cums.append(cums[-1] + s.length())
    while True:
        # where is it in some model?  then: is it always there?
        m = E.model()
        if m is None:
            E.kill(Abort('infeasible'))
        ev = lambda v: v if isinstance(v, int) else m.eval(v.e, model_completion=True).as_long()
        p = ev(pos)
        vals = [ev(c) for c in cums]
        if p in vals or p < 0 or p > vals[-1]:
            i = vals.index(p) if p in vals else 0 if p < 0 else len(segs)
            if i == 0:
                cond = pos <= 0
            elif i == len(segs):
                cond = pos >= cums[i]
            else:
                cond = mkb(iexpr(pos) == iexpr(cums[i]))
            if cond:
                return list(segs[:i]), list(segs[i:])
        else:
            i = max(k for k in range(len(segs)) if vals[k] < p)
            if mkb(z3.And(iexpr(pos) > iexpr(cums[i]), iexpr(pos) < iexpr(cums[i + 1]))):
                a, b = split_seg(segs[i], pos - cums[i])
                return segs[:i] + a, b + segs[i + 1:]


def as_segs(x):
    if isinstance(x, SymBytes):
        return x.segs
    if isinstance(x, SymByteArray):
        return x.rope.segs
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = bytes(x)
        return [CSeg(b)] if b else []
    return None


def maybe_equal(a, b, n):
    """Unknown equality between unrelated contents: a free boolean."""
    E = core.ENGINE
    if not E.coincidence:
        return False
    key = tuple(sorted([str(a), str(b)])) + (str(n),)
    v = E.maybe.get(key)
    if v is None:
        v = z3.Bool(E.fresh_name('same_content'))
        E.maybe[key] = v
    return SymBool(v)


def int_of_bytes(segs, end, signed):
    """Integer value of byte-sized segments."""
    if len(segs) == 1 and segs[0].kind == 'i':
        s = segs[0]
        if s.end == end or s.w == 1:
            if s.signed == signed:
                return s.v
            e = iexpr(s.v)
            if signed:
                return mk(z3.If(e >= (1 << (8 * s.w - 1)), e - (1 << (8 * s.w)), e))
            return s.unsigned()
    parts = []
    for s in segs:
        parts.extend(explode(s))
    vals = [p.b[0] if p.kind == 'c' else p.v for p in parts]
    if end == 'big':
        vals.reverse()
    v = 0
    for k, x in enumerate(vals):
        v = v + x * (1 << (8 * k))
    if signed:
        if isinstance(v, int):
            if v >= 1 << (8 * len(vals) - 1):
                v -= 1 << (8 * len(vals))
        else:
            e = v.e
            v = mk(z3.If(e >= (1 << (8 * len(vals) - 1)), e - (1 << (8 * len(vals))), e))
    return v


def is_digest(s):
    """Is this segment the output of a hash?"""
    if s.kind == 'i':
        return isinstance(s.v, SymInt) and any(s.v.e.eq(c) for c in core.ENGINE.hash_consts)
    return s.kind == 'o' and 'digest' in s.blob.info


def altered_from(y, x):
    """Is y a byte that a scenario put in place of a byte of the digest x?"""
    if y.kind != 'b' or not isinstance(y.v, SymInt):
        return False
    src = core.ENGINE.altered_from.get(str(y.v.e))
    if src is None:
        return False
    key = x.blob if x.kind == 'o' else str(x.v.e)
    return any(key is k or key == k for k in src)


def eq_segs(A, B):
    """Equality of two segment lists of equal total length, as a condition.

    Alignment of symbolic boundaries forks the path when it is not determined.
    """
    A, B = norm(A), norm(B)
    conds = []
    A, B = list(A), list(B)
    while A or B:
        if not A or not B:
            rest = A or B
            conds.append(mkb(iexpr(total(rest)) == 0))
            break
        a, b = A[0], B[0]
        if not core.ENGINE.coincidence and (is_digest(a) or is_digest(b)):
            # digests only equal themselves
            if is_digest(a) and is_digest(b) and a.kind == b.kind and same_seg(a, b):
                A.pop(0), B.pop(0)
                continue
            x, y = (a, b) if is_digest(a) else (b, a)
            if altered_from(y, x):
                pass
            elif not (y.kind == 'o' and x.kind == 'o' and x.blob is y.blob):
                if isinstance(y.length(), int) or not (y.length() == 0):
                    return False
                (A if y is a else B).pop(0)
                continue
        if a.kind == 'i' and b.kind in 'cb' or a.kind == 'b' and b.kind in 'icb' \
                or a.kind == 'c' and b.kind in 'ib' or a.kind == 'i' and b.kind == 'i':
            if a.kind == 'i' and b.kind == 'i' and a.w == b.w and a.end == b.end \
                    and a.signed == b.signed:
                conds.append(mkb(iexpr(a.v) == iexpr(b.v)))
                A.pop(0), B.pop(0)
                continue
            w = a if a.kind == 'i' else (b if b.kind == 'i' else None)
            if w is not None and not (a.kind == 'i' and b.kind == 'i'):
                X, Y = (A, B) if a.kind == 'i' else (B, A)
                # gather w.w byte-sized segments from Y
                got, need, YY = [], w.w, list(Y)
                ok = True
                while need > 0:
                    if not YY or YY[0].kind not in 'cbi' or YY[0].length() > need and YY[0].kind != 'c':
                        ok = False
                        break
                    s = YY.pop(0)
                    n = s.length()
                    if n > need:
                        got.append(CSeg(s.b[:need]))
                        YY.insert(0, CSeg(s.b[need:]))
                        need = 0
                    else:
                        got.append(s)
                        need -= n
                if ok:
                    v = int_of_bytes(norm(got), w.end, w.signed)
                    conds.append(mkb(iexpr(v) == iexpr(w.v)))
                    X.pop(0)
                    Y[:] = YY
                    continue
            # byte by byte
            ea, eb = explode(a), explode(b)
            A[:1], B[:1] = ea, eb
            a, b = A.pop(0), B.pop(0)
            va = a.b[0] if a.kind == 'c' else a.v
            vb = b.b[0] if b.kind == 'c' else b.v
            conds.append(mkb(z3.IntVal(va) == vb.e) if isinstance(va, int) and isinstance(vb, SymInt)
                         else (va == vb))
            if conds[-1] is False:
                return False
            continue
        if a.kind == 'o' and b.kind == 'o' and a.blob is b.blob and \
                isinstance(a.off - b.off, int) and a.off - b.off == 0 and \
                isinstance(a.n - b.n, int) and a.n - b.n == 0:
            A.pop(0), B.pop(0)
            continue
        la, lb = a.length(), b.length()
        if la == lb:
            A.pop(0), B.pop(0)
            n = la
        elif la < lb:
            # a empty needs no split
            x, y = split_at([b], la)
            A.pop(0)
            B[:1] = y
            b = x[0] if len(x) == 1 else x
            n = la
        else:
            x, y = split_at([a], lb)
            B.pop(0)
            A[:1] = y
            a = x[0] if len(x) == 1 else x
            n = lb
        if isinstance(a, list) and not a or isinstance(b, list) and not b:
            continue
        if isinstance(a, list) or isinstance(b, list):
            aa = a if isinstance(a, list) else [a]
            bb = b if isinstance(b, list) else [b]
            conds.append(eq_segs(aa, bb))
            if conds[-1] is False:
                return False
            continue
        c = eq_same_len(a, b, n)
        if c is False:
            return False
        conds.append(c)
    return And(*conds)


def eq_same_len(a, b, n):
    if zero_len(n):
        return True
    if a.kind == 'c' and b.kind == 'c':
        return a.b == b.b
    if a.kind == 'r' and b.kind == 'r':
        return True if a.c == b.c else mkb(iexpr(n) == 0)
    if a.kind in 'cr' and b.kind in 'cr':
        c, r = (a, b) if a.kind == 'c' else (b, a)
        return set(c.b) <= {r.c}
    if a.kind == 'o' and b.kind == 'o' and a.blob is b.blob:
        return mkb(z3.Or(iexpr(a.off) == iexpr(b.off), iexpr(n) == 0))
    if isinstance(n, int) and n <= 64 and not (a.kind == 'o' and b.kind == 'o'):
        ea, eb = explode(a), explode(b)
        conds = []
        for x, y in zip(ea, eb):
            vx = x.b[0] if x.kind == 'c' else x.v
            vy = y.b[0] if y.kind == 'c' else y.v
            conds.append(vx == vy if isinstance(vx, int) and isinstance(vy, int)
                         else mkb(iexpr(vx) == iexpr(vy)))
        return And(*conds)
    return Or(mkb(iexpr(n) == 0), maybe_equal(repr(a), repr(b), n))


class SymBytes(object):
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = norm(list(segs))

    @staticmethod
    def repeat(b, n):
        if len(b) == 0:
            return b''
        if set(b) == {b[0]}:
            ln = len(b) * n
            neg = SymBool(iexpr(n) < 0) if isinstance(n, SymInt) else n < 0
            if neg:
                return b''
            return SymBytes([RSeg(b[0], ln)])
        return b * core.ENGINE.concretise(iexpr(n), 'repetition count')

    @staticmethod
    def blob(name, length, **info):
        return SymBytes([OSeg(Blob(name, length, **info), 0, length)])

    @staticmethod
    def of(x):
        s = as_segs(x)
        if s is None:
            raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)
        return SymBytes(s)

    def sx_len(self):
        return total(self.segs)

    def __len__(self):
        n = self.sx_len()
        if isinstance(n, int):
            return n
        return core.ENGINE.concretise(n.e, 'length')

    def simplified(self):
        """Real bytes when entirely constant."""
        if not self.segs:
            return b''
        if len(self.segs) == 1 and self.segs[0].kind == 'c':
            return self.segs[0].b
        return self

    def __add__(self, o):
        s = as_segs(o)
        if s is None:
            return NotImplemented
        return SymBytes(self.segs + s)

    def __radd__(self, o):
        s = as_segs(o)
        if s is None:
            return NotImplemented
        return SymBytes(s + self.segs)

    def __mul__(self, n):
        n = core.ENGINE.concretise(iexpr(n), 'repetition count')
        return SymBytes(self.segs * max(0, n))
    __rmul__ = __mul__

    def sx_bool(self):
        n = self.sx_len()
        return n > 0

    def __bool__(self):
        return bool(self.sx_bool())

    def _clamp(self, v, n, default):
        if v is None:
            return default
        if isinstance(v, SymBool):
            v = v._int()
        if v < 0:
            v = v + n
            if v < 0:
                return 0
            return v
        if isinstance(v, int) and isinstance(n, int):
            return min(v, n)
        if v > n:
            return n
        return v

    def slice(self, a, b):
        n = self.sx_len()
        a = self._clamp(a, n, 0)
        b = self._clamp(b, n, n)
        if isinstance(a, int) and isinstance(b, int) and a >= b:
            return b''
        if not (isinstance(a, int) and a == 0):
            if a >= b:
                return b''
        _, rest = split_at(self.segs, a)
        if b is n:
            return SymBytes(rest).simplified()
        mid, _ = split_at(rest, b - a)
        return SymBytes(mid).simplified()

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and not (isinstance(i.step, int) and i.step == 1):
                if isinstance(i.step, int) and i.step == -1 and i.start is None and i.stop is None:
                    parts = []
                    for s in self.segs:
                        parts.extend(explode(s))
                    return SymBytes(parts[::-1])
                raise Unsupported('extended slice of symbolic bytes')
            return self.slice(i.start, i.stop)
        n = self.sx_len()
        if isinstance(i, (SymInt, int)):
            if i < 0:
                i = i + n
                if i < 0:
                    raise IndexError('index out of range')
            if i >= n:
                raise IndexError('index out of range')
            one = self.slice(i, i + 1)
            if isinstance(one, bytes):
                return one[0]
            p = one._byte_parts()[0]
            return p.b[0] if p.kind == 'c' else p.v
        raise TypeError('byte indices must be integers or slices')

    def __iter__(self):
        i = 0
        n = self.sx_len()
        k = 0
        while i < n:
            if not isinstance(n, int) and k > 4 * core.ENGINE.unroll + 64:
                core.ENGINE.kill(Abort('cut', 'iteration over long symbolic bytes'))
            yield self[i]
            i += 1
            k += 1

    def sx_eq(self, o):
        s = as_segs(o)
        if s is None:
            return False
        other = SymBytes(s)
        if len(other.segs) == len(self.segs) and \
                all(same_seg(x, y) for x, y in zip(self.segs, other.segs)):
            return True
        la, lb = self.sx_len(), other.sx_len()
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                return False
        elif not (la == lb):
            return False
        return eq_segs(self.segs, other.segs)

    def __eq__(self, o):
        return self.sx_eq(o)

    def __ne__(self, o):
        return Not(self.sx_eq(o))

    def __lt__(self, o):
        raise Unsupported('ordering of symbolic bytes')
    __le__ = __gt__ = __ge__ = __lt__

    def __hash__(self):
        b = self.simplified()
        if isinstance(b, bytes):
            return hash(b)
        raise Unsupported('hash of symbolic bytes')

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            vs = [p.b[0] if p.kind == 'c' else p.v for p in self._byte_parts()]
            return bool(Or(*[v == x for v in vs]))
        return bool(self.find(x) >= 0)

    def _map(self, f):
        """f of every byte: an int or a z3 expression."""
        out = []
        for p in self._byte_parts():
            if p.kind == 'c':
                out.append(CSeg(bytes([f(p.b[0])])))
            else:
                out.append(BSeg(mk(z3.simplify(iexpr(f(p.v))))))
        return SymBytes(out).simplified()

    def lower(self):
        return self._map(lambda v: core.If(And(v >= 65, v <= 90), v + 32, v))

    def upper(self):
        return self._map(lambda v: core.If(And(v >= 97, v <= 122), v - 32, v))

    def swapcase(self):
        return self._map(lambda v: core.If(And(v >= 65, v <= 90), v + 32, core.If(
            And(v >= 97, v <= 122), v - 32, v)))

    def __getattr__(self, k):
        if not k.startswith('_') and hasattr(bytes, k):
            raise Unsupported('%s of symbolic bytes' % k)
        raise AttributeError(k)

    # bytes methods
    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith with bounds')
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q):
                    return True
            return False
        n = len(p) if isinstance(p, bytes) else p.sx_len()
        if self.sx_len() < n:
            return False
        return self.slice(0, n) == p

    def endswith(self, p, *a):
        if a:
            raise Unsupported('endswith with bounds')
        n = len(p)
        ln = self.sx_len()
        if ln < n:
            return False
        return self.slice(ln - n, None) == p

    def _byte_parts(self):
        parts = []
        for s in self.segs:
            parts.extend(explode(s))
        return parts

    def _strip(self, chars, left, right):
        if chars is None:
            chars = b' \t\n\r\x0b\x0c'
        parts = self._byte_parts()

        def hit(p):
            v = p.b[0] if p.kind == 'c' else p.v
            if isinstance(v, int):
                return v in chars
            # the shorter strip first
            return not bool(And(*[v != c for c in set(chars)]))
        if left:
            while parts and hit(parts[0]):
                parts.pop(0)
        if right:
            while parts and hit(parts[-1]):
                parts.pop()
        return SymBytes(parts).simplified()

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def ljust(self, width, fill=b' '):
        pad = width - self.sx_len()
        if pad <= 0:
            return self
        return self + (fill * pad)

    def rjust(self, width, fill=b' '):
        pad = width - self.sx_len()
        if pad <= 0:
            return self
        return (fill * pad) + self

    def find(self, sub, *a):
        if a or not isinstance(sub, (bytes, bytearray)) or not sub:
            raise Unsupported('find in symbolic bytes')
        vs = [p.b[0] if p.kind == 'c' else p.v for p in self._byte_parts()]
        for i in range(len(vs) - len(sub) + 1):
            if And(*[v == c for v, c in zip(vs[i:], sub)]):
                return i
        return -1

    def rfind(self, sub, *a):
        if a or not isinstance(sub, (bytes, bytearray)) or not sub:
            raise Unsupported('rfind in symbolic bytes')
        vs = [p.b[0] if p.kind == 'c' else p.v for p in self._byte_parts()]
        for i in range(len(vs) - len(sub), -1, -1):
            if And(*[v == c for v, c in zip(vs[i:], sub)]):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            raise Unsupported('split of symbolic bytes')
        parts = self._byte_parts()
        out, cur = [], []
        for p in parts:
            v = p.b[0] if p.kind == 'c' else p.v
            if (maxsplit < 0 or len(out) < maxsplit) and v == sep[0]:
                out.append(SymBytes(cur).simplified())
                cur = []
            else:
                cur.append(p)
        out.append(SymBytes(cur).simplified())
        return out

    def partition(self, sep):
        parts = self.split(sep, 1)
        if len(parts) == 1:
            return self, b'', b''
        return parts[0], sep, parts[1]

    def count(self, sub):
        if not isinstance(sub, (bytes, bytearray)) or len(sub) != 1:
            raise Unsupported('count in symbolic bytes')
        n = 0
        for p in self._byte_parts():
            if (p.b[0] if p.kind == 'c' else p.v) == sub[0]:
                n += 1
        return n

    def replace(self, *a):
        raise Unsupported('replace in symbolic bytes')

    def decode(self, *a, **k):
        from .text import text_of_bytes
        return text_of_bytes(self, *a, **k)

    def hex(self, *a):
        from .text import SymText
        return SymText(core.ENGINE.token(self))

    def tobytes(self):
        return self

    def getvalue(self):
        return self

    @property
    def nbytes(self):
        return self.sx_len()

    @property
    def itemsize(self):
        return 1

    def cast(self, fmt, *a):
        if fmt in ('B', 'c'):
            return self
        raise Unsupported('memoryview.cast')

    def toreadonly(self):
        return self

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        if core.ENGINE is None:
            return 'SymBytes(%r)' % (self.segs,)
        from .text import SymText
        return SymText(core.ENGINE.token(self))

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __sx_eval__(self, m):
        from .core import eval_value
        return {'rope': [_seg_eval(s, m) for s in self.segs]}


def _seg_eval(s, m):
    from .core import eval_value
    if s.kind == 'c':
        return ['c', s.b.hex()]
    if s.kind == 'i':
        return ['i', eval_value(m, s.v), s.w, s.end, s.signed]
    if s.kind == 'b':
        return ['b', eval_value(m, s.v)]
    if s.kind == 'r':
        return ['r', s.c, eval_value(m, s.n)]
    return ['o', s.blob.name, eval_value(m, s.off), eval_value(m, s.n)]


class SymByteArray(object):
    """Growable buffer over a rope."""

    def __init__(self, x=b''):
        self.rope = SymBytes.of(x)

    def sx_len(self):
        return self.rope.sx_len()

    def __len__(self):
        return len(self.rope)

    def __iadd__(self, o):
        self.rope = self.rope + (o.rope if isinstance(o, SymByteArray) else o)
        return self
    extend = __iadd__

    def append(self, b):
        self.rope = self.rope + SymBytes([BSeg(b)])

    def __getitem__(self, i):
        return self.rope[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice) and i.step is None:
            n = self.rope.sx_len()
            a = self.rope._clamp(i.start, n, 0)
            b = self.rope._clamp(i.stop, n, n)
            head, rest = split_at(self.rope.segs, a)
            _, tail = split_at(rest, b - a)
            self.rope = SymBytes(head + as_segs(v) + tail)
            return
        n = self.rope.sx_len()
        head, rest = split_at(self.rope.segs, i)
        _, tail = split_at(rest, 1)
        self.rope = SymBytes(head + [BSeg(v)] + tail)

    def __eq__(self, o):
        return self.rope == o

    def __ne__(self, o):
        return self.rope != o

    def __add__(self, o):
        return self.rope + o

    def __radd__(self, o):
        return o + self.rope

    def __bool__(self):
        return bool(self.rope)

    def __iter__(self):
        return iter(self.rope)

    def __getattr__(self, k):
        return getattr(self.rope, k)

    __hash__ = None


def rope_same(a, b):
    """True when certainly equal on this path, without forking; else None."""
    a, b = SymBytes.of(a), SymBytes.of(b)
    E = core.ENGINE
    conds = []
    if len(a.segs) == len(b.segs) and all(_pair(x, y, conds) for x, y in zip(a.segs, b.segs)):
        c = And(*conds)
        if c is True or (c is not False and E.entails(c)):
            return True
    if not {s.blob for s in a.segs if s.kind == 'o'} & {s.blob for s in b.segs if s.kind == 'o'} and \
            any(s.kind == 'o' and E.entails(mkb(iexpr(s.n) > 0)) for s in a.segs + b.segs):
        return None
    # the same bytes in different segments
    A, B = _nonempty(a.segs), _nonempty(b.segs)
    while A and B:
        x, y = A[0], B[0]
        conds = []
        if _pair(x, y, conds):
            c = And(*conds)
            if c is True or (c is not False and E.entails(c)):
                A.pop(0), B.pop(0)
                continue
        if x.kind == y.kind == 'o':
            if x.blob is not y.blob or not E.entails(mkb(iexpr(x.off) == iexpr(y.off))):
                return None
        elif x.kind == 'o' or y.kind == 'o':
            return None
        elif x.kind == 'r' and y.kind == 'r':
            if x.c != y.c:
                return None
        elif not (isinstance(x.length(), int) and isinstance(y.length(), int)) or \
                x.length() > 64 or y.length() > 64:
            if not {x.kind, y.kind} == {'c', 'r'}:
                return None
            c, r, C, R = (x, y, A, B) if x.kind == 'c' else (y, x, B, A)
            if c.b[0] != r.c:
                return None
            C[0:1] = [CSeg(c.b[1:])] if len(c.b) > 1 else []
            R[0:1] = _nonempty([RSeg(r.c, r.n - 1)])
            continue
        else:
            A[:1], B[:1] = explode(x), explode(y)
            x, y = A.pop(0), B.pop(0)
            vx, vy = (s.b[0] if s.kind == 'c' else s.v for s in (x, y))
            if not E.entails(mkb(iexpr(vx) == iexpr(vy)) if not isinstance(vx, int) or not isinstance(vy, int)
                             else vx == vy):
                return None
            continue
        # one is the beginning of the other
        nx, ny = x.length(), y.length()
        mkseg = (lambda s, k: OSeg(s.blob, s.off + k, s.n - k)) if x.kind == 'o' else \
            (lambda s, k: RSeg(s.c, s.n - k))
        if E.entails(nx <= ny):
            A.pop(0)
            B[:1] = _nonempty([mkseg(y, nx)])
        elif E.entails(ny <= nx):
            B.pop(0)
            A[:1] = _nonempty([mkseg(x, ny)])
        else:
            return None
    return None if A or B else True


def _pair(x, y, conds):
    """Can two segments be compared as wholes?  Adds what equality needs."""
    if x.kind != y.kind:
        return False
    if x.kind == 'c':
        return x.b == y.b
    if x.kind == 'i':
        if (x.w, x.end, x.signed) != (y.w, y.end, y.signed):
            return False
        conds.append(mkb(iexpr(x.v) == iexpr(y.v)))
    elif x.kind == 'b':
        conds.append(mkb(iexpr(x.v) == iexpr(y.v)))
    elif x.kind == 'r':
        if x.c != y.c:
            return False
        conds.append(mkb(iexpr(x.n) == iexpr(y.n)))
    else:
        if x.blob is not y.blob:
            return False
        conds.append(mkb(iexpr(x.off) == iexpr(y.off)))
        conds.append(mkb(iexpr(x.n) == iexpr(y.n)))
    return True


def _nonempty(segs):
    return [s for s in segs if not (s.kind in 'or' and core.ENGINE.entails(
        mkb(iexpr(s.n) == 0) if isinstance(s.n, SymInt) else s.n == 0))]
