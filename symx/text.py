"""Text that may stand for symbolic values.

A SymText is a real str whose content holds placeholder tokens (private-use
characters) registered with the engine; operations with a meaning for the
symbolic value are overridden, everything else acts on the placeholder text.
"""
import re

import z3

from . import core
from .core import (SymInt, SymReal, SymBool, And, Or, Not, mk, mkb, mkr, iexpr,
                   Abort, Unsupported, Formatted)

TOK = re.compile('(\ue000\\d+\ue001)')


def has_token(s):
    return str.__contains__(s, '\ue000')


def wrap(s):
    return SymText(s) if type(s) is str and has_token(s) else s


class NumText(object):
    """Token value: the decimal text of a symbolic number.

    places = 0: an integer text such as 123 or -7; otherwise a decimal text
    with up to `places` decimals."""

    def __init__(self, value, places=0):
        self.value, self.places = value, places


class StrVar(object):
    """Token value: an arbitrary file name (z3 String expression), or a part of one.

    Operations beyond comparing and cutting off fixed ends first fix the length
    on this path and then work on the character codes."""

    def __init__(self, e, chars=None):
        self.e, self.chars = e, chars

    def expand(self):
        if self.chars is None:
            E = core.ENGINE
            n = z3.Length(self.e)
            vals = [k for k in range(EXPAND + 1) if E.feasible(n == k)]
            if E.feasible(n > EXPAND):
                E.note_cut('names longer than %d characters taken apart' % EXPAND)
            if not vals:
                E.kill(Abort('cut', 'long names'))
            k = E.fork(vals)
            E.add(n == k)
            cs = [z3.Int(E.fresh_name('_char')) for _ in range(k)]
            for c in cs:
                E.add(z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 48, c <= 57),
                            c == 46, c == 45, c == 95))
            if cs:
                us = [z3.StrFromCode(c) for c in cs]
                E.add(self.e == (us[0] if k == 1 else z3.Concat(*us)))
            self.chars = [SymInt(c) for c in cs]
        return self.chars

    def __sx_eval__(self, m):
        v = m.eval(self.e, model_completion=True)
        return v.as_string() if z3.is_string_value(v) else str(v)


class JSONText(object):
    """Token value: serialised metadata; n characters, nb bytes once encoded."""

    def __init__(self, obj, n, nb, blob):
        self.obj, self.n, self.nb, self.blob = obj, n, nb, blob


class DigitChar(object):
    """Token value: one digit (or sign or point) of a numeric text."""


EXPAND = 8          # longest name that is taken apart


def codes(s):
    """Character codes of a text made of literals and names."""
    out = []
    for p in parts(s):
        if isinstance(p, str):
            out.extend(ord(c) for c in p)
        elif isinstance(p, StrVar):
            out.extend(p.expand())
        else:
            raise Unsupported('characters of symbolic text')
    return out


def text_of(cs):
    """Text with the given character codes."""
    out, run = '', []

    def flush():
        if run:
            us = [z3.StrFromCode(iexpr(c)) for c in run]
            return core.ENGINE.token(StrVar(us[0] if len(us) == 1 else z3.Concat(*us), list(run)))
        return ''
    for c in cs:
        if isinstance(c, int):
            out += flush() + chr(c)
            run = []
        else:
            run.append(c)
    return wrap(out + flush())


def same_codes(a, b):
    if len(a) != len(b):
        return False
    return And(*[x == y for x, y in zip(a, b)])


def parts(s):
    out = []
    for p in TOK.split(str.__str__(s)):
        if p == '':
            continue
        if p[0] == '\ue000':
            out.append(core.ENGINE.tokens[p])
        else:
            out.append(p)
    return out


def num_of(p):
    """numeric value of a token part that prints a number"""
    if isinstance(p, NumText):
        return p.value
    if isinstance(p, (SymInt, SymReal)):
        return p
    if isinstance(p, Formatted):
        n = _fixed(p)
        if n is not None:
            v = p.value if isinstance(p.value, SymReal) else mkr(z3.ToReal(iexpr(p.value)))
            return round(v, n)
    return None


def _fixed(p):
    """Decimals of a number printed with a fixed number of them."""
    m = re.match(r'^\.(\d)f$', p.spec) if isinstance(p.value, (SymInt, SymReal)) else None
    return int(m.group(1)) if m else None


def is_num(p):
    return isinstance(p, (NumText, SymInt, SymReal)) or isinstance(p, Formatted) and _fixed(p) is not None


class SymText(str):
    __slots__ = ()

    def __new__(cls, s):
        return str.__new__(cls, s)

    def __str__(self):
        return self

    def __repr__(self):
        return SymText("'" + str.__str__(self) + "'")

    def __format__(self, spec):
        return str.__str__(self)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText(str.__add__(self, o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText(str.__add__(o, self))

    def __mod__(self, args):
        return sx_mod(self, args)

    def __hash__(self):
        return str.__hash__(self)

    # -- semantics
    def _open(self):
        """Is the text made of literals and names, one of which is taken apart?"""
        ps = parts(self)
        return all(isinstance(p, (str, StrVar)) for p in ps) and \
            any(isinstance(p, StrVar) and p.chars is not None for p in ps)

    def _strexpr(self):
        """z3 String for texts made of literals and string variables"""
        es = []
        for p in parts(self):
            if isinstance(p, str):
                es.append(z3.StringVal(p))
            elif isinstance(p, StrVar):
                es.append(p.e)
            else:
                return None
        if not es:
            return z3.StringVal('')
        return es[0] if len(es) == 1 else z3.Concat(*es)

    def sx_eq(self, o):
        if not isinstance(o, str):
            return False
        if str.__eq__(self, o):
            return True
        a = self._strexpr()
        o_names = isinstance(o, SymText) and o._strexpr() is not None
        if a is not None and (self._open() or o_names and o._open()) and (o_names or type(o) is str):
            return same_codes(codes(self), codes(o))
        if a is not None:
            b = o._strexpr() if isinstance(o, SymText) else z3.StringVal(o)
            if b is not None:
                return mkb(a == b)
        pa = parts(self)
        pb = parts(o)
        if len(pa) == 1 and isinstance(pa[0], DigitChar) or len(pb) == 1 and isinstance(pb[0], DigitChar):
            other = pb if isinstance(pa[0], DigitChar) else pa
            if len(other) == 1 and isinstance(other[0], str) and \
                    (len(other[0]) != 1 or other[0] not in '0123456789.-'):
                return False
            if not other:
                return False
            raise Unsupported('comparison with a digit of a symbolic number')
        # number followed by literal suffix vs literal
        if len(pa) == len(pb) and all(
                (isinstance(x, str) and x == y) or (is_num(x) and is_num(y))
                for x, y in zip(pa, pb)):
            return And(*[num_of(x) == num_of(y) for x, y in zip(pa, pb) if is_num(x)])
        lit = [p for p in (pa, pb) if all(isinstance(x, str) for x in p)]
        if lit:
            sym = pb if lit[0] is pa else pa
            text = ''.join(lit[0])
            rx, nums, opaque = '', [], False
            for x in sym:
                if isinstance(x, str):
                    rx += re.escape(x)
                elif is_num(x):
                    rx += '(-?[0-9]+(?:\\.[0-9]+)?)'
                    nums.append(x)
                else:
                    rx += '(?s:.*)'
                    opaque = True
            m = re.fullmatch(rx, text)
            if not m:
                return False
            if opaque:
                raise Unsupported('comparison of symbolic text')
            import fractions
            cs = []
            for g, x in zip(m.groups(), nums):
                f = fractions.Fraction(g)
                v = num_of(x)
                if isinstance(v, SymInt):
                    if f.denominator != 1:
                        return False
                    cs.append(v == f.numerator)
                else:
                    cs.append(mkb(v.e == z3.RealVal('%d/%d' % (f.numerator, f.denominator))))
            return And(*cs)
        raise Unsupported('comparison of symbolic text')

    def __eq__(self, o):
        return self.sx_eq(o)

    def __ne__(self, o):
        return Not(self.sx_eq(o))

    def __lt__(self, o):
        return str.__lt__(self, o)

    def sx_len(self):
        n = 0
        for p in parts(self):
            if isinstance(p, str):
                n = n + len(p)
            elif isinstance(p, StrVar):
                n = n + (mk(z3.Length(p.e)) if p.chars is None else len(p.chars))
            elif isinstance(p, JSONText):
                n = n + p.n
            elif isinstance(p, NumText) or is_num(p):
                if is_num(p) and isinstance(num_of(p), SymInt):
                    v = num_of(p).e
                    d = z3.IntVal(1)
                    for k in range(1, 22):
                        d = z3.If(z3.Or(v >= 10 ** k, v <= -10 ** k), z3.IntVal(k + 1), d)
                    n = n + mk(z3.If(v < 0, d + 1, d))
                else:
                    raise Unsupported('length of a symbolic decimal text')
            else:
                raise Unsupported('length of symbolic text')
        return n

    def __len__(self):
        # C level callers (print, argparse) see the placeholder text
        return str.__len__(self)

    def __bool__(self):
        ps = parts(self)
        if any(isinstance(p, str) or is_num(p) or isinstance(p, (DigitChar, Formatted)) for p in ps):
            return True
        return bool(self.sx_len() > 0) if ps else False

    def __getitem__(self, i):
        ps = parts(self)
        if self._open() and (isinstance(i, int) or isinstance(i, slice) and all(
                x is None or isinstance(x, int) for x in (i.start, i.stop, i.step))):
            cs = codes(self)[i]
            return text_of(cs if isinstance(i, slice) else [cs])
        if isinstance(i, int):
            if i == -1 and ps:
                last = ps[-1]
                if isinstance(last, str):
                    return last[-1]
                if is_num(last):
                    return SymText(core.ENGINE.token(DigitChar()))
            if i == 0 and ps:
                first = ps[0]
                if isinstance(first, str):
                    return first[0]
                if is_num(first):
                    v = num_of(first)
                    if v < 0:
                        return '-'
                    return SymText(core.ENGINE.token(DigitChar()))
            e = self._strexpr()
            if e is not None:
                n = mk(z3.Length(e))
                j = i + n if i < 0 else i
                if Or(j < 0, j >= n):
                    raise IndexError('string index out of range')
                return SymText(core.ENGINE.token(StrVar(z3.SubString(e, iexpr(j), 1))))
            raise Unsupported('index into symbolic text')
        if isinstance(i, slice) and i.step in (None, 1):
            a, b = i.start, i.stop
            if a in (None, 0) and b is None:
                return self
            if a in (None, 0) and isinstance(b, int) and b < 0 and isinstance(ps[-1], str) \
                    and len(ps[-1]) >= -b:
                return wrap(str.__getitem__(self, slice(None, b)))
            if b is None and isinstance(a, int) and a < 0 and isinstance(ps[-1], str) \
                    and len(ps[-1]) >= -a:
                return ps[-1][a:]
            if b is None and isinstance(a, int) and a > 0 and isinstance(ps[0], str) \
                    and len(ps[0]) >= a:
                return wrap(str.__getitem__(self, slice(a, None)))
            e = self._strexpr()
            if e is not None:
                n = mk(z3.Length(e))

                def clamp(v, d):
                    if v is None:
                        return d
                    if v < 0:
                        v = v + n
                        return core.If(v < 0, 0, v)
                    return core.If(n < v, n, v)
                lo, hi = clamp(a, 0), clamp(b, n)
                ln = core.If(hi > lo, hi - lo, 0)
                sub = z3.SubString(e, iexpr(lo), iexpr(ln))
                return SymText(core.ENGINE.token(StrVar(sub)))
        raise Unsupported('slice of symbolic text')

    def endswith(self, suf, *a):
        if isinstance(suf, tuple):
            for s in suf:
                if self.endswith(s, *a):
                    return True
            return False
        ps = parts(self)
        if ps and isinstance(ps[-1], str) and len(ps[-1]) >= len(suf):
            return ps[-1].endswith(suf)
        e = self._strexpr()
        if self._open():
            cs = codes(self)
            return len(cs) >= len(suf) and (suf == '' or same_codes(cs[-len(suf):], [ord(c) for c in suf]))
        if e is not None:
            return mkb(z3.SuffixOf(z3.StringVal(suf), e))
        if ps and is_num(ps[-1]) and suf and suf[-1] not in '0123456789.-':
            return False
        raise Unsupported('endswith of symbolic text')

    def startswith(self, pre, *a):
        if isinstance(pre, tuple):
            for s in pre:
                if self.startswith(s, *a):
                    return True
            return False
        ps = parts(self)
        if ps and isinstance(ps[0], str) and len(ps[0]) >= len(pre):
            return ps[0].startswith(pre)
        e = self._strexpr()
        if self._open():
            cs = codes(self)
            return len(cs) >= len(pre) and same_codes(cs[:len(pre)], [ord(c) for c in pre])
        if e is not None:
            return mkb(z3.PrefixOf(z3.StringVal(pre), e))
        if ps and is_num(ps[0]):
            if pre == '-':
                return num_of(ps[0]) < 0
            if pre and pre[0] not in '0123456789.-':
                return False
        raise Unsupported('startswith of symbolic text')

    def encode(self, *a, **k):
        from .rope import SymBytes, OSeg
        ps = parts(self)
        if len(ps) == 1 and isinstance(ps[0], JSONText):
            j = ps[0]
            enc = (a[0] if a else k.get('encoding', 'utf-8')).lower().replace('_', '-')
            if enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
                if not (j.n == j.nb):
                    raise UnicodeEncodeError(enc, '\u0100', 0, 1, 'ordinal not in range')
            elif enc not in ('utf-8', 'utf8'):
                raise Unsupported('encoding %s' % enc)
            return SymBytes([OSeg(j.blob, 0, j.nb)])
        raise Unsupported('encode of symbolic text')

    # -- methods that cut or change the text
    def _sure(self, chars):
        """Do the given characters occur in none of the symbolic parts?"""
        for p in parts(self):
            if isinstance(p, str):
                continue
            if isinstance(p, StrVar):
                if any(c in NAME_CHARS for c in chars):
                    return False
            elif any(c in NUM_CHARS for c in chars) if is_num(p) or isinstance(p, DigitChar) \
                    else any(c != '\n' for c in chars):
                return False
        return True

    def _native(self, x):
        """Does acting on the placeholder text give the right answer for x?"""
        return type(x) is str and x != '' and self._sure(x)

    def _strip(self, chars, left, right):
        ps = parts(self)
        cs = ' \t\n\r\x0b\x0c' if chars is None else chars
        if type(cs) is not str:
            raise Unsupported('strip of symbolic text')

        def done(qs):
            """Does the stripping from this end stop before a name?"""
            for p in qs:
                if not isinstance(p, str):
                    return not isinstance(p, StrVar) and (is_num(p) or cs.isspace())
                if p.strip(cs) != '':
                    return True
            return True
        if self._sure(cs) or (not left or done(ps)) and (not right or done(ps[::-1])) and \
                not any(c in NUM_CHARS for c in cs):
            # a run of such characters lies in literal text
            t = str.__str__(self)
            return wrap(t.strip(cs) if left and right else t.lstrip(cs) if left else t.rstrip(cs))
        ks, hit = codes(self), [ord(c) for c in cs]
        while left and ks and Or(*[ks[0] == c for c in hit]):
            ks = ks[1:]
        while right and ks and Or(*[ks[-1] == c for c in hit]):
            ks = ks[:-1]
        return text_of(ks)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def upper(self):
        if any(isinstance(p, (StrVar, JSONText)) for p in parts(self)):
            raise Unsupported('upper of symbolic text')
        return wrap(str.upper(self))

    def lower(self):
        if any(isinstance(p, JSONText) for p in parts(self)):
            raise Unsupported('lower of symbolic text')
        # names have lower case letters only
        return wrap(str.lower(self))

    casefold = lower

    def isdigit(self):
        ps = parts(self)
        if len(ps) == 1 and isinstance(ps[0], NumText) and ps[0].places == 0:
            return ps[0].value >= 0
        if all(isinstance(p, str) or is_num(p) for p in ps):
            return False
        raise Unsupported('isdigit of symbolic text')

    isdecimal = isnumeric = isdigit

    def _find(self, sub, last, a):
        if a:
            raise Unsupported('find with bounds')
        cs, x = codes(self), codes(sub)
        at = range(len(cs) - len(x) + 1)
        for i in reversed(at) if last else at:
            if same_codes(cs[i:i + len(x)], x):
                return i
        return -1

    def find(self, sub, *a):
        return self._find(sub, False, a)

    def rfind(self, sub, *a):
        return self._find(sub, True, a)

    def index(self, sub, *a):
        i = self._find(sub, False, a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self._find(sub, True, a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def _cut(self, sub, last=False):
        """(before, after) the first or last occurrence of sub, or None."""
        if len(sub) == 0:
            raise ValueError('empty separator')
        if self._native(sub):
            t = str.__str__(self)
            if sub not in t:
                return None
            x, _, y = t.rpartition(sub) if last else t.partition(sub)
            return wrap(x), wrap(y)
        i = self._find(sub, last, ())
        return None if i < 0 else (self[:i], self[i + len(codes(sub)):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if not self._sure(' \t\n\r\x0b\x0c') and not \
                    all(isinstance(p, str) or is_num(p) for p in parts(self)):
                raise Unsupported('split of symbolic text')
            return [wrap(x) for x in str.split(str.__str__(self), None, maxsplit)]
        if self._native(sep):
            return [wrap(x) for x in str.split(str.__str__(self), sep, maxsplit)]
        return self._split(sep, maxsplit, False)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('rsplit of symbolic text')
        if self._native(sep):
            return [wrap(x) for x in str.rsplit(str.__str__(self), sep, maxsplit)]
        return self._split(sep, maxsplit, True)

    def _split(self, sep, maxsplit, last):
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            c = rest._cut(sep, last) if isinstance(rest, SymText) else (
                None if sep not in rest else rest.rsplit(sep, 1) if last else rest.split(sep, 1))
            if c is None:
                break
            if len(out) >= 20:
                raise Unsupported('split of symbolic text')
            out.append(c[1] if last else c[0])
            rest = c[0] if last else c[1]
        out.append(rest)
        return out[::-1] if last else out

    def partition(self, sep):
        c = self._cut(sep)
        return (self, '', '') if c is None else (c[0], sep, c[1])

    def rpartition(self, sep):
        c = self._cut(sep, True)
        return ('', '', self) if c is None else (c[0], sep, c[1])

    def count(self, sub, *a):
        if a:
            raise Unsupported('count with bounds')
        return len(self.split(sub)) - 1

    def replace(self, old, new, n=-1):
        if type(old) is not str or old == '':
            raise Unsupported('replace in symbolic text')
        if n == 0:
            return self
        return sx_join(new, self.split(old, n))

    def removesuffix(self, suf):
        if suf and self.endswith(suf):
            return self[:-len(suf)]
        return self

    def removeprefix(self, pre):
        if pre and self.startswith(pre):
            return self[len(pre):]
        return self

    def __contains__(self, x):
        if type(x) is str and (x == '' or any(x in p for p in parts(self) if isinstance(p, str))):
            return True
        if type(x) is str and self._sure(x[:1]) and len(x) == 1:
            return False
        if self._strexpr() is not None:
            return self._find(x, False, ()) >= 0
        raise Unsupported('membership in symbolic text')

    def splitlines(self, keepends=False):
        return [wrap(x) for x in str.splitlines(str.__str__(self), keepends)]

    def join(self, items):
        return sx_join(self, items)

    def rjust(self, *a):
        return wrap(str.rjust(self, *a))

    def ljust(self, *a):
        return wrap(str.ljust(self, *a))

    def format(self, *a, **k):
        return wrap(str.format(self, *a, **k))

    def __iter__(self):
        raise Unsupported('iteration over symbolic text')

    def __sx_eval__(self, m):
        return eval_text(self, m)


NAME_CHARS = 'abcdefghijklmnopqrstuvwxyz0123456789._-'
NUM_CHARS = '0123456789.-+einfaE'


def _block():
    def method(k):
        def f(self, *a, **kw):
            raise Unsupported('%s of symbolic text' % k)
        return f
    for k in dir(str):
        if not k.startswith('_') and k not in SymText.__dict__ and callable(getattr(str, k)):
            setattr(SymText, k, method(k))


_block()


def eval_text(s, m):
    out = ''
    for p in TOK.split(str.__str__(s)):
        if p[:1] == '\ue000':
            v = core.ENGINE.tokens.get(p)
            if isinstance(v, NumText):
                x = core.eval_value(m, v.value)
                out += num_str(x, v.places)
            elif isinstance(v, StrVar):
                out += core.eval_value(m, v)
            elif isinstance(v, JSONText):
                out += '<json>'
            else:
                out += str(core.eval_value(m, v))
        else:
            out += p
    return out


def num_str(x, places):
    if isinstance(x, list):
        import decimal
        n, d = x
        if n % d == 0 and places == 0:
            return str(n // d)
        q = decimal.Decimal(n) / decimal.Decimal(d)
        return format(q.quantize(decimal.Decimal(1).scaleb(-places)), 'f')
    return str(x)


def text_of_bytes(rope, encoding='utf-8', errors='strict'):
    """bytes.decode for a rope: only whole serialised metadata, or constants."""
    segs = rope.segs
    if len(segs) == 1 and segs[0].kind == 'o':
        s = segs[0]
        obj = s.blob.info.get('json')
        if obj is not None:
            if And(s.off == 0, s.n == obj.nb):
                return SymText(core.ENGINE.token(obj))
        # arbitrary bytes: may or may not be text
        if core.ENGINE.hidden_bool('decodes'):
            j = JSONText(None, s.n, s.n, s.blob)
            return SymText(core.ENGINE.token(j))
        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
    if all(s.kind == 'b' or s.kind == 'c' for s in segs) and len(segs) <= 16:
        b = bytes(rope[i] if isinstance(rope[i], int) else core.ENGINE.concretise(rope[i].e, 'decode')
                  for i in range(len(rope)))
        return b.decode(encoding, errors)
    # serialised metadata between constants
    out = []
    for s in segs:
        if s.kind == 'c':
            if any(x > 127 for x in s.b):
                break
            out.append(s.b.decode())
            continue
        obj = s.blob.info.get('json') if s.kind == 'o' else None
        if obj is None or not And(s.off == 0, s.n == obj.nb):
            break
        out.append(core.ENGINE.token(obj))
    else:
        return SymText(''.join(out))
    # mixed content: something else than what was serialised
    if core.ENGINE.hidden_bool('decodes'):
        n = rope.sx_len()
        from .rope import Blob
        return SymText(core.ENGINE.token(JSONText(None, n, n, Blob('text', n))))
    raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')


FMT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?'
                 r'(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')


def contains_sym(v, depth=0):
    if isinstance(v, (SymInt, SymBool, SymReal)):
        return True
    if isinstance(v, str):
        return has_token(v)
    if isinstance(v, (tuple, list)) and depth < 4:
        return any(contains_sym(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 4:
        return any(contains_sym(x, depth + 1) for x in v.values())
    return not isinstance(v, (int, float, bytes, type(None), type))


def sx_mod(fmt, args):
    """str % args with symbolic arguments."""
    if not isinstance(fmt, str):
        if isinstance(fmt, (bytes,)):
            if contains_sym(args):
                raise Unsupported('bytes % formatting')
            return fmt % args
        return fmt % args
    if not contains_sym(args) and not has_token(fmt):
        return fmt % args
    used_dict = isinstance(args, dict)
    tup = args if isinstance(args, tuple) else (args,)
    pos = [0]

    def nxt():
        if pos[0] >= len(tup):
            raise TypeError('not enough arguments for format string')
        pos[0] += 1
        return tup[pos[0] - 1]

    def one(m):
        c = m.group('conv')
        if c == '%':
            return '%'
        if m.group('width') == '*' or m.group('prec') == '*':
            raise Unsupported('star width in format')
        if m.group('key') is not None:
            if not isinstance(args, dict):
                raise TypeError('format requires a mapping')
            v = args[m.group('key')]
            pos[0] = len(tup)
        else:
            v = nxt()
        spec = (m.group('flags') or '') + (m.group('width') or '') + \
            ('.' + m.group('prec') if m.group('prec') else '')
        if c in 'diu':
            if isinstance(v, SymBool):
                v = v._int()
            if isinstance(v, SymReal):
                v = v.trunc()
            if isinstance(v, SymInt):
                if spec:
                    return core.ENGINE.token(Formatted(v, spec + c))
                return core.ENGINE.token(v)
            if isinstance(v, SymText) or not isinstance(v, (int, float)):
                if not hasattr(v, '__int__'):
                    raise TypeError('%%%s format: a real number is required, not %s'
                                    % (c, type(v).__name__))
            return ('%' + spec + c) % v
        if c in 'eEfFgG':
            if isinstance(v, (SymInt, SymReal, SymBool)):
                return core.ENGINE.token(Formatted(v, spec + c))
            if isinstance(v, str) or v is None:
                raise TypeError('must be real number, not %s' % type(v).__name__)
            return ('%' + spec + c) % v
        if c in 'oxXc':
            if isinstance(v, (SymInt, SymBool)):
                return ('%' + spec + c) % core.ENGINE.concretise(iexpr(v), 'format')
            return ('%' + spec + c) % v
        if c == 's':
            s = str.__str__(v) if type(v) is str else v.__str__() if isinstance(v, SymText) else _str(v)
            return str.__str__(s) if not spec else ('%' + spec + 's') % str.__str__(s)
        s = _repr(v)
        return str.__str__(s)

    out = FMT.sub(one, str.__str__(fmt))
    if pos[0] < len(tup) and not used_dict:
        if not (len(tup) == 1 and isinstance(args, dict)):
            raise TypeError('not all arguments converted during string formatting')
    return wrap(out)


def _str(v):
    if isinstance(v, (tuple, list, dict)):
        return _repr(v)
    return str(v)


def _repr(v):
    return repr(v)


def sx_join(sep, items):
    """sep.join(items) for str and bytes."""
    from .rope import SymBytes, as_segs, SymByteArray
    items = list(items)
    if isinstance(sep, str):
        for x in items:
            if not isinstance(x, str):
                raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        return wrap(str.join(str.__str__(sep), [str.__str__(x) for x in items]))
    if isinstance(sep, (bytes, SymBytes)):
        segs = []
        for i, x in enumerate(items):
            s = as_segs(x)
            if s is None:
                raise TypeError('sequence item %d: expected a bytes-like object, %s found'
                                % (i, type(x).__name__))
            if i and as_segs(sep):
                segs = segs + as_segs(sep)
            segs = segs + s
        return SymBytes(segs).simplified()
    return sep.join(items)
