"""Symbolic backend of the scenario interface (see conch.py for the concrete one).

A scenario is a function of H.  Run with this backend it is executed over all
paths with symbolic inputs and H.check asks the solver; run with the concrete
backend it replays one model on the real package and H.check evaluates."""
import fractions
import re
import sys
import types

import z3

from . import core, stubs, rope, text, fs as symfs
from .core import SymInt, SymBool, Abort, Unsupported, mk, mkb, iexpr, boolexpr
from .loader import World
from .rope import SymBytes, CSeg, ISeg, BSeg, RSeg, OSeg, Blob, is_digest
from .text import SymText, NumText, StrVar, JSONText


class R(object):
    """Result of a call."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def is_a(self, *names):
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)

    @property
    def kind(self):
        if self.exc is None:
            return 'returned'
        return type(self.exc).__name__

    @property
    def exit_code(self):
        if not isinstance(self.exc, SystemExit):
            return None
        c = self.exc.code
        return 0 if c is None else c if isinstance(c, (int, SymInt)) else 1


class FaultCtl(object):
    """Fault injection: the at-th counted operation fails."""

    def __init__(self, H, at, torn, kinds):
        self.H, self.at, self.torn, self.kinds = H, at, torn, kinds
        self.count, self.fired = 0, None

    def hit(self, what):
        if self.fired is not None or what not in self.kinds:
            return False
        here = self.count
        self.count += 1
        if self.at == here:
            self.fired = (what, here)
            return True
        return False

    def hit_many(self, what, n):
        """n operations: how many succeed before the fault, None if all."""
        if self.fired is not None or what not in self.kinds:
            return None
        here = self.count
        self.count = here + n
        if core.And(here <= self.at, self.at < here + n):
            self.fired = (what, here)
            return self.at - here
        return None


class SymH(object):
    sym = True

    def __init__(self, E, tier='quick', **params):
        self.E, self.tier, self.params = E, tier, params
        self._world = None
        self.calls_made = 0
        self.metas = {}
        self.plain_sizes = params.get('plain_sizes', False)

    def world(self, fresh=False):
        if self._world is None or fresh:
            keep = self._world
            self._world = World(plain_sizes=self.plain_sizes)
            if keep is not None:
                # a new process over the same disk
                self._world.fs.files = keep.fs.files
                self._world.fs.exists_fn = keep.fs.exists_fn
                self._world.numpy._dtypes = keep.numpy._dtypes
                self._world.blosc.arrays = keep.blosc.arrays
        return self._world

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------ package
    @property
    def bp(self):
        return self.world()

    def restart(self):
        """Forget all state of the library (a new process)."""
        self.world(fresh=True)

    # ------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None):
        return self.E.int(name, lo, hi)

    def bool(self, name):
        return self.E.bool(name)

    def pick(self, name, options):
        return self.E.pick(name, options)

    def flag(self, name):
        return self.E.pick(name, [False, True])

    def assume(self, c):
        if isinstance(c, bool) and not c:
            raise Abort('infeasible')
        self.E.assume(c)

    def prefer(self, c):
        c = core.boolexpr(c)
        if not isinstance(c, bool):
            self.E.soft.append(c)

    def bytes(self, name, n):
        if isinstance(n, int) and n == 0:
            return b''
        return SymBytes.blob(name, n)

    def altered(self, name, b):
        """Bytes of the same length as b that differ from b."""
        b = SymBytes.of(b)
        n = b.sx_len()
        self.E.assume(n > 0)
        if isinstance(n, int) and n <= 64:
            vals = [self.E.int('%s[%d]' % (name, i), 0, 255) for i in range(n)]
            old = [p.b[0] if p.kind == 'c' else p.v for p in b._byte_parts()]
            self.E.assume(core.Or(*[v != o for v, o in zip(vals, old)]))
            # what they are made of, for the replay; one difference if possible
            for i, o in enumerate(old):
                if not isinstance(o, int):
                    self.E.inputs['%s@[%d]' % (name, i)] = iexpr(o)
            self.E.softer.append(z3.Sum([z3.If(boolexpr(v != o), 1, 0) for v, o in zip(vals, old)]) == 1)
            src = [s.blob if s.kind == 'o' else str(s.v.e) for s in b.segs if is_digest(s)]
            for v in vals:
                self.E.altered_from[str(v.e)] = src
            return SymBytes([BSeg(v) for v in vals])
        return SymBytes.blob(name, n)

    def byte_at(self, name, lo=0, hi=255):
        return self.E.int(name, lo, hi)

    def raw(self, name, n):
        """n individually symbolic bytes."""
        return SymBytes([BSeg(self.E.int('%s[%d]' % (name, i), 0, 255)) for i in range(n)])

    def name(self, name, maxlen=16):
        """An arbitrary plain file name (lower case letters, digits, . _ -)."""
        v = z3.String(name)
        self.E.inputs[name] = v
        first = z3.Union(z3.Range('a', 'z'), z3.Range('0', '9'), z3.Re('.'), z3.Re('_'))
        rest = z3.Union(first, z3.Re('-'))
        self.E.add(z3.InRe(v, z3.Concat(first, z3.Star(rest))))
        self.E.add(z3.Length(v) <= maxlen)
        self.E.add(z3.And(v != z3.StringVal('.'), v != z3.StringVal('..')))
        return SymText(self.E.token(StrVar(v)))

    def numtext(self, value, places=0):
        """The decimal text of a number."""
        if isinstance(value, (int,)) and not isinstance(value, bool):
            return str(value)
        return SymText(self.E.token(NumText(value, places)))

    def decimal(self, name, places, lo, hi):
        """An arbitrary decimal with the given places, as (value, text)."""
        k = self.E.int(name, lo * 10 ** places, hi * 10 ** places)
        v = core.mkr(z3.ToReal(iexpr(k)) / (10 ** places))
        return v, SymText(self.E.token(NumText(v, places)))

    def floor(self, v):
        """The largest integer up to a number."""
        return mk(z3.ToInt(v.e)) if isinstance(v, core.SymReal) else v

    def size_text(self, t):
        """(number, rest) of a text that begins with a number, or None."""
        ps = text.parts(t)
        if ps and text.is_num(ps[0]):
            return text.num_of(ps[0]), text.SymText(''.join(self._part(p) for p in ps[1:]))
        m = re.match(r'^(-?\d+(?:\.\d+)?)(.*)$', str.__str__(t), re.S)
        return (fractions.Fraction(m.group(1)), m.group(2)) if m else None

    def _part(self, p):
        return p if isinstance(p, str) else self.E.token(p)

    def numbers(self, t):
        """The whole numbers in a text."""
        out = []
        for p in text.parts(t):
            if isinstance(p, str):
                out += [int(x) for x in re.findall(r'\d+', p)]
            elif text.is_num(p) and isinstance(text.num_of(p), SymInt):
                out.append(text.num_of(p))
        return out

    def meta(self, name, nonempty=True):
        """Arbitrary JSON metadata.  Its serialised length is free."""
        m = self.metas.get(name)
        if m is None:
            m = self.metas[name] = stubs.MetaValue(name, nonempty)
        return m

    def distinct_metas(self):
        """Arbitrary metadata is none of the literal values of the scenario."""
        self.E.notes['_meta_distinct'] = True

    def func(self, name, f):
        """A callable argument (named for the record)."""
        return f

    # ---------------------------------------------------------- operators
    And = staticmethod(core.And)
    Or = staticmethod(core.Or)
    Not = staticmethod(core.Not)
    Implies = staticmethod(core.Implies)
    If = staticmethod(core.If)

    def len(self, x):
        return stubs.sx_len(x)

    def range(self, n):
        return stubs.SxRange(n)

    def total(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def concat(self, xs):
        return text.sx_join(b'', xs)

    def repeat(self, b, n):
        return SymBytes.repeat(b, n) if isinstance(n, SymInt) else b * n

    def eq(self, a, b):
        """Content equality of bytes-likes."""
        if rope.as_segs(a) is None or rope.as_segs(b) is None:
            return a == b
        return SymBytes.of(a).sx_eq(b)

    def same(self, a, b):
        """Equality of values returned by the package."""
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return core.And(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                return False
            return core.And(*[self.same(a[k], b[k]) for k in a])
        if rope.as_segs(a) is not None or rope.as_segs(b) is not None:
            if rope.as_segs(a) is None or rope.as_segs(b) is None:
                return False
            return self.eq(a, b)
        if a is None or b is None:
            return False
        r = a == b
        return r if isinstance(r, (bool, SymBool)) else bool(r)

    def is_plain(self, v):
        return isinstance(v, int)

    def fix(self, v):
        """A concrete value of an integer (forks)."""
        return self.E.concretise(iexpr(v), 'value')

    def nonlinear(self):
        """Describe division by its defining equation instead of by cases."""
        self.E.div_mode = 'nl'

    def meta_len(self, meta):
        """Characters of the serialised metadata."""
        return stubs.sx_len(self.world().json.dumps(meta, separators=(",", ":")))

    def is_int(self, v):
        return isinstance(v, (int, SymInt)) and not isinstance(v, bool)

    def is_bytes(self, v):
        return isinstance(v, (bytes, SymBytes))

    def is_str(self, v):
        return isinstance(v, str)

    def truth(self, c):
        """Decide a condition (forks)."""
        return bool(c)

    def le(self, v, w, signed=False):
        """v as a little-endian integer of w bytes."""
        if isinstance(v, (SymInt, SymBool)):
            return SymBytes([ISeg(v if isinstance(v, SymInt) else v._int(), w, 'little', signed)
                             if w > 1 or signed else BSeg(v if isinstance(v, SymInt) else v._int())])
        return int(v).to_bytes(w, 'little', signed=signed)

    def u(self, b, off, w, signed=False):
        """The little-endian integer at b[off:off+w]."""
        s = SymBytes.of(b)[off:off + w]
        return rope.int_of_bytes(SymBytes.of(s).segs, 'little', signed)

    def cut(self, b, a, e=None):
        return SymBytes.of(b).slice(a, e)

    # ------------------------------------------------------------- checks
    def check(self, cond, label, detail=None):
        return self.E.prove(cond, label, detail)

    def fail(self, label, detail=None):
        return self.E.prove(False, label, detail)

    def outcome(self, *v):
        self.E.outcome = list(v)

    def note(self, key, v):
        self.E.notes[key] = v

    def possible(self, c):
        return True

    def call(self, fn, *a, **k):
        self.E.check_alive()
        try:
            v = fn(*a, **k)
        except Abort:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            self.E.check_alive()
            if self.E.debug:
                import traceback
                traceback.print_exc()
            e = e.with_traceback(None)
            return R(exc=e)
        self.E.check_alive()
        return R(v)

    # -------------------------------------------------------------- files
    def path(self, name):
        if isinstance(name, SymText):
            return name
        return name

    def put(self, name, content):
        self.world().fs.set(name, content)

    def get(self, name):
        d = self.world().fs.get(name)
        return None if d is None else d.content.simplified()

    def exists(self, name):
        return self.world().fs.exists(name)

    def names(self):
        return [p for p, d in self.world().fs.files if d is not None]

    def unknown_files(self):
        """Any path not mentioned yet may or may not exist."""
        E = self.E

        def f(p):
            b = z3.Bool(E.fresh_name('exists'))
            E.inputs.setdefault('exists:%d' % len(self.world().fs.files), b)
            return SymBool(b)
        self.world().fs.exists_fn = f

    def opened(self):
        """[(path, mode)] of every open() so far."""
        return list(self.world().fs.opened)

    def removed(self):
        return list(self.world().fs.removed)

    def openfile(self, name, mode):
        return self.world().fs.open(name, mode)

    def memfile(self, content=b''):
        return symfs.SymBytesIO(content)

    def faults(self, at, torn=False, kinds=('read', 'write', 'compress')):
        ctl = FaultCtl(self, at, torn, kinds)
        self.world().fs.faults = ctl
        self.E.notes['_compress_faults'] = ctl
        self._faults = ctl
        return ctl

    def no_faults(self):
        self.world().fs.faults = None
        self.E.notes['_compress_faults'] = None

    def stdout(self):
        return self.world().output('out')

    def stderr(self):
        return self.world().output('err')

    def clear_output(self):
        del self.world().printed[:]

    # -------------------------------------------------------- environment
    def digest(self, name, b):
        """The digest bytes of b under the named algorithm, by definition."""
        if name == 'None':
            return b''
        if name in ('adler32', 'crc32'):
            return self.le(stubs.digest_of(name, 4, b), 4)
        return stubs.digest_of(name, stubs.HashObj.SIZES[name], b)

    def distinct_digests(self):
        """Digests of different contents, and unrelated bytes, differ."""
        self.E.coincidence = False

    def json_loads(self, b):
        return self.world().json.loads(b if rope.as_segs(b) is None or isinstance(b, SymBytes) else b)

    def deflate(self, b, level):
        return self.world().zlib.compress(b, level)

    def json_dumps(self, v):
        """The compact JSON text of a value, as bytes."""
        return text.wrap(self.world().json.dumps(v, separators=(',', ':'))).encode()

    def buffer(self, kind, b):
        """The bytes in another kind of buffer."""
        if kind == 'bytearray':
            return rope.SymByteArray(b)
        return b        # memoryview

    def inflate(self, b):
        return self.world().zlib.decompress(b)

    def deflate_len(self, b, level):
        """Size of b under zlib at this level (None if unknown)."""
        return stubs.sx_len(self.world().zlib.compress(b, level))

    def compressed(self):
        """Blosc compressions done by the package, in call order."""
        return list(self.world().blosc.calls)

    def clear_compressed(self):
        del self.world().blosc.calls[:]

    def blosc(self, b, typesize=8, clevel=7, shuffle=True, cname='blosclz'):
        """A valid Blosc chunk of b, not attributed to the package."""
        w = self.world().blosc
        n = len(w.calls)
        r = w._produce(SymBytes.of(b), stubs.sx_len(b), typesize, clevel, shuffle, cname)
        del w.calls[n:]
        return r

    def unblosc(self, b):
        return SymBytes.of(self.world().blosc._plain(SymBytes.of(b))).simplified()

    def decompressed(self):
        return list(self.E.notes.get('_decompressed', []))

    # ---------------------------------------------------------------- CLI
    def cli(self, argv):
        """Run bloscpack.cli.main with these arguments."""
        w = self.world()
        w.argv[:] = ['blpk'] + [str.__str__(a) if isinstance(a, str) else a for a in argv]
        cli = w.mod('cli')
        return self.call(cli.main)

    def ncores(self):
        return self.world().blosc.ncores

    def threads_set(self):
        return list(self.world().blosc.threads_set)

    # -------------------------------------------------------------- numpy
    def dtype(self, name, itemsize, **k):
        return self.world().numpy._register(stubs.SymDtype(name, itemsize, **k))

    def array(self, name, dtype, count, layout='C'):
        """An array of `count` items; layout C, F, both, strided or 0d."""
        np = self.world().numpy
        if layout == '0d':
            return stubs.SymArray(np, dtype, (), 1, order='both', name=name)
        if layout == 'both':
            return stubs.SymArray(np, dtype, (count,), count, order='both', name=name)
        shape = (self.E.int(name + '_rows', 2, 2 ** 40), self.E.int(name + '_cols', 2, 2 ** 40))
        self.E.notes.setdefault('_sizes', []).append((shape, count))
        if layout in ('C', 'F'):
            return stubs.SymArray(np, dtype, shape, count, order=layout, name=name)
        return stubs.SymArray(np, dtype, shape, count, order='none', contiguous=False, name=name)

    def array_bytes(self, a, order):
        """The elements of an array in this order; None if some were never set."""
        if a.new:
            if self.truth(a.nbytes == 0):
                return b''
            return a.held() if a.order in (order, 'both') else None
        return a.content(order)

    def array_order(self, a):
        return 'F' if a.order == 'F' else 'C'
