"""Symbolic files.  Writes take effect immediately and in order (no buffering,
no reordering); a file is a rope plus a symbolic position."""
import errno
import io as real_io

import z3

from . import core
from .core import SymInt, SymBool, And, Or, Not, mk, mkb, iexpr, Abort, Unsupported
from .rope import SymBytes, RSeg, CSeg, split_at, as_segs, total, norm
from .text import SymText, parts, StrVar, has_token


class FileData(object):
    """A file's bytes: `head`, then what is left of `tail` after dropping
    `drop` bytes.  The tail is what an overwrite in the middle has left behind;
    where exactly it starts is only worked out when somebody looks."""

    def __init__(self, content=b''):
        self.content = SymBytes.of(content)
        self.writes = 0

    @property
    def content(self):
        if self.tail is not None:
            t, d = self.tail, self.drop
            self.tail = None
            if d < total(t):
                _, rest = split_at(t, d)
                self.head = SymBytes(self.head.segs + rest)
        return self.head

    @content.setter
    def content(self, c):
        self.head, self.tail, self.drop = c, None, 0

    def size(self):
        n = self.head.sx_len()
        if self.tail is None:
            return n
        left = total(self.tail) - self.drop
        e = iexpr(left)
        return n + mk(z3.If(e > 0, e, 0))

    def inside(self, end):
        """Is this position certainly not beyond the head?"""
        return self.tail is None or core.ENGINE.entails(mkb(iexpr(end) <= iexpr(self.head.sx_len())))


class Fault(OSError):
    """Injected I/O failure."""


class FaultPlan(object):
    """Makes the n-th counted operation fail, for a symbolic n."""

    def __init__(self, at, torn=False):
        self.at, self.count, self.torn = at, 0, torn
        self.fired = None

    def hit(self, what):
        if self.fired is not None:
            return False
        here = self.count
        self.count += 1
        if self.at == here:
            self.fired = (what, here)
            return True
        return False


class SymFile(object):
    """A binary file object over FileData."""

    def __init__(self, fs, data, mode='r+b', name=None, pos=0):
        self.fs, self.data, self.mode, self.name = fs, data, mode, name
        self.pos = pos
        self.closed = False
        self.can_write = any(c in mode for c in 'wa+x')
        self.can_read = 'r' in mode or '+' in mode
        self.appending = 'a' in mode
        self.log = []

    # ---- helpers
    def size(self):
        return self.data.size()

    def _open(self):
        core.ENGINE.check_alive()
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    # ---- reading
    def read(self, n=-1):
        self._open()
        if not self.can_read:
            raise real_io.UnsupportedOperation('not readable')
        if self.fs is not None and self.fs.faults is not None and self.fs.faults.hit('read'):
            raise Fault(errno.EIO, 'injected read failure')
        size = self.size()
        if n is None or (isinstance(n, int) and n < 0) or (isinstance(n, SymInt) and n < 0):
            end = size
        else:
            end = self.pos + n
            if end > size:
                end = size
        start = self.pos
        if start >= end:
            return b''
        out = (self.data.head if self.data.inside(end) else self.data.content).slice(start, end)
        self.pos = end
        return out

    read1 = read

    def readinto(self, buf):
        raise Unsupported('readinto')

    def readall(self):
        return self.read(-1)

    def __iter__(self):
        raise Unsupported('line iteration')

    # ---- writing
    def write(self, b):
        self._open()
        if not self.can_write:
            raise real_io.UnsupportedOperation('not writable')
        segs = as_segs(b)
        if segs is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        fs = self.fs
        if fs is not None and fs.faults is not None and fs.faults.hit('write'):
            if fs.faults.torn:
                n = total(segs)
                k = core.ENGINE.hidden_int('torn', 0, n)
                head, _ = split_at(segs, k)
                self._put(head)
            raise Fault(errno.ENOSPC, 'injected write failure')
        self._put(segs)
        return total(segs)

    def _put(self, segs):
        n = total(segs)
        if isinstance(n, int) and n == 0:
            return
        self.data.writes += 1
        D = self.data
        end = self.pos + n
        hs = D.head.sx_len()
        if not self.appending and D.tail is not None and \
                core.ENGINE.entails(mkb(iexpr(self.pos) == iexpr(hs))):
            # overwriting on
            D.head = SymBytes(D.head.segs + segs)
            D.drop = D.drop + n
            self.pos = end
            return
        if not self.appending and D.inside(end) and core.ENGINE.entails(mkb(iexpr(end) <= iexpr(hs))):
            head, rest = split_at(D.head.segs, self.pos)
            _, after = split_at(rest, n)
            D.head = SymBytes(head + segs + after)
            self.pos = end
            return
        cur = D.content.segs
        size = D.head.sx_len()
        pos = size if self.appending else self.pos
        if pos is size or pos == size:
            D.content = SymBytes(cur + segs)
        elif pos > size:
            D.content = SymBytes(cur + [RSeg(0, pos - size)] + segs)
        else:
            head, rest = split_at(cur, pos)
            D.content = SymBytes(head + segs)
            D.tail, D.drop = rest, n
        self.pos = pos + n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    # ---- position
    def tell(self):
        self._open()
        return self.pos

    def seek(self, off, whence=0):
        self._open()
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos + off
        elif whence == 2:
            p = self.size() + off
        else:
            raise ValueError('invalid whence')
        if p < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = p
        return p

    def truncate(self, n=None):
        self._open()
        if not self.can_write:
            raise real_io.UnsupportedOperation('not writable')
        if n is None:
            n = self.pos
        D = self.data
        if D.tail is not None and D.inside(n):
            D.tail = None
        cur = D.content
        size = cur.sx_len()
        if n >= size:
            if n > size:
                D.content = SymBytes(cur.segs + [RSeg(0, n - size)])
        else:
            head, _ = split_at(cur.segs, n)
            D.content = SymBytes(head)
        self.data.writes += 1
        return n

    def flush(self):
        pass

    def fileno(self):
        return 99

    def isatty(self):
        return False

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def close(self):
        if not self.closed and self.fs is not None and self in self.fs.open_files:
            self.fs.open_files.remove(self)
        self.closed = True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        pass


class SymBytesIO(SymFile):
    def __init__(self, initial=b''):
        if initial is None:
            initial = b''
        if as_segs(initial) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(initial).__name__)
        SymFile.__init__(self, FS_NONE, FileData(initial), 'r+b')

    def getvalue(self):
        self._open()
        return self.data.content.simplified()

    def getbuffer(self):
        return self.data.content


class _NoFaults(object):
    faults = None
    open_files = ()


FS_NONE = _NoFaults()


class TextFile(object):
    """Text-mode file with opaque or literal content."""

    def __init__(self, data, mode):
        self.data, self.mode, self.closed = data, mode, False

    def read(self, n=-1):
        c = self.data.content
        if isinstance(c, SymBytes):
            b = c.simplified()
            return b.decode() if isinstance(b, bytes) else c.decode()
        return c

    def write(self, s):
        raise Unsupported('text file write')

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class SymFS(object):
    """Paths -> FileData.  `strict` file systems know exactly which files
    exist; otherwise existence of an unknown path is a free boolean."""

    def __init__(self):
        self.files = []            # [(path, FileData or None)]
        self.faults = None
        self.open_files = []
        self.opened = []           # (path, mode) log
        self.removed = []
        self.exists_fn = None      # for symbolic existence: path -> SymBool

    def same_path(self, a, b):
        if a is b:
            return True
        if not isinstance(a, SymText) and not isinstance(b, SymText):
            return str(a) == str(b)
        return bool(a == b)

    def lookup(self, path):
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        if isinstance(path, SymFile):
            raise TypeError('path')
        if isinstance(path, str) and str.__eq__(path, ''):
            return -1
        for i, (p, d) in enumerate(self.files):
            if self.same_path(p, path):
                return i
        if self.exists_fn is not None:
            e = self.exists_fn(path)
            if e:
                d = FileData(SymBytes.blob('old_%d' % len(self.files),
                                           core.ENGINE.hidden_int('oldlen', 0)))
            else:
                d = None
            self.files.append((path, d))
            return len(self.files) - 1
        self.files.append((path, None))
        return len(self.files) - 1

    def get(self, path):
        i = self.lookup(path)
        return None if i < 0 else self.files[i][1]

    def set(self, path, content):
        i = self.lookup(path)
        d = FileData(content)
        self.files[i] = (path, d)
        return d

    def open(self, path, mode='r', *a, **k):
        core.ENGINE.check_alive()
        if isinstance(path, int):
            raise Unsupported('open of a file descriptor')
        mode = k.get('mode', mode)
        i = self.lookup(path)
        if i < 0:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', '')
        p, d = self.files[i]
        self.opened.append((path, mode))
        base = mode.replace('b', '').replace('t', '')
        if base[0] == 'r':
            if d is None:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(path))
        elif base[0] == 'x':
            if d is not None:
                raise FileExistsError(errno.EEXIST, 'File exists', str(path))
            d = FileData()
        elif base[0] == 'w':
            if d is None:
                d = FileData()
            else:
                d.content = SymBytes.of(b'')
                d.writes += 1
        elif base[0] == 'a':
            if d is None:
                d = FileData()
        self.files[i] = (p, d)
        if 'b' not in mode:
            return TextFile(d, mode)
        f = SymFile(self, d, mode, path)
        self.open_files.append(f)
        return f

    # ---- os / os.path
    def exists(self, path):
        return self.get(path) is not None

    def getsize(self, path):
        d = self.get(path)
        if d is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(path))
        return d.size()

    def remove(self, path):
        i = self.lookup(path)
        if i < 0 or self.files[i][1] is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(path))
        self.files[i] = (self.files[i][0], None)
        self.removed.append(path)

    def rename(self, a, b):
        i, j = self.lookup(a), self.lookup(b)
        if i < 0 or j < 0 or self.files[i][1] is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(a))
        if i == j:
            return
        self.files[j] = (self.files[j][0], self.files[i][1])
        self.files[i] = (self.files[i][0], None)
        self.removed.append(b)
