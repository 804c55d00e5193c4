"""The bloscpack format and its rules, written from the documentation
(README 'Format'), independently of the implementation."""

MAXBUF = 2 ** 31 - 1 - 16
MAXCHUNKS = 2 ** 63 - 1
MAXMETA = 2 ** 32 - 1
MAXAPP = 2 ** 20       # preallocated offsets considered when files are written
CKS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
CKSIZE = dict(zip(CKS, [0, 4, 4, 16, 20, 28, 32, 48, 64]))
CODECS = ['None', 'zlib']
CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']
NORMAL, VERBOSE, DEBUG = 'NORMAL', 'VERBOSE', 'DEBUG'


def header(H, offsets, metadata, ck, typesize, chunk_size, last, nchunks, max_app, version=3):
    """The 32 header bytes."""
    return H.concat([b'blpk', H.le(version, 1), bytes([(1 if offsets else 0) | (2 if metadata else 0)]),
                     bytes([CKS.index(ck)]), H.le(typesize, 1), H.le(chunk_size, 4, True),
                     H.le(last, 4, True), H.le(nchunks, 8, True), H.le(max_app, 8, True)])


class Head(object):
    """The header fields of a file."""

    def __init__(self, H, f):
        u = lambda o, w, s=False: H.u(f, o, w, s)
        self.magic = H.cut(f, 0, 4)
        self.version, self.options, self.ck, self.typesize = u(4, 1), u(5, 1), u(6, 1), u(7, 1)
        self.chunk_size, self.last = u(8, 4, True), u(12, 4, True)
        self.nchunks, self.max_app = u(16, 8, True), u(24, 8, True)


def check_meta(H, f, pos, meta, magic=b'JSON', ck='adler32', codec='zlib', level=6, limit=None,
               label='metadata section'):
    """Check the metadata section at pos; returns (its end, max_meta_size)."""
    u = lambda o, w: H.u(f, pos + o, w)
    H.check(H.len(f) >= pos + 32, label + ' header present')
    H.check(H.eq(H.cut(f, pos, pos + 8), magic + b'\0' * (8 - len(magic))), label + ': magic format')
    H.check(u(8, 1) == 0, label + ': options zero')
    H.check(u(9, 1) == CKS.index(ck), label + ': checksum id')
    cid, lev = u(10, 1), u(11, 1)
    size, maxsize, comp = u(12, 4), u(16, 4), u(20, 4)
    H.check(H.eq(H.cut(f, pos + 24, pos + 32), b'\0' * 8), label + ': user codec zero')
    H.check(H.And(comp <= maxsize, comp <= size), label + ': sizes ordered')
    end = pos + 32 + maxsize + CKSIZE[ck]
    H.check(H.len(f) >= end, label + ' inside the file')
    raw = H.cut(f, pos + 32, pos + 32 + comp)
    if codec == 'zlib' and H.truth(cid == 1):
        plain = H.inflate(raw)
        H.check(lev == level, label + ': level as requested')
        want = H.deflate_len(plain, level)
        H.check(comp == want, label + ': compressed with the requested level')
    else:
        H.check(cid == 0, label + ': codec id')
        H.check(lev == 0, label + ': level zero without codec')
        plain = raw
        H.check(comp == size, label + ': stored size without codec')
        if codec == 'zlib':
            H.check(H.deflate_len(plain, level) >= size, label + ': stored plain only if not smaller')
    H.check(H.len(plain) == size, label + ': size field')
    if limit is not None:
        H.check(maxsize == (limit(size) if callable(limit) else limit), label + ': preallocated size')
    H.check(H.same(H.json_loads(plain), meta), label + ': content')
    H.check(H.eq(H.cut(f, pos + 32 + comp, pos + 32 + maxsize), H.repeat(b'\0', maxsize - comp)),
            label + ': zero padding')
    H.check(H.eq(H.cut(f, pos + 32 + maxsize, end), H.digest(ck, raw)), label + ': digest')
    return end, maxsize


def check_file(H, f, plain, chunk_size, offsets, ck, typesize, max_app, meta=None, metaspec=None,
               nchunks=None, label='file', has_meta=None, section=None):
    """f is byte for byte the documented file for plain; returns the number of chunks.

    chunk_size is the size the data is to be cut in (already reduced to the
    data's length).  max_app: value or function of the number of chunks."""
    if section is not None:
        has_meta = True
    has_meta = meta is not None if has_meta is None else has_meta
    n = H.len(plain)
    H.check(H.len(f) >= 32, label + ': header present')
    h = Head(H, f)
    if H.truth(n == 0) and (nchunks is None or nchunks == 1):
        cs, nch, last = 0, 1, 0
    else:
        cs = chunk_size
        nch = h.nchunks
        last = n - (nch - 1) * cs
        H.check(nch >= 1, label + ': at least one chunk')
        nch = count(H, nch)
        last = n - (nch - 1) * cs
        H.check(H.And(last > 0, last <= cs), label + ': chunk count')
    if nchunks is not None:
        H.check(nch == nchunks, label + ': expected chunk count')
    app = (max_app(nch) if callable(max_app) else max_app) if offsets else 0
    app = H.If(nch + app > MAXCHUNKS, MAXCHUNKS - nch, app)
    H.check(H.eq(H.cut(f, 0, 32), header(H, offsets, has_meta, ck, typesize, cs, last, nch, app)),
            label + ': header')
    pos = 32
    if section is not None:
        pos = 32 + H.len(section)
        H.check(H.len(f) >= pos and H.eq(H.cut(f, 32, pos), section), label + ': metadata section unchanged')
    elif has_meta:
        pos, _ = check_meta(H, f, pos, meta, **(metaspec or {}))
    opos = pos
    if offsets:
        pos = pos + 8 * (nch + app)
        H.check(H.len(f) >= pos, label + ': offsets inside the file')
        H.check(H.eq(H.cut(f, opos + 8 * nch, pos), H.repeat(b'\xff', 8 * app)),
                label + ': unused offsets are -1')
    start = 0
    for i in range(nch):
        if offsets:
            H.check(H.u(f, opos + 8 * i, 8, True) == pos, label + ': offset of each chunk')
        H.check(H.len(f) >= pos + 16, label + ': chunk header present')
        ct = H.u(f, pos + 12, 4)
        size = last if i == nch - 1 else cs
        H.check(H.len(f) >= pos + ct + CKSIZE[ck], label + ': chunk inside the file')
        H.check(H.u(f, pos + 4, 4) == size, label + ': chunk length')
        c = H.cut(f, pos, pos + ct)
        H.check(H.eq(H.unblosc(c), H.cut(plain, start, start + size)), label + ': chunk content')
        H.check(H.eq(H.cut(f, pos + ct, pos + ct + CKSIZE[ck]), H.digest(ck, c)),
                label + ': chunk digest')
        pos = pos + ct + CKSIZE[ck]
        start = start + size
    H.check(H.len(f) == pos, label + ': nothing after the last chunk')
    return nch


def count(H, n):
    """A number of chunks as a plain int."""
    if H.is_plain(n):
        return n
    for _ in H.range(n):
        pass
    return H.fix(n)


def metaspec(p):
    """Metadata arguments for job parameters: (kwargs of MetadataArgs, spec)."""
    return p


def settings(H, cname=None):
    """Arbitrary valid Blosc settings."""
    s = H.int('shuffle', 0, 1)
    return dict(typesize=H.int('typesize', 1, 255), clevel=H.int('clevel', 0, 9),
                shuffle=s, cname=cname or 'blosclz')


def do_pack(H, entry, data, chunk_size, meta=None, bargs=None, pargs=None, margs=None, out='packed.blp'):
    """Pack data through one entry point; returns (result, packed bytes or None)."""
    io = H.bp.file_io
    k = dict(chunk_size=chunk_size, blosc_args=bargs, bloscpack_args=pargs)
    if meta is not None:
        k['metadata'] = meta
    if margs is not None:
        k['metadata_args'] = margs
    if chunk_size is None:
        del k['chunk_size']
    if entry == 'file':
        H.put('plain.dat', data)
        r = H.call(io.pack_file_to_file, 'plain.dat', out, **k)
        return r, (H.get(out) if r.ok else None)
    if entry == 'bytesfile':
        r = H.call(io.pack_bytes_to_file, data, out, **k)
        return r, (H.get(out) if r.ok else None)
    r = H.call(io.pack_bytes_to_bytes, data, **k)
    return r, r.value


def do_unpack(H, entry, packed, out='unpacked.dat'):
    """Unpack through one entry point; returns (result, data, metadata)."""
    io = H.bp.file_io
    if entry == 'file':
        H.put('in.blp', packed)
        r = H.call(io.unpack_file_from_file, 'in.blp', out)
        return r, (H.get(out) if r.ok else None), r.value
    if entry == 'bytesfile':
        H.put('in.blp', packed)
        r = H.call(io.unpack_bytes_from_file, 'in.blp')
    else:
        r = H.call(io.unpack_bytes_from_bytes, packed)
    if not r.ok:
        return r, None, None
    return r, r.value[0], r.value[1]


def min_(H, a, b):
    return H.If(a < b, a, b)


