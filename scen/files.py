"""C08, C09, C10, C13, C14, C15, C27: files on disk, damaged, appended to."""
from .common import *
from .roundtrip import args, meta_args


class File(object):
    """A valid file and what it was made of."""


def make_meta(H, P, f):
    """The bytes of a metadata section."""
    kind = P.get('meta')
    f.meta = {'any': lambda: H.meta('old_m'), 'null': lambda: None, 'empty': lambda: {},
              'numpy': lambda: P['meta_value'], 'dict': lambda: {'k': 'v'}}[kind]()
    ck = P.get('mck', 'adler32')
    raw = H.json_dumps(f.meta)
    f.meta_raw = raw
    body, codec, level = raw, 0, 0
    if P.get('mcodec', 'zlib') == 'zlib':
        level = P.get('mlevel', 6)
        z = H.deflate(raw, level)
        if H.truth(H.len(z) <= H.len(raw)):
            body, codec = z, 1
        else:
            level = 0
    f.meta_body = body
    f.meta_codec, f.meta_level, f.meta_ck = codec, level, ck
    f.meta_max = H.len(body) + H.int('meta_room', 0, P.get('room', 2 ** 16)) if P.get('room', 1) \
        else H.len(body)
    H.assume(H.And(H.len(raw) <= MAXMETA, f.meta_max <= MAXMETA))
    H.prefer(H.And(H.len(raw) < 400, f.meta_max < 600))
    head = H.concat([b'JSON\0\0\0\0', bytes([0, CKS.index(ck), codec, level]), H.le(H.len(raw), 4),
                     H.le(f.meta_max, 4), H.le(H.len(body), 4), b'\0' * 8])
    f.meta_head = head
    return H.concat([head, body, H.repeat(b'\0', f.meta_max - H.len(body)), H.digest(ck, body)])


def make_file(H, P, tag='old'):
    """Any valid file with P['nch'] chunks (0: of an empty input)."""
    f = File()
    f.ck = P.get('ck', 'adler32')
    f.offsets = P.get('offsets', True)
    f.nch = max(1, P['nch'])
    f.typesize = H.int(tag + '_typesize', 1, 255)
    s = dict(typesize=f.typesize, clevel=H.int(tag + '_clevel', 0, 9), shuffle=H.int(tag + '_shuffle', 0, 1))
    if P['nch'] == 0:
        f.cs = f.last = 0
    else:
        f.cs = H.int(tag + '_chunk_size', 1, MAXBUF)
        f.last = H.int(tag + '_last', 1, MAXBUF)
        H.assume(f.last <= f.cs)
        H.prefer(f.cs >= 5000 if P.get("large") else f.cs < 500)
    f.app = 0
    if f.offsets:
        f.app = H.int(tag + '_app', 0, MAXAPP)
        H.prefer(f.app < 50)
        if H.truth(f.app == 0):
            f.app = 0
    f.has_meta = bool(P.get('meta'))
    f.meta = None
    f.section = make_meta(H, P, f) if f.has_meta else b''
    f.data, f.chunks, f.digests, f.pos = [], [], [], []
    f.offsets_pos = 32 + H.len(f.section)
    pos = f.offsets_pos + 8 * (f.nch + f.app) * (1 if f.offsets else 0)
    for i in range(f.nch):
        d = H.bytes('%s%d' % (tag, i), f.last if i == f.nch - 1 else f.cs)
        c = H.blosc(d, **s)
        g = H.digest(f.ck, c)
        f.data.append(d)
        f.chunks.append(c)
        f.digests.append(g)
        f.pos.append(pos)
        pos = pos + H.len(c) + H.len(g)
    f.head = header(H, f.offsets, f.has_meta, f.ck, f.typesize, f.cs, f.last, f.nch, f.app, P.get('version', 3))
    f.offs = H.concat([H.le(p, 8, True) for p in f.pos] + [H.repeat(b'\xff', 8 * f.app)]) if f.offsets else b''
    f.bytes = join(H, f)
    f.plain = H.concat(f.data)
    return f


def join(H, f, head=None, section=None, chunks=None, digests=None):
    cs, gs = chunks or f.chunks, digests or f.digests
    return H.concat([head or f.head, f.section if section is None else section, f.offs] +
                    [x for c, g in zip(cs, gs) for x in (c, g)])


# ------------------------------------------------------------------- C13 C14
def do_append(H, entry, old, new, bargs):
    """Append through one entry point; (result, file afterwards)."""
    if entry == 'append':
        H.put('old.blp', old)
        H.put('new.dat', new)
        r = H.call(H.bp.append.append, 'old.blp', 'new.dat', **({} if bargs is None else dict(blosc_args=bargs)))
        return r, H.get('old.blp')
    o, n = H.memfile(old), H.memfile(new)
    r = H.call(H.bp.append.append_fp, o, n, H.len(new), **({} if bargs is None else dict(blosc_args=bargs)))
    return r, o.getvalue()


def blosc_args(H, kind):
    if kind == 'none':
        return None, {}
    if kind == 'any':
        s = settings(H)
        return H.bp.args.BloscArgs(**s), s
    if kind == 'unset':
        return H.bp.args.BloscArgs(typesize=None, clevel=None, shuffle=None, cname=None), {}
    if kind == 'partial':
        v = H.int('clevel', 0, 9)
        return H.bp.args.BloscArgs(typesize=None, clevel=v, shuffle=None, cname='lz4'), dict(clevel=v, cname='lz4')
    raise KeyError(kind)


def needed(H, f, n):
    """New chunks needed for n bytes: a condition function on a number."""
    room = f.cs - f.last
    return lambda k: H.Or(H.And(k == 0, n <= room),
                          H.And(n > room, (k - 1) * f.cs < n - room, n - room <= k * f.cs))


def append(H):
    """C13: a valid file stays valid; C14: not enough space."""
    P = H.params
    f = make_file(H, P)
    n = H.int('n', 0)
    if P['nch'] == 0:
        H.assume(n == 0)
    H.prefer(n < 1500)
    new = H.bytes('new', n)
    bargs, s = blosc_args(H, P.get('bargs', 'any'))
    H.clear_compressed()
    r, after = do_append(H, P['entry'], f.bytes, new, bargs)
    fits = n - (f.cs - f.last) <= f.app * f.cs
    if not r.ok:
        H.check(r.is_a('NotEnoughSpace'), 'append succeeds', r.kind)
        H.check(H.Not(fits), 'space is refused only if it is missing')
        H.check(H.eq(after, f.bytes), 'a refused append leaves the file alone')
        return
    H.check(fits, 'missing space is refused')
    added = check_appended(H, f, after, new)
    if P['entry'] == 'append_fp':
        H.check(r.value == added, 'number of new chunks is returned')
    # and it unpacks
    if P.get('unpack'):
        H.restart()
        r, back, m = do_unpack(H, P['unpack'], after)
        H.check(r.ok and H.eq(back, H.concat([f.plain, new])), 'unpacks to old and new content', r.kind)
        if f.has_meta:
            H.check(f.meta is None or H.same(m, f.meta), 'metadata unchanged')
    H.outcome(added)


def check_appended(H, f, after, new, label='appended file'):
    """after is the valid file of f.plain + new; returns the chunks added."""
    H.check(H.len(after) >= 32, label + ': header present')
    h = Head(H, after)
    H.check(h.nchunks >= f.nch, label + ': chunk count does not shrink')
    added = count(H, h.nchunks - f.nch)
    H.check(needed(H, f, H.len(new))(added), label + ': number of chunks')
    nch = check_file(H, after, H.concat([f.plain, new]), f.cs, f.offsets, f.ck, f.typesize,
                     f.app - added, section=f.section if f.has_meta else None,
                     nchunks=f.nch + added, label=label)
    return added


def append_twice(H):
    """C13: a history of two appends."""
    P = H.params
    f = make_file(H, P)
    n, m = H.int('n', 0), H.int('m', 0)
    H.prefer(n < 900)
    H.prefer(m < 900)
    new1, new2 = H.bytes('new1', n), H.bytes('new2', m)
    H.assume(n + m - (f.cs - f.last) <= f.app * f.cs)
    H.put('old.blp', f.bytes)
    H.put('a.dat', new1)
    H.put('b.dat', new2)
    bargs = H.bp.args.BloscArgs(clevel=3)
    r = H.call(H.bp.append.append, 'old.blp', 'a.dat', bargs)
    H.check(r.ok, 'append succeeds', r.kind)
    if P.get('restart'):
        H.restart()
        bargs = None
    r = H.call(H.bp.append.append, 'old.blp', 'b.dat', bargs)
    H.check(r.ok, 'second append succeeds', r.kind)
    check_appended(H, f, H.get('old.blp'), H.concat([new1, new2]))


def append_packed(H):
    """C13: append to what pack wrote."""
    P = H.params
    n, m = H.int('n', 1), H.int('m', 0)
    H.prefer(H.And(n < 900, m < 900))
    cs = H.int('chunk_size', 1, MAXBUF)
    app = H.int('app', 0, MAXAPP)
    H.prefer(app < 30)
    data, new = H.bytes('data', n), H.bytes('new', m)
    a = H.bp.args
    H.put('plain.dat', data)
    meta = H.meta('m') if P.get('meta') else None
    r = H.call(H.bp.file_io.pack_file_to_file, 'plain.dat', 'old.blp', cs, metadata=meta,
               bloscpack_args=a.BloscpackArgs(checksum=P.get('ck', 'adler32'), max_app_chunks=app))
    if not r.ok:
        H.check(meta is not None and r.is_a('ValueError'), 'packing succeeds', r.kind)
        return
    H.put('new.dat', new)
    before = H.get('old.blp')
    r = H.call(H.bp.append.append, 'old.blp', 'new.dat')
    eff = min_(H, cs, n)
    if not r.ok:
        H.check(r.is_a('NotEnoughSpace'), 'append succeeds', r.kind)
        H.check(H.eq(H.get('old.blp'), before), 'a refused append leaves the file alone')
        return
    r, back, mm = do_unpack(H, 'bytesfile', H.get('old.blp'))
    H.check(r.ok and H.eq(back, H.concat([data, new])), 'unpacks to old and new content', r.kind)


def append_refused(H):
    """C14"""
    P = H.params
    kind = P['kind']
    p = dict(P)
    if kind == 'no offsets':
        p['offsets'] = False
    if kind == 'version':
        v = H.int('version', 0, 255)
        H.assume(v != 3)
        p['version'] = v
    f = make_file(H, p)
    n = H.int('n', 0)
    H.prefer(n < 500)
    new = H.bytes('new', n)
    old = f.bytes
    bargs = None
    A = H.bp.args.BloscArgs
    want = ()
    if kind == 'clevel':
        v = H.int('clevel')
        H.assume(H.Or(v < 0, v > 9))
        bargs = A(clevel=v)
    elif kind == 'typesize':
        v = H.int('typesize')
        H.assume(H.Or(v < 1, v > 255))
        bargs = A(typesize=v)
    elif kind == 'shuffle':
        v = H.int('shuffle')
        H.assume(H.Or(v < 0, v > 2))
        bargs = A(shuffle=v)
    elif kind == 'cname':
        v = H.name('cname')
        H.assume(H.And(*[v != c for c in CNAMES]))
        bargs = A(cname=v)
    elif kind == 'missing':
        k = H.pick('key', ['typesize', 'clevel', 'shuffle', 'cname'])
        bargs = {q: A()[q] for q in A() if q != k}
    elif kind == 'extra':
        bargs = dict(A())
        bargs['nthreads'] = 1
        want = ('ValueError',)
    elif kind == 'magic':
        m = H.raw('magic', 4)
        H.assume(H.Not(H.eq(m, b'blpk')))
        old = join(H, f, H.concat([m, f.head[4:]]))
        want = ('ValueError',)
    elif kind == 'version':
        want = ('FormatVersionMismatch',)
    elif kind == 'no offsets':
        want = ('RuntimeError',)
    elif kind == 'meta digest':
        H.distinct_digests()
        k = CKSIZE[f.meta_ck]
        L = H.len(f.section)
        bad = H.altered('bad', H.cut(f.section, L - k, L))
        old = join(H, f, section=H.concat([H.cut(f.section, 0, L - k), bad]))
        want = ('ChecksumMismatch',)
    elif kind == 'space':
        H.assume(n - (f.cs - f.last) > f.app * f.cs)
        want = ('NotEnoughSpace',)
    elif kind == 'cut':
        t = H.int('t', 0)
        H.assume(t < H.len(old))
        old = H.cut(old, 0, t)
    r, after = do_append(H, P['entry'], old, new, bargs)
    H.check(not r.ok, 'refused')
    H.check(not want or r.is_a(*want), 'refused with the documented exception', r.kind)
    H.check(H.eq(after, old), 'a refused append leaves the file alone')


def append_empty_file(H):
    """C14: a file of a zero-length input has no chunk size to append with."""
    P = H.params
    f = make_file(H, dict(P, nch=0))
    n = H.int('n', 1)
    H.prefer(n < 500)
    r, after = do_append(H, P['entry'], f.bytes, H.bytes('new', n), None)
    if r.ok:
        # an implementation may well support it
        r, back, m = do_unpack(H, 'bytesfile', after)
        H.check(r.ok and H.eq(back, H.bytes('new', n)), 'unpacks to the new content', r.kind)
    else:
        H.check(H.eq(after, f.bytes), 'a refused append leaves the file alone')


def append_damaged(H):
    """C15"""
    P = H.params
    H.distinct_digests()
    f = make_file(H, P)
    i = f.nch - 1
    c = f.chunks[i]
    L = H.len(c)
    chunks, digests = list(f.chunks), list(f.digests)
    where = P['where']
    if where == 'payload':
        H.assume(L > 16)
        chunks[i] = H.concat([H.cut(c, 0, 16), H.altered('bad', H.cut(c, 16, L))])
    elif where == 'digest':
        digests[i] = H.altered('bad', digests[i])
    elif where == 'header':
        # flags, typesize, sizes: anything but the compressed size
        chunks[i] = H.concat([H.altered('bad', H.cut(c, 0, 12)), H.cut(c, 12, L)])
    elif where == 'size':
        chunks[i] = H.concat([H.cut(c, 0, 12), H.altered('bad', H.cut(c, 12, 16)), H.cut(c, 16, L)])
    elif where == 'missing digest':
        k = H.int('k', 1, CKSIZE[f.ck])
        digests[i] = H.cut(digests[i], 0, CKSIZE[f.ck] - k)
    old = join(H, f, chunks=chunks, digests=digests)
    n = H.int('n', 0)
    H.prefer(n < 600)
    bargs, s = blosc_args(H, P.get('bargs', 'none'))
    r, after = do_append(H, P['entry'], old, H.bytes('new', n), bargs)
    H.check(not r.ok, 'appending to a damaged chunk is refused')
    if where != 'size':
        fits = n - (f.cs - f.last) <= f.app * f.cs
        H.check(r.is_a('ChecksumMismatch') or H.And(r.is_a('NotEnoughSpace'), H.Not(fits)),
                'refused with ChecksumMismatch', r.kind)
    H.check(H.eq(after, old), 'a refused append leaves the file alone')


# ------------------------------------------------------------------- C09 C10
def reader(H, entry, packed):
    """Read through one entry point: (result, delivered data or None)."""
    io = H.bp.file_io
    if entry == 'file':
        H.put('in.blp', packed)
        r = H.call(io.unpack_file_from_file, 'in.blp', 'out.dat')
        return r, H.get('out.dat')
    if entry == 'bytesfile':
        H.put('in.blp', packed)
        r = H.call(io.unpack_bytes_from_file, 'in.blp')
    else:
        r = H.call(io.unpack_bytes_from_bytes, packed)
    return r, (r.value[0] if r.ok else None)


def damaged(H):
    """C09: chunk k does not match its digest."""
    P = H.params
    H.distinct_digests()
    f = make_file(H, P)
    k = P['k']
    where = P['where']
    chunks, digests, section = list(f.chunks), list(f.digests), None
    good = f.data[:k]
    if where == 'payload':
        c, L = chunks[k], H.len(chunks[k])
        H.assume(L > 16)
        chunks[k] = H.concat([H.cut(c, 0, 16), H.altered('bad', H.cut(c, 16, L))])
    elif where == 'header':
        c, L = chunks[k], H.len(chunks[k])
        chunks[k] = H.concat([H.altered('bad', H.cut(c, 0, 12)), H.cut(c, 12, L)])
    elif where == 'size':
        c, L = chunks[k], H.len(chunks[k])
        chunks[k] = H.concat([H.cut(c, 0, 12), H.altered('bad', H.cut(c, 12, 16)), H.cut(c, 16, L)])
    elif where == 'digest':
        digests[k] = H.altered('bad', digests[k])
    elif where == 'swap':
        # the digests of two chunks exchanged
        H.assume(H.Not(H.eq(chunks[k], chunks[k + 1])))
        digests[k], digests[k + 1] = digests[k + 1], digests[k]
    else:
        good = []
        L, g = H.len(f.section), CKSIZE[f.meta_ck]
        b = H.len(f.meta_body)
        if where == 'meta body':
            section = H.concat([H.cut(f.section, 0, 32), H.altered('bad', f.meta_body),
                                H.cut(f.section, 32 + b, L)])
        else:
            section = H.concat([H.cut(f.section, 0, L - g), H.altered('bad', H.cut(f.section, L - g, L))])
    packed = join(H, f, chunks=chunks, digests=digests, section=section)
    r, out = reader(H, P['entry'], packed)
    H.check(not r.ok, 'damage is reported')
    if where != 'size':
        H.check(r.is_a('ChecksumMismatch'), 'damage is reported as ChecksumMismatch', r.kind)
    H.check(out is None or H.eq(out, H.concat(good)), 'nothing is delivered from the damaged chunk on')


def undamaged(H):
    """C09: intact files are not refused."""
    P = H.params
    f = make_file(H, P)
    r, out = reader(H, P['entry'], f.bytes)
    H.check(r.ok, 'an intact file is unpacked', r.kind)
    H.check(H.eq(out, f.plain), 'content')
    H.outcome(H.len(out))


def truncated(H):
    """C10"""
    P = H.params
    f = make_file(H, P)
    t = H.int('t', 0)
    H.assume(t < H.len(f.bytes))
    r, out = reader(H, P['entry'], H.cut(f.bytes, 0, t))
    H.check(not r.ok, 'a cut file is refused')


# ----------------------------------------------------------------------- C27
def read_ops(H, op, b):
    """Run one reading operation on a file with these bytes."""
    bp = H.bp
    H.put('in.blp', b)
    if op == 'unpack':
        return H.call(bp.file_io.unpack_file_from_file, 'in.blp', 'out.dat')
    if op == 'bytesfile':
        return H.call(bp.file_io.unpack_bytes_from_file, 'in.blp')
    if op == 'bytes':
        return H.call(bp.file_io.unpack_bytes_from_bytes, b)
    if op == 'ndarray':
        return H.call(bp.numpy_io.unpack_ndarray_from_file, 'in.blp')
    if op == 'ndarraybytes':
        return H.call(bp.numpy_io.unpack_ndarray_from_bytes, b)
    if op == 'append':
        H.put('new.dat', H.bytes('new', H.int('n', 0, 2 ** 40)))
        return H.call(bp.append.append, 'in.blp', 'new.dat')
    if op == 'seek':
        with H.openfile('in.blp', 'r+b') as fp:
            return H.call(bp.append._seek_to_metadata, fp)
    if op == 'beginning':
        with H.openfile('in.blp', 'rb') as fp:
            return H.call(bp.file_io._read_beginning, fp)
    if op == 'source':
        with H.openfile('in.blp', 'rb') as fp:
            return H.call(bp.file_io.CompressedFPSource, fp)
    if op == 'cli info':
        return H.cli(['info', 'in.blp'])
    if op == 'cli decompress':
        return H.cli(['decompress', 'in.blp', 'out.dat'])
    if op == 'cli append':
        H.put('new.dat', H.bytes('new', H.int('n', 0, 2 ** 40)))
        return H.cli(['append', 'in.blp', 'new.dat'])
    raise KeyError(op)


def version(H):
    P = H.params
    if P['kind'] == 'version':
        v = H.int('version', 0, 255)
        H.assume(v != 3)
        f = make_file(H, dict(P, version=v))
        b = f.bytes
        want = 'FormatVersionMismatch'
    else:
        f = make_file(H, P)
        m = H.raw('magic', 4)
        H.assume(H.Not(H.eq(m, b'blpk')))
        b = join(H, f, H.concat([m, f.head[4:]]))
        want = 'ValueError'
    H.clear_output()
    r = read_ops(H, P['op'], b)
    if P['op'].startswith('cli'):
        H.check(r.is_a('SystemExit') and r.exit_code == 1, 'exits with status 1', r.kind)
        H.check('error: ' in H.stdout() + H.stderr(), 'error message')
    else:
        H.check(r.is_a(want), 'refused', r.kind)
    H.check(H.eq(H.get('in.blp'), b), 'the file is unchanged')
    out = H.get('out.dat')
    H.check(out is None or H.len(out) == 0, 'no data is delivered')
    H.check(len(H.decompressed()) == 0, 'nothing is decompressed')


# ----------------------------------------------------------------------- C08
def interrupted(H):
    """C08: packing stops at any read, compression or write."""
    P = H.params
    n = H.int('n', 0)
    cs = H.int('chunk_size', 1, MAXBUF)
    H.prefer(n < 400)
    data = H.bytes('data', n)
    bargs, pargs, s, app = args(H, P)
    meta, margs, spec = meta_args(H, P)
    at = H.int('at', 0, 2 ** 24)
    H.prefer(at < 40)
    H.put('plain.dat', data)
    ctl = H.faults(at, torn=P.get('torn', False), kinds=P.get('kinds', ('read', 'write', 'compress')))
    io = H.bp.file_io
    k = dict(chunk_size=cs, blosc_args=bargs, bloscpack_args=pargs)
    if meta is not None:
        k['metadata'] = meta
    if P['pack'] == 'file':
        r = H.call(io.pack_file_to_file, 'plain.dat', 'packed.blp', **k)
    else:
        r = H.call(io.pack_bytes_to_file, data, 'packed.blp', **k)
    H.no_faults()
    f = H.get('packed.blp')
    if ctl.fired is None:
        H.assume(meta is None or r.ok)
        H.check(r.ok, 'packing succeeds without a fault', r.kind)
        check_offsets(H, f, P, n, cs, app)
        return
    H.check(not r.ok, 'a failed operation is reported')
    if f is None or not P.get('offsets', True):
        return
    pos = 32
    if H.truth(H.len(f) <= pos):
        return
    if meta is not None:
        if H.truth(H.len(f) < pos + 32):
            return
        pos = pos + 32 + H.u(f, pos + 16, 4) + CKSIZE['adler32']
    h = Head(H, f)
    end = min_(H, H.len(f), pos + 8 * (h.nchunks + h.max_app))
    if H.truth(end <= pos):
        return
    done = H.total([H.len(c['out']) + CKSIZE[P.get('ck', 'adler32')] for c in H.compressed()])
    if H.truth(H.len(f) >= pos + 8 * (h.nchunks + h.max_app) + done) and len(H.compressed()) == count(H, h.nchunks):
        # all chunks are there: only the writing of the offsets itself is missing
        return
    H.check(H.eq(H.cut(f, pos, end), H.repeat(b'\xff', end - pos)), 'offsets of an unfinished file are -1')


def check_offsets(H, f, P, n, cs, app):
    """Every offset points at its chunk, the others are -1."""
    h = Head(H, f)
    if not P.get('offsets', True):
        H.check(h.options % 2 == 0, 'no offsets flagged')
        return
    pos = 32
    if P.get('meta'):
        pos = pos + 32 + H.u(f, pos + 16, 4) + CKSIZE['adler32']
    nch = count(H, h.nchunks)
    want = pos + 8 * (nch + h.max_app)
    for i in range(nch):
        H.check(H.u(f, pos + 8 * i, 8, True) == want, 'offset of each chunk')
        want = want + H.u(f, want + 12, 4) + CKSIZE[P.get('ck', 'adler32')]
    H.check(want == H.len(f), 'chunks end at the end of the file')
    H.check(H.eq(H.cut(f, pos + 8 * nch, pos + 8 * (nch + h.max_app)), H.repeat(b'\xff', 8 * h.max_app)),
            'unused offsets are -1')
