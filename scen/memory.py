"""C02: in-memory sources and sinks."""
from .common import *
from .roundtrip import args, meta_args


def data_chunks(H, P):
    """The chunks to pack: (chunks, chunk size, size of the last)."""
    nch = P['nch']
    last = H.int('last', 0 if nch == 1 else 1, MAXBUF)
    if nch == 1:
        cs = last
    else:
        cs = H.int('chunk_size', 1, MAXBUF)
        H.assume(last <= cs)
    H.prefer(cs < 400)
    return [H.bytes('data%d' % i, last if i == nch - 1 else cs) for i in range(nch)], cs, last


def pack_memory(H, P):
    m = H.bp.memory_io
    chunks, cs, last = data_chunks(H, P)
    bargs, pargs, s, app = args(H, P)
    meta, margs, spec = meta_args(H, P)
    sink = m.CompressedMemorySink()
    r = H.call(H.bp.abstract_io.pack, m.PlainMemorySource(chunks), sink, len(chunks), cs, last,
               metadata=meta, blosc_args=bargs, bloscpack_args=pargs, metadata_args=margs)
    H.check(r.ok, 'packing into memory succeeds', r.kind)
    return chunks, cs, last, meta, s, sink


def roundtrip(H):
    P = H.params
    m = H.bp.memory_io
    ck = P.get('ck', 'adler32')
    chunks, cs, last, meta, s, sink = pack_memory(H, P)
    n = len(chunks)
    H.check(len(sink.chunks) == n, 'one compressed chunk per chunk')
    for i in range(n):
        H.check(H.eq(H.unblosc(sink.chunks[i]), chunks[i]), 'compressed chunk holds its chunk')
        if ck != 'None':
            H.check(H.eq(sink.checksums[i], H.digest(ck, sink.chunks[i])), 'digest of each chunk')
    # the caller's list is still what it was
    source = m.CompressedMemorySource(sink)
    H.check(source.metadata is None if meta is None else H.same(source.metadata, meta), 'metadata is kept')
    H.check(source.nchunks == n, 'number of chunks is kept')
    for preset in (False, True):
        out = m.PlainMemorySink(n) if preset else m.PlainMemorySink()
        r = H.call(H.bp.abstract_io.unpack, m.CompressedMemorySource(sink), out)
        H.check(r.ok, 'unpacking from memory succeeds', r.kind)
        H.check(len(out.chunks) == n, 'same number of chunks')
        for i in range(n):
            H.check(out.chunks[i] is not None and H.eq(out.chunks[i], chunks[i]), 'same chunks, same order')
    H.outcome(n, H.len(chunks[-1]))


def agree(H):
    """The chunks in memory are those of a packed file."""
    P = H.params
    ck = P.get('ck', 'adler32')
    m = H.bp.memory_io
    chunks, cs, last, meta, s, sink = pack_memory(H, P)
    bargs, pargs, s2, app = args(H, P)
    meta2, margs, spec = meta_args(H, P)
    n = len(chunks)
    if P.get('via') == 'sink':
        fp = H.memfile(b'')
        r = H.call(H.bp.abstract_io.pack, m.PlainMemorySource(chunks), H.bp.file_io.CompressedFPSink(fp),
                   n, cs, last, metadata=meta2, blosc_args=bargs, bloscpack_args=pargs, metadata_args=margs)
        f = fp.getvalue()
    else:
        r, f = do_pack(H, 'bytesfile', H.concat(chunks), cs if n > 1 else 1 if not H.truth(cs > 0) else cs,
                       meta2, bargs, pargs, margs)
    if meta is not None and r.is_a('ValueError'):
        return
    H.check(r.ok, 'packing into a file succeeds', r.kind)
    pos = 32
    if meta is not None:
        pos, _ = check_meta(H, f, pos, meta)
    if P.get('offsets', True):
        h = Head(H, f)
        pos = pos + 8 * (h.nchunks + h.max_app)
    for i in range(n):
        c = sink.chunks[i]
        L, k = H.len(c), CKSIZE[ck]
        H.check(H.eq(H.cut(f, pos, pos + L), c), 'compressed chunks of file and memory agree')
        if k:
            H.check(H.eq(H.cut(f, pos + L, pos + L + k), sink.checksums[i]), 'digests of file and memory agree')
        pos = pos + L + k
    H.check(pos == H.len(f), 'the file holds nothing else')
    # unpack the file into memory
    H.restart()
    m = H.bp.memory_io
    out = m.PlainMemorySink(n) if P.get('preset') else m.PlainMemorySink()
    fp = H.memfile(f)
    r = H.call(H.bp.abstract_io.unpack, H.bp.file_io.CompressedFPSource(fp), out)
    H.check(r.ok and len(out.chunks) == n, 'a file unpacks into memory', r.kind)
    for i in range(n):
        H.check(H.eq(out.chunks[i], chunks[i]), 'file chunks unpack into memory')


def damaged(H):
    """Altered chunks in memory."""
    P = H.params
    H.distinct_digests()
    m = H.bp.memory_io
    chunks, cs, last, meta, s, sink = pack_memory(H, P)
    k, where = P['k'], P['where']
    c = sink.chunks[k]
    L = H.len(c)
    if where == 'payload':
        H.assume(L > 16)
        sink.chunks[k] = H.concat([H.cut(c, 0, 16), H.altered('bad', H.cut(c, 16, L))])
    elif where == 'header':
        sink.chunks[k] = H.concat([H.altered('bad', H.cut(c, 0, 12)), H.cut(c, 12, L)])
    elif where == 'size':
        sink.chunks[k] = H.concat([H.cut(c, 0, 12), H.altered('bad', H.cut(c, 12, 16)), H.cut(c, 16, L)])
    elif where == 'cut':
        t = H.int('t', 0)
        H.assume(t < L)
        sink.chunks[k] = H.cut(c, 0, t)
    elif where == 'longer':
        sink.chunks[k] = H.concat([c, H.bytes('more', H.int('m', 1, 2 ** 30))])
    elif where == 'digest':
        sink.checksums[k] = H.altered('bad', sink.checksums[k])
    elif where == 'other':
        j = (k + 1) % len(chunks)
        H.assume(H.Not(H.eq(c, sink.chunks[j])))
        sink.chunks[k] = sink.chunks[j]
    n = len(chunks)
    out = m.PlainMemorySink(n) if P.get('preset') else m.PlainMemorySink()
    r = H.call(H.bp.abstract_io.unpack, m.CompressedMemorySource(sink), out)
    H.check(r.is_a('ChecksumMismatch'), 'an altered chunk is refused with ChecksumMismatch', r.kind)
    got = [c for c in out.chunks if c is not None]
    H.check(len(got) == k, 'nothing is delivered from the altered chunk on')
    for i in range(k):
        H.check(H.eq(out.chunks[i], chunks[i]), 'chunks before the altered one')


def wrong_types(H):
    """Sources and sinks of the wrong kind are refused."""
    P = H.params
    m, f, a = H.bp.memory_io, H.bp.file_io, H.bp.abstract_io
    sink = m.CompressedMemorySink()
    for src in (m.PlainMemorySink(), [b'x'], None):
        r = H.call(a.pack, src, sink, 1, 1, 1)
        H.check(r.is_a('TypeError'), 'not a plain source', r.kind)
    for dst in (m.PlainMemorySink(), [], None):
        r = H.call(a.pack, m.PlainMemorySource([b'x']), dst, 1, 1, 1)
        H.check(r.is_a('TypeError'), 'not a compressed sink', r.kind)
        r = H.call(a.unpack, dst, m.PlainMemorySink())
        H.check(r.is_a('TypeError'), 'not a compressed source', r.kind)
