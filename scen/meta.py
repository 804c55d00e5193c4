"""C11, C12: the metadata section, written, read and rewritten in place."""
from .common import *
from .files import make_file, join


def limit_arg(H, kind):
    """(max_meta_size argument, function of the serialised size or None for the default)"""
    if kind == 'default':
        return None, (lambda s: 10 * s)
    if kind == 'int':
        v = H.int('max_meta_size', 0, 2 ** 34)
        H.prefer(v < 500)
        return v, (lambda s: v)
    if kind == 'negative':
        v = H.int('max_meta_size', -2 ** 34, -1)
        return v, (lambda s: v)
    if kind == 'exact':
        return H.func('exact', lambda s: s), (lambda s: s)
    if kind == 'half':
        return H.func('half', lambda s: s // 2), (lambda s: s // 2)
    if kind == 'plus':
        v = H.int('room', 0, 2 ** 33)
        H.prefer(v < 500)
        return H.func('plus', lambda s: s + v), (lambda s: s + v)
    raise KeyError(kind)


def value(H, kind, name='m'):
    return {'any': lambda: H.meta(name), 'null': lambda: None, 'empty': lambda: {}, 'list': lambda: [],
            'zero': lambda: 0, 'false': lambda: False, 'string': lambda: '',
            'dict': lambda: {'k': 'v'}}[kind]()


def section(H):
    """C11: write a section, check every byte, read it back."""
    P = H.params
    meta = value(H, P['meta'])
    a = {}
    spec = {}
    if P['ck'] != 'default':
        a['meta_checksum'] = spec['ck'] = P['ck']
    if P['codec'] != 'default':
        a['meta_codec'] = spec['codec'] = P['codec']
    if P.get('level') == 'any':
        a['meta_level'] = spec['level'] = H.int('meta_level', 0, 9)
    limit, reserve = limit_arg(H, P['limit'])
    if limit is not None:
        a['max_meta_size'] = limit
    spec['limit'] = reserve
    margs = H.bp.args.MetadataArgs(**a)
    raw = H.json_dumps(meta)
    size = H.len(raw)
    H.prefer(size < 400)
    # what is stored
    stored = size
    if spec.get('codec', 'zlib') == 'zlib':
        z = H.deflate_len(raw, spec.get('level', 6))
        stored = H.If(z <= size, z, size)
    room = reserve(size)
    fits = H.And(stored <= room, size <= MAXMETA, room <= MAXMETA)
    before = H.bytes('before', H.int('pos', 0, 2 ** 40))
    fp = H.memfile(before)
    fp.seek(0, 2)
    names = list(margs)
    old = [margs[k] for k in names]
    r = H.call(H.bp.file_io._write_metadata, fp, meta, margs)
    H.check(names == list(margs) and all(H.truth(H.same(x, margs[k])) for k, x in zip(names, old)),
            'the arguments are not modified')
    after = fp.getvalue()
    if H.truth(H.Not(fits)):
        H.check(not r.ok, 'metadata that does not fit is refused')
        if H.truth(H.And(stored > room, size <= MAXMETA)):
            H.check(r.is_a('MetadataSectionTooSmall'), 'refused as MetadataSectionTooSmall', r.kind)
        else:
            H.check(r.is_a('ValueError', 'MetadataSectionTooSmall'), 'refused', r.kind)
        H.check(H.eq(after, before), 'nothing is written when refused')
        return
    H.check(r.ok, 'metadata that fits is written', r.kind)
    pos = H.len(before)
    H.check(H.len(after) == pos + r.value, 'bytes written are those reported')
    H.check(H.eq(H.cut(after, 0, pos), before), 'written at the current position')
    end, maxsize = check_meta(H, after, pos, meta, **spec)
    H.check(end == H.len(after), 'nothing after the section')
    H.check(fp.tell() == end, 'positioned after the section')
    # and back
    H.restart()
    fp = H.memfile(H.concat([after, b'tail']))
    fp.seek(pos)
    r = H.call(H.bp.file_io._read_metadata, fp)
    H.check(r.ok, 'the section is read', r.kind)
    back, head = r.value
    H.check(H.same(back, meta), 'the same metadata is read')
    H.check(H.And(head['meta_size'] == size, head['max_meta_size'] == maxsize,
                  head['meta_comp_size'] == stored), 'sizes in the header read')
    H.check(head['meta_checksum'] == spec.get('ck', 'adler32'), 'checksum in the header read')
    H.check(head['magic_format'] == b'JSON', 'format in the header read')
    H.check(fp.tell() == end, 'positioned after the section when read')
    H.outcome(size, stored, end)


def refused_args(H):
    """C11: arguments a section can not be written with."""
    P = H.params
    kind = P['kind']
    a = {}
    if kind == 'magic_format':
        v = H.raw('magic', P.get('n', 4))
        H.assume(H.Not(H.eq(v, b'JSON')))
        a['magic_format'] = v
    elif kind in ('meta_checksum', 'meta_codec'):
        v = H.name('name')
        H.assume(H.And(*[v != c for c in (CKS if kind == 'meta_checksum' else CODECS)]))
        a[kind] = v
    elif kind == 'meta_level':
        v = H.int('meta_level', -2 ** 40, 2 ** 40)
        H.assume(H.Or(v < 0, v > 9))
        a['meta_level'] = v
    fp = H.memfile(b'')
    r = H.call(H.bp.file_io._write_metadata, fp, {'k': 'v'}, H.bp.args.MetadataArgs(**a))
    if kind == 'meta_level' and r.ok:
        # not used if the metadata is stored uncompressed
        H.check(H.u(fp.getvalue(), 10, 2) == 0, 'no invalid level is recorded')
        return
    H.check(not r.ok, 'refused')
    H.check(H.len(fp.getvalue()) == 0, 'nothing is written when refused')


def rewrite(H):
    """C12: rewrite the metadata of a file."""
    P = H.params
    f = make_file(H, P)
    H.distinct_metas()
    H.put('f.blp', f.bytes)
    new = value(H, P.get('new', 'any'), 'new_m')
    k = {}
    ck, codec, level = f.meta_ck, 'zlib', 6
    over = P.get('over', {})
    if 'magic_format' in over:
        k['magic_format'] = over['magic_format'].encode() if over['magic_format'] else None
    if 'checksum' in over:
        k['checksum'] = over['checksum']
        ck = over['checksum'] or ck
    if 'codec' in over:
        k['codec'] = over['codec']
        codec = over['codec'] or CODECS[f.meta_codec]
    if 'level' in over:
        if over['level'] == 'any':
            k['level'] = level = H.int('level', 0, 9)
        else:
            k['level'] = over['level']
            level = f.meta_level
    refuse = CKSIZE[ck] != CKSIZE[f.meta_ck]
    fp = H.openfile('f.blp', 'r+b')
    r = H.call(H.bp.append._seek_to_metadata, fp)
    H.check(r.ok and r.value == 32, 'the section follows the header', r.kind)
    fn = H.bp.append._rewrite_metadata_fp
    r = H.call(fn, fp, new, **k)
    fp.close()
    after = H.get('f.blp')
    same = H.same(f.meta, new)
    if not r.ok:
        H.check(H.eq(after, f.bytes), 'a refused rewrite leaves the file alone')
        if H.truth(same):
            H.check(r.is_a('NoChangeInMetadata'), 'unchanged metadata is refused as such', r.kind)
        elif refuse:
            H.check(r.is_a('ChecksumLengthMismatch'), 'checksum of another length is refused as such', r.kind)
        else:
            H.check(r.is_a('MetadataSectionTooSmall', 'ValueError'), 'only refused for its size', r.kind)
            raw = H.json_dumps(new)
            stored = H.len(raw)
            if codec == 'zlib':
                z = H.deflate_len(raw, level)
                stored = H.If(z <= stored, z, stored)
            H.check(H.Or(stored > f.meta_max, H.len(raw) > MAXMETA), 'metadata that fits is not refused')
        return
    H.check(H.Not(same), 'unchanged metadata is refused')
    H.check(not refuse, 'a checksum of another length is refused')
    L = H.len(f.bytes)
    end = 32 + H.len(f.section)
    H.check(H.len(after) == L, 'the file keeps its size')
    H.check(H.eq(H.cut(after, 0, 32), f.head), 'header unchanged')
    H.check(H.eq(H.cut(after, end, L), H.cut(f.bytes, end, L)), 'everything behind the section unchanged')
    e, _ = check_meta(H, after, 32, new, ck=ck, codec=codec, level=level, limit=f.meta_max)
    H.check(e == end, 'the section keeps its size')
    if P.get('unpack'):
        H.restart()
        r, back, m = do_unpack(H, P['unpack'], after)
        H.check(r.ok and H.eq(back, f.plain), 'data still unpacks', r.kind)
        H.check(H.same(m, new), 'the new metadata is read')


def rewrite_refused(H):
    """C12: refused rewrites leave the file alone."""
    P = H.params
    kind = P['kind']
    p = dict(P)
    if kind == 'no metadata':
        p['meta'] = None
    f = make_file(H, p)
    H.distinct_metas()
    b = f.bytes
    new, k, want = value(H, 'any', 'new_m'), {}, ()
    if kind == 'no metadata':
        want = ('NoMetadataFound',)
    elif kind == 'checksum':
        v = H.name('name')
        H.assume(H.And(*[v != c for c in CKS]))
        k['checksum'], want = v, ('NoSuchChecksum',)
    elif kind == 'codec':
        v = H.name('name')
        H.assume(H.And(*[v != c for c in CODECS]))
        k['codec'], want = v, ('NoSuchCodec',)
    elif kind == 'serializer':
        v = H.raw('magic', 4)
        H.assume(H.Not(H.eq(v, b'JSON')))
        k['magic_format'], want = v, ('NoSuchSerializer',)
    elif kind == 'level':
        v = H.int('level', -2 ** 40, 2 ** 40)
        H.assume(H.Or(v < 0, v > 9))
        k['level'], want = v, ('ValueError',)
    elif kind == 'same':
        new, want = f.meta, ('NoChangeInMetadata',)
        if P.get('over'):
            k['codec'] = 'None'
            k['level'] = H.int('level', 0, 9)
    elif kind == 'digest':
        H.distinct_digests()
        g, L = CKSIZE[f.meta_ck], H.len(f.section)
        b = join(H, f, section=H.concat([H.cut(f.section, 0, L - g),
                                         H.altered('bad', H.cut(f.section, L - g, L))]))
        want = ('ChecksumMismatch',)
    elif kind == 'body':
        H.distinct_digests()
        m, L = H.len(f.meta_body), H.len(f.section)
        b = join(H, f, section=H.concat([H.cut(f.section, 0, 32), H.altered('bad', f.meta_body),
                                         H.cut(f.section, 32 + m, L)]))
        want = ('ChecksumMismatch',)
    elif kind == 'cut':
        t = H.int('t', 0)
        H.assume(t < 32 + 32 + H.len(f.meta_body))
        b = H.cut(b, 0, t)
    H.put('f.blp', b)
    fp = H.openfile('f.blp', 'r+b')
    r = H.call(H.bp.append._seek_to_metadata, fp)
    if r.ok:
        r = H.call(H.bp.append._rewrite_metadata_fp, fp, new, **k)
    fp.close()
    H.check(not r.ok, 'refused')
    H.check(not want or r.is_a(*want), 'refused with the documented exception', r.kind)
    H.check(H.eq(H.get('f.blp'), b), 'a refused rewrite leaves the file alone')
