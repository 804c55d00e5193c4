"""C04, C05, C24, C25, C26: header codecs, mappings, tables."""
from .common import *

FIELDS = ['format_version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size',
          'last_chunk', 'nchunks', 'max_app_chunks']
MFIELDS = ['magic_format', 'meta_options', 'meta_checksum', 'meta_codec', 'meta_level',
           'meta_size', 'max_meta_size', 'meta_comp_size', 'user_codec']


def valid_header(H, d):
    """The documented constraints on the numbers of a header."""
    return H.And(0 <= d['format_version'], d['format_version'] <= 255,
                 0 <= d['typesize'], d['typesize'] <= 255,
                 -1 <= d['chunk_size'], d['chunk_size'] <= MAXBUF,
                 -1 <= d['last_chunk'], d['last_chunk'] <= MAXBUF,
                 -1 <= d['nchunks'], d['nchunks'] <= MAXCHUNKS,
                 0 <= d['max_app_chunks'], d['max_app_chunks'] <= MAXCHUNKS,
                 H.Or(d['nchunks'] == -1, d['nchunks'] + d['max_app_chunks'] <= MAXCHUNKS),
                 H.Or(d['nchunks'] != -1, d['max_app_chunks'] == 0),
                 H.Or(d['chunk_size'] == -1, d['last_chunk'] == -1,
                      d['last_chunk'] <= d['chunk_size']))


def spec_bytes(H, d):
    return header(H, d['offsets'], d['metadata'], d['checksum'], d['typesize'], d['chunk_size'],
                  d['last_chunk'], d['nchunks'], d['max_app_chunks'], d['format_version'])


def header_construct(H):
    """C04: constructing, encoding and decoding."""
    P = H.params
    d = dict(offsets=H.flag('offsets'), metadata=H.flag('metadata'),
             checksum=H.pick('checksum', CKS if P.get('all') else [P.get('ck', 'adler32')]))
    lim = P.get('limits')
    for k, lo, hi in (('format_version', 0, 255), ('typesize', 0, 255), ('chunk_size', -1, MAXBUF),
                      ('last_chunk', -1, MAXBUF), ('nchunks', -1, MAXCHUNKS),
                      ('max_app_chunks', 0, MAXCHUNKS)):
        d[k] = H.int(k, lo, hi) if lim else H.int(k)
    r = H.call(H.bp.headers.BloscpackHeader, **d)
    ok = valid_header(H, d)
    if not r.ok:
        H.check(H.Not(ok), 'a valid header is accepted', r.kind)
        H.check(r.is_a('ValueError'), 'invalid fields raise ValueError', r.kind)
        return
    H.check(ok, 'invalid fields are refused')
    h = r.value
    for k in FIELDS:
        H.check(H.same(getattr(h, k), d[k]), 'field %s is kept' % k)
    if H.truth(d['nchunks'] >= 0):
        H.check(h.total_prospective_chunks == d['nchunks'] + d['max_app_chunks'], 'total entries')
    r = H.call(h.encode)
    H.check(r.ok, 'encoding succeeds', r.kind)
    H.check(H.len(r.value) == 32, 'encodes to 32 bytes')
    H.check(H.eq(r.value, spec_bytes(H, d)), 'documented encoding')
    b = r.value
    r = H.call(H.bp.headers.BloscpackHeader.decode, b)
    H.check(r.ok, 'decoding what was encoded', r.kind)
    for k in FIELDS:
        H.check(H.same(getattr(r.value, k), d[k]), 'field %s survives' % k)
    H.check(H.truth(r.value == h), 'equal header')
    H.outcome(H.len(b))


def header_decode(H):
    """C04: arbitrary bytes."""
    P = H.params
    if P.get('magic') == 'any':
        b = H.concat([H.raw('magic', 4), header(H, True, False, 'crc32', 8, 5, 5, 1, 0)[4:]])
    elif P.get('part') == 'ids':
        b = H.concat([b'blpk', H.raw('b', 4), H.le(4, 4), H.le(2, 4), H.le(1, 8), H.le(0, 8)])
    else:
        b = H.concat([b'blpk', H.raw('b', 1), b'\1', H.le(H.int('ck', 0, 8), 1), H.raw('t', 1),
                      H.le(H.int('chunk_size', -2 ** 31, 2 ** 31 - 1), 4, True),
                      H.le(H.int('last_chunk', -2 ** 31, 2 ** 31 - 1), 4, True),
                      H.le(H.int('nchunks', -2 ** 63, 2 ** 63 - 1), 8, True),
                      H.le(H.int('max_app', -2 ** 63, 2 ** 63 - 1), 8, True)])
    f = Head(H, b)
    r = H.call(H.bp.headers.BloscpackHeader.decode, b)
    nums = dict(format_version=f.version, typesize=f.typesize, chunk_size=f.chunk_size,
                last_chunk=f.last, nchunks=f.nchunks, max_app_chunks=f.max_app)
    ok = H.And(H.eq(f.magic, b'blpk'), f.options <= 3, f.ck <= 8, valid_header(H, nums))
    if not r.ok:
        H.check(r.is_a('ValueError'), 'invalid bytes raise ValueError', r.kind)
        H.check(H.Not(ok), 'valid bytes are decoded')
        return
    H.check(ok, 'invalid bytes are refused')
    h = r.value
    for k in nums:
        H.check(H.same(getattr(h, k), nums[k]), 'decoded %s' % k)
    H.check(H.And(h.offsets == (H.fix(f.options) % 2 == 1), h.metadata == (H.fix(f.options) // 2 == 1)),
            'decoded options')
    H.check(h.checksum == CKS[H.fix(f.ck)], 'decoded checksum')
    r = H.call(h.encode)
    H.check(r.ok and H.eq(r.value, b), 're-encodes to the same bytes')


def bad_length(H):
    """Any other length is refused."""
    n = H.int('n', 0)
    H.assume(n != 32)
    H.prefer(n < 100)
    if H.params.get('valid'):
        # as much of a valid header as fits, then anything
        C = getattr(H.bp.headers, H.params['which'])
        r = H.call(C().encode) if H.params['which'] == 'BloscpackHeader' else H.call(C(magic_format=b'JSON').encode)
        H.check(r.ok and H.len(r.value) == 32, 'encoded', r.kind)
        if H.truth(n < 32):
            b = r.value[:H.fix(n)]
        else:
            b = H.concat([r.value, H.bytes('rest', n - 32)])
        r = H.call(C.decode, b)
        H.check(r.is_a('ValueError'), 'other lengths raise ValueError', r.kind)
        return
    start = b'blpk' if H.params['which'] == 'BloscpackHeader' else b'JSON'
    b = H.concat([start, H.bytes('rest', n - 4)]) if H.truth(n >= 4) else start[:H.fix(n)]
    r = H.call(getattr(H.bp.headers, H.params['which']).decode, b)
    H.check(r.is_a('ValueError'), 'other lengths raise ValueError', r.kind)


# -------------------------------------------------------------- metadata header
def word(H, name, kind):
    """A byte string of up to 8 bytes that does not end in NUL."""
    k = H.pick(name + '_len', kind)
    b = H.raw(name, k)
    if k:
        H.assume(H.u(b, k - 1, 1) != 0)
    return b


def meta_bytes(H, d):
    pad = lambda b: H.concat([b, b'\0' * (8 - H.len(b))])
    return H.concat([pad(d['magic_format']), bytes([int(d['meta_options'], 2)]),
                     bytes([CKS.index(d['meta_checksum']), CODECS.index(d['meta_codec'])]),
                     H.le(d['meta_level'], 1), H.le(d['meta_size'], 4), H.le(d['max_meta_size'], 4),
                     H.le(d['meta_comp_size'], 4), pad(d['user_codec'])])


def meta_construct(H):
    """C05"""
    P = H.params
    d = dict(magic_format=word(H, 'magic', P.get('magic', [4])),
             user_codec=word(H, 'user', P.get('user', [0])),
             meta_options=P.get('options', '00000000'),
             meta_checksum=H.pick('ck', CKS if P.get('all') else ['adler32']),
             meta_codec=H.pick('codec', CODECS))
    for k, hi in (('meta_level', 9), ('meta_size', MAXMETA), ('max_meta_size', MAXMETA),
                  ('meta_comp_size', MAXMETA)):
        d[k] = H.int(k, 0, hi) if P.get('limits') else H.int(k)
    ok = H.And(0 <= d['meta_level'], d['meta_level'] <= 9,
               *[H.And(0 <= d[k], d[k] <= MAXMETA) for k in ('meta_size', 'max_meta_size', 'meta_comp_size')])
    r = H.call(H.bp.headers.MetadataHeader, **d)
    if not r.ok:
        H.check(H.Not(ok), 'a valid header is accepted', r.kind)
        H.check(r.is_a('ValueError'), 'invalid fields raise ValueError', r.kind)
        return
    H.check(ok, 'invalid fields are refused')
    h = r.value
    r = H.call(h.encode)
    H.check(r.ok, 'encoding succeeds', r.kind)
    H.check(H.len(r.value) == 32, 'encodes to 32 bytes')
    H.check(H.eq(r.value, meta_bytes(H, d)), 'documented encoding')
    r = H.call(H.bp.headers.MetadataHeader.decode, r.value)
    H.check(r.ok, 'decoding what was encoded', r.kind)
    for k in MFIELDS:
        H.check(H.same(getattr(r.value, k), d[k]), 'field %s survives' % k)


def meta_refused(H):
    """C05: wrong strings and names."""
    kind = H.params['kind']
    k = {}
    if kind in ('magic_format', 'user_codec'):
        n = H.int('n', 9, 64)
        k[kind] = H.bytes('w', n)
    elif kind == 'meta_options':
        k[kind] = H.pick('o', ['0000000', '000000000', '00000002', '', 'abcdefgh', '0000000 '])
    else:
        k[kind] = H.pick('o', ['', 'Adler32', 'md4', 'none', 'gzip', 'None '])
    r = H.call(H.bp.headers.MetadataHeader, **k)
    H.check(r.is_a('ValueError'), 'refused with ValueError', r.kind)


def meta_decode(H):
    """C05: arbitrary bytes."""
    part = H.params['part']
    if part == 'magic':
        b = H.concat([H.raw('magic', 8), bytes([0, 1, 1, 6]), H.le(5, 4), H.le(9, 4), H.le(4, 4), b'\0' * 8])
    elif part == 'user':
        b = H.concat([b'JSON\0\0\0\0', bytes([0, 1, 1, 6]), H.le(5, 4), H.le(9, 4), H.le(4, 4),
                      H.raw('user', 8)])
    else:
        b = H.concat([b'JSON\0\0\0\0', {'ids': lambda: H.concat([b'\0', H.raw('b', 3)]),
                                            'options': lambda: H.concat([H.raw('b', 1), bytes([8, 1, 9])]),
                                            'numbers': lambda: H.concat([bytes([0, 1]), H.raw('b', 2)])}[part](),
                      H.le(H.int('size', 0, MAXMETA), 4), H.le(H.int('maxsize', 0, MAXMETA), 4),
                      H.le(H.int('comp', 0, MAXMETA), 4), b'\0' * 8])
    u = lambda o, w: H.u(b, o, w)
    r = H.call(H.bp.headers.MetadataHeader.decode, b)
    ok = H.And(u(9, 1) <= 8, u(10, 1) <= 1, u(11, 1) <= 9)
    if not r.ok:
        H.check(r.is_a('ValueError', 'IndexError'), 'invalid bytes raise ValueError or IndexError', r.kind)
        H.check(H.Not(ok), 'valid bytes are decoded', r.kind)
        return
    H.check(ok, 'invalid bytes are refused')
    h = r.value
    H.check(H.And(h.meta_size == u(12, 4), h.max_meta_size == u(16, 4), h.meta_comp_size == u(20, 4),
                  h.meta_level == u(11, 1)), 'decoded numbers')
    H.check(h.meta_checksum == CKS[H.fix(u(9, 1))], 'decoded checksum')
    H.check(h.meta_codec == CODECS[H.fix(u(10, 1))], 'decoded codec')
    r = H.call(h.encode)
    H.check(r.ok and H.eq(r.value, b), 're-encodes to the same bytes')


# ------------------------------------------------------------------ Blosc header
def blosc_header(H):
    """C25"""
    b = H.raw('h', 16)
    kind = H.params['kind']
    if kind == 'longer':
        b = H.concat([b, H.bytes('more', H.int('k', 1, 64))])
    arg = {'bytes': b, 'longer': b}.get(kind)
    if arg is None:
        arg = H.buffer(kind, b)
    r = H.call(H.bp.headers.decode_blosc_header, arg)
    H.check(r.ok, 'decoded', r.kind)
    d = r.value
    want = [('version', 0, 1), ('versionlz', 1, 1), ('flags', 2, 1), ('typesize', 3, 1),
            ('nbytes', 4, 4), ('blocksize', 8, 4), ('ctbytes', 12, 4)]
    H.check(list(d) == [w[0] for w in want], 'documented fields')
    for k, o, w in want:
        H.check(d[k] == H.u(b, o, w), 'field %s' % k)


def blosc_short(H):
    n = H.pick('n', list(range(16)))
    r = H.call(H.bp.headers.decode_blosc_header, H.raw('h', n))
    H.check(not r.ok, 'shorter buffers are refused')


def blosc_flags(H):
    f = H.int('flags', 0, 255)
    names = {0: 'blosclz', 1: 'lz4', 2: 'snappy', 3: 'zlib', 4: 'zstd'}
    r = H.call(H.bp.headers.decode_blosc_flags, f)
    v = H.fix(f)
    if v >> 5 not in names:
        H.check(not r.ok, 'unknown codec numbers are refused')
        return
    H.check(r.ok, 'decoded', r.kind)
    d = r.value
    bit = lambda k: (v >> k) & 1 == 1
    H.check(list(d) == ['byte_shuffle', 'pure_memcpy', 'bit_shuffle', 'split_blocks', 'codec'],
            'documented flags')
    H.check(d['byte_shuffle'] == bit(0), 'byte shuffle bit')
    H.check(d['pure_memcpy'] == bit(1), 'memcpy bit')
    H.check(d['bit_shuffle'] == bit(2), 'bit shuffle bit')
    H.check(d['split_blocks'] == bit(4), 'split bit')
    H.check(d['codec'] == names[v >> 5], 'codec')


# ----------------------------------------------------------------------- tables
def checksums(H):
    """C26"""
    ck = H.params['ck']
    c = H.bp.checksums
    H.check(list(c.CHECKSUMS_AVAIL) == CKS, 'checksum ids')
    n = H.int('n', 0)
    H.prefer(n < 300)
    data = H.bytes('data', n)
    impl = c.CHECKSUMS_LOOKUP[ck]
    H.check(impl.name == ck and impl.size == CKSIZE[ck], 'name and size')
    r = H.call(impl, data)
    H.check(r.ok and H.is_bytes(r.value), 'a digest', r.kind)
    H.check(H.len(r.value) == CKSIZE[ck], 'digest size')
    H.check(H.eq(r.value, H.digest(ck, data)), 'digest of the data')
    # nothing is remembered between calls
    d2 = H.bytes('data2', H.int('n2', 0, 1000))
    r = H.call(impl, d2)
    H.check(r.ok and H.eq(r.value, H.digest(ck, d2)), 'digest of other data')
    r = H.call(c.check_valid_checksum, ck)
    H.check(r.ok, 'valid name accepted', r.kind)
    H.outcome(H.len(data))


def unknown_names(H):
    which = H.params['which']
    mod, fn, exc, good = {
        'checksum': ('checksums', 'check_valid_checksum', 'NoSuchChecksum', CKS),
        'codec': ('metacodecs', 'check_valid_codec', 'NoSuchCodec', CODECS),
        'serializer': ('serializers', 'check_valid_serializer', 'NoSuchSerializer', [b'JSON'])}[which]
    f = getattr(getattr(H.bp, mod), fn)
    if which == 'serializer':
        w = H.raw('w', H.pick('k', [0, 1, 3, 4, 5]))
        known = H.eq(w, b'JSON')
    else:
        w = H.name('w')
        known = H.Or(*[w == g for g in good])
    r = H.call(f, w)
    if H.truth(known):
        H.check(r.ok, 'known name accepted', r.kind)
    else:
        H.check(r.is_a(exc), 'unknown name refused', r.kind)


def codecs(H):
    c = H.bp.metacodecs
    H.check(list(c.CODECS_AVAIL) == CODECS, 'codec ids')
    name = H.params['codec']
    impl = c.CODECS_LOOKUP[name]
    n = H.int('n', 0)
    H.prefer(n < 300)
    data = H.bytes('data', n)
    lev = H.int('level', 0, 9)
    r = H.call(impl.compress, data, lev)
    H.check(r.ok, 'compresses', r.kind)
    if name == 'None':
        H.check(H.eq(r.value, data), 'None leaves the data alone')
    else:
        H.check(H.eq(r.value, H.deflate(data, lev)), 'zlib data of that level')
    r = H.call(impl.decompress, r.value)
    H.check(r.ok and H.eq(r.value, data), 'decompress inverts compress', r.kind)


def serializers(H):
    s = H.bp.serializers
    H.check(list(s.SERIALIZERS_AVAIL) == [b'JSON'], 'serializers')
    impl = s.SERIALIZERS_LOOKUP[b'JSON']
    m = H.meta('m')
    r = H.call(impl.dumps, m)
    H.check(r.ok and H.same(H.json_loads(r.value), m), 'JSON text of the value', r.kind)
    r = H.call(impl.loads, r.value)
    H.check(r.ok and H.same(r.value, m), 'loads inverts dumps', r.kind)


# --------------------------------------------------------------------- mappings
SPECS = {'BloscArgs': ('args', ['typesize', 'clevel', 'shuffle', 'cname'],
                       dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')),
         'BloscpackArgs': ('args', ['offsets', 'checksum', 'max_app_chunks'],
                           dict(offsets=True, checksum='adler32')),
         'MetadataArgs': ('args', ['magic_format', 'meta_checksum', 'meta_codec', 'meta_level',
                                   'max_meta_size'],
                          dict(magic_format=b'JSON', meta_checksum='adler32', meta_codec='zlib',
                               meta_level=6)),
         'BloscpackHeader': ('headers', FIELDS,
                             dict(format_version=3, offsets=False, metadata=False, checksum='None',
                                  typesize=0, chunk_size=-1, last_chunk=-1, nchunks=-1,
                                  max_app_chunks=0)),
         'MetadataHeader': ('headers', MFIELDS,
                            dict(magic_format=b'', meta_options='00000000', meta_checksum='None',
                                 meta_codec='None', meta_level=0, meta_size=0, max_meta_size=0,
                                 meta_comp_size=0, user_codec=b''))}


def mapping(H):
    """C24"""
    cls = H.params['cls']
    mod, keys, defaults = SPECS[cls]
    C = getattr(getattr(H.bp, mod), cls)
    # defaults apply to each argument not given
    v = H.int('value', 1, 9)
    given = H.pick('given', [None] + [k for k in keys if isinstance(defaults.get(k), int)
                                      and not isinstance(defaults.get(k), bool)
                                      and not (cls == 'BloscpackHeader' and k == 'max_app_chunks')])
    r = H.call(C, **({} if given is None else {given: v}))
    H.check(r.ok, 'constructed', r.kind)
    o = r.value
    for k in keys:
        if k == given:
            H.check(H.same(o[k], v), 'given value is kept')
        elif k in defaults:
            H.check(H.same(o[k], defaults[k]), 'documented default of %s' % k)
        else:
            H.check(H.same(H.call(o[k], v).value, 10 * v), 'documented default of %s' % k)
    H.check(list(o) == keys, 'keys are the documented attributes')
    H.check(len(o) == len(keys), 'length')
    H.check(list(dict(o)) == keys, 'dict view')
    for k in keys:
        H.check(H.same(o[k], getattr(o, k)), 'item equals attribute')
        H.check(k in o, 'membership')
    # unknown keys
    bad = H.name('key')
    H.assume(H.And(*[bad != k for k in keys]))
    r = H.call(lambda: o[bad])
    H.check(r.is_a('KeyError'), 'reading an unknown key raises KeyError', r.kind)
    r = H.call(o.__setitem__, bad, v)
    H.check(r.is_a('KeyError'), 'writing an unknown key raises KeyError', r.kind)
    H.check(not hasattr(o, '_attrs') or H.truth(bad == '_attrs') or list(o) == keys, 'keys unchanged')
    for what in (lambda: o.__delitem__(keys[0]), lambda: o.pop(keys[0]), o.popitem, o.clear):
        r = H.call(what)
        H.check(not r.ok, 'deletion is refused', r.kind)
    H.check(list(o) == keys, 'nothing deleted')
    # writes by key and by attribute are the same thing
    k = H.pick('k', keys)
    w = None if H.flag('none') else H.int('w', 0, 9)
    c = H.call(o.copy)
    H.check(c.ok, 'copied', c.kind)
    c = c.value
    H.check(type(c) is type(o), 'copy has the same class')
    for j in keys:
        H.check(H.same(c[j], o[j]) or c[j] is o[j], 'copy is equal')
    before = {j: o[j] for j in keys}
    if H.flag('by_attribute'):
        setattr(c, k, w)
    else:
        c[k] = w
    H.check(c[k] is None and getattr(c, k) is None if w is None else H.And(c[k] == w, getattr(c, k) == w),
            'written value is read back')
    for j in keys:
        H.check(o[j] is before[j] or H.same(o[j], before[j]), 'the original of a copy is unchanged')
        if j != k:
            H.check(c[j] is before[j] or H.same(c[j], before[j]), 'other keys unchanged')
    if w is not None:
        r = H.call(lambda: (str(c), repr(c), c.pformat()))
        H.check(r.ok, 'printable', r.kind)


def check_args(H):
    """C24: missing or extra keys."""
    which = H.params['which']
    a = H.bp.args
    fn, keys = {'blosc': ('_check_blosc_args', SPECS['BloscArgs'][1]),
                'bloscpack': ('_check_bloscpack_args', SPECS['BloscpackArgs'][1]),
                'metadata': ('_check_metadata_arguments', SPECS['MetadataArgs'][1])}[which]
    d = {k: 1 for k in keys if H.flag('has_' + k)}
    extra = H.flag('extra')
    if extra:
        x = H.name('key')
        H.assume(H.And(*[x != k for k in keys]))
        d[x] = 2
    r = H.call(getattr(a, fn), d)
    if len([k for k in keys if k in d]) == len(keys) and not extra:
        H.check(r.ok, 'complete arguments accepted', r.kind)
    else:
        H.check(r.is_a('ValueError'), 'missing or extra keys are refused', r.kind)
    cls = {'blosc': 'BloscArgs', 'bloscpack': 'BloscpackArgs', 'metadata': 'MetadataArgs'}[which]
    H.check(H.call(getattr(a, fn), getattr(a, cls)()).ok, 'argument objects accepted')


def none_checksum(H):
    """C24: checksum=None means 'None'."""
    r = H.call(H.bp.args.BloscpackArgs, checksum=None)
    H.check(r.ok and r.value.checksum == 'None', 'None is the None checksum')
    ck = H.pick('ck', CKS)
    H.check(H.bp.args.BloscpackArgs(checksum=ck).checksum == ck, 'other checksums are kept')
