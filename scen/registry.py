"""Which scenarios decide which property, and within what bounds."""

import zlib

COMMON_ASSUMPTIONS = [
    'Python ints are unbounded; Python semantics is CPython 3.12 executing the code itself',
    'Blosc, zlib, hashlib, json, struct, numpy and the file system follow their documented '
    'contracts as encoded in symx/stubs.py and symx/fs.py (listed in DESIGN.md)',
    'writes reach a file in program order',
]

CHECKS = {}


def check(pid, covers, bounds, assumes=()):
    def deco(f):
        CHECKS[pid] = dict(covers=covers, bounds=bounds, assumes=list(assumes), jobs=f)
        return f
    return deco


def job(name, scenario, params=None, **k):
    return dict(name=name, scenario='scen.' + scenario, params=params or {}, **k)


def jobs(pid, tier):
    return CHECKS[pid]['jobs'](tier == 'thorough')


def some(n, *parts):
    """A fixed arbitrary one of n."""
    return zlib.crc32('-'.join(map(str, parts)).encode()) % n == 0


ALLCK = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
ENTRIES = ['file', 'bytesfile', 'bytes']


@check('C01', 'unpack(pack(x)) for arbitrary content, through every pack/unpack entry point',
       {'chunks': 'unroll', 'content': 'any bytes, any length', 'compressed size': 'any Blosc allows'})
def c01(deep):
    out = []
    u = 6 if deep else 3
    k = 0
    for p in ENTRIES:
        for q in ENTRIES:
            for meta in (None, 'any', 'empty'):
                for offs in (True, False):
                    k += 1
                    if not deep and (k // 6 + k) % 3:
                        continue
                    ck = ALLCK[k % 9]
                    out.append(job('%s-%s-%s-%s-%s' % (p, q, meta, offs, ck), 'roundtrip:roundtrip',
                                   dict(pack=p, unpack=q, meta=meta, offsets=offs, ck=ck,
                                        app='int' if k % 2 else None), unroll=u))
    return out


@check('C03', 'every byte of packed files against the documented format',
       {'chunks': 'unroll', 'content': 'any bytes, any length', 'compressed size': 'any Blosc allows'})
def c03(deep):
    out = []
    u = 6 if deep else 3
    k = 0
    for p in ENTRIES:
        for meta in (None, 'any', 'empty'):
            for offs in (True, False):
                for ck in ALLCK:
                    k += 1
                    if not deep and k % 9 != 1 and not (p == 'file' and meta is None and offs):
                        continue
                    out.append(job('%s-%s-%s-%s' % (p, meta, offs, ck), 'roundtrip:layout',
                                   dict(pack=p, meta=meta, offsets=offs, ck=ck,
                                        app='int' if k % 2 else None), unroll=u))
    return out


@check('C06', 'calculate_nchunks', {'n': 'all integers', 'chunk_size': 'all integers; numbers with suffix'})
def c06(deep):
    u = 40 if deep else 12
    return [job('int', 'roundtrip:chunks', dict(kind='int'), unroll=u),
            job('int-any-count', 'roundtrip:chunks_far', dict(kind='int'), unroll=u),
            job('default', 'roundtrip:chunks', dict(kind='default'), unroll=u)] + \
        [job('suffix-' + s, 'roundtrip:chunks', dict(kind='suffix', suffix=s), unroll=u) for s in 'BKMGT']


@check('C07', '_handle_max_apps', {'nchunks': '-1..2**63-1', 'max_app_chunks': 'all integers, callables returning '
                                   'any integer, wrong types'})
def c07(deep):
    return [job('%s-%s' % (k, o), 'roundtrip:max_app', dict(kind=k, offsets=o))
            for k in ('int', 'call', 'default', 'none', 'str', 'float', 'callnone', 'callfloat', 'bool')
            for o in (True, False)]


@check('C04', 'BloscpackHeader construction, encode and decode',
       {'fields': 'all integers (constructor), all values of the encoded width (decode)',
        'decode': 'all 32-byte strings in three families: any magic; any version/options/checksum/typesize '
                  'bytes with plausible sizes; any sizes', 'other lengths': 'all'})
def c04(deep):
    return [job('construct', 'headers:header_construct', {}),
            job('roundtrip', 'headers:header_construct', dict(limits=True, all=True)),
            job('decode-magic', 'headers:header_decode', dict(magic='any')),
            job('decode-ids', 'headers:header_decode', dict(part='ids')),
            job('decode-sizes', 'headers:header_decode', dict(part='sizes')),
            job('length', 'headers:bad_length', dict(which='BloscpackHeader')),
            job('length-valid', 'headers:bad_length', dict(which='BloscpackHeader', valid=True))]


@check('C05', 'MetadataHeader construction, encode and decode',
       {'fields': 'all integers (constructor), all values of the encoded width (decode)',
        'strings': 'all byte strings of 0..8 bytes (one of them at a time), 9..64 bytes for the refusal',
        'other lengths': 'all'})
def c05(deep):
    eight = list(range(9))
    out = [job('construct', 'headers:meta_construct', {}),
           job('roundtrip-all', 'headers:meta_construct', dict(limits=True, all=True)),
           job('roundtrip-magic', 'headers:meta_construct', dict(limits=True, magic=eight)),
           job('roundtrip-user', 'headers:meta_construct', dict(limits=True, user=eight)),
           job('roundtrip-options', 'headers:meta_construct', dict(limits=True, options='10100001')),
           job('decode-magic', 'headers:meta_decode', dict(part='magic')),
           job('decode-user', 'headers:meta_decode', dict(part='user')),
           job('decode-numbers', 'headers:meta_decode', dict(part='numbers')),
           job('decode-ids', 'headers:meta_decode', dict(part='ids')),
           job('decode-options', 'headers:meta_decode', dict(part='options')),
           job('length', 'headers:bad_length', dict(which='MetadataHeader')),
            job('length-valid', 'headers:bad_length', dict(which='MetadataHeader', valid=True))]
    return out + [job('refused-' + k, 'headers:meta_refused', dict(kind=k))
                  for k in ('magic_format', 'user_codec', 'meta_options', 'meta_checksum', 'meta_codec')]


@check('C24', 'argument and header objects as mappings',
       {'values': 'any integer of the range for written values', 'unknown keys': 'all names of up to 16 characters'})
def c24(deep):
    return [job(c, 'headers:mapping', dict(cls=c)) for c in
            ('BloscArgs', 'BloscpackArgs', 'MetadataArgs', 'BloscpackHeader', 'MetadataHeader')] + \
        [job('check-' + w, 'headers:check_args', dict(which=w)) for w in ('blosc', 'bloscpack', 'metadata')] + \
        [job('none-checksum', 'headers:none_checksum')]


@check('C25', 'decode_blosc_header, decode_blosc_flags', {'header': 'all 16-byte strings', 'flags': '0..255',
                                                          'short buffers': 'all of 0..15 bytes'})
def c25(deep):
    return [job('header-' + k, 'headers:blosc_header', dict(kind=k))
            for k in ('bytes', 'bytearray', 'memoryview', 'longer')] + \
        [job('short', 'headers:blosc_short'), job('flags', 'headers:blosc_flags')]


@check('C26', 'checksum, codec and serializer tables',
       {'data': 'any bytes, any length', 'level': '0..9', 'names': 'all names of up to 16 characters'},
       ['zlib and hashlib compute what their names say (uninterpreted functions of the data)'])
def c26(deep):
    return [job('checksum-' + c, 'headers:checksums', dict(ck=c)) for c in ALLCK] + \
        [job('unknown-' + w, 'headers:unknown_names', dict(which=w)) for w in ('checksum', 'codec', 'serializer')] + \
        [job('codec-' + c, 'headers:codecs', dict(codec=c)) for c in ('None', 'zlib')] + \
        [job('serializer', 'headers:serializers')]


SMALL = [1, 2]


@check('C08', 'packing, complete or stopped by a failing read, compression or write',
       {'chunks': 'unroll', 'failing operation': 'any one, at every position', 'torn write': 'any prefix of the '
        'failing write may have reached the file', 'crash model': 'prefixes of the sequence of writes'})
def c08(deep):
    u = 5 if deep else 3
    out = []
    for k, (p, meta, offs, kinds, torn) in enumerate([
            ('file', None, True, ('read', 'write', 'compress'), False),
            ('file', None, True, ('write',), True),
            ('bytesfile', None, True, ('write', 'compress'), False),
            ('file', 'any', True, ('write',), False),
            ('file', 'any', True, ('write',), True),
            ('bytesfile', 'any', True, ('read', 'compress'), False),
            ('file', 'empty', True, ('write',), True),
            ('file', None, False, ('write', 'read'), False)]):
        for app in ('int', None):
            for ck in (ALLCK if deep else [ALLCK[(2 * k + (app is None)) % 9]]):
                out.append(job('%s-%s-%s-%s-%s-%s-%s' % (p, meta, offs, '+'.join(kinds), torn, app, ck),
                               'files:interrupted',
                               dict(pack=p, meta=meta, offsets=offs, kinds=list(kinds), torn=torn, app=app, ck=ck),
                               unroll=u))
    return out


DAMAGE = ['payload', 'header', 'size', 'digest', 'swap', 'meta body', 'meta digest']


@check('C09', 'unpacking files and buffers with a damaged chunk, digest or metadata section',
       {'chunks': 'up to 3 (quick), 4 (thorough)', 'damage': 'any change of the bytes of one region'},
       ['digests of different contents differ (no collisions)'])
def c09(deep):
    out = []
    N = 4 if deep else 3
    c = 0
    for where in DAMAGE:
        for nch in range(1, N + 1):
            for k in range(nch):
                if where == 'swap' and k + 1 >= nch or where.startswith('meta') and (k or nch > 2):
                    continue
                for ck in ALLCK[1:]:
                    c += 1
                    if not deep and ck != ALLCK[1 + c * 5 % 8] and c % 6:
                        continue
                    P = dict(entry=ENTRIES[c % 3], nch=nch, k=k, where=where, ck=ck, offsets=c % 4 > 0,
                             meta='any' if where.startswith('meta') else None if c % 2 else 'dict', mck=ck)
                    out.append(job('%s-%d-%d-%s' % (where, nch, k, ck), 'files:damaged', P, unroll=N + 1))
    for i, ck in enumerate(ALLCK):
        for e in ENTRIES:
            out.append(job('intact-%s-%s' % (ck, e), 'files:undamaged',
                           dict(entry=e, nch=i % 3, ck=ck, mck=ck, meta=[None, 'any', 'null'][i % 3 - 1],
                                offsets=i % 2 == 0), unroll=4))
    return out


@check('C10', 'unpacking any proper prefix of a file or buffer',
       {'chunks': 'up to 2 (quick), 4 (thorough), or an empty input', 'cut': 'every position'})
def c10(deep):
    out = []
    c = 0
    for nch in range(0, 5 if deep else 3):
        for ck in ALLCK:
            for meta in (None, 'any', 'null'):
                for offs in (True, False):
                    c += 1
                    if not deep and c % 3:
                        continue
                    out.append(job('%d-%s-%s-%s' % (nch, ck, meta, offs), 'files:truncated',
                                   dict(entry=ENTRIES[(c // 3) % 3], nch=nch, ck=ck, mck=ALLCK[(c // 2) % 9],
                                        mcodec=['zlib', 'None'][(c // 3) % 2], meta=meta, offsets=offs), unroll=6))
    return out


@check('C13', 'append and append_fp on any valid file (one step of the induction over histories)',
       {'old chunks': 'up to 2 (quick), 4 (thorough), or an empty input', 'new chunks': 'unroll',
        'preallocated': '0..2**20', 'content': 'any bytes, any length'},
       ['the state between two appends is the file alone (C23), so one step covers any history'])
def c13(deep):
    out = []
    c = 0
    for nch in range(0, 5 if deep else 3):
        for meta in (None, 'any', 'null', 'empty'):
            for entry in ('append', 'append_fp'):
                for bargs in ('none', 'any', 'unset', 'partial'):
                    c += 1
                    if not deep and (c + c // 4 + c // 8) % 4:
                        continue
                    out.append(job('%d-%s-%s-%s' % (nch, meta, entry, bargs), 'files:append',
                                   dict(nch=nch, meta=meta, entry=entry, bargs=bargs, ck=ALLCK[c % 9],
                                        mck=ALLCK[(c + 3) % 9], mcodec=['zlib', 'None'][c // 2 % 2],
                                        unpack=[None, 'file', 'bytes', 'bytesfile'][c % 4]),
                                   unroll=5 if deep else 3))
    for nch in (1, 2):
        for restart in (False, True):
            if not deep and restart != (nch == 2):
                continue
            out.append(job('twice-%d-%s' % (nch, restart), 'files:append_twice',
                           dict(nch=nch, restart=restart, ck='sha1', meta='dict'), unroll=3 if deep else 1))
    out.append(job('packed', 'files:append_packed', {}, unroll=3 if deep else 2))
    out.append(job('packed-meta', 'files:append_packed', dict(meta=True, ck='None'), unroll=3 if deep else 2))
    return out


@check('C14', 'refused appends', {'old chunks': 'up to 2 (quick), 3 (thorough)', 'new chunks needed': 'any number '
                                  '(space), unroll otherwise'})
def c14(deep):
    out = []
    c = 0
    for kind in ('no offsets', 'version', 'clevel', 'typesize', 'shuffle', 'cname', 'missing', 'extra', 'magic',
                 'meta digest', 'space', 'cut'):
        for nch in range(1, 4 if deep else 3):
            for entry in ('append', 'append_fp'):
                c += 1
                meta = 'any' if kind == 'meta digest' else [None, 'dict', 'null'][c % 3]
                out.append(job('%s-%d-%s' % (kind, nch, entry), 'files:append_refused',
                               dict(kind=kind, nch=nch, entry=entry, meta=meta, ck=ALLCK[c % 9],
                                    mck=ALLCK[1 + c % 8]), unroll=5 if deep else 3))
    for e in ('append', 'append_fp'):
        out.append(job('empty-' + e, 'files:append_empty_file', dict(entry=e), unroll=3))
    return out


@check('C15', 'append to a file with a damaged last chunk',
       {'old chunks': 'up to 2 (quick), 3 (thorough)', 'damage': 'any change of the bytes of one region of the chunk'},
       ['digests of different contents differ (no collisions)'])
def c15(deep):
    out = []
    c = 0
    for where in ('payload', 'header', 'size', 'digest', 'missing digest'):
        for nch in range(1, 4 if deep else 3):
            for entry in ('append', 'append_fp'):
                for ck in ALLCK[1:]:
                    c += 1
                    if not deep and (c + c // 8) % 4:
                        continue
                    out.append(job('%s-%d-%s-%s' % (where, nch, entry, ck), 'files:append_damaged',
                                   dict(where=where, nch=nch, entry=entry, ck=ck, meta=[None, 'dict'][c // 8 % 2],
                                        bargs=['none', 'any'][c // 16 % 2]), unroll=4 if deep else 3))
    return out


READERS = ['unpack', 'bytesfile', 'bytes', 'ndarray', 'ndarraybytes', 'append', 'seek', 'beginning', 'source',
           'cli info', 'cli decompress', 'cli append']


@check('C27', 'every operation that reads a file, on files of another version and on other files',
       {'version byte': 'all but 3', 'magic': 'all four-byte strings but the magic', 'chunks': 'up to 2'})
def c27(deep):
    out = []
    for i, op in enumerate(READERS):
        for kind in ('version', 'magic'):
            for meta in ((None, 'dict', 'null') if deep else (('dict',) if op == 'seek' or i % 2 else (None,))):
                out.append(job('%s-%s-%s' % (op, kind, meta), 'files:version',
                               dict(op=op, kind=kind, meta=meta, nch=1 + i % 2, ck=ALLCK[i % 9])))
    return out


LIMITS = ['default', 'int', 'exact', 'half', 'plus', 'negative']


@check('C11', '_write_metadata and _read_metadata',
       {'metadata': 'any JSON value of any serialised size; null, empty and falsy values',
        'max_meta_size': 'any integer within +-2**34, callables', 'level': '0..9', 'position': 'any'})
def c11(deep):
    out = []
    c = 0
    for lim in LIMITS:
        for ck in ['default'] + ALLCK:
            for codec in ('default', 'None', 'zlib'):
                for meta in ('any', 'null', 'empty', 'list', 'zero', 'false', 'string'):
                    c += 1
                    if not deep and not some(6, lim, ck, codec, meta) and (meta != 'any' or not some(3, lim, ck, codec)):
                        continue
                    out.append(job('%s-%s-%s-%s' % (lim, ck, codec, meta), 'meta:section',
                                   dict(meta=meta, ck=ck, codec=codec, limit=lim,
                                        level='any' if c % 2 or codec == 'None' else None)))
    return out + [job('refused-' + k, 'meta:refused_args', dict(kind=k))
                  for k in ('magic_format', 'meta_checksum', 'meta_codec', 'meta_level')]


@check('C12', '_seek_to_metadata, _rewrite_metadata_fp',
       {'old and new metadata': 'any JSON values of any serialised size', 'preallocation': '0..2**16',
        'chunks': 'up to 2', 'level': '0..9'},
       ['digests of different contents differ (damaged sections only)'])
def c12(deep):
    out = []
    c = 0
    overs = [('none', {}), ('keep', dict(magic_format=None, checksum=None, codec=None, level=None)),
             ('format', dict(magic_format='JSON')), ('nocodec', dict(codec='None')),
             ('codec', dict(codec='zlib', level='any')), ('level', dict(level='any')),
             ('keeplevel', dict(level=None))]
    for meta in ('any', 'null', 'empty', 'dict'):
        for name, over in overs:
            for mcodec in CODECS2:
                c += 1
                new = ['any', 'null', 'dict', 'empty'][c % 4] if meta != 'any' else ['any', 'null'][c % 4 == 0]
                if not deep and (c + c // 4) % 3:
                    continue
                out.append(job('%s-%s-%s-%s' % (meta, new, name, mcodec), 'meta:rewrite',
                               dict(nch=c % 3, meta=meta, new=new, over=over, mcodec=mcodec, mck=ALLCK[c % 9],
                                    ck=ALLCK[(c + 4) % 9], offsets=c % 5 > 0,
                                    unpack=([None] + ENTRIES)[c % 4])))
    for a in ALLCK:
        for b in ALLCK:
            c += 1
            if not deep and c % 7 and not (a in ('adler32', 'crc32') and b in ('adler32', 'crc32')):
                continue
            out.append(job('checksum-%s-%s' % (a, b), 'meta:rewrite',
                           dict(nch=1, meta='any', new='any', over=dict(checksum=b), mck=a, ck='crc32')))
    for kind in ('no metadata', 'checksum', 'codec', 'serializer', 'level', 'same', 'digest', 'body', 'cut'):
        for i, meta in enumerate(('any', 'dict', 'null', 'empty')):
            c += 1
            if not deep and i and (c % 4 or kind != 'same'):
                continue
            out.append(job('refused-%s-%s' % (kind, meta), 'meta:rewrite_refused',
                           dict(kind=kind, nch=1 + c % 2, meta=meta, mck=ALLCK[1 + c % 8], ck=ALLCK[c % 9],
                                mcodec=CODECS2[c % 2], over=c % 2)))
    return out


CODECS2 = ['zlib', 'None']


@check('C02', 'memory sources and sinks with abstract_io.pack and unpack, against the file path',
       {'chunks': 'up to 3 (quick), 6 (thorough)', 'content': 'any bytes, any length'},
       ['digests of different contents differ (altered chunks only)'])
def c02(deep):
    out = []
    N = 6 if deep else 3
    for n in range(1, N + 1):
        for ck in ALLCK:
            for meta in (None, 'any', 'empty'):
                P = dict(nch=n, ck=ck, meta=meta, offsets=some(2, n, ck, meta))
                if deep or some(3, n, ck, meta):
                    out.append(job('roundtrip-%d-%s-%s' % (n, ck, meta), 'memory:roundtrip', P, unroll=N + 1))
                for via in ('sink', 'bytes'):
                    if deep or some(4, n, ck, meta, via):
                        out.append(job('agree-%s-%d-%s-%s' % (via, n, ck, meta), 'memory:agree',
                                       dict(P, via=via, preset=some(2, via, n, ck)), unroll=N + 1))
        for k in range(n):
            for where in ('payload', 'header', 'size', 'cut', 'longer', 'digest', 'other'):
                if where == 'other' and n == 1:
                    continue
                for ck in ALLCK[1:]:
                    if deep or some(6, n, k, where, ck):
                        out.append(job('damaged-%d-%d-%s-%s' % (n, k, where, ck), 'memory:damaged',
                                       dict(nch=n, k=k, where=where, ck=ck, preset=some(2, n, k, where, ck)),
                                       unroll=N + 1))
    return out + [job('types', 'memory:wrong_types')]


LAYOUTS = ['C', 'F', 'both', 'strided', '0d']
APACK = ['file', 'bytes', 'sink', 'memory', 'oldfile', 'oldbytes']
AUNPACK = ['file', 'bytes', 'source', 'oldfile', 'oldbytes']
ADT = ['i1', 'bool', 'f2', 'S3', 'i4be', 'f8', 'c16', 'U5', 'V255', 'M8', 'struct', 'nested', 'subarray']


@check('C16', 'packing and unpacking arrays',
       {'items': '0..2**40', 'dtypes': '13 dtypes of 1 to 255 bytes', 'layouts': 'C, Fortran, 1-d, non-contiguous, 0-d',
        'chunk size': 'every multiple of the item size; anything above the array size', 'chunks': 'unroll'},
       ['two-dimensional shapes stand for all others'])
def c16(deep):
    out = []
    u = 5 if deep else 3
    for d in ADT:
        for lay in LAYOUTS:
            for p in APACK:
                for chunk in ('any', 'large', 'default'):
                    if not deep and not some(8, d, lay, p, chunk):
                        continue
                    q = 'memory' if p == 'memory' else AUNPACK[zlib.crc32((d + lay + p).encode()) % 5]
                    out.append(job('%s-%s-%s-%s-%s' % (d, lay, p, q, chunk), 'arrays:roundtrip',
                                   dict(dtype=d, layout=lay, pack=p, unpack=q, chunk=chunk, bargs=some(2, d, lay, chunk),
                                        ck=ALLCK[zlib.crc32((lay + d + chunk).encode()) % 9],
                                        offsets=not some(3, d, p, lay)), unroll=u))
    return out


@check('C17', 'arrays, chunk sizes and packed content that do not fit',
       {'items': '0..2**40', 'chunk size': 'every one that cuts items', 'content size': 'any',
        'chunks': 'up to 2 (quick), 4 (thorough)'})
def c17(deep):
    out = [job('object-' + p, 'arrays:refused', dict(kind='object', pack=p)) for p in APACK]
    for d in ADT[2:]:
        for lay in LAYOUTS[:4]:
            for p in APACK:
                if deep or some(8, d, lay, p):
                    out.append(job('chunk-%s-%s-%s' % (d, lay, p), 'arrays:refused',
                                   dict(kind='chunk', dtype=d, layout=lay, pack=p), unroll=5 if deep else 3))
    for p in APACK:
        out.append(job('item-' + p, 'arrays:refused', dict(kind='item', dtype='V256', layout='both', pack=p)))
    for v in ('none', 'null', 'list', 'list2', 'int', 'string', 'string2', 'empty', 'true', 'number', 'other',
              'nocontainer', 'case', 'nullcontainer', 'listcontainer', 'name'):
        for q in AUNPACK + ['memory']:
            if deep or some(2, v, q):
                out.append(job('content-%s-%s' % (v, q), 'arrays:not_array',
                               dict(value=v, unpack=q, nch=1, ck=ALLCK[len(v) % 9])))
    for d in ADT:
        for q in AUNPACK:
            for nch in range(0, 5 if deep else 3):
                for shape in ('any', 'empty', '0d'):
                    if not deep and not some(6, d, q, nch, shape):
                        continue
                    out.append(job('size-%s-%s-%d-%s' % (d, q, nch, shape), 'arrays:mismatched',
                                   dict(dtype=d, unpack=q, nch=nch, shape=shape, ck=ALLCK[(nch + len(d)) % 9],
                                        order='CF'[some(2, d, q)]), unroll=6))
                    if nch:
                        out.append(job('bad-%s-%s-%d-%s' % (d, q, nch, shape), 'arrays:mismatched',
                                       dict(dtype=d, unpack=q, nch=nch, shape=shape, ck='None', bad=1,
                                            order='CF'[some(2, d, q)]), unroll=6))
    return out


@check('C20', 'pretty_size, double_pretty_size, reverse_pretty',
       {'size': '0..2**52', 'numbers': '0..2**52, decimals below 4096 with up to 6 (quick) or 12 (thorough) places'},
       ['float arithmetic on these sizes rounds like exact arithmetic, except that round() may go either way at '
        'exact halves'])
def c20(deep):
    return [job('printed', 'texts:printed', dict(plain_sizes=True)), job('double', 'texts:double', dict(plain_sizes=True))] + \
        [job('read-%s-%d' % (s, p), 'texts:read', dict(suffix=s, places=p))
         for s in 'BKMGT' for p in range(0, 13 if deep else 7)] + \
        [job('unknown-%s' % (s or 'none'), 'texts:unknown', dict(suffix=s))
         for s in ('', 'P', 'E', 'b', 'k', 'm', 'g', 't', 'X', ' ', '%', 'KB', 'MiB', '0', '.')]


@check('C22', 'operations at the three log levels; log.normal, verbose, debug, error, set_level',
       {'operations': 'pack, unpack, append, metadata rewrite, array packing, intact and damaged input',
        'content': 'any bytes, any length', 'chunks': 'unroll; up to 2 in files', 'messages': '7 kinds of text'},
       ['what library code prints about a size is summarised by C20'])
def c22(deep):
    out = []
    u = 4 if deep else 2
    L = [['NORMAL', 'DEBUG'], ['NORMAL', 'VERBOSE']]
    for lv in L:
        t = lv[1]
        for entry in ENTRIES:
            for meta in (None, 'any', 'empty'):
                for ck in ALLCK:
                    if deep or some(6, t, entry, meta, ck):
                        out.append(job('pack-%s-%s-%s-%s' % (t, entry, meta, ck), 'verbosity:neutral',
                                       dict(op='pack', entry=entry, meta=meta, ck=ck, levels=lv,
                                            offsets=some(2, entry, meta, ck)), unroll=u))
        for op in ('unpack', 'append', 'append_fp', 'rewrite'):
            for damage in (None, 'digest', 'cut'):
                for meta in (None, 'any', 'null', 'dict'):
                    for nch in range(0 if not damage else 1, 4 if deep else 3):
                        if op == 'rewrite' and meta is None:
                            continue
                        if not deep and (not some(4, t, op, damage, meta, nch) or op == 'rewrite' and damage == 'cut'):
                            continue
                        P = dict(op=op, entry=ENTRIES[zlib.crc32((op + t).encode()) % 3], damage=damage, meta=meta,
                                 nch=nch, levels=lv, ck=ALLCK[1 + (nch + len(op)) % 8], mck=ALLCK[(nch + 3) % 9])
                        out.append(job('%s-%s-%s-%s-%d' % (op, t, damage, meta, nch), 'verbosity:neutral', P, unroll=u))
        for d in ('f8', 'struct', 'S3'):
            for lay in LAYOUTS[:3]:
                out.append(job('array-%s-%s-%s' % (t, d, lay), 'verbosity:neutral',
                               dict(op='array', dtype=d, layout=lay, levels=lv, fits=some(2, t, d, lay)), unroll=u))
    for lev in ('NORMAL', 'VERBOSE', 'DEBUG'):
        for text in ('word', 'lines', 'blank', 'empty', 'percent', 'name', 'number'):
            out.append(job('message-%s-%s' % (lev, text), 'texts:messages', dict(level=lev, text=text)))
        for given in (False, True):
            out.append(job('error-%s-%s' % (lev, given), 'texts:error', dict(level=lev, given=given)))
    for kind in ('name', 'lower', 'none', 'empty', 'int'):
        out.append(job('level-' + kind, 'texts:set_level', dict(kind=kind)))
    return out


SETTINGS = ['typesize', 'clevel', 'shuffle', 'cname']
CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']


@check('C21', 'Blosc calls of pack, append and append_fp (numpy packing: see also C16)',
       {'settings': 'typesize 1..255, clevel 0..9, shuffle, each of the five codecs; each setting unset',
        'chunks': 'unroll; up to 2 old chunks', 'content': 'any bytes, any length'})
def c21(deep):
    out = []
    u = 6 if deep else 3
    kinds = [('none', None), ('all', None), ('bool', None), ('later', None)]
    for c, cname in enumerate(CNAMES):
        for e in ENTRIES + ['memory']:
            for a, only in kinds + [('one', o) for o in SETTINGS]:
                if deep or some(4, cname, e, a, only):
                    out.append(job('pack-%s-%s-%s-%s' % (cname, e, a, only), 'calls:packed_with',
                                   dict(cname=cname, entry=e, args=a, only=only, meta=some(3, cname, e, a),
                                        offsets=not some(3, e, a, only), ck=ALLCK[zlib.crc32((cname + e).encode()) % 9]),
                                   unroll=u))
        for e in ('append', 'append_fp'):
            for a, only in kinds + [('one', o) for o in SETTINGS] + [('unset', o) for o in SETTINGS + [None]]:
                for nch in range(0, 5 if deep else 3):
                    if deep or some(9, cname, e, a, only, nch):
                        out.append(job('%s-%s-%s-%s-%d' % (e, cname, a, only, nch), 'calls:appended_with',
                                       dict(cname=cname, entry=e, args=a, only=only, nch=nch,
                                            meta=[None, 'dict'][some(2, cname, e, a)],
                                            ck=ALLCK[zlib.crc32((cname + e + a).encode()) % 9]), unroll=u))
    return out


@check('C23', 'pairs of operations sharing argument objects and library state, against a fresh process',
       {'operations': 'pack, array packing, unpack, append, metadata rewrite; intact, damaged and cut files',
        'arguments': 'shared objects, all settings symbolic', 'chunks': 'unroll; up to 2 in files'},
       ['digests of different contents differ (damaged files only)',
        'a pair of calls stands for a history: nothing outside the argument objects survives the first call '
        'of arbitrary inputs that could tell the second'])
def c23(deep):
    out = []
    FIRST = ['packfile', 'packbytes', 'unpack', 'unpackfile', 'unpack-bad', 'append', 'append-bad', 'append-cut',
             'appendfp', 'rewrite', 'array']
    SECOND = ['packfile', 'packbytes', 'unpack', 'append', 'appendfp', 'rewrite', 'array']
    c = 0
    for a in FIRST:
        for b in SECOND:
            # a call that sets things, then one that relies on the defaults
            h = zlib.crc32(('%s %s' % (a, b)).encode())
            for bargs in ('all', 'none'):
                if not deep and (a not in ('packfile', 'array', 'append') or b not in ('packbytes', 'array', 'append')
                                 or a == b == 'append' and bargs == 'none'):
                    continue
                P = dict(first=a, second=b, bargs=bargs, defaults=True, meta='dict', nch=1,
                         pargs={'all': 'int', 'none': 'none'}[bargs], margs={'all': 'zlib', 'none': 'none'}[bargs],
                         filemeta=None, mcodec=['None'], short=True, dtype='S3', layout='both')
                out.append(job('%s-%s-default-%s' % (a, b, bargs), 'calls:isolated', P, unroll=1))
            for k in range(12 if deep else 1):
                c += 1
                h = zlib.crc32(('%s %s %d' % (a, b, k)).encode())
                if a in ('packfile', 'packbytes', 'array') and not b.startswith('append'):
                    bargs = ['all', 'none'][h % 2]
                elif a in ('packfile', 'packbytes', 'array') or b in ('packfile', 'packbytes', 'array'):
                    bargs = ['all', 'none'][h % 2]
                else:
                    bargs = ['all', 'unset', 'partial', 'none'][h % 4]
                P = dict(first=a, second=b, bargs=bargs, pargs=['int', 'call', 'off', 'default', 'none'][h // 4 % 5],
                         margs=['default', 'plain', 'zlib', 'size', 'none'][h // 16 % 5],
                         meta=['any', 'dict', 'none'][h // 64 % 3], filemeta=[None, 'any', 'dict'][h // 256 % 3],
                         nch=1 + h // 1024 % 2, dtype=['f8', 'S3', 'struct'][h // 2048 % 3],
                         layout=LAYOUTS[h // 8192 % 3])
                u = 3
                if not deep:
                    # appending twice (three times with the reference) multiplies the cases
                    files = [x for x in (a, b) if x.split('-')[0] in ('append', 'appendfp', 'rewrite')]
                    P.update(nch=1, filemeta=[None, 'dict'][h // 256 % 2], mcodec=CODECS2[not files], short=True)
                    if files and P['meta'] == 'any':
                        P['meta'] = 'dict'
                    u = 1 if files else 2
                out.append(job('%s-%s-%d' % (a, b, k), 'calls:isolated', P, unroll=u))
    return out


@check('C18', 'bloscpack.cli.main: compress, decompress and append with any file names',
       {'names': 'all names of up to 16 characters (letters, digits, . _ -)', 'existence': 'every pattern',
        'content': 'any bytes, any length', 'chunks': 'unroll; 1 in files'},
       ['file names without directories'])
def c18(deep):
    out = []
    V = [[], ['-v'], ['-d']]
    c = 0
    for force in (False, True):
        for given in (False, True):
            for sub in ('compress', 'c'):
                for v in V:
                    c += 1
                    if 1:
                        out.append(job('%s-%s-%s-%s' % (sub, force, given, v), 'cli:names',
                                       dict(sub=sub, force=force, out=given, opts=v), unroll=4 if deep else 2))
            for sub in ('decompress', 'd'):
                for v in V:
                    for nocheck in (False, True):
                        for ext in ('any', 'blp', 'bare'):
                            if 1:
                                out.append(job('%s-%s-%s-%s-%s-%s' % (sub, force, given, v, nocheck, ext), 'cli:names',
                                               dict(sub=sub, force=force, out=given, opts=v, nocheck=nocheck, ext=ext,
                                                    meta=[None, 'dict', 'null'][some(2, v, ext, sub)]), unroll=2))
    for sub in ('append', 'a'):
        for v in V:
            for nocheck in (False, True):
                for ext in (False, True):
                    if 1:
                        out.append(job('%s-%s-%s-%s' % (sub, v, nocheck, ext), 'cli:append_names',
                                       dict(sub=sub, opts=v, nocheck=nocheck, ext=ext,
                                            meta=[None, 'dict'][some(2, v, ext, sub)]), unroll=2))
    return out


OPTION_SETS = [[], ['-t'], ['--typesize'], ['-l'], ['--clevel'], ['-s'], ['--no-shuffle'], ['-c'], ['--codec'],
               ['-t', '-l', '-s', '-c'], ['-s', '-t'], ['-l', '-c']]
BAD_SIZES = ['', ' ', 'abc', 'K', 'M', '1X', '1.5', '1KB', '1.2.3K', '0x10', 'maximum', 'infK', 'nanM', '-infB', '1e400G',
             '--K', 'MAX', '1,5K']
BAD_JSON = ['', ' ', '{', '{"a":', 'text', "{'a': 1}", '\xff\xfe', '[1,]', '{"a": 1} x']


@check('C19', 'bloscpack.cli.main: every option of compress and append, failures of each subcommand',
       {'numbers': 'all integers; sizes with suffix and up to 3 places', 'content': 'any bytes, any length',
        'chunks': 'unroll; up to 2 in files', 'malformed texts': '%d sizes, %d metadata files' % (len(BAD_SIZES), len(BAD_JSON))},
       ['the machine has at least one core; argparse is the real one of the standard library',
        'digests of different contents differ (damaged files only)'])
def c19(deep):
    out = []
    u = 4 if deep else 2
    V = [[], ['-v'], ['-d'], ['-n'], ['--nthreads', '-v'], ['--debug'], ['--verbose', '-n']]
    for i, b in enumerate(OPTION_SETS):
        for k, cname in enumerate(CNAMES if '-c' in b or '--codec' in b else ['blosclz']):
            for j in range(len(V) if deep else 1):
                out.append(job('compress-%s-%s-%d' % (''.join(b), cname, j), 'cli:compress',
                               dict(blosc=b, cname=cname, sub=['compress', 'c'][i % 2], **{'global': V[(i + k + j) % 7]}),
                               unroll=u))
    for i, ck in enumerate([None] + ALLCK):
        for offs in (None, '-o', '--no-offsets'):
            for meta in (None, 'any', 'dict', 'list', 'empty', 'string', 'zero'):
                if deep or some(7, ck, offs, meta):
                    out.append(job('compress-%s-%s-%s' % (ck or 'default', offs, meta), 'cli:compress',
                                   dict(ck=ck, ckopt=['-k', '--checksum'][i % 2], offsets=offs, meta=meta,
                                        metaopt=['-m', '--metadata'][i // 2 % 2], space=i % 3 == 0,
                                        **{'global': V[i % 7]}), unroll=u))
    for z in ['max', '--max', 'int', '--int'] + [s + str(p) for s in 'BKMGT' for p in (range(0, 7) if deep else (0, 1, 3))
                                              if s != 'T' or p > 2]:
        out.append(job('compress-chunk-' + z, 'cli:compress', dict(chunk=z, sub=['compress', 'c'][some(2, z)]), unroll=u))
    for i, b in enumerate(OPTION_SETS):
        for nch in range(0, 4 if deep else 3):
            for new in (None, 'any', 'dict'):
                for meta in (None, 'any', 'dict', 'null'):
                    if not deep and (not some(9, i, nch, new, meta) or new == 'any' and nch):
                        continue
                    out.append(job('append-%s-%d-%s-%s' % (''.join(b), nch, new, meta), 'cli:append',
                                   dict(blosc=b, cname=CNAMES[(i + nch) % 5], nch=nch, newmeta=new, meta=meta,
                                        metaopt=['-m', '--metadata'][i % 2], sub=['append', 'a'][(i + nch) % 2],
                                        ck=ALLCK[(i + nch) % 9], mck=ALLCK[(i * 2 + nch) % 9],
                                        **{'global': V[(i + nch) % 7]}), unroll=u if deep or not new else 1))
    bad = [dict(kind='chunk text', text=t, opt=['-z', '--chunk-size'][k % 2]) for k, t in enumerate(BAD_SIZES)]
    bad += [dict(kind='chunk int', opt=o) for o in ('-z', '--chunk-size')]
    bad += [dict(kind='chunk suffix', suffix=s, places=p) for s in 'BKMGT' for p in ((0, 1, 2, 3, 4) if deep else (0, 2))]
    bad += [dict(kind='threads', opt=o) for o in ('-n', '--nthreads')] + \
        [dict(kind='threads text', text=t) for t in ('', 'x', '1.5')]
    for sub in ('compress', 'a', 'append'):
        bad += [dict(kind='typesize', sub=sub), dict(kind='clevel', sub=sub), dict(kind='no metadata file', sub=sub)]
        bad += [dict(kind='codec', text=t, sub=sub) for t in ('', 'gzip', 'BLOSCLZ')]
        bad += [dict(kind='metadata text', text=t, sub=sub) for t in BAD_JSON]
        bad += [dict(kind='number', opt=o, text=t, sub=sub) for o in ('-t', '-l') for t in ('', 'x', '1.0')]
    bad += [dict(kind='checksum', text=t) for t in ('', 'md6', 'ADLER32')] + [dict(kind='both')]
    for i, b in enumerate(bad):
        out.append(job('bad-%d-%s' % (i, '-'.join(str(v) for k, v in sorted(b.items()))), 'cli:bad_option', b, unroll=u))
    for sub in ('decompress', 'd', 'append', 'a', 'info', 'i'):
        for kind in ('digest', 'payload', 'version', 'magic', 'cut', 'meta digest', 'no offsets'):
            if (kind in ('digest', 'payload') and sub in ('info', 'i')) or \
                    (kind == 'no offsets' and sub not in ('append', 'a')):
                continue
            for nch in range(1, 4 if deep else 3):
                for v in V[:3]:
                    if not deep and not some(4, sub, kind, nch, v):
                        continue
                    out.append(job('fail-%s-%s-%d-%s' % (sub, kind, nch, v), 'cli:failure',
                                   dict(sub=sub, kind=kind, nch=nch, opts=v, mck='md5', ck=ALLCK[1 + (nch + len(kind)) % 8],
                                        meta='dict' if kind == 'meta digest' else None), unroll=4))
    for sub in ('info', 'i'):
        for meta in (None, 'any', 'null', 'empty', 'dict'):
            for nch in range(0, 4 if deep else 3):
                if deep or some(2, sub, meta, nch):
                    out.append(job('%s-%s-%d' % (sub, meta, nch), 'cli:info',
                                   dict(sub=sub, meta=meta, nch=nch, offsets=nch != 1, opts=V[nch], ck=ALLCK[nch + 2]), unroll=4))
    for argv in ([], ['compress'], ['c'], ['decompress'], ['d'], ['append'], ['a', 'in.blp'], ['info'], ['i'],
                 ['unknown', 'in.blp'], ['d', '-e', 'in.blp'], ['-v'], ['info', 'in.blp', 'x']):
        out.append(job('few-' + '-'.join(argv), 'cli:few', dict(argv=argv)))
    return out
