"""C21, C23: the settings chunks are compressed with; calls do not affect each other."""
from .common import *
from .files import make_file, join, do_append
from .arrays import make_array, unpack_array

DEFAULTS = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')   # documented


def given_args(H, kind, cname, only=None):
    """(BloscArgs or None, what was set)"""
    s = dict(typesize=H.int('typesize', 1, 255), clevel=H.int('clevel', 0, 9), shuffle=H.int('shuffle', 0, 1),
             cname=cname)
    B = H.bp.args.BloscArgs
    if kind == 'none':
        return None, {}
    if kind == 'all':
        return B(**s), s
    if kind == 'bool':
        s['shuffle'] = H.flag('shuffled')
        return B(**s), s
    if kind == 'one':
        return B(**{only: s[only]}), {only: s[only]}
    if kind == 'later':
        # set as a mapping
        a = B()
        for k in s:
            a[k] = s[k]
        return a, s
    if kind == 'unset':
        a = B(typesize=None, clevel=None, shuffle=None, cname=None)
        if only:
            a[only] = s[only]
        return a, {only: s[only]} if only else {}
    raise KeyError(kind)


def check_call(H, c, want, label):
    for k in ('typesize', 'clevel', 'shuffle'):
        H.check(c[k] == want[k], '%s: %s as requested' % (label, k))
    H.check(c['cname'] == want['cname'], '%s: codec as requested' % label, c['cname'])


def packed_with(H):
    """C21: packing."""
    P = H.params
    n = H.int('n', 0)
    cs = H.int('chunk_size', 1, MAXBUF)
    H.prefer(n < 400)
    data = H.bytes('data', n)
    b, s = given_args(H, P['args'], P['cname'], P.get('only'))
    want = dict(DEFAULTS, **s)
    pargs = H.bp.args.BloscpackArgs(checksum=P.get('ck', 'adler32'), offsets=P.get('offsets', True))
    meta = {'a': 1} if P.get('meta') else None
    H.clear_compressed()
    if P['entry'] == 'memory':
        m = H.bp.memory_io
        k = 2
        last = H.int('last', 1, MAXBUF)
        H.assume(last <= cs)
        chunks = [H.bytes('c0', cs), H.bytes('c1', last)]
        sink = m.CompressedMemorySink()
        r = H.call(H.bp.abstract_io.pack, m.PlainMemorySource(chunks), sink, 2, cs, last, metadata=meta,
                   blosc_args=b, bloscpack_args=pargs)
        data = H.concat(chunks)
        out = None
    else:
        r, out = do_pack(H, P['entry'], data, cs, meta, b, pargs)
    H.check(r.ok, 'packing succeeds', r.kind)
    calls = H.compressed()
    for c in calls:
        check_call(H, c, want, 'chunk')
    H.check(H.eq(H.concat([c['plain'] for c in calls]), data), 'every byte is compressed once')
    if out is not None:
        h = Head(H, out)
        H.check(h.typesize == want['typesize'], 'the header records the typesize')
        H.check(count(H, h.nchunks) == len(calls), 'one compression for each chunk')
    H.outcome(len(calls))


def appended_with(H):
    """C21: appending."""
    P = H.params
    f = make_file(H, P)
    n = H.int('n', 0)
    if P['nch'] == 0:
        H.assume(n == 0)
    H.prefer(n < 1500)
    new = H.bytes('new', n)
    b, s = given_args(H, P['args'], P['cname'], P.get('only'))
    if P['args'] == 'none' or P['args'] == 'unset':
        want = dict(DEFAULTS, typesize=f.typesize)
    else:
        want = dict(DEFAULTS)
    want.update(s)
    H.clear_compressed()
    r, after = do_append(H, P['entry'], f.bytes, new, b)
    if not r.ok:
        H.check(r.is_a('NotEnoughSpace'), 'append succeeds', r.kind)
        H.check(len(H.compressed()) == 0 or H.eq(after, f.bytes), 'a refused append writes nothing')
        return
    calls = H.compressed()
    h = Head(H, after)
    added = count(H, h.nchunks - f.nch)
    H.check(len(calls) == added + 1, 'the last chunk and each new one are compressed')
    for i, c in enumerate(calls):
        check_call(H, c, want, 'new chunk' if i else 'refilled chunk')
    H.check(H.eq(H.concat([c['plain'] for c in calls]), H.concat([f.data[-1], new])),
            'the last chunk and the new content are compressed')
    H.check(h.typesize == f.typesize, 'the header keeps its typesize')
    H.outcome(added)


# ----------------------------------------------------------------------- C23
SET = {'blosc': ('typesize', 'clevel', 'shuffle', 'cname'), 'bloscpack': ('offsets', 'checksum', 'max_app_chunks'),
       'metadata': ('magic_format', 'meta_checksum', 'meta_codec', 'meta_level', 'max_meta_size')}


class Values(object):
    """What the caller passes; objects are made of it as often as needed."""

    def __init__(self, H, P):
        b = P.get('bargs', 'all')
        self.blosc = {'all': lambda: dict(settings(H), cname='lz4'),
                      'unset': lambda: dict(typesize=None, clevel=None, shuffle=None, cname=None),
                      'partial': lambda: dict(typesize=None, clevel=3, shuffle=H.int('shuffle', 0, 1), cname=None),
                      'none': lambda: None}[b]()
        app = H.int('max_app', 0, MAXAPP)
        H.prefer(app < 50)
        self.bloscpack = {'int': lambda: dict(offsets=True, checksum='crc32', max_app_chunks=app),
                          'call': lambda: dict(offsets=True, checksum='md5', max_app_chunks=H.func('app', lambda n: 2 * n + 1)),
                          'off': lambda: dict(offsets=False, checksum='None', max_app_chunks=app),
                          'default': lambda: {}, 'none': lambda: None}[P.get('pargs', 'int')]()
        self.metadata = {'default': lambda: {}, 'none': lambda: None,
                         'plain': lambda: dict(meta_codec='None'),
                         'zlib': lambda: dict(meta_level=H.int('level', 0, 9), meta_checksum='sha1'),
                         'size': lambda: dict(max_meta_size=H.func('size', lambda s: 3 * s + 64)),
                         }[P.get('margs', 'default')]()

    def make(self, H):
        a = H.bp.args
        return dict(blosc=None if self.blosc is None else a.BloscArgs(**self.blosc),
                    bloscpack=None if self.bloscpack is None else a.BloscpackArgs(**self.bloscpack),
                    metadata=None if self.metadata is None else a.MetadataArgs(**self.metadata))


def look(H, A):
    """What the argument objects hold."""
    return {w: None if A[w] is None else {k: getattr(A[w], k) for k in SET[w]} for w in SET}


def check_unchanged(H, A, before, label):
    now = look(H, A)
    for w in SET:
        if A[w] is None:
            continue
        H.check(list(A[w]) == list(SET[w]), label + ': same settings listed')
        for k in SET[w]:
            x, y = before[w][k], now[w][k]
            same = x is y if x is None or isinstance(x, (bool, str)) or callable(x) else y is not None and x == y
            H.check(same if not isinstance(x, str) else x == y, '%s: %s of the argument object unchanged' % (label, k))


def inputs(H, P, op, tag):
    """Arbitrary inputs of an operation."""
    x = dict(op=op)
    if op.startswith('pack'):
        n = H.int(tag + 'n', 0)
        H.prefer(n < 300)
        x['data'] = H.bytes(tag + 'data', n)
        x['cs'] = H.int(tag + 'chunk_size', 1, MAXBUF)
        x['meta'] = {'any': lambda: H.meta(tag + 'm'), 'dict': lambda: {'k': [1, {'x': None}], 'b': 'c'},
                     'none': lambda: None}[P.get('meta', 'any')]()
    elif op == 'array':
        a, item, count, dt = make_array(H, dict(dtype=P.get('dtype', 'f8'), layout=P.get('layout', 'both')), tag)
        q = H.int(tag + 'items', 1, MAXBUF // item)
        H.prefer(q < 40)
        x['array'], x['cs'] = a, q * item
    else:
        kind = op.split('-')
        p = dict(P, nch=P.get('nch', 1), meta=P.get('filemeta'), ck='sha256', mck='crc32')
        if 'rewrite' in kind[0] and not p['meta']:
            p['meta'] = 'dict' if P.get('short') else 'any'
        f = make_file(H, p, tag)
        x['file'] = f.bytes
        if P.get('short') and tag == 'x_':
            H.assume(f.app > 0)
        if 'bad' in kind:
            x['file'] = join(H, f, digests=f.digests[:-1] + [H.altered(tag + 'bad', f.digests[-1])])
        if 'cut' in kind:
            t = H.int(tag + 't', 0)
            H.assume(H.And(t >= f.pos[-1], t < H.len(f.bytes)))
            x['file'] = H.cut(f.bytes, 0, t)
        m = H.int(tag + 'm', 0)
        H.prefer(m < 300)
        x['new'] = H.bytes(tag + 'new', m)
        x['meta'] = None
        if kind[0] == 'rewrite':
            x['meta'] = {'new': [tag, 1]} if P.get('short') else H.meta(tag + 'rewritten')
    return x


def run(H, x, A):
    """(result, what was written or returned)"""
    op = x['op'].split('-')[0]
    bp = H.bp
    if op == 'packfile':
        H.put('in.dat', x['data'])
        r = H.call(bp.file_io.pack_file_to_file, 'in.dat', 'out.blp', chunk_size=x['cs'], metadata=x['meta'],
                   blosc_args=A['blosc'], bloscpack_args=A['bloscpack'], metadata_args=A['metadata'])
        return r, H.get('out.blp') if r.ok else None
    if op == 'packbytes':
        r = H.call(bp.file_io.pack_bytes_to_bytes, x['data'], chunk_size=x['cs'], metadata=x['meta'],
                   blosc_args=A['blosc'], bloscpack_args=A['bloscpack'], metadata_args=A['metadata'])
        return r, r.value
    if op == 'array':
        r = H.call(bp.numpy_io.pack_ndarray_to_bytes, x['array'], chunk_size=x['cs'],
                   blosc_args=A['blosc'], bloscpack_args=A['bloscpack'], metadata_args=A['metadata'])
        return r, r.value
    if op == 'unpack':
        r, out, m = do_unpack(H, 'bytes', x['file'])
        return r, out
    if op == 'unpackfile':
        r, out, m = do_unpack(H, 'file', x['file'])
        return r, out
    if op in ('append', 'appendfp'):
        return do_append(H, 'append_fp' if op == 'appendfp' else 'append', x['file'], x['new'], A['blosc'])
    if op == 'rewrite':
        fp = H.memfile(x['file'])
        r = H.call(bp.append._seek_to_metadata, fp)
        if r.ok:
            r = H.call(bp.append._rewrite_metadata_fp, fp, x['meta'])
        return r, fp.getvalue()
    raise KeyError(op)


NOTHING = dict(blosc=None, bloscpack=None, metadata=None)


def isolated(H):
    """C23: an operation after another one, with the same argument objects."""
    P = H.params
    if P.get('distinct', True):
        H.distinct_digests()
    H.distinct_metas()
    V = Values(H, P)
    x, y = inputs(H, P, P['first'], 'x_'), inputs(H, P, P['second'], 'y_')
    A = V.make(H)
    before = look(H, A)
    metas = [dict(z['meta']) if isinstance(z.get('meta'), dict) else None for z in (x, y)]
    arrays = [z['array'] for z in (x, y) if 'array' in z]
    held = [(H.array_bytes(a, H.array_order(a)), list(a.shape), a.dtype) for a in arrays]
    run(H, x, A)
    check_unchanged(H, A, before, 'after the first call')
    # the second call: the same argument objects, or the defaults
    own = P.get('defaults')
    r1, out1 = run(H, y, NOTHING if own else A)
    check_unchanged(H, A, before, 'after the second call')
    for z, m in zip((x, y), metas):
        if m is not None:
            H.check(z['meta'] == m and list(z['meta']) == list(m), 'metadata unchanged')
    for a, (b, shape, dt) in zip(arrays, held):
        H.check(H.eq(H.array_bytes(a, H.array_order(a)), b), 'array unchanged')
        H.check(H.same(list(a.shape), shape) and a.dtype == dt, 'array shape unchanged')
    H.restart()
    r2, out2 = run(H, y, NOTHING if own else V.make(H))
    H.check(r1.kind == r2.kind, 'same result as in a fresh process', r1.kind + ' ' + r2.kind)
    H.check((out1 is None) == (out2 is None), 'same output as in a fresh process')
    if out1 is not None:
        H.check(H.eq(out1, out2), 'same bytes as in a fresh process')
    if P['second'].startswith('append') and r1.ok and r1.value is not None:
        H.check(r1.value == r2.value, 'same value as in a fresh process')
