"""C16, C17: numpy arrays."""
import ast

from .common import *
from .files import make_file, join
from .roundtrip import args

STRUCT = [('a', '<i4'), ('b', '<f8')]
NESTED = [('a', '<i4'), ('b', [('c', '<f8'), ('d', '|i1')])]
SUBARR = [('a', '<i4', (3,)), ('b', '|S2')]
DTYPES = {'i1': ('|i1', 1), 'bool': ('|b1', 1), 'f2': ('<f2', 2), 'S3': ('|S3', 3), 'i4be': ('>i4', 4), 'f8': ('<f8', 8),
          'c16': ('<c16', 16), 'U5': ('<U5', 20), 'V255': ('|V255', 255), 'M8': ('<M8[s]', 8),
          'struct': ('|V12', 12), 'nested': ('|V13', 13), 'subarray': ('|V14', 14), 'V256': ('|V256', 256)}
FIELDS = {'struct': STRUCT, 'nested': NESTED, 'subarray': SUBARR}


def make_dtype(H, name):
    s, size = DTYPES[name]
    if name in FIELDS:
        d = FIELDS[name]
        return H.dtype(s, size, names=tuple(f[0] for f in d), descr=d), size
    return H.dtype(s, size), size


def make_array(H, P, tag=''):
    dt, item = make_dtype(H, P['dtype'])
    layout = P['layout']
    if layout == '0d':
        count = 1
    elif layout == 'both':
        count = H.int(tag + 'count', 0, 2 ** 40)
    else:
        count = H.int(tag + 'count', 4, 2 ** 40)
        H.prefer(count % 6 == 0)
    if layout == 'strided':
        # a copy of some size, so that its memory is given back for good
        H.prefer(H.And(count < 1000, count >= 600))
    elif layout != '0d':
        H.prefer(H.And(count < 60, count > 3))
    return H.array(tag + 'a', dt, count, layout), item, count, dt


def pack_array(H, P, a, **k):
    """(result, packed bytes or sink)"""
    n = H.bp.numpy_io
    e = P['pack']
    if e == 'file':
        r = H.call(n.pack_ndarray_to_file, a, 'a.blp', **k)
        return r, H.get('a.blp')
    if e == 'oldfile':
        r = H.call(n.pack_ndarray_file, a, 'a.blp', **k)
        return r, H.get('a.blp')
    if e == 'bytes':
        r = H.call(n.pack_ndarray_to_bytes, a, **k)
        return r, r.value
    if e == 'oldbytes':
        r = H.call(n.pack_ndarray_str, a, **k)
        return r, r.value
    if e == 'sink':
        fp = H.memfile(b'')
        r = H.call(n.pack_ndarray, a, H.bp.file_io.CompressedFPSink(fp), **k)
        return r, fp.getvalue()
    sink = H.bp.memory_io.CompressedMemorySink()
    r = H.call(n.pack_ndarray, a, sink, **k)
    return r, sink


def unpack_array(H, how, packed):
    n = H.bp.numpy_io
    if how == 'memory':
        return H.call(lambda: n.unpack_ndarray(H.bp.memory_io.CompressedMemorySource(packed)))
    if how in ('file', 'oldfile'):
        H.put('b.blp', packed)
        return H.call(n.unpack_ndarray_from_file if how == 'file' else n.unpack_ndarray_file, 'b.blp')
    if how == 'source':
        return H.call(lambda: n.unpack_ndarray(H.bp.file_io.CompressedFPSource(H.memfile(packed))))
    return H.call(n.unpack_ndarray_from_bytes if how == 'bytes' else n.unpack_ndarray_str, packed)


def pack_args(H, P, item):
    """Keyword arguments and settings."""
    k, s = {}, dict(clevel=7, shuffle=True, cname='blosclz')
    if P.get('bargs', True):
        s = settings(H, P.get('cname'))
        k['blosc_args'] = H.bp.args.BloscArgs(**s)
    pk = dict(checksum=P.get('ck', 'adler32'), offsets=P.get('offsets', True))
    k['bloscpack_args'] = H.bp.args.BloscpackArgs(**pk)
    s['typesize'] = item
    return k, s


def roundtrip(H):
    """C16"""
    P = H.params
    a, item, count, dt = make_array(H, P)
    n = count * item
    k, s = pack_args(H, P, item)
    cs = 2 ** 20
    if P.get('chunk', 'any') == 'any':
        q = H.int('items_per_chunk', 1, MAXBUF // item)
        H.prefer(q < 40)
        cs = k['chunk_size'] = q * item
    elif P['chunk'] == 'large':
        # larger than the array, and no multiple of the item size
        cs = k['chunk_size'] = H.int('chunk_size', 1, MAXBUF)
        H.assume(cs > n)
    elif P['chunk'] == 'default':
        # admissible: a multiple of the item size, or larger than the array
        if cs % item:
            H.assume(n < cs)
        H.assume(n <= 3 * cs)
    H.clear_compressed()
    r, packed = pack_array(H, P, a, **k)
    H.check(r.ok, 'packing an array succeeds', r.kind)
    # every byte compressed exactly once, in the order recorded
    calls = H.compressed()
    memory = H.array_order(a)
    want = H.array_bytes(a, memory)
    H.check(H.eq(H.concat([c['plain'] for c in calls]), want), 'each byte of the array is compressed exactly once')
    for c in calls:
        H.check(c['typesize'] == item, 'the item size is the typesize')
        H.check(H.And(c['clevel'] == s['clevel'], c['shuffle'] == s['shuffle']), 'requested settings')
        H.check(c['cname'] == s['cname'], 'requested codec')
    shape = list(a.shape)
    desc = {'dtype': repr(FIELDS[P['dtype']]) if P['dtype'] in FIELDS else repr(DTYPES[P['dtype']][0]),
            'shape': shape, 'order': memory, 'container': 'numpy'}
    if P['pack'] == 'memory':
        meta = packed.metadata
    else:
        rr, plain, meta = do_unpack(H, 'bytes', packed)
        H.check(rr.ok and H.eq(plain, want), 'the packed bytes are those of the array', rr.kind)
        h = Head(H, packed)
        H.check(h.typesize == item, 'the header records the item size')
    check_desc(H, meta, desc, P['dtype'])
    if P['pack'] != 'memory' and P.get('restart', True):
        H.restart()
    r = unpack_array(H, P['unpack'], packed)
    H.check(r.ok, 'unpacking an array succeeds', r.kind)
    b = r.value
    H.check(b.dtype == dt, 'same dtype')
    H.check(H.same(list(b.shape), shape), 'same shape')
    H.check(H.array_order(b) == memory, 'same order')
    got = H.array_bytes(b, memory)
    H.check(got is not None and H.eq(got, want), 'every byte is filled with the byte it came from')
    H.outcome(n, len(calls))


def check_desc(H, meta, desc, name):
    H.check(sorted(meta) == sorted(desc), 'array description: keys')
    H.check(meta['container'] == 'numpy', 'array description: container')
    H.check(meta['order'] == desc['order'], 'array description: order')
    H.check(H.same(list(meta['shape']), desc['shape']), 'array description: shape')
    H.check(ast.literal_eval(meta['dtype']) == ast.literal_eval(desc['dtype']), 'array description: dtype')


def refused(H):
    """C17: arrays that can not be packed."""
    P = H.params
    if P['kind'] == 'object':
        a = H.array('a', H.dtype('|O', 8, hasobject=True), 3, 'both')
        r, packed = pack_array(H, P, a)
        H.check(r.is_a('ObjectNumpyArrayRejection'), 'arrays of objects are rejected', r.kind)
        H.check(len(H.compressed()) == 0, 'nothing of it is compressed')
        return
    a, item, count, dt = make_array(H, P)
    n = count * item
    k, s = pack_args(H, P, item)
    if P['kind'] == 'chunk':
        cs = k['chunk_size'] = H.int('chunk_size', 1, MAXBUF)
        H.prefer(cs < 200)
        H.assume(H.And(cs < n, cs % item != 0))
        H.clear_compressed()
        r, packed = pack_array(H, P, a, **k)
        H.check(r.is_a('ChunkSizeTypeSizeMismatch'), 'a chunk size that cuts items is refused', r.kind)
        H.check(len(H.compressed()) == 0, 'nothing is compressed in such chunks')
    else:
        # items larger than Blosc's maximum
        r, packed = pack_array(H, P, a, **k)
        H.check(not r.ok, 'items that are too large are refused', r.kind)


NOT = {'none': 'no metadata', 'null': None, 'list': [], 'list2': ['container', 'numpy'], 'int': 0, 'string': 'numpy',
       'string2': 'container', 'empty': {}, 'true': True, 'number': 7, 'other': {'container': 'pandas'},
       'nocontainer': {'dtype': "'<f8'", 'shape': [1], 'order': 'C'},
       'case': {'dtype': "'<f8'", 'shape': [1], 'order': 'C', 'container': 'NUMPY'},
       'nullcontainer': {'dtype': "'<f8'", 'shape': [1], 'order': 'C', 'container': None},
       'listcontainer': {'dtype': "'<f8'", 'shape': [1], 'order': 'C', 'container': ['numpy']}}


def not_array(H):
    """C17: content that is no array."""
    P = H.params
    v = NOT[P['value']] if P['value'] != 'name' else {'container': H.name('container'), 'shape': [1],
                                                      'dtype': "'<f8'", 'order': 'C'}
    if P['value'] == 'name':
        H.assume(v['container'] != 'numpy')
    p = dict(P, meta=None if P['value'] == 'none' else 'numpy', meta_value=v)
    f = make_file(H, p)
    if P['unpack'] == 'memory':
        m = H.bp.memory_io
        sink = m.CompressedMemorySink()
        k = {} if P['value'] == 'none' else dict(metadata=v)
        d = H.bytes('data', H.int('n', 1, MAXBUF))
        H.call(H.bp.abstract_io.pack, m.PlainMemorySource([d]), sink, 1, H.len(d), H.len(d), **k)
        r = unpack_array(H, 'memory', sink)
    else:
        r = unpack_array(H, P['unpack'], f.bytes)
    H.check(r.is_a('NotANumpyArray'), 'content that is no array is refused', r.kind)


def mismatched(H):
    """C17: content larger or smaller than the recorded array."""
    P = H.params
    dt, item = make_dtype(H, P['dtype'])
    if P['shape'] == 'empty':
        count, shape = 0, [0]
    elif P['shape'] == '0d':
        count, shape = 1, []
    else:
        count = H.int('count', 0, 2 ** 34)
        shape = [count]
    H.prefer(count < 60) if P['shape'] == 'any' else None
    v = {'dtype': repr(FIELDS[P['dtype']]) if P['dtype'] in FIELDS else repr(DTYPES[P['dtype']][0]),
         'shape': shape, 'order': P.get('order', 'C'), 'container': 'numpy'}
    f = make_file(H, dict(P, meta='numpy', meta_value=v))
    size = H.len(f.plain)
    b = f.bytes
    if P.get('bad'):
        # a damaged size in the header of the last chunk
        c = f.chunks[-1]
        chunks = f.chunks[:-1] + [H.concat([H.cut(c, 0, 4), H.altered('bad', H.cut(c, 4, 8)),
                                            H.cut(c, 8, H.len(c))])]
        b = join(H, f, chunks=chunks)
    r = unpack_array(H, P['unpack'], b)
    if P.get('bad'):
        H.check(not r.ok or H.array_bytes(r.value, P.get('order', 'C')) is not None,
                'no unfilled bytes are returned')
        return
    if r.ok:
        H.check(size == count * item, 'only content of the recorded size is accepted')
        H.check(H.eq(H.array_bytes(r.value, P.get('order', 'C')), f.plain), 'content')
    else:
        H.check(size != count * item, 'content of the recorded size is accepted', r.kind)
