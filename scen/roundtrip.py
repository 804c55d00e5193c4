"""C01, C03, C06, C07: packing, layout and chunking."""
from .common import *


def args(H, P):
    """Arguments from the job parameters."""
    a = H.bp.args
    s = settings(H, P.get('cname'))
    ck = P.get('ck', 'adler32')
    offs = P.get('offsets', True)
    app = H.int('max_app', 0, MAXAPP) if P.get('app') == 'int' else None
    H.prefer(app < 50) if app is not None else None
    pk = dict(offsets=offs, checksum=ck)
    if app is not None:
        pk['max_app_chunks'] = app
    return a.BloscArgs(**s), a.BloscpackArgs(**pk), s, (app if app is not None else lambda n: 10 * n)


def meta_args(H, P):
    """(metadata, MetadataArgs or None, spec)"""
    kind = P.get('meta')
    if not kind:
        return None, None, {}
    if kind == 'empty':
        meta = {}
    else:
        meta = H.meta('m')
    if P.get('margs') is None:
        return meta, None, dict(limit=lambda s: 10 * s)
    m = dict(P['margs'])
    limit = m.pop('limit', None)
    spec = dict(ck=m.get('meta_checksum', 'adler32'), codec=m.get('meta_codec', 'zlib'),
                level=m.get('meta_level', 6))
    if limit == 'int':
        lim = H.int('max_meta_size', 0, MAXMETA)
        m['max_meta_size'] = lim
        spec['limit'] = lim
    elif limit == 'exact':
        m['max_meta_size'] = H.func('exact', lambda s: s)
        spec['limit'] = lambda s: s
    else:
        spec['limit'] = lambda s: 10 * s
    if m.get('meta_level') == 'any':
        m['meta_level'] = spec['level'] = H.int('meta_level', 0, 9)
    return meta, H.bp.args.MetadataArgs(**m), spec


def roundtrip(H):
    """C01: unpack(pack(x)) == x, metadata included."""
    P = H.params
    n = H.int('n', 0)
    cs = H.int('chunk_size', 1, MAXBUF)
    H.prefer(n < 400)
    data = H.bytes('data', n)
    bargs, pargs, s, app = args(H, P)
    meta, margs, spec = meta_args(H, P)
    r, packed = do_pack(H, P['pack'], data, cs, meta, bargs, pargs, margs)
    if meta is not None and r.is_a('MetadataSectionTooSmall', 'ValueError'):
        # only refused for its size
        H.check(P.get('margs') is not None or H.meta_len(meta) * 10 > MAXMETA, 'packing is not refused')
        return
    H.check(r.ok, 'packing succeeds', r.kind)
    H.restart()
    r, back, m = do_unpack(H, P['unpack'], packed)
    H.check(r.ok, 'unpacking succeeds', r.kind)
    H.check(H.eq(back, data), 'same content')
    if meta is None:
        H.check(m is None, 'no metadata invented')
    else:
        H.check(m is not None and H.same(m, meta), 'same metadata')
    H.outcome(H.len(packed), H.len(back))


def layout(H):
    """C03: the packed bytes are the documented file."""
    P = H.params
    n = H.int('n', 0)
    cs = H.int('chunk_size', 1, MAXBUF)
    H.prefer(n < 400)
    data = H.bytes('data', n)
    bargs, pargs, s, app = args(H, P)
    meta, margs, spec = meta_args(H, P)
    r, f = do_pack(H, P['pack'], data, cs, meta, bargs, pargs, margs)
    if meta is not None and r.is_a('MetadataSectionTooSmall', 'ValueError'):
        H.check(P.get('margs') is not None or H.meta_len(meta) * 10 > MAXMETA, 'packing is not refused')
        return
    H.check(r.ok, 'packing succeeds', r.kind)
    nch = check_file(H, f, data, min_(H, cs, n), P.get('offsets', True), P.get('ck', 'adler32'),
                     s['typesize'], app, meta, spec)
    H.outcome(nch, H.len(f))


def chunks(H):
    """C06: calculate_nchunks."""
    P = H.params
    n = H.int('n')
    kind = P['kind']
    if kind == 'int':
        cs = H.int('chunk_size')
        arg = cs
    elif kind == 'default':
        cs, arg = 2 ** 20, None
    else:
        # a number and a suffix
        v = H.int('value')
        suf = P['suffix']
        arg = H.numtext(v) + suf
        cs = v * {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}[suf]
    f = H.bp.args.calculate_nchunks
    r = H.call(f, n) if arg is None else H.call(f, n, arg)
    if H.truth(n < 0):
        H.check(r.is_a('ValueError'), 'negative length is refused')
        return
    if H.truth(n == 0):
        H.check(r.ok and H.And(r.value[0] == 1, r.value[1] == 0, r.value[2] == 0), 'empty input is one empty chunk')
        return
    if H.truth(H.Or(cs < 1, cs > MAXBUF)):
        H.check(r.is_a('ValueError'), 'chunk size outside 1..maximum is refused')
        return
    if r.is_a('ChunkingException'):
        H.check(n > (MAXCHUNKS) * cs, 'only refused for too many chunks')
        return
    H.check(r.ok, 'accepted', r.kind)
    nch, size, last = r.value
    H.check(H.And(H.is_int(nch), H.is_int(size), H.is_int(last)), 'integers')
    H.check(H.And(nch >= 1, nch <= MAXCHUNKS), 'number of chunks')
    H.check(size == H.If(n < cs, n, cs), 'effective chunk size')
    H.check(H.And(last >= 1, last <= size), 'last chunk not empty and not larger')
    H.check((nch - 1) * size + last == n, 'chunks cover the input exactly')
    H.outcome(nch, size, last)


def chunks_far(H):
    """C06 for every number of chunks: given what Python's divmod returns."""
    H.nonlinear()
    chunks(H)


def max_app(H):
    """C07: resolution of max_app_chunks."""
    P = H.params
    nch = H.int('nchunks', -1, MAXCHUNKS)
    offs = P['offsets']
    kind = P['kind']
    v = H.int('value')
    if kind == 'int':
        arg = v
    elif kind == 'call':
        arg = H.func('f', lambda x: v)
    elif kind == 'default':
        arg = H.bp.defaults.DEFAULT_MAX_APP_CHUNKS
    elif kind == 'bool':
        arg = H.flag('flag')
        v = 1 if arg else 0
    else:
        arg = {'none': None, 'str': 'x', 'float': 1.5, 'callnone': (lambda x: None),
               'callfloat': (lambda x: 2.0)}[kind]
    r = H.call(H.bp.args._handle_max_apps, offs, nch, arg)
    if not offs or H.truth(nch == -1):
        H.check(r.ok and r.value == 0, 'no preallocation without offsets')
        return
    if kind in ('none', 'str', 'float'):
        H.check(r.is_a('TypeError'), 'wrong type is refused')
        return
    if kind in ('callnone', 'callfloat'):
        H.check(r.is_a('ValueError'), 'callable returning a non-integer is refused')
        return
    if kind == 'default':
        v = 10 * nch
    if H.truth(v < 0):
        H.check(r.is_a('ValueError'), 'negative is refused')
        return
    if kind == 'int' and H.truth(v > MAXCHUNKS):
        H.check(r.is_a('ValueError'), 'too large an integer is refused')
        return
    H.check(r.ok, 'accepted', r.kind)
    H.check(H.is_int(r.value) or kind == 'bool', 'an integer')
    H.check(r.value == H.If(nch + v > MAXCHUNKS, MAXCHUNKS - nch, v), 'value, cut to the maximum')
    H.outcome(r.value)
