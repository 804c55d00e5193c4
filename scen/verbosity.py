"""C22: the log level changes nothing but the messages."""
from .common import *
from .files import make_file, join
from .arrays import make_array, make_dtype, DTYPES
from .roundtrip import args


def operation(H, P, x, level):
    """Run one operation in a fresh process at this level: what came out of it."""
    H.restart()
    H.bp.log.set_level(level)
    H.bp.log.set_prefix('blpk') if P.get('prefix') else None
    bp = H.bp
    op = P['op']
    H.clear_output()
    if op == 'pack':
        b = bp.args.BloscArgs(**x['s'])
        p = bp.args.BloscpackArgs(offsets=P.get('offsets', True), checksum=P['ck'], max_app_chunks=x['app'])
        r, out = do_pack(H, P['entry'], x['data'], x['cs'], x['meta'], b, p)
    elif op == 'unpack':
        r, out, m = do_unpack(H, P['entry'], x['file'])
    elif op == 'append':
        H.put('old.blp', x['file'])
        H.put('new.dat', x['new'])
        r = H.call(bp.append.append, 'old.blp', 'new.dat')
        out = H.get('old.blp')
    elif op == 'append_fp':
        fp = H.memfile(x['file'])
        r = H.call(bp.append.append_fp, fp, H.memfile(x['new']), H.len(x['new']))
        out = fp.getvalue()
    elif op == 'rewrite':
        H.put('old.blp', x['file'])
        fp = H.openfile('old.blp', 'r+b')
        r = H.call(bp.append._seek_to_metadata, fp)
        if r.ok:
            r = H.call(bp.append._rewrite_metadata_fp, fp, x['meta'], **x['over'])
        fp.close()
        out = H.get('old.blp')
    elif op == 'array':
        r = H.call(bp.numpy_io.pack_ndarray_to_bytes, x['array'], x['cs'])
        out = r.value
    H.check(H.stderr() == '', 'nothing on standard error')
    if level == 'NORMAL' and op not in ('x',):
        H.check(H.stdout() == '', 'the library is silent by default')
    H.check(bp.log.LEVEL == level, 'the level stays')
    return r, out


def neutral(H):
    P = H.params
    op = P['op']
    x = {}
    if op == 'pack':
        n = H.int('n', 0)
        H.prefer(n < 400)
        app = H.int('max_app', 0, MAXAPP)
        H.prefer(app < 50)
        x = dict(data=H.bytes('data', n), cs=H.int('chunk_size', 1, MAXBUF), s=settings(H), app=app,
                 meta={'any': lambda: H.meta('m'), 'none': lambda: None, 'null': lambda: None,
                       'empty': lambda: {}}[P['meta'] or 'none']())
    elif op == 'array':
        a, item, count, dt = make_array(H, P)
        q = H.int('items_per_chunk', 1, MAXBUF // item)
        H.prefer(q < 40)
        x = dict(array=a, cs=q * item if P.get('fits', True) else 2 ** 20 + 1)
    else:
        f = make_file(H, P)
        H.distinct_metas()
        x['file'] = f.bytes
        if P.get('damage'):
            H.distinct_digests()
            i = f.nch - 1
            if P['damage'] == 'digest':
                g = list(f.digests)
                g[i] = H.altered('bad', g[i])
                x['file'] = join(H, f, digests=g)
            elif P['damage'] == 'cut':
                t = H.int('t', 0)
                H.assume(t < H.len(f.bytes))
                x['file'] = H.cut(f.bytes, 0, t)
        m = H.int('m', 0)
        H.prefer(m < 600)
        x['new'] = H.bytes('new', m)
        if op == 'rewrite':
            x['meta'] = H.meta('new_m')
            x['over'] = P.get('over', {})
    ref = None
    for level in P['levels']:
        r, out = operation(H, P, x, level)
        if ref is None:
            ref = r, out
            continue
        H.check(r.ok == ref[0].ok, 'same success at every level', r.kind)
        H.check(r.kind == ref[0].kind, 'same exception at every level', r.kind)
        v, w = r.value, ref[0].value
        if op in ('append', 'append_fp') and r.ok:
            H.check(v is None if w is None else v == w, 'same value at every level')
        elif op == 'unpack' and r.ok:
            v, w = (v[1], w[1]) if isinstance(v, tuple) else (v, w)
            H.check(v is None if w is None else H.same(v, w), 'same metadata at every level')
        H.check((out is None) == (ref[1] is None), 'same output at every level')
        if out is not None:
            H.check(H.eq(out, ref[1]), 'same bytes at every level')
