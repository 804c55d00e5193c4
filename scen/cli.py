"""C18, C19: the command line."""
from .common import *
from .files import make_file, join, needed

THREADS = 256          # the Blosc maximum
MAXFILE = 2 ** 62      # bytes in a file
DEFAULTS = dict(typesize=8, clevel=7, shuffle=True, cname='blosclz')


def refused(H, r, label='refused', code=1):
    """An error message, an exit status other than zero, no traceback."""
    H.check(r.is_a('SystemExit'), label + ': exits', r.kind)
    if code is None:
        H.check(r.exit_code != 0, label + ': exit status is not zero')
    else:
        H.check(r.exit_code == code, label + ': exit status')
    H.check('error: ' in H.stdout() + H.stderr(), label + ': error message')


def only_read(H, label='refused'):
    """No file was opened for writing or removed."""
    H.check(all(set(m) <= set('rbt') for p, m in H.opened()), label + ': no file is opened for writing', H.opened())
    H.check(len(H.removed()) == 0, label + ': no file is removed')


def accepted(H, r, label='accepted'):
    H.check(r.ok or r.is_a('SystemExit') and r.exit_code == 0, label, r.kind)
    H.check('error: ' not in H.stdout() + H.stderr(), label + ' without error message')


# ----------------------------------------------------------------------- C18
def names(H):
    """compress and decompress: which file is written."""
    P = H.params
    comp = P['sub'] in ('compress', 'c')
    ext = P.get('ext', 'any')
    if ext == 'blp':
        stem = H.name('stem', 12)
        src = stem + '.blp'
    elif ext == 'bare':
        stem, src = '', '.blp'
    else:
        src = H.name('src')
        if not comp:
            H.assume(H.Not(src.endswith('.blp')))
    dst = H.name('dst') if P['out'] else None
    if comp:
        target = dst if dst is not None else src + '.blp'
    elif P.get('nocheck'):
        target = dst
    elif ext in ('blp', 'bare'):
        target = dst if dst is not None else stem
    else:
        target = None                                   # refused
    # what is there
    n = H.int('n', 0, MAXFILE)
    H.prefer(n < 300)
    if comp:
        data = H.bytes('data', n)
        content = data
    else:
        f = make_file(H, dict(nch=P.get('nch', 1), meta=P.get('meta'), room=0, mcodec='None'))
        data, content = f.plain, f.bytes
    there = H.flag('input_exists')
    if there:
        H.put(src, content)
    same = dst is not None and bool(dst == src)
    taken = there if same else target != '' and H.flag('output_exists')
    keep = content
    if target is not None and taken and not same:
        k = H.int('keep', 0)
        H.prefer(k < 100)
        keep = H.bytes('old', k)
        H.put(target, keep)
    known = len(H.names())
    argv = list(P.get('opts', [])) + (['-f'] if P['force'] else []) + [P['sub']]
    argv += ['-e'] if P.get('nocheck') else []
    argv += [src] + ([dst] if dst is not None else [])
    H.clear_output()
    r = H.cli(argv)
    if target is None or not there or taken and not P['force'] or same or ext == 'bare' and target == '':
        if ext == 'bare' and target == '':
            H.check(not r.ok, 'nothing to write to is refused', r.kind)
        else:
            refused(H, r)
            only_read(H)
        H.check(len(H.names()) == known, 'refused: no file is created')
        if there:
            H.check(H.eq(H.get(src), content), 'refused: the input is unchanged')
        if target is not None and taken and not same:
            H.check(H.eq(H.get(target), keep), 'refused: the existing output is unchanged')
        if target is not None and not taken and not same and target != '':
            H.check(H.get(target) is None, 'refused: no output is created')
        return
    accepted(H, r)
    H.check(len(H.names()) == (known if taken else known + 1), 'one output')
    H.check(H.eq(H.get(src), content), 'the input is unchanged')
    out = H.get(target)
    H.check(out is not None, 'the output has the documented name')
    if comp:
        check_file(H, out, data, min_(H, 2 ** 20, n), True, 'adler32', 8, lambda k: 10 * k)
    else:
        H.check(H.eq(out, data), 'the output is what was packed')
    H.check(all(bool(p == target) for p, m in H.opened() if not set(m) <= set('rbt')), 'no other file is written')


def append_names(H):
    """append: only to names with the extension."""
    P = H.params
    if P['ext']:
        old = H.name('stem', 12) + '.blp'
    else:
        old = H.name('old')
        H.assume(H.Not(old.endswith('.blp')))
    new = H.name('new')
    same = bool(old == new)
    f = make_file(H, dict(nch=1, meta=P.get('meta'), room=0, mcodec='None', large=same))
    if same:
        data = f.bytes
        H.prefer(f.last < 300)
    else:
        n = H.int('n', 0, MAXFILE)
        H.prefer(n < 300)
        data = H.bytes('data', n)
        H.assume(n <= f.cs - f.last)
    old_there = H.flag('old_exists')
    new_there = old_there if same else H.flag('new_exists')
    if old_there:
        H.put(old, f.bytes)
    if new_there:
        H.put(new, data)
    known = len(H.names())
    H.clear_output()
    r = H.cli(list(P.get('opts', [])) + [P['sub']] + (['-e'] if P['nocheck'] else []) + [old, new])
    H.check(len(H.names()) == known, 'append creates no file')
    if new_there:
        H.check(H.eq(H.get(new), data), 'the new content is only read')
    if not (P['ext'] or P['nocheck']) or not old_there or not new_there or same:
        refused(H, r)
        H.check(len(H.removed()) == 0, 'refused: no file is removed')
        if old_there:
            H.check(H.eq(H.get(old), f.bytes), 'refused: the file is unchanged')
        return
    accepted(H, r)
    r, back, m = do_unpack(H, 'bytes', H.get(old))
    H.check(r.ok and H.eq(back, H.concat([f.plain, data])), 'the content was appended', r.kind)


# ----------------------------------------------------------------------- C19
def blosc_options(H, P):
    """(options, settings)"""
    s, argv = dict(DEFAULTS), []
    for o in P.get('blosc', []):
        if o in ('-t', '--typesize'):
            s['typesize'] = H.int('typesize', 1, 255)
            argv += [o, H.numtext(s['typesize'])]
        elif o in ('-l', '--clevel'):
            s['clevel'] = H.int('clevel', 0, 9)
            argv += [o, H.numtext(s['clevel'])]
        elif o in ('-s', '--no-shuffle'):
            s['shuffle'] = False
            argv += [o]
        elif o in ('-c', '--codec'):
            s['cname'] = P['cname']
            argv += [o, P['cname']]
    return argv, s


def global_options(H, P):
    argv = []
    threads = None
    for o in P.get('global', []):
        if o in ('-n', '--nthreads'):
            threads = H.int('threads', 1, THREADS)
            argv += [o, H.numtext(threads)]
        else:
            argv.append(o)
    return argv, threads


def check_threads(H, threads):
    """The number asked for is the number used."""
    got = H.threads_set()
    if threads is None:
        H.check(len(got) == 0 or got[-1] == H.ncores(), 'default number of threads')
    else:
        H.check(H.Or(threads == H.ncores(), bool(got)) if not got else got[-1] == threads,
                'number of threads as requested')


def check_settings(H, calls, s):
    for c in calls:
        for k in ('typesize', 'clevel', 'shuffle'):
            H.check(c[k] == s[k], '%s as requested' % k)
        H.check(c['cname'] == s['cname'], 'codec as requested', c['cname'])


def chunk_size(H, kind):
    """(options, chunk size)"""
    if kind is None:
        return [], 2 ** 20
    o = '--chunk-size' if kind.startswith('--') else '-z'
    kind = kind.lstrip('-')
    if kind == 'max':
        return [o, 'max'], MAXBUF
    if kind == 'int':
        v = H.int('chunk_size', 1, MAXBUF)
        return [o, H.numtext(v)], v
    # a number with a suffix, possibly with decimals
    suffix, places = kind[0], int(kind[1:] or 0)
    unit = 1024 ** 'BKMGT'.index(suffix)
    v, t = H.decimal('size', places, 0, 2 ** 31)
    size = H.floor(v * unit)
    H.assume(H.And(1 <= size, size <= MAXBUF))
    return [o, t + suffix], size


def compress(H):
    """C19: every option of compress."""
    P = H.params
    n = H.int('n', 0, MAXFILE)
    H.prefer(n < 400)
    data = H.bytes('data', n)
    H.put('in.dat', data)
    g, threads = global_options(H, P)
    b, s = blosc_options(H, P)
    z, cs = chunk_size(H, P.get('chunk'))
    argv = g + [P.get('sub', 'compress')] + b + z
    offsets, ck, meta = True, 'adler32', None
    if P.get('offsets'):
        argv.append(P['offsets'])
        offsets = False
    if P.get('ck'):
        argv += [P.get('ckopt', '-k'), P['ck']]
        ck = P['ck']
    if P.get('meta'):
        meta = value(H, P['meta'])
        H.put('meta.json', H.concat([b' \n', H.json_dumps(meta), b'\n']) if P.get('space') else H.json_dumps(meta))
        argv += [P.get('metaopt', '-m'), 'meta.json']
    argv += ['in.dat', 'out.blp']
    H.clear_compressed()
    H.clear_output()
    r = H.cli(argv)
    if not r.ok and meta is not None and P['meta'] == 'any':
        refused(H, r)
        H.check(H.meta_len(meta) * 10 > MAXMETA, 'packing is not refused')
        return
    accepted(H, r)
    check_settings(H, H.compressed(), s)
    check_threads(H, threads)
    check_file(H, H.get('out.blp'), data, min_(H, cs, n), offsets, ck, s['typesize'],
               (lambda k: 10 * k) if offsets else 0, meta=meta,
               metaspec=dict(limit=lambda size: 10 * size) if meta is not None else None)
    H.check(H.eq(H.get('in.dat'), data), 'the input is unchanged')
    H.outcome(len(H.compressed()))


def value(H, kind, tag='m'):
    return {'any': lambda: H.meta(tag), 'dict': lambda: {'k': [1, None, 'x']}, 'empty': lambda: {},
            'list': lambda: [1, 2], 'string': lambda: 'text', 'zero': lambda: 0}[kind]()


def append(H):
    """C19: the options of append."""
    P = H.params
    f = make_file(H, dict(P, mcodec='None'))
    H.distinct_metas()
    n = H.int('n', 0, MAXFILE)
    if P['nch'] == 0:
        H.assume(n == 0)
    H.prefer(n < 900)
    new = H.bytes('new', n)
    H.put('old.blp', f.bytes)
    H.put('new.dat', new)
    g, threads = global_options(H, P)
    b, s = blosc_options(H, P)
    argv = g + [P.get('sub', 'append')] + b
    meta = None
    if P.get('newmeta'):
        meta = value(H, P['newmeta'], 'newm')
        H.put('meta.json', H.json_dumps(meta))
        argv += [P.get('metaopt', '-m'), 'meta.json']
    H.clear_compressed()
    H.clear_output()
    r = H.cli(argv + ['old.blp', 'new.dat'])
    after = H.get('old.blp')
    fits = n - (f.cs - f.last) <= f.app * f.cs
    if H.truth(H.Not(fits)):
        refused(H, r, 'not enough space')
        H.check(H.eq(after, f.bytes), 'not enough space: the file is unchanged')
        return
    check_settings(H, H.compressed(), s)
    check_threads(H, threads)
    h = Head(H, after)
    added = count(H, h.nchunks - f.nch)
    H.check(len(H.compressed()) == added + 1, 'the last chunk and each new one are compressed')
    section = f.section if f.has_meta else None
    if meta is not None and f.has_meta:
        section = None
        if not r.ok:
            # the new metadata does not fit, or is the old
            refused(H, r, 'metadata')
            raw = H.json_dumps(meta)
            z = H.deflate_len(raw, 6)
            H.check(H.Or(H.same(meta, f.meta), H.If(z <= H.len(raw), z, H.len(raw)) > f.meta_max, H.len(raw) > MAXMETA),
                    'metadata that fits is not refused')
            section = f.section
    elif meta is not None:
        refused(H, r, 'no metadata section')
    if meta is None:
        accepted(H, r)
    check_file(H, after, H.concat([f.plain, new]), f.cs, True, f.ck, f.typesize, f.app - added,
               meta=meta if section is None and f.has_meta else None, has_meta=f.has_meta,
               metaspec=dict(limit=f.meta_max, ck=f.meta_ck) if f.has_meta and section is None else None,
               section=section, nchunks=f.nch + added, label='appended file')
    H.outcome(added)


# ------------------------------------------------------------------ failures
BAD_SIZES = ['', ' ', 'abc', 'K', 'M', '1X', '1.5', '1KB', '1.2.3K', '0x10', 'maximum', 'infK', 'nanM', '-infB', '1e400G',
             '--K', 'MAX', '1,5K']


def bad_option(H):
    """C19: a value that is not acceptable."""
    P = H.params
    kind = P['kind']
    n = H.int('n', 0, MAXFILE)
    H.prefer(n < 100)
    data = H.bytes('data', n)
    sub = P.get('sub', 'compress')
    code = 1
    before, after = [], []
    if kind == 'chunk text':
        after = [P.get('opt', '-z'), P['text']]
        if P['text'].startswith('-'):
            after = ['--chunk-size=' + P['text']]
    elif kind == 'chunk int':
        v = H.int('v')
        H.assume(H.Or(v < 1, v > MAXBUF))
        after = [P.get('opt', '-z'), H.numtext(v)]
    elif kind == 'chunk suffix':
        unit = 1024 ** 'BKMGT'.index(P['suffix'])
        v, t = H.decimal('v', P['places'], -1024, 2 ** 41)
        H.assume(H.Or(v * unit < 1, v * unit >= MAXBUF + 1))
        after, code = [P.get('opt', '-z'), t + P['suffix']], None
    elif kind == 'threads':
        v = H.int('v')
        H.assume(H.Or(v < 1, v > THREADS))
        before = [P.get('opt', '-n'), H.numtext(v)]
    elif kind == 'threads text':
        before, code = ['-n', P['text']], None
    elif kind == 'typesize':
        v = H.int('v')
        H.assume(H.Or(v < 1, v > 255))
        after = ['-t', H.numtext(v)]
    elif kind == 'clevel':
        v = H.int('v')
        H.assume(H.Or(v < 0, v > 9))
        after, code = ['-l', H.numtext(v)], None
    elif kind == 'codec':
        after, code = ['-c', P['text']], None
    elif kind == 'checksum':
        after, code = ['-k', P['text']], None
    elif kind == 'number':
        after, code = [P['opt'], P['text']], None
    elif kind == 'no metadata file':
        after = ['-m', 'meta.json']
    elif kind == 'metadata text':
        H.put('meta.json', P['text'].encode('latin-1'))
        after = ['-m', 'meta.json']
    elif kind == 'both':
        before, code = ['-v', '-d'], None
    if sub in ('append', 'a'):
        f = make_file(H, dict(nch=1))
        H.assume(n <= f.cs - f.last)
        H.put('old.blp', f.bytes)
        H.put('new.dat', data)
        files = ['old.blp', 'new.dat']
    else:
        H.put('in.dat', data)
        files = ['in.dat', 'out.blp']
    H.clear_output()
    r = H.cli(before + [sub] + after + files)
    refused(H, r, code=code)
    if sub in ('append', 'a'):
        H.check(H.eq(H.get('old.blp'), f.bytes), 'refused: the file is unchanged')
    elif kind != 'typesize':
        H.check(H.get('out.blp') is None, 'refused: no output')
    H.check(len(H.compressed()) == 0, 'refused: nothing is compressed')


def failure(H):
    """C19: failures of the library."""
    P = H.params
    kind = P['kind']
    sub = P['sub']
    p = dict(P)
    H.distinct_digests()
    if kind == 'version':
        v = H.int('version', 0, 255)
        H.assume(v != 3)
        p['version'] = v
    if kind == 'no offsets':
        p['offsets'] = False
    f = make_file(H, p)
    b = f.bytes
    k = P.get('k', f.nch - 1)
    if kind == 'digest':
        g = list(f.digests)
        g[k] = H.altered('bad', g[k])
        b = join(H, f, digests=g)
    elif kind == 'payload':
        c = list(f.chunks)
        c[k] = H.concat([H.cut(c[k], 0, 16), H.altered('bad', H.cut(c[k], 16, H.len(c[k])))])
        b = join(H, f, chunks=c)
    elif kind == 'magic':
        m = H.raw('magic', 4)
        H.assume(H.Not(H.eq(m, b'blpk')))
        b = join(H, f, H.concat([m, f.head[4:]]))
    elif kind == 'cut':
        t = H.int('t', 0)
        H.assume(t < 32)
        b = H.cut(b, 0, t)
    elif kind == 'meta digest':
        e = H.len(f.section) - CKSIZE[f.meta_ck]
        b = join(H, f, section=H.concat([H.cut(f.section, 0, e),
                                         H.altered('bad', H.cut(f.section, e, H.len(f.section)))]))
    H.put('old.blp', b)
    n = H.int('n', 0, MAXFILE)
    H.prefer(n < 100)
    H.put('new.dat', H.bytes('new', n))
    if sub in ('append', 'a'):
        argv = [sub, 'old.blp', 'new.dat']
    elif sub in ('info', 'i'):
        argv = [sub, 'old.blp']
    else:
        argv = [sub, 'old.blp', 'out.dat']
    H.clear_output()
    r = H.cli(list(P.get('opts', [])) + argv)
    refused(H, r)
    H.check(H.eq(H.get('old.blp'), b), 'the packed file is unchanged')


def info(H):
    """C19: info on a valid file succeeds and writes nothing."""
    P = H.params
    f = make_file(H, P)
    H.put('old.blp', f.bytes)
    H.clear_output()
    r = H.cli(list(P.get('opts', [])) + [P.get('sub', 'info'), 'old.blp'])
    accepted(H, r)
    only_read(H, 'info')
    H.check(H.eq(H.get('old.blp'), f.bytes), 'the file is unchanged')
    H.check(len(H.decompressed()) == 0, 'nothing is decompressed')


def few(H):
    """C19: missing arguments."""
    P = H.params
    n = H.int('n', 0, MAXFILE)
    H.prefer(n < 100)
    H.put('in.blp', H.bytes('data', n))
    H.clear_output()
    r = H.cli(P['argv'])
    refused(H, r, code=None)
    only_read(H)
    H.check(len(H.names()) == 1, 'nothing is created')
