"""C20: sizes for people.  C22: log levels."""
import fractions

from .common import *

SUF = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}
MAXSIZE = 2 ** 52


def shown(H, t, x, label):
    """t shows the size x: (number, unit) of it."""
    H.check(H.is_str(t), label + ': a text')
    p = H.size_text(t)
    H.check(p is not None, label + ': begins with a number')
    v, suffix = p
    H.check(suffix in SUF, label + ': has a suffix', None)
    lim = SUF[suffix]
    nxt = min([l for l in SUF.values() if l > lim] + [2 ** 80])
    H.check(H.And(lim <= x, x < nxt), label + ': largest suffix not above the size')
    d = v * lim - x
    H.check(H.And(d * 200 <= lim, d * 200 >= -lim), label + ': within half a hundredth of the unit')
    return v, lim


def printed(H):
    """pretty_size, and reading it back."""
    x = H.int('x', 0, MAXSIZE)
    p = H.bp.pretty
    r = H.call(p.pretty_size, x)
    H.check(r.ok, 'any size is printed', r.kind)
    if H.truth(x == 0):
        H.check(r.value == '0B', 'zero is printed as 0B')
        back = H.call(p.reverse_pretty, r.value)
        H.check(back.ok and back.value == 0, 'zero is read back', back.kind)
        return
    v, lim = shown(H, r.value, x, 'printed size')
    back = H.call(p.reverse_pretty, r.value)
    H.check(back.ok, 'a printed size is read', back.kind)
    H.check(H.is_int(back.value), 'an integer is read')
    d = back.value - x
    if lim == 1:
        H.check(d == 0, 'small sizes are read back exactly')
    else:
        H.check(H.And(d * 200 <= lim, (d - 1) * 200 >= -lim - 400), 'a printed size is read back to within its rounding')
    H.outcome(x)


def double(H):
    """double_pretty_size"""
    x = H.int('x', 0, MAXSIZE)
    p = H.bp.pretty
    r = H.call(p.double_pretty_size, x)
    H.check(r.ok and H.is_str(r.value), 'any size is printed', r.kind)
    ns = H.numbers(r.value)
    H.check(H.Or(*[n == x for n in ns]) if ns else False, 'the exact number of bytes is shown')
    short = H.call(p.pretty_size, x)
    q = H.size_text(r.value)
    H.check(q is not None, 'begins with the size')
    if H.truth(x > 0):
        s = H.size_text(short.value)
        H.check(q[0] == s[0] and q[1].startswith(s[1]), 'begins with the short form')
    else:
        H.check(r.value.startswith('0B'), 'begins with the short form')


def read(H):
    """reverse_pretty"""
    P = H.params
    suf, places = P['suffix'], P['places']
    if places:
        v, t = H.decimal('value', places, 0, 4095)
    else:
        v = H.int('value', 0, 2 ** 52)
        t = H.numtext(v)
    r = H.call(H.bp.pretty.reverse_pretty, t + suf)
    H.check(r.ok, 'a number with a suffix is read', r.kind)
    H.check(H.is_int(r.value), 'an integer is read')
    exact = v * SUF[suf]
    H.check(H.And(r.value <= exact, exact < r.value + 1), 'number times suffix, truncated')
    H.outcome(r.value)


def unknown(H):
    """reverse_pretty: other suffixes."""
    P = H.params
    v = H.int('value', 0, 2 ** 40)
    r = H.call(H.bp.pretty.reverse_pretty, H.numtext(v) + P['suffix'])
    H.check(r.is_a('ValueError'), 'an unknown suffix is refused', r.kind)


LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']


def messages(H):
    """log.normal, verbose, debug at each level."""
    P = H.params
    log = H.bp.log
    H.check([log.NORMAL, log.VERBOSE, log.DEBUG] == LEVELS, 'names of the levels')
    H.check(log.LEVEL == 'NORMAL', 'normal by default')
    r = H.call(log.set_level, P['level'])
    H.check(r.ok and log.LEVEL == P['level'], 'set_level selects the level', r.kind)
    text = {'word': 'hello', 'lines': 'one\ntwo\n', 'blank': '\n\n', 'empty': '', 'percent': '100%s %d',
            'name': H.name('text') if P['text'] == 'name' else None,
            'number': H.numtext(H.int('n', 0, 2 ** 60)) if P['text'] == 'number' else None}[P['text']]
    for i, (fn, args) in enumerate([(log.normal, ()), (log.verbose, ()), (log.debug, ()),
                                    (log.verbose, ('NORMAL',)), (log.verbose, ('VERBOSE',)),
                                    (log.verbose, ('DEBUG',))]):
        H.clear_output()
        r = H.call(fn, text, *args)
        H.check(r.ok and r.value is None, 'a message never fails', r.kind)
        want = ''
        if i % 3 <= LEVELS.index(P['level']):
            for line in text.split('\n'):
                if line:
                    want = want + ('%s: ' % log.PREFIX) + line + '\n'
        H.check(H.stdout() == want, 'shown exactly when the level is not above the current one')
        H.check(H.stderr() == '', 'nothing on standard error')
    r = H.call(log.verbose, text, 'LOUD')
    H.check(not r.ok, 'a message of an unknown level is refused', r.kind)
    H.check(log.LEVEL == P['level'], 'messages do not change the level')


def set_level(H):
    """log.set_level with any name."""
    P = H.params
    log = H.bp.log
    old = H.pick('level', LEVELS)
    H.call(log.set_level, old)
    v = {'name': lambda: H.name('name'), 'lower': lambda: 'debug', 'none': lambda: None, 'empty': lambda: '',
         'int': lambda: H.int('n')}[P['kind']]()
    r = H.call(log.set_level, v)
    H.check(r.is_a('ValueError'), 'an unknown level is refused', r.kind)
    H.check(log.LEVEL == old, 'the level stays')


def error(H):
    """log.error"""
    P = H.params
    log = H.bp.log
    H.call(log.set_level, P['level'])
    c = H.int('code', 0, 255)
    H.clear_output()
    text = H.name('text')
    r = H.call(log.error, text, c) if P['given'] else H.call(log.error, text)
    H.check(r.is_a('SystemExit'), 'error exits', r.kind)
    H.check(r.exit_code == (c if P['given'] else 1), 'with the requested status')
    H.check(H.stdout() == '%s: error: ' % log.PREFIX + text + '\n', 'the message is shown')
