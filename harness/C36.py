"""Entity unescaping replaces exactly the entities."""
import htmlentitydefs
from request_parser.utils.text import unescape_entities

BOUNDS = ('strings of up to 3 arbitrary bytes or characters below U+0100; references &...; with 1..3 (thorough 4) arbitrary bytes, 1..4 (5) over the reference alphabet, 1..3 decimal, hexadecimal digits and letters; '
          'every decimal reference of up to 5 digits and hexadecimal of up to 4, with leading zeros, of up to 300 zeros before it, and of 20 digits; every named entity in context; two references in a row; texts of 20 (thorough 60) symbolic bytes around a reference, references as long, 30 references in a row; "0x" after "#x" is not judged')
REACH = ['zeros', 'decimal', 'hex', 'named', 'kept', 'range', 'unknown', 'once', 'text', 'two', 'plain', 'huge', 'wide']
OPTS = {}
NAMES = sorted(htmlentitydefs.name2codepoint.keys())
NOAMP = ''.join([chr(i) for i in range(256) if chr(i) not in '&;'])
HEXDIGITS = '0123456789abcdefABCDEF'
WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
BYTES = "".join([chr(i) for i in range(256)])


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in (0, 1, 2, 3):
        out.append({'kind': 'any', 'n': n})
        out.append({'kind': 'text', 'n': n})
    for n in ([1, 2] if quick else [1, 2, 3]):
        out.append({'kind': 'ref', 'n': n})
    for n in ([2, 3] if quick else [3, 4, 5]):
        out.append({'kind': 'ref', 'n': n, 'alpha': '#xX04aflt;&'})
    for n in (1, 2, 3, 4, 5):
        out.append({'kind': 'dec', 'n': n})
    for n in (1, 2, 3, 4):
        out.append({'kind': 'hex', 'n': n})
    out.append({'kind': 'huge'})
    out.append({'kind': 'zeros'})
    for n in ([20] if quick else [5, 9, 20, 60]):
        out.append({'kind': 'wide', 'n': n})
    out.append({'kind': 'names', 'step': 9 if quick else 1})
    out.append({'kind': 'allnames'})
    out.append({'kind': 'case'})
    out.append({'kind': 'once'})
    out.append({'kind': 'two'})
    return out


def value(S, ref):
    """the character a reference (without & and ;) stands for, None if it is to be kept, 'skip' if not judged"""
    if len(ref) and S.isin(ref[0], '#'):
        d = ref[1:]
        base = 10
        if len(d) and S.isin(d[0], 'xX'):
            d = d[1:]
            base = 16
        if not len(d) or not S.allin(d, '0123456789' if base == 10 else HEXDIGITS):
            if base == 16 and len(d) > 1 and S.isin(d[0], '0') and S.isin(d[1], 'xX'):
                return 'skip'
            return None
        n = 0
        for c in d:
            o = ord(c)
            n = n * base + S.ite(o < 58, o - 48, S.ite(o < 71, o - 55, o - 87))
        if n > 255:
            S.reach('range')
            return None
        S.reach('hex' if base == 16 else 'decimal')
        return BYTES[n]
    for name in NAMES:
        if len(name) == len(ref) and ref == name:
            code = htmlentitydefs.name2codepoint[name]
            if code > 255:
                S.reach('range')
                return None
            S.reach('named')
            return BYTES[code]
    S.reach('unknown')
    return None


def reference(S, s):
    """every reference replaced once, from left to right"""
    out, i = '', 0
    while i < len(s):
        if S.isin(s[i], '&'):
            j = i + 1
            while j < len(s) and not S.isin(s[j], '&;'):
                j += 1
            if j < len(s) and S.isin(s[j], ';'):
                v = value(S, s[i + 1:j])
                if v == 'skip':
                    return None
                if v is None:
                    S.reach('kept')
                    out += s[i:j + 1]
                else:
                    out += v
                i = j + 1
                continue
        out += s[i]
        i += 1
    return out


def check(S, s):
    r = S.call(unescape_entities, s)
    S.observe('r', r)
    S.require(r[0] == 'ok', 'unescaping never fails')
    want = reference(S, s)
    if want is not None:
        S.equal(r[1], want, 'exactly the entities are replaced')


def run(S, case):
    k = case['kind']
    if k == 'any':
        check(S, S.bytes('s', case['n']))
        S.reach('plain')
    elif k == 'text':
        s = S.text('s', case['n'], 0, 255)
        r = S.call(unescape_entities, s + u'&lt;')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'unescaping never fails')
        S.equal(r[1], reference(S, s.encode('utf-8') + '&lt;'), 'text is unescaped as its UTF-8 form')
        S.reach('text')
    elif k == 'ref':
        check(S, 'a&' + S.bytes('s', case['n'], case.get('alpha')) + ';b')
    elif k == 'dec':
        check(S, '&#' + S.bytes('d', case['n'], '0123456789') + ';')
    elif k == 'hex':
        check(S, '&#' + S.choice('x', ['x', 'X']) + S.bytes('d', case['n'], HEXDIGITS) + ';')
    elif k == 'wide':
        a, b, c = S.bytes('a', case['n'], NOAMP), S.bytes('b', case['n'], NOAMP), S.bytes('c', case['n'], WORD[:52])
        ref, char = S.choice('ref', [('&lt;', '<'), ('&#65;', 'A'), ('&#x41;', 'A'), ('&eacute;', '\xe9'), ('&amp;', '&'), ('&', '&'), ('&#;', '&#;'), ('&zz;', '&zz;')])
        S.equal(S.call(unescape_entities, a + ref + b), ('ok', a + char + b), 'exactly the entities in a long text are replaced')
        S.equal(S.call(unescape_entities, '&q' + c + 'q;' + ref), ('ok', '&q' + c + 'q;' + char), 'a long unknown reference is kept')
        S.equal(S.call(unescape_entities, (ref + 'x') * 30), ('ok', (char + 'x') * 30), 'every entity is replaced')
        S.reach('wide')
    elif k == 'zeros':
        z = '0' * S.choice('z', [1, 5, 8, 12, 40, 300])
        a, b, c = S.int('a', 0, 9), S.int('b', 0, 9), S.int('c', 0, 15)
        hexa = S.bool('hex')
        s = '&#' + (S.choice('x', ['x', 'X']) if hexa else '') + z + ('4' + HEXDIGITS[c] if hexa else '1234567890'[a] + '1234567890'[b])
        v = 64 + c if hexa else (a + 1) % 10 * 10 + (b + 1) % 10
        S.assume(v > 0)
        S.equal(S.call(unescape_entities, s + ';'), ('ok', chr(v)), 'leading zeros do not count')
        S.equal(S.call(unescape_entities, s), ('ok', s), 'without semicolon it is no reference')
        S.reach('zeros')
    elif k == 'huge':
        s = '&#' + S.choice('x', ['', 'x']) + S.bytes('d', 1, '123456789') + '0' * S.choice('z', [9, 19, 40]) + ';'
        S.equal(S.call(unescape_entities, s), ('ok', s), 'an entity out of range is kept')
        S.reach('huge')
    elif k == 'names':
        name = S.choice('name', NAMES[::case['step']] + ['amp', 'lt', 'quot', 'eacute'])
        check(S, S.bytes('b', 1) + '&' + name + ';' + S.bytes('a', 1))
    elif k == 'allnames':
        check(S, '&' + S.choice('name', NAMES) + ';')
    elif k == 'case':
        s = '&' + S.bytes('s', 1, 'lL') + S.bytes('t', 1, 'tTx') + S.bytes('u', 1, ';: ') + ';'
        check(S, s)
    elif k == 'once':
        # the result of a replacement is not looked at again
        s = '&' + S.choice('amp', ['amp', '#38', '#x26']) + S.bytes('x', 1) + S.choice('rest', ['lt;', '#60;', 'amp;'])
        check(S, s)
        S.reach('once')
    else:
        s = '&#' + S.bytes('a', 2, '0123456789') + ';' + S.bytes('m', 1) + '&' + S.choice('n', ['lt', 'gt', 'foo']) + ';'
        check(S, s)
        S.reach('two')
