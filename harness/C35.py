"""IRI and URI conversion is safe and reversible."""
import hlib
from request_parser.utils.encoding import iri_to_uri, uri_to_iri, escape_uri_path

BOUNDS = ('byte strings of up to 3 (thorough 4) arbitrary bytes, unicode text of up to 3 characters below U+0100, strings of up to 6 bytes over % 2 F a / and two UTF-8 bytes, '
          'one arbitrary two-byte and three-byte UTF-8 character, percent escapes of every byte; strings of up to 20 (thorough 100) symbolic characters that need no escape')
REACH = ['iri', 'text', 'escape', 'back', 'utf8', 'path', 'empty', 'wide']
OPTS = {}
WIDE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~/:@&+$,!*()'
LEGAL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:/?#[]@!$&'()*+,;=%"
PATH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~/:@&+$,!*'()"
HEX = '0123456789ABCDEF'
BYTES = ''.join([chr(i) for i in range(256)])


def cases(tier):
    quick = tier == 'quick'
    out = [{'kind': 'empty'}]
    for n in ([1, 2] if quick else [1, 2, 3]):
        out.append({'kind': 'iri', 'n': n})
        out.append({'kind': 'text', 'n': n})
    out.append({'kind': 'iri', 'n': 4 if quick else 6, 'alpha': '%2Fa/\xc3\xa9'})
    for n in ([1, 2] if quick else [1, 2, 3]):
        out.append({'kind': 'escape', 'n': n})
    out.append({'kind': 'utf8', 'n': 2})
    out.append({'kind': 'utf8', 'n': 3})
    for n in ([20] if quick else [5, 8, 13, 20, 40, 100]):
        for kind in ('iri', 'text'):
            out.append({'kind': kind, 'n': n, 'alpha': WIDE, 'wide': 1})
    return out


def esc(S, s, kept):
    if S.allin(s, kept):
        return s
    out = ''
    for c in s:
        if S.isin(c, kept):
            out += c
        else:
            o = ord(c)
            out += '%' + HEX[o // 16] + HEX[o % 16]
    return out


def run(S, case):
    k = case['kind']
    if k == 'empty':
        S.equal(S.call(iri_to_uri, ''), ('ok', ''), 'the empty IRI')
        S.equal(S.call(uri_to_iri, ''), ('ok', ''), 'the empty URI')
        S.equal(S.call(escape_uri_path, ''), ('ok', ''), 'the empty path')
        S.equal(S.call(iri_to_uri, None), ('ok', None), 'no IRI')
        S.reach('empty')
        return
    if k == 'escape':
        # percent escapes of arbitrary bytes, decoded as UTF-8
        sent, raw = '', ''
        for i in range(case['n']):
            h, l = S.int('h%d' % i, 0, 15), S.int('l%d' % i, 0, 15)
            sent += '%' + HEX[h] + HEX[l]
            raw += BYTES[h * 16 + l]
        r = S.call(uri_to_iri, '/a' + sent + '?b')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a URI is always converted')
        try:
            raw.decode('utf-8')
            S.equal(r[1], '/a' + raw + '?b', 'the escapes of UTF-8 text are decoded')
            S.reach('back')
        except UnicodeDecodeError:
            pass
        S.equal(S.call(iri_to_uri, '/a' + sent + '?b'), ('ok', '/a' + sent + '?b'), 'what is encoded stays')
        S.equal(S.call(escape_uri_path, sent, False), ('ok', sent), 'what is encoded stays if asked for')
        S.equal(S.call(escape_uri_path, sent), ('ok', sent.replace('%', '%25')), 'percent signs are encoded')
        S.reach('escape')
        return
    if k == 'utf8':
        s = S.bytes('s', case['n'])
        try:
            s.decode('utf-8')
        except UnicodeDecodeError:
            return
        S.reach('utf8')
    elif k == 'text':
        given = S.text('s', case['n'], 0, 255, case.get('alpha'))
        s = given.encode('utf-8')
        S.reach('text')
    else:
        s = S.bytes('s', case['n'], case.get('alpha'))
    if case.get('wide'):
        S.reach('wide')
    if k != 'text':
        given = s
    r = S.call(iri_to_uri, given)
    S.observe('r', r)
    S.require(r[0] == 'ok', 'an IRI is always converted')
    S.require(S.allin(r[1], LEGAL), 'the URI has only legal characters')
    S.equal(r[1], esc(S, s, LEGAL), 'every other byte is percent-encoded and nothing else')
    again = S.call(iri_to_uri, r[1])
    S.equal(again, ('ok', r[1]), 'converting again changes nothing')
    S.reach('iri')
    b = S.call(uri_to_iri, r[1])
    S.observe('b', b)
    S.require(b[0] == 'ok', 'a URI is always converted')
    if k in ('utf8', 'text') and '%' not in s:
        S.equal(b[1], s, 'converting back gives the original text')
        S.reach('back')
    p = S.call(escape_uri_path, given)
    S.observe('p', p)
    S.require(p[0] == 'ok', 'a path is always escaped')
    S.equal(p[1], esc(S, s, PATH), 'the path is percent-encoded but for the safe characters')
    p2 = S.call(escape_uri_path, given, False)
    S.equal(p2, ('ok', esc(S, s, PATH + '%')), 'percent signs stay if asked for')
    S.equal(S.call(escape_uri_path, p2[1], False), p2, 'escaping again changes nothing')
    S.reach('path')
