"""Conversion between text and bytes keeps the text."""
import hlib
from request_parser.http.request import QueryDict, bytes_to_text, is_text_encoding
from request_parser.utils.encoding import DjangoUnicodeDecodeError, force_str, force_text, is_protected_type

BOUNDS = ('text of up to 3 (thorough 4) characters below U+0100 or one of U+0380 to U+03FF, bytes of up to 3 (thorough 4), both of 20 (60) ASCII characters, in utf-8, iso-8859-1, ascii and cp1252 with the strict, replace and ignore error modes; '
          'integers, None, floats, exceptions, lists and objects with a text form of their own (bytes, text, failing), with and without strings_only; converted twice and in another encoding; every codec name of a list')
REACH = ['bytes', 'text', 'lossy', 'strict', 'protected', 'object', 'decode', 'decode-error', 'codec', 'roundtrip']
OPTS = {}
WIDE = ''.join([chr(i) for i in range(127)])
ENC = ['utf-8', 'iso-8859-1', 'ascii', 'cp1252']


class Own(object):
    def __init__(self, value):
        self.value = value

    def __str__(self):
        if self.value == 'decode':
            return 'a\xff'.decode('ascii')
        if self.value == 'key':
            raise KeyError('k')
        return self.value


def cases(tier):
    n = [0, 1, 2, 3] if tier == 'quick' else [0, 1, 2, 3, 4]
    out = []
    for enc in ENC:
        for k in n:
            out.append({'kind': 'text', 'enc': enc, 'n': k, 'hi': 255})
            out.append({'kind': 'bytes', 'enc': enc, 'n': k})
        out.append({'kind': 'text', 'enc': enc, 'n': 1, 'lo': 0x380, 'hi': 0x3ff})
    for k in ([20] if tier == 'quick' else [6, 9, 20, 60]):
        for enc in ENC:
            out.append({'kind': 'text', 'enc': enc, 'n': k, 'hi': 255, 'alpha': WIDE})
            out.append({'kind': 'bytes', 'enc': enc, 'n': k, 'alpha': WIDE})
    out.append({'kind': 'object'})
    out.append({'kind': 'codec'})
    return out


def encoded(S, t, enc, errors):
    """the bytes of a text, or None if it has a character that cannot be encoded and the mode is strict"""
    out = ''
    for c in t:
        o = ord(c)
        if enc == 'utf-8':
            out += chr(o) if o < 128 else chr(0xc0 | o >> 6) + chr(0x80 | o & 63) if o < 0x800 else chr(0xe0 | o >> 12) + chr(0x80 | o >> 6 & 63) + chr(0x80 | o & 63)
        elif o < (256 if enc == 'iso-8859-1' else 128):
            out += chr(o)
        elif errors == 'strict':
            return None
        else:
            S.reach('lossy')
            out += '?' if errors == 'replace' else ''
    return out


def run(S, case):
    k = case['kind']
    if k == 'text':
        enc = case['enc']
        t = S.text('t', case['n'], case.get('lo', 0), case['hi'], case.get('alpha'))
        errors = S.choice('errors', ['strict', 'replace', 'ignore'])
        f = S.choice('f', [force_str, force_text])
        so = S.bool('so')
        r = S.call(f, t, enc, so, errors)
        S.observe('r', r)
        if enc == 'cp1252':
            w = S.call(t.encode, enc, errors)
        else:
            b = encoded(S, t, enc, errors)
            w = ('ok', b) if b is not None else ('exc', 'UnicodeEncodeError')
        S.require(r[0] == w[0], 'text that cannot be encoded is an error only in strict mode')
        if r[0] == 'exc':
            S.require(r[1] == 'UnicodeEncodeError', 'and the error is the one of the codec')
            S.reach('strict')
            return
        S.require(isinstance(r[1], str), 'text becomes bytes')
        S.equal(r[1], w[1], 'in the encoding asked for')
        S.reach('text')
        if errors == 'strict':
            S.equal(bytes_to_text(r[1], enc), t, 'and back')
            S.reach('roundtrip')
        S.equal(f(t), encoded(S, t, 'utf-8', 'strict'), 'UTF-8 if none is given')
        S.equal(S.call(f, t, enc, so, errors), r, 'and every call by its own arguments')
        S.equal(bytes_to_text(t, enc), t, 'text stays text')
        return
    if k == 'bytes':
        enc = case['enc']
        b = S.bytes('b', case['n'], case.get('alpha'))
        r = S.call(S.choice('f', [force_str, force_text]), b, enc, S.bool('so'), S.choice('errors', ['strict', 'replace']))
        S.require(r[0] == 'ok' and isinstance(r[1], str), 'bytes are accepted whatever they are')
        S.equal(r[1], b, 'and stay as they are')
        t = bytes_to_text(b, enc)
        S.require(isinstance(t, unicode), 'bytes become text')
        S.equal(t, b.decode(enc, 'replace'), 'in the encoding asked for, what is invalid replaced')
        q = QueryDict(hlib.settings(), None, True, enc)
        q.appendlist(b, b)
        S.equal(q.getlist(t), [t], 'and so in a query dictionary')
        S.reach('bytes')
        return
    if k == 'object':
        n = S.int('n', -50, 50)
        w = S.choice('w', ['int', 'none', 'float', 'list', 'own', 'ownany', 'ownfail', 'ownother', 'exc', 'true'])
        o = {'int': n, 'none': None, 'float': 1.5, 'list': [], 'own': Own('ab'),
             'ownany': Own('v' + S.bytes('own', 3) + case.get('tail', '')), 'ownfail': Own('decode'), 'ownother': Own('key'), 'exc': ValueError('ab'), 'true': True}[w]
        protected = w in ('int', 'none', 'float', 'true')
        S.require(is_protected_type(o) == protected, 'numbers and None are protected')
        so = S.bool('so')
        f = S.choice('f', [force_str, force_text])
        r = S.call(f, o, strings_only=so)
        if so and protected:
            S.require(r[0] == 'ok' and r[1] is o, 'protected objects stay as they are if asked for')
            S.reach('protected')
        elif w == 'ownfail':
            S.observe('e', r)
            S.require(r == ('exc', 'DjangoUnicodeDecodeError'), 'a text form that cannot be decoded is the documented error')
            try:
                f(o)
            except DjangoUnicodeDecodeError as e:
                S.require(e.obj is o, 'which tells the object')
                S.require(S.call(str, e)[0] == 'ok' and S.call(repr, e)[0] == 'ok', 'and can be shown')
                S.reach('decode-error')
        elif w == 'ownother':
            S.require(r == ('exc', 'KeyError'), 'other errors are passed on')
        else:
            S.require(r[0] == 'ok' and isinstance(r[1], str), 'other objects become byte strings')
            S.equal(r[1], {'int': str(n), 'none': 'None', 'float': '1.5', 'list': '[]', 'own': 'ab', 'ownany': o.value if w == 'ownany' else '', 'exc': 'ab', 'true': 'True'}[w],
                    'of their text form')
            S.reach('object')
        return
    name = S.choice('c', ['utf-8', 'UTF8', 'latin-1', 'ascii', 'cp1252', 'utf-16', 'koi8-r', 'base64', 'hex', 'zlib', 'nosuch', '', 'a b', 'x\0y', u'\xe9'])
    S.require(is_text_encoding(name) == (name in ('utf-8', 'UTF8', 'latin-1', 'ascii', 'cp1252', 'utf-16', 'koi8-r')), 'text encodings are told from others')
    S.reach('codec')
    S.reach('decode')
