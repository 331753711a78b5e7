"""URL helper functions keep meaning and fail as documented."""
import hlib
from request_parser.utils.http import escape_leading_slashes, urlencode, urlquote, urlquote_plus, urlunquote, urlunquote_plus, limited_parse_qsl
from request_parser.utils.datastructures import MultiValueDict
from request_parser.utils.module_loading import import_string

BOUNDS = ('URLs of up to 4 (thorough 5) bytes, arbitrary or over slash, backslash and letters, as bytes and text; mappings, pairs and multi-value dictionaries of up to 2 (thorough 3) names and values of up to 2 '
          'arbitrary bytes or characters, integers and lists, None anywhere; numbers, truth values, empty values and lists of them; quoting of up to 3 arbitrary bytes, once and twice; strings of 12 (thorough 60) symbolic unreserved characters through every helper; dotted names of up to 3 arbitrary bytes without leading dot and around existing modules')
REACH = ['escape', 'same', 'text', 'pairs', 'dict', 'multi', 'list', 'none', 'quote', 'import', 'importerror', 'int', 'wide']
OPTS = {'replays_quick': 1000}
ASCII = ''.join([chr(i) for i in range(33, 127)])
UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-'
HEX = '0123456789ABCDEF'


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in range(0, 3 if quick else 4):
        out.append({'kind': 'slashes', 'n': n})
        out.append({'kind': 'slashes', 'n': n, 'pre': '//'})
    out.append({'kind': 'slashes', 'n': 4, 'alpha': '/\\ae.'})
    for form in ('dict', 'pairs', 'multi', 'list'):
        for n, v in (([(1, 1), (0, 2), (2, 0)] if form == 'dict' else [(1, 1)]) if quick else [(1, 1), (0, 2), (2, 0), (1, 2), (2, 1)]):
            for text in (0, 1):
                out.append({'kind': 'encode', 'form': form, 'n': n, 'v': v, 'text': text})
    for n in ([12] if quick else [5, 8, 12, 20, 60]):
        out.append({'kind': 'wide', 'n': n})
    out.append({'kind': 'none'})
    out.append({'kind': 'int'})
    for n in ([0, 1, 2] if quick else [0, 1, 2, 3]):
        out.append({'kind': 'quote', 'n': n})
    out.append({'kind': 'import'})
    for n in ([0, 1, 2] if quick else [0, 1, 2, 3]):
        out.append({'kind': 'badname', 'n': n})
    return out


def quoted(S, s, kept, plus):
    out = ''
    for c in s:
        if plus and S.isin(c, ' '):
            out += '+'
        elif S.isin(c, kept):
            out += c
        else:
            o = ord(c)
            out += '%' + HEX[o // 16] + HEX[o % 16]
    return out


def raw(x):
    return x.encode('utf-8') if isinstance(x, unicode) else x


def one(S, name, n, text):
    return S.text(name, n, 0, 255) if text else S.bytes(name, n)


def run(S, case):
    k = case['kind']
    if k == 'slashes':
        url = case.get('pre', '') + S.bytes('u', case['n'], case.get('alpha'))
        if case['n'] < 3 and S.bool('text'):
            url = url.decode('latin-1')
            S.reach('text')
        r = S.call(escape_leading_slashes, url)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a URL can be escaped')
        if len(url) > 1 and S.both(S.isin(url[0], '/'), S.isin(url[1], '/')):
            S.equal(r[1], '/%2F' + url[2:], 'the second of two leading slashes is escaped')
            S.reach('escape')
        else:
            S.equal(r[1], url, 'another URL is left as it is')
            S.reach('same')
    elif k == 'encode':
        form, text = case['form'], case['text']
        name, value = one(S, 'n', case['n'], text), one(S, 'v', case['v'], text)
        doseq = S.bool('doseq')
        if form == 'dict':
            q, want = {name: value}, [(name, value)]
        elif form == 'pairs':
            other = one(S, 'w', 1, text)
            q, want = [(name, value), ('z', other)], [(name, value), ('z', other)]
        else:
            doseq = True
            other = one(S, 'w', 1, text)
            want = [(name, value), (name, other)]
            if form == 'multi':
                q = MultiValueDict({name: [value, other]})
            else:
                q = [(name, S.choice('type', [list, tuple, iter])([value, other]))]
        r = S.call(urlencode, q, doseq)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a mapping can be encoded')
        enc = '&'.join([quoted(S, raw(a), UNRESERVED, True) + '=' + quoted(S, raw(b), UNRESERVED, True) for a, b in want])
        S.equal(r[1], enc, 'names and values are encoded in order, as UTF-8')
        if text:
            # parsing gives the text again
            S.equal(limited_parse_qsl(str(enc), True), want, 'encoding round-trips')
        S.reach(form)
    elif k == 'wide':
        a, b, c = S.bytes('a', case['n'], UNRESERVED), S.bytes('b', case['n'], UNRESERVED), S.bytes('c', case['n'], UNRESERVED)
        if S.bool('text'):
            a, b, c = a.decode('ascii'), b.decode('ascii'), c.decode('ascii')
        S.equal(S.call(escape_leading_slashes, '//' + a), ('ok', '/%2F' + a), 'the second of two leading slashes is escaped')
        S.equal(S.call(escape_leading_slashes, '/a' + a), ('ok', '/a' + a), 'another URL is left as it is')
        S.equal(S.call(urlencode, [('p' + a, b), ('q' + a, c)]), ('ok', 'p' + a + '=' + b + '&q' + a + '=' + c), 'names and values are encoded in order')
        S.equal(S.call(urlencode, {a: [b, 'x y', c]}, True), ('ok', a + '=' + b + '&' + a + '=x+y&' + a + '=' + c), 'every item of a list is encoded')
        S.equal(S.call(urlquote, '/' + a + ' '), ('ok', '/' + a + '%20'), 'exactly the unsafe characters are quoted')
        S.equal(S.call(urlquote_plus, a + ' /'), ('ok', a + '+%2F'), 'exactly the unsafe characters are quoted')
        S.equal(S.call(urlunquote, a + '%20' + b), ('ok', a + ' ' + b), 'what is quoted is unquoted')
        S.equal(S.call(urlunquote_plus, a + '+%2f' + b), ('ok', a + ' /' + b), 'what is quoted is unquoted')
        S.reach('wide')
    elif k == 'none':
        v = S.bytes('v', 1)
        how = S.choice('how', ['value', 'item', 'second', 'multi', 'pairs'])
        q = {'value': {'a': None}, 'item': {'a': [None]}, 'second': {'a': [v, None]}, 'multi': MultiValueDict({'a': [v, None]}), 'pairs': [('b', v), ('a', None)]}[how]
        S.require(S.call(urlencode, q, S.bool('doseq')) == ('exc', 'TypeError'), 'None is refused')
        S.reach('none')
    elif k == 'int':
        i = S.int('i', 0, 99)
        S.equal(S.call(urlencode, {'a': i}), ('ok', 'a=' + str(i)), 'an integer is encoded')
        S.equal(S.call(urlencode, {'a': [i, 'b']}, True), ('ok', 'a=' + str(i) + '&a=b'), 'integers are encoded')
        for x, want in ((False, 'False'), (True, 'True'), (0, '0'), (-i, str(-i)), (2.5, '2.5'), ('', ''), (u'', '')):
            S.equal(S.call(urlencode, {'a': x}), ('ok', 'a=' + want), 'any object is encoded as its text')
            S.equal(S.call(urlencode, [('a', [x, i, x])], True), ('ok', 'a=' + want + '&a=' + str(i) + '&a=' + want), 'any object of a list is encoded as its text')
        S.equal(S.call(urlencode, [('a', []), ('b', [7]), ('c', ())]), ('ok', 'a=%5B%5D&b=%5B%277%27%5D&c=%5B%5D'), 'a list is encoded as its text unless asked for')
        S.equal(S.call(urlencode, {}), ('ok', ''), 'nothing is encoded as nothing')
        S.equal(S.call(urlencode, {'a': []}, True), ('ok', ''), 'an empty list is encoded as nothing')
        S.reach('int')
    elif k == 'quote':
        s = S.bytes('s', case['n'])
        for f, g, safe, plus in ((urlquote, urlunquote, '/', False), (urlquote_plus, urlunquote_plus, '', True)):
            r = S.call(f, s)
            S.require(r[0] == 'ok', 'a string can be quoted')
            S.equal(r[1], quoted(S, s, UNRESERVED + safe, plus), 'exactly the unsafe characters are quoted')
            S.require(S.allin(r[1], ASCII), 'the result is printable ASCII')
            if S.allin(s, ''.join([chr(i) for i in range(128)])):
                S.equal(g(r[1]), s, 'quoting round-trips')
                twice = S.call(f, r[1])
                S.require(twice[0] == 'ok', 'a quoted string can be quoted again')
                S.equal(g(twice[1]), r[1], 'quoting round-trips')
        S.reach('quote')
    elif k == 'import':
        name = S.choice('name', ['request_parser.http.request.HttpRequest', 'request_parser.files.uploadhandler.MemoryFileUploadHandler', 'request_parser.conf.settings.Settings', u'request_parser.http.request.QueryDict'])
        r = S.call(import_string, name)
        S.require(r[0] == 'ok', 'an existing name is imported')
        S.equal(r[1].__name__, name.split('.')[-1], 'the object named is returned')
        S.equal(r[1].__module__, '.'.join(name.split('.')[:-1]), 'the object named is returned')
        bad = S.choice('bad', ['request_parser.http.request.', 'request_parser.http.nothing.x', 'request_parser.nothing', 'nothing', 'request_parser', 'nothing.x', ''])
        S.require(S.call(import_string, bad) == ('exc', 'ImportError'), 'a name that does not exist is an ImportError')
        S.reach('import')
    else:
        x = S.bytes('x', case['n'], 'qz_0')
        how = S.choice('how', ['attr', 'plain', 'module'])
        if how == 'attr':
            name = 'request_parser.http.request.' + x
        elif how == 'plain':
            name = 'nothing_' + x
        else:
            name = 'request_parser.http.zz' + x + '.Y'
        S.require(S.call(import_string, name) == ('exc', 'ImportError'), 'a name that does not exist is an ImportError')
        S.reach('importerror')
