"""Questions about a request are answered from the request."""
from io import BytesIO
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('X-Requested-With headers with names in every letter case, missing, repeated or with up to 2 arbitrary bytes more, values of up to 2 arbitrary bytes or with one byte of XMLHttpRequest changed; schemes '
          'of up to 5 symbolic characters, set or from the request line; ports 443, 80, 8443 and 1 without https; content types text/plain in every letter case, with parameters, with one arbitrary byte changed; before parsing, after parsing and after a new stream')
REACH = ['ajax', 'notajax', 'unparsed', 'secure', 'insecure', 'plain', 'notplain', 'again', 'repr']
OPTS = {}
VALUE = 'XMLHttpRequest'
NAME = 'X-Requested-With'


def cases(tier):
    quick = tier == 'quick'
    out = [{'kind': 'unparsed'}, {'kind': 'name'}, {'kind': 'nothing'}, {'kind': 'repeat'}, {'kind': 'again'}]
    for i in range(0, len(VALUE), 3 if quick else 1):
        out.append({'kind': 'value', 'at': i})
    for i in range(0, len(NAME), 3 if quick else 1):
        out.append({'kind': 'namebyte', 'at': i})
    for n in ([0, 1, 2] if quick else [0, 1, 2, 3]):
        out.append({'kind': 'other', 'n': n})
    for s in ('http', 'https'):
        for i in range(len(s) + 1):
            out.append({'kind': 'scheme', 's': s, 'at': i})
    out.append({'kind': 'setscheme', 'n': 5})
    out.append({'kind': 'port'})
    for i in range(0, 10, 3 if quick else 1):
        out.append({'kind': 'type', 'at': i})
    for n in ([1] if quick else [1, 2]):
        out.append({'kind': 'typemore', 'n': n})
    out.append({'kind': 'params'})
    return out


def parsed(S, lines, line='GET / HTTP/1.1'):
    req = HttpRequest(BytesIO('\r\n'.join([line, 'Host: h'] + lines) + '\r\n\r\n'), hlib.settings())
    r = S.call(req.parse_request_header)
    return req if r[0] == 'ok' else None


def ajax(S, req, want):
    r = S.call(req.is_ajax)
    S.observe('ajax', r)
    S.require(r[0] == 'ok', 'the question can always be asked')
    S.require(bool(r[1]) == bool(want), 'a request is an XMLHttpRequest exactly if its X-Requested-With header says so')
    S.reach('ajax' if want else 'notajax')


def run(S, case):
    k = case['kind']
    if k == 'unparsed':
        req = HttpRequest(BytesIO('GET / HTTP/1.1\r\nHost: h\r\n\r\n'), hlib.settings())
        ajax(S, req, False)
        S.equal(S.call(req.is_plain_text), ('ok', False), 'before parsing nothing is known')
        S.equal(S.call(req.is_secure), ('ok', False), 'before parsing nothing is known')
        S.equal(S.call(repr, req), ('ok', '<HttpRequest>'), 'a request without method shows its class')
        S.reach('unparsed')
    elif k == 'name':
        name = ''
        for i, c in enumerate(NAME):
            name += c if i % 4 else S.choice('c%d' % i, [c.upper(), c.lower()])
        ajax(S, parsed(S, [name + ': ' + VALUE]), True)
    elif k == 'namebyte':
        i = case['at']
        b = S.bytes('b', 1)
        S.assume(S.neg(S.isin(b, ' \t\r\n:\x0b\x0c')))
        req = parsed(S, [NAME[:i] + b + NAME[i + 1:] + ': ' + VALUE])
        if req is not None:
            ajax(S, req, S.either(S.isin(b, NAME[i].upper()), S.isin(b, NAME[i].lower())))
    elif k == 'value':
        i = case['at']
        b = S.bytes('b', 1)
        S.assume(S.neg(S.isin(b, '\r\n')))
        req = parsed(S, [NAME + ': ' + VALUE[:i] + b + VALUE[i + 1:]])
        if req is not None:
            ajax(S, req, S.isin(b, VALUE[i]))
    elif k == 'other':
        x = S.bytes('x', case['n'], 'aX: ')
        req = parsed(S, [S.choice('where', ['X-Requested-With: ' + x, 'XMLHttpRequest: ' + x, 'Other: XMLHttpRequest' + x, 'X-Requested-With' + x + 'b: XMLHttpRequest'])])
        if req is not None:
            ajax(S, req, False)
    elif k == 'nothing':
        ajax(S, parsed(S, []), False)
        ajax(S, parsed(S, [NAME + ':']), False)
        # whatever else is sent
        line = S.choice('line', ['POST / HTTP/1.1', 'OPTIONS * HTTP/1.1', 'TRACE / HTTP/1.0', 'HEAD /a?b=c HTTP/1.1', 'PUT http://h/ HTTP/1.1', 'X / y', 'connect h:1 HTTP/2'])
        other = S.choice('other', ['Accept: */*', 'Content-Type: text/plain', 'Content-Length: 0', 'X-Requested-Withx: y', 'Origin: null', 'Upgrade: h2c'])
        on = S.bool('on')
        ajax(S, parsed(S, [other] + ([NAME + ': ' + VALUE] if on else []) + [other], line), on)
    elif k == 'repeat':
        # the last of several values counts, as for every header
        a, b = S.choice('a', [VALUE, 'x']), S.choice('b', [VALUE, 'x'])
        ajax(S, parsed(S, [NAME + ': ' + a, 'Other: x', NAME + ': ' + b]), b == VALUE)
    elif k == 'again':
        one = S.choice('one', [VALUE, 'x'])
        two = S.choice('two', [VALUE, 'x', None])
        req = parsed(S, [NAME + ': ' + one, 'Content-Type: text/plain'], 'GET https://h/ HTTP/1.1')
        ajax(S, req, one == VALUE)
        S.require(req.is_secure() and req.is_plain_text(), 'asked of the first request')
        req.stream = BytesIO('GET http://h/ HTTP/1.1\r\nHost: h\r\n' + ('' if two is None else NAME + ': ' + two + '\r\n') + '\r\n')
        ajax(S, req, False)
        S.require(not req.is_plain_text(), 'a new stream is another request')
        req.parse_request_header()
        ajax(S, req, two == VALUE)
        S.require(not req.is_secure() and not req.is_plain_text(), 'a new stream is another request')
        S.reach('again')
    elif k == 'scheme':
        s, i = case['s'], case['at']
        b = S.bytes('b', 1, 'hHtTpPsSxX')
        scheme = s[:i] + b + s[i + 1:]
        req = parsed(S, [], 'GET ' + scheme + '://h/ HTTP/1.1')
        if req is None:
            return
        want = scheme.lower() == 'https'
        S.require(req.is_secure() == want, 'a request is secure exactly if its scheme is https')
        S.reach('secure' if want else 'insecure')
        S.require(S.call(repr, req) == ('ok', "<HttpRequest: GET '/'>"), 'a request shows its method and path')
        S.reach('repr')
    elif k == 'port':
        port = S.choice('port', ['443', '80', '8443', '1'])
        way = S.choice('way', ['host', 'absolute', 'names'])
        if way == 'names':
            req = parsed(S, ['X-Forwarded-Proto: https', 'X-Forwarded-Ssl: on', 'Host: https'], 'GET /https://x HTTP/1.1')
        else:
            req = parsed(S, ['Host: h:' + port] if way == 'host' else [], 'GET ' + ('' if way == 'host' else 'http://h:' + port) + '/ HTTP/1.1')
        S.require(req is not None and S.call(req.is_secure) == ('ok', False), 'a port or another header does not make a request secure')
        S.reach('insecure')
    elif k == 'setscheme':
        s = S.bytes('s', S.choice('n', [0, 4, case['n']]), 'htps')
        req = parsed(S, [])
        before = req.get_scheme()
        req.set_scheme(s)
        S.equal(req.get_scheme(), s if len(s) else before, 'the scheme set is reported, an empty one is ignored')
        S.require(req.is_secure() == (s == 'https'), 'a request is secure exactly if its scheme is https')
        req.set_scheme(None)
        S.equal(req.get_scheme(), s if len(s) else before, 'no scheme is ignored')
    elif k == 'typemore':
        x = S.bytes('x', case['n'])
        S.assume(S.neg(S.isin(x[0], '\r\n;')))
        S.assume(S.allin(x, ''.join([chr(i) for i in range(33, 127) if chr(i) not in ';="'])))
        req = parsed(S, ['Content-Type: ' + S.choice('t', ['text/plain' + x, x + 'text/plain', 'text/plai' + x, 'text/' + x + 'plain'])])
        if req is None:
            return
        want = S.same(req.content_type, 'text/plain')
        S.require(bool(req.is_plain_text()) == bool(want), 'a longer media type is another one')
        S.reach('plain' if want else 'notplain')
    elif k == 'type':
        i = case['at']
        b = S.bytes('b', 1)
        S.assume(S.neg(S.isin(b, '\r\n')))
        t = 'text/plain'
        req = parsed(S, ['Content-Type: ' + t[:i] + b + t[i + 1:]])
        if req is None:
            return
        want = S.either(S.isin(b, t[i]), S.isin(b, t[i].upper()))
        S.require(bool(req.is_plain_text()) == bool(want), 'a request is plain text exactly if its content type is text/plain')
        S.reach('plain' if want else 'notplain')
    else:
        x = S.bytes('x', 1, 'aA1-')
        req = parsed(S, ['Content-Type: ' + S.choice('t', ['text/plain', 'Text/PLAIN']) + S.choice('sep', [';', ' ; ', '; ']) + 'p=' + x])
        S.require(bool(req.is_plain_text()), 'parameters do not matter')
        req = parsed(S, ['Content-Type: text/html; p=text/plain'])
        S.require(not req.is_plain_text(), 'parameters do not matter')
