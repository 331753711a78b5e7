"""A host is accepted exactly when it is a valid host or bracketed IPv6 address with an optional port."""
import hlib
from request_parser.http.request import HttpRequest, split_domain_port

BOUNDS = ('hosts of 1..5 arbitrary symbolic bytes (quick: 4), of up to 8 over letters digits . - : [ ] and a few others, in the Host header; of up to 4 (8) in an absolute request target; '
          'all ports of up to 4 digits; valid hosts of up to 31 (72) letters, digits, dots and hyphens, IPv6 hosts of as many digits and ports of up to 7 (12) digits, in both places')
REACH = ['plain', 'ipv6', 'port', 'dot', 'refused', 'target', 'noport', 'wide']
OPTS = {}

HOST = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-'
HEX = '0123456789abcdefABCDEF'
DIG = '0123456789'
ANY = ''.join(chr(c) for c in range(256) if c not in (10, 13))
# in a request target: no space, no control or non-ASCII bytes, no / ? # that end the authority
AUTH = ''.join(chr(c) for c in range(0x21, 0x7f) if chr(c) not in '/?#')


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([1, 2, 3, 4] if quick else [1, 2, 3, 4, 5]):
        out.append({'where': 'header', 'n': n, 'alpha': 'any'})
        out.append({'where': 'target', 'n': n, 'alpha': 'any'})
    for n in ([6] if quick else [5, 6, 7, 8]):
        out.append({'where': 'header', 'n': n, 'alpha': 'a.:0-Z'})
        out.append({'where': 'header', 'n': n, 'alpha': '[]:a.0F'})
    out.append({'where': 'header', 'n': 5 if quick else 7, 'alpha': 'a:\n\r\x00', 'direct': 1})
    out.append({'where': 'target', 'n': 6 if quick else 7, 'alpha': '[]:a.0F'})
    out.append({'where': 'header', 'n': 4 if quick else 6, 'alpha': '09', 'port': 1})
    for n, p in ([(12, 5), (29, 7)] if quick else [(9, 1), (12, 5), (19, 4), (29, 7), (70, 12)]):
        for where in ('header', 'target'):
            out.append({'where': where, 'n': n, 'p': p, 'wide': 1})
    return out


def tail(S, h, i):
    """an optional port from position i on; None if there cannot be one"""
    n = len(h)
    if i == n:
        return True
    if i + 1 >= n:
        return False
    return S.both(h[i] == ':', S.allin(h[i + 1:], DIG))


def run(S, case):
    n = case['n']
    if case.get('wide'):
        # labels and ports of any length; the shape is fixed, so that every solver query is about characters alone
        a, b = S.bytes('a', n // 2, HOST[:-2]), S.bytes('b', n - n // 2, HOST[:-2] + '-')
        form = S.choice('form', ['plain', 'dot', 'ipv6', 'ipv6full', 'ipv6long', 'digits'])
        port = S.bytes('port', case['p'], DIG)
        if form == 'ipv6':
            inner = S.bytes('x', n, HEX)
            want = host = '[' + inner[:4] + ':' + inner[4:] + '::1.2]'
        elif form.startswith('ipv6'):
            inner = S.bytes('x', 8, HEX)
            want = host = '[' + ':'.join(inner) + (':a:b' * n if form == 'ipv6long' else '') + ']'
        elif form == 'digits':
            want = host = S.bytes('x', n, DIG) + '.' + S.bytes('y', 3, DIG)
        else:
            want = 'w' + a + '.' + b + 'w'
            host = want + ('.' if form == 'dot' else '')
        withport = S.bool('withport')
        h = host + (':' + port if withport else '')
        target = case['where'] == 'target'
        req = HttpRequest(hlib.BytesIO('GET ' + ('hTTp://' + h if target else '') + '/p HTTP/1.1\r\nHost: ' + ('q' if target else h) + '\r\n\r\n'), hlib.settings())
        r = S.call(req.parse)
        S.require(r[0] == 'ok', 'the request is parsed')
        S.equal(req.get_host(), want.lower(), 'a long valid host is lower-cased')
        S.equal(req.get_port(), port if withport else ('80' if target else '65536'), 'the port of a long host')
        S.reach('wide')
        return
    if case.get('port'):
        h = 'a.b:' + S.bytes('h', n, case['alpha'])
        n = len(h)
    else:
        h = S.bytes('h', n, case['alpha'] if case['alpha'] != 'any' else (ANY if case['where'] == 'header' else AUTH))
    if case.get('direct'):
        # the validation itself, with line ends that no header can carry
        r = S.call(split_domain_port, h)
        S.require(r[0] == 'ok', 'validation never fails')
        host, port = r[1]
        port = port or '65536'
    else:
        if case['where'] == 'header':
            msg = 'GET /p HTTP/1.1\r\nA: b\r\nHost:' + h + '\r\n\r\n'
            default = '65536'
            h = trim(h)
            n = len(h)
        else:
            scheme = S.choice('scheme', ['http', 'HTTPS', 'x'])
            default = {'http': '80', 'HTTPS': '443', 'x': '65536'}[scheme]
            msg = 'GET ' + scheme + '://' + h + '/p HTTP/1.1\r\nHost: other:9\r\n\r\n'
            S.reach('target')
        req = HttpRequest(hlib.BytesIO(msg), hlib.settings())
        r = S.call(req.parse)
        S.observe('r', r)
        if case['where'] == 'target' and S.either(S.both('[' in h, S.neg(']' in h)), S.both(']' in h, S.neg('[' in h))):
            S.require(r[0] == 'ok' or r[1] == 'InvalidHttpRequest', 'unbalanced brackets are the documented error or an invalid host')
            if r[0] == 'ok':
                S.equal(req.get_host(), '', 'an invalid host is empty')
            S.reach('refused')
            return
        S.require(r[0] == 'ok', 'the request is parsed whatever its host')
        host, port = req.get_host(), req.get_port()
    S.observe('host', host)
    S.observe('port', port)
    if case.get('direct'):
        default = '65536'
    # plain host up to i, or bracketed address up to i
    for i in range(1, n + 1):
        t = tail(S, h, i)
        if S.both(S.allin(h[:i], HOST), t):
            want = h[:i].lower()
            if want[-1] == '.':
                want = want[:-1]
                S.reach('dot')
            S.equal(host, want, 'a valid host is lower-cased, without one trailing dot')
            check_port(S, h, i, port, default)
            S.reach('plain')
            return
    for i in range(3, n + 1):
        inner = []
        for j in range(1, i - 1):
            if j + 1 < i - 1:
                inner.append(S.both(S.allin(h[1:j], HEX), h[j] == ':', S.allin(h[j + 1:i - 1], HEX + ':.')))
        if inner and S.both(h[0] == '[', h[i - 1] == ']', S.either(*inner), tail(S, h, i)):
            S.equal(host, h[:i].lower(), 'a valid IPv6 host is lower-cased')
            check_port(S, h, i, port, default)
            S.reach('ipv6')
            return
    S.equal(host, '', 'an invalid host is empty')
    S.equal(port, default, 'an invalid host has no port of its own')
    S.reach('refused')


def check_port(S, h, i, port, default):
    if i < len(h):
        S.equal(port, h[i + 1:], 'the port given')
        S.reach('port')
    else:
        S.equal(port, default, 'without a port, the one of the scheme')
        S.reach('noport')


def trim(v):
    a, b = 0, len(v)
    while a < b and v[a] in ' \t\x0b\x0c\r\n':
        a += 1
    while b > a and v[b - 1] in ' \t\x0b\x0c\r\n':
        b -= 1
    return v[a:b]
