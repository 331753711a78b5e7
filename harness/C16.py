"""The request line is reported as sent."""
import hlib
from request_parser.http.request import HttpRequest, parse_request_line

BOUNDS = ('methods and protocols of 0..4 printable symbolic bytes; origin-form targets "/" + up to 6 and absolute-form targets with up to 5 scheme, 4 authority and 5 path bytes, all symbolic '
          'over / ? # ; : @ a % = & . - and the rest of the URI alphabet; arbitrary request lines of up to 6 bytes over space, tab and tokens; '
          'methods of up to 12 (thorough 20), protocols of up to 10 (16), schemes, authorities, paths, queries and fragments of up to 24 (60) characters each over unstructured alphabets; '
          'brackets in the authority are checked by C18')
REACH = ['origin', 'absolute', 'query', 'fragment', 'params', 'slashes', 'refused', 'tokens', 'wild', 'nothost', 'long']
OPTS = {}

URI = "/?#;:@a%=&.-"
LOWER = 'abcdefghijklmnopqrstuvwxyz'
PLAIN = LOWER + LOWER.upper() + '0123456789-._~!$&*+,=:@%'
PLAINQ = LOWER + LOWER.upper() + '0123456789-._~!$*,:@/?'
# what can stand in a line without ending it or being a separator
ANY = ''.join([chr(c) for c in range(256) if chr(c) not in ' \r\n'])
FULL = ''.join(chr(c) for c in range(0x21, 0x7f))


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([0, 1, 3, 4] if quick else [0, 1, 2, 3, 4, 5]):
        out.append({'kind': 'origin', 'n': n})
    out.append({'kind': 'wild', 'n': 2 if quick else 3})
    for s, a, p in ([(1, 1, 0), (5, 2, 2), (2, 2, 3)] if quick else [(1, 1, 0), (5, 2, 2), (2, 2, 3), (3, 4, 3), (4, 3, 4), (2, 1, 5)]):
        out.append({'kind': 'abs', 's': s, 'a': a, 'p': p})
    out.append({'kind': 'tokens', 'm': 3, 'v': 4})
    for m, v, n in ([(7, 8, 12), (12, 10, 24)] if quick else [(4, 5, 6), (6, 8, 9), (7, 8, 12), (12, 10, 24), (20, 16, 60)]):
        out.append({'kind': 'wide', 'm': m, 'v': v, 'n': n})
        out.append({'kind': 'wideabs', 'm': m, 'v': v, 'n': n})
    out.append({'kind': 'line', 'n': 5 if quick else 6})
    return out


def split(t):
    """path, query, fragment of a target without scheme and authority"""
    frag = query = ''
    i = t.find('#')
    if i >= 0:
        frag = t[i + 1:]
        t = t[:i]
    i = t.find('?')
    if i >= 0:
        query = t[i + 1:]
        t = t[:i]
    return t, query, frag


def request(line, st=None):
    req = HttpRequest(hlib.BytesIO(line + '\r\nHost: Example.org:81\r\n\r\n'), st or hlib.settings())
    return req


def run(S, case):
    k = case['kind']
    if k == 'line':
        line = S.bytes('line', case['n'], ' \tG/a')
        n = line.count(' ')
        r = S.call(request(line).parse_request_header)
        S.observe('r', r)
        if n != 2:
            S.require(r == ('exc', 'InvalidHttpRequest'), 'a request line which is not three tokens is refused')
            S.reach('refused')
        elif S.neg(S.either(line[0] == ' ', line[-1] == ' ', '  ' in line)):
            S.require(r[0] == 'ok', 'a request line of three tokens is accepted')
        return
    method, proto = 'GET', 'HTTP/1.1'
    scheme = auth = ''
    if k == 'tokens':
        method = S.bytes('m', case['m'], ANY)
        proto = S.bytes('v', case['v'], ANY)
        rest = '/x'
        target = rest
        S.reach('tokens')
    elif k in ('wide', 'wideabs'):
        method = S.bytes('m', case['m'], FULL)
        proto = S.bytes('v', case['v'], FULL)
        rest = '/' + S.bytes('p', case['n'], PLAIN) + '/' + S.bytes('p2', 4, PLAIN) + '?' + S.bytes('q', case['n'], PLAINQ) + '#' + S.bytes('f', case['n'], PLAIN + '/?:@=&;')
        if k == 'wideabs':
            scheme = 'h' + S.bytes('s', case['m'], LOWER + '0123456789+.-')
            S.assume(scheme != 'https')
            auth = 'a' + S.bytes('a', case['n'], LOWER + '0123456789.-')
        target = scheme + '://' + auth + rest if scheme else rest
        S.reach('long')
    elif k == 'origin':
        rest = '/' + S.bytes('t', case['n'], URI)
        target = rest
        S.reach('origin')
    elif k == 'wild':
        rest = '/' + S.bytes('t', case['n'], FULL)
        target = rest
        S.reach('wild')
    else:
        scheme = 'h' + S.bytes('s', case['s'] - 1, 'tTpPsS+.-9')
        auth = S.bytes('a', case['a'], 'aZ9.:-@%_!')
        rest = S.bytes('t', case['p'], URI)
        S.assume(case['p'] == 0 or rest[0] in '/?#')
        target = scheme + '://' + auth + rest
        S.reach('absolute')
    path, query, frag = split(rest)
    line = method + ' ' + target + ' ' + proto
    r = S.call(parse_request_line, line)
    req = request(line)
    r2 = S.call(req.parse)
    S.require(r[0] == 'ok' and r2[0] == 'ok', 'a valid request line is accepted')
    d = r[1]
    S.observe('d', d)
    S.equal(d['METHOD'], method, 'the method of the request line')
    S.equal(d['PROTOCOL_INFO'], proto, 'the protocol of the request line')
    S.equal(d['SCHEME'], scheme.lower(), 'the scheme of the request line')
    S.equal(d['DOMAIN'], auth, 'the authority of the request line')
    S.equal(d['QUERY_STRING'], query, 'the query of the request line')
    S.equal(d['FRAGMENT'], frag, 'the fragment of the request line')
    S.equal(req.get_method(), method, 'get_method()')
    S.equal(req.get_protocol_info(), proto, 'get_protocol_info()')
    S.equal(req.get_path(), path, 'the path is what stands before the query')
    S.equal(req.get_scheme(), scheme.lower() if scheme else 'UNKNOWN', 'get_scheme()')
    S.require(req.is_secure() == (scheme.lower() == 'https'), 'is_secure()')
    S.equal(req.META['QUERY_STRING'], query, 'the query string reported')
    # PATH and PARAMS together are the path
    if len(d['PARAMS']):
        S.equal(d['PATH'] + ';' + d['PARAMS'], path, 'the parameters of the path')
        S.reach('params')
    else:
        S.require(S.either(d['PATH'] == path, d['PATH'] + ';' == path), 'the path of the request line')
    if not scheme:
        S.equal(req.get_host(), 'example.org', 'the host of an origin-form request is its Host header')
        S.equal(req.get_port(), '81', 'the port of an origin-form request is that of its Host header')
        S.reach('nothost')
    if len(query):
        S.reach('query')
    if len(frag):
        S.reach('fragment')
    if k == 'origin' and case['n'] > 1:
        if rest[1] == '/':
            S.reach('slashes')
