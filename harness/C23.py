"""Paths and URIs of a request are safely encoded and consistent."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('paths and query strings of up to 3 (thorough 4) arbitrary symbolic bytes from the request line (ASCII) or set with set_path as bytes or unicode text, encoded or not; up to 6 over '
          '/ % 2 F ? # ; = and space, also behind escaped percent signs and UTF-8; full path and URI, with and without appended slash, raw and encoded, with and without query')
REACH = ['line', 'set', 'unicode', 'slash', 'noslash', 'query', 'noquery', 'raw', 'uri', 'unset', 'repr', 'decoded']
OPTS = {'replays_quick': 800}

LEGAL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:/?#[]@!$&'()*+,;=%"
KEPT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~/:@&+$,!*'()%"
QKEPT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._/%[]=:;$&()+,!?*@'~"
LINE = ''.join(chr(c) for c in range(128) if c not in (10, 13, 32))
KEPT_ = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:@+$,!*()'
HEX = '0123456789ABCDEF'


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([0, 1, 2] if quick else [0, 1, 2, 3]):
        out.append({'kind': 'line', 'n': n, 'q': 1 if n < 2 else 0, 'alpha': 'line'})
        out.append({'kind': 'set', 'n': n, 'q': 0, 'alpha': 'any'})
        out.append({'kind': 'unicode', 'n': n, 'q': 1 if n < 2 else 0, 'alpha': 'any'})
    out.append({'kind': 'line', 'n': 0, 'q': 2 if quick else 3, 'alpha': 'line'})
    out.append({'kind': 'line', 'n': 4 if quick else 6, 'q': 0, 'alpha': '/%2Fa;='})
    out.append({'kind': 'set', 'n': 3 if quick else 5, 'q': 0, 'alpha': '/%2F?# '})
    for k in ('line', 'set', 'unicode'):
        out.append({'kind': k, 'n': 2, 'q': 0, 'alpha': '%20F', 'pre': '%25'})
        out.append({'kind': k, 'n': 1, 'q': 0, 'alpha': '%20F', 'pre': '%c3%A9x'})
    for n in ([14] if quick else [5, 9, 14, 40]):
        for k in ('line', 'set', 'unicode'):
            out.append({'kind': k, 'n': n, 'q': n, 'alpha': KEPT_, 'wide': 1})
    out.append({'kind': 'none'})
    return out


def esc(S, s, kept):
    """percent-encoding of every byte outside `kept`"""
    if S.allin(s, kept):
        return s
    out = ''
    for c in s:
        if S.isin(c, kept):
            out += c
        else:
            o = ord(c)
            out += '%' + HEX[o // 16] + HEX[o % 16]
    return out


def decoded(S, s):
    """what the percent-encoded s stands for, or None if that is not all ASCII"""
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if c == '%' and i + 2 < len(s) and S.allin(s[i + 1:i + 3], HEX + 'abcdef'):
            v = int(s[i + 1:i + 3], 16)
            if v > 127:
                return None
            c = chr(v)
            i += 2
        out += c
        i += 1
    return out if S.allin(out, ''.join([chr(x) for x in range(128)])) else None


def run(S, case):
    k = case['kind']
    if k == 'none':
        req = HttpRequest(None, hlib.settings())
        S.equal(S.call(req.get_path), ('ok', ''), 'the path of an unparsed request is empty')
        S.equal(S.call(req.get_full_path), ('ok', ''), 'the full path of an unparsed request is empty')
        S.equal(S.call(repr, req), ('ok', '<HttpRequest>'), 'the representation of an unparsed request')
        S.reach('unset')
        return
    alpha = {'line': LINE, 'any': None}.get(case['alpha'], case['alpha'])
    p = S.bytes('p', case['n'], alpha)
    p = case.get('pre', '') + p
    q = S.bytes('q', case['q'], KEPT_ if case.get('wide') else LINE)
    if k == 'line':
        S.assume(S.neg(S.either(*[S.isin(c, '?#') for c in p])) if p else True)
    S.assume('#' not in q)
    path = '/' + p
    url = S.choice('url', ['', 'https://a.b:8']) if case['n'] <= 1 else ''
    target = url + (path if k == 'line' else '/old') + ('?' + q if case['q'] else '')
    req = HttpRequest(hlib.BytesIO('GET ' + target + ' HTTP/1.1\r\nHost: a.b\r\nX: y\r\n\r\n'), hlib.settings())
    r = S.call(req.parse)
    S.require(r[0] == 'ok', 'the request is parsed')
    if k == 'line':
        S.equal(req.get_path(), path, 'the path reported is the one sent')
        S.reach('line')
        stored = path
    else:
        safely = S.bool('safely')
        given = path.decode('iso-8859-1') if k == 'unicode' else path
        sent = given.encode('utf-8') if k == 'unicode' else path
        r = S.call(req.set_path, given, safely)
        S.require(r[0] == 'ok', 'any path can be set')
        stored = esc(S, sent, KEPT) if safely else given
        S.equal(req.get_path(), stored, 'the path set is reported, encoded if asked for')
        path = sent
        S.reach('unicode' if k == 'unicode' else 'set')
    slash = S.bool('slash')
    want = esc(S, path, KEPT)
    if slash and path[-1] != '/':
        want += '/'
        S.reach('slash')
    elif slash:
        S.reach('noslash')
    S.reach('query' if q else 'noquery')
    query = '?' + esc(S, q, QKEPT) if q else ''
    r = S.call(req.get_full_path, slash)
    S.observe('full', r)
    S.require(r[0] == 'ok', 'the full path is always given')
    S.equal(r[1], want + query, 'the full path is the path and the query, percent-encoded where needed and only there')
    S.require(S.allin(r[1], LEGAL), 'the full path has only characters that are legal in a URI')
    u = S.call(req.get_uri)
    S.require(u[0] == 'ok', 'the URI is always given')
    S.equal(u[1], ('https://a.b' if url else 'UNKNOWN://a.b') + esc(S, path, KEPT) + query, 'the URI is scheme, host and full path')
    S.reach('uri')
    if case['alpha'] != 'any' or k == 'unicode':
        raw = S.call(req.get_full_path, slash, True)
        S.observe('raw', raw)
        S.require(raw[0] == 'ok', 'the raw path is always given')
        if S.neg(S.either(*[c == '%' for c in path + q])):
            S.equal(raw[1], path + ('/' if slash and path[-1] != '/' else '') + ('?' + q if q else ''), 'the raw full path is the path and query as sent')
            S.reach('raw')
        if not case.get('wide'):
            iri = decoded(S, path + ('/' if slash and path[-1] != '/' else '') + ('?' + q if q else ''))
            if iri is not None:
                S.equal(raw[1], iri, 'the raw full path is the path and query decoded')
                if '%' in path + q:
                    S.reach('decoded')
                iri = decoded(S, path + ('?' + q if q else ''))
                u = S.call(req.get_uri, True)
                S.observe('rawuri', u)
                S.equal(u, ('ok', ('https://a.b' if url else 'UNKNOWN://a.b') + iri), 'the raw URI is scheme, host and raw full path')
    S.equal(S.call(repr, req), ('ok', '<HttpRequest: GET %r>' % (esc(S, path, KEPT) + query)), 'the representation shows method and full path')
    S.reach('repr')
