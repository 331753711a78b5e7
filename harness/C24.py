"""A malformed request is refused with documented errors only."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('requests with 0..3 arbitrary symbolic bytes at every one of the structural positions: whole message, method, target, protocol, version, port, line ends, host, header line, name and value, content type and '
          'its parameters, content length, form body, multipart body; up to 6 over the delimiters of that position; two positions at once; truncation of a request at every byte')
REACH = ['ok', 'refused', 'truncated', 'accessors', 'again']
OPTS = {'replays_quick': 900}

FORM = 'application/x-www-form-urlencoded'
MULTI = 'multipart/form-data; boundary=B'
BODY = '--B\r\nContent-Disposition: form-data; name="a"\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name="f"; filename="n.x"\r\n\r\nw\r\n--B--\r\n'
# {0}: the symbolic bytes
TEMPLATES = [
    ('whole', '{0}'),
    ('method', 'G{0} /p?q=1 HTTP/1.1\r\nHost: h\r\n\r\n'),
    ('target', 'GET {0} HTTP/1.1\r\nHost: h\r\n\r\n'),
    ('path', 'GET /{0} HTTP/1.1\r\nHost: h\r\n\r\n'),
    ('authority', 'GET http://{0}/p HTTP/1.1\r\nHost: h\r\n\r\n'),
    ('query', 'GET /?a={0}&b HTTP/1.1\r\nHost: h\r\n\r\n'),
    ('protocol', 'GET / {0}\r\nHost: h\r\n\r\n'),
    ('version', 'GET / HTTP/{0}\r\nHost: h\r\n\r\n'),
    ('version1', 'GET / HTTP/1.{0}\r\nHost: h\r\n\r\n'),
    ('port', 'GET / HTTP/1.1\r\nHost: h:{0}\r\n\r\n'),
    ('targetport', 'GET http://h:{0}/p HTTP/1.1\r\nHost: h\r\n\r\n'),
    ('end', 'GET / HTTP/1.1{0}Host: h\r\n\r\n'),
    ('hostname', 'GET / HTTP/1.1\r\n{0}: h\r\nHost: h\r\n\r\n'),
    ('host', 'GET / HTTP/1.1\r\nHost:{0}\r\n\r\n'),
    ('value', 'GET / HTTP/1.1\r\nHost: h\r\nA: {0}\r\n\r\n'),
    ('line', 'GET / HTTP/1.1\r\nHost: h\r\n{0}\r\n\r\n'),
    ('line2', 'GET / HTTP/1.1\r\n{0}\r\nHost: h\r\nA: b\r\n\r\n'),
    ('blank', 'GET / HTTP/1.1\r\nHost: h{0}\r\n'),
    ('ctype', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: {0}\r\n\r\na=1'),
    ('ctparam', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + FORM + ';{0}\r\n\r\na=1'),
    ('charset', 'POST /?a=%E9 HTTP/1.1\r\nHost: h\r\nContent-Type: ' + FORM + '; charset=utf-8{0}\r\n\r\na=%E9'),
    ('multi', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data{0}\r\nContent-Length: 9\r\n\r\n--B--\r\n'),
    ('boundary', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary={0}\r\nContent-Length: 9\r\n\r\n--B--\r\n'),
    ('length', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + MULTI + '\r\nContent-Length: {0}\r\n\r\n' + BODY),
    ('form', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + FORM + '\r\n\r\n{0}'),
    ('form8', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + FORM + '; charset=utf-8\r\n\r\na={0}'),
    ('text8', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{0}'),
    ('body', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + MULTI + '\r\nContent-Length: 99\r\n\r\n--B{0}--B--\r\n'),
    ('part', 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: ' + MULTI + '\r\nContent-Length: 99\r\n\r\n--B\r\nContent-Disposition: form-data; name={0}\r\n\r\nv\r\n--B--\r\n'),
]
ALPHA = {'port': '0189.:]', 'targetport': '0189.:]', 'version': '01.2', 'target': '/:?#[]@h', 'authority': '[]:@/h.', 'path': '/?#;[%', 'query': '%=&;+4', 'end': '\r\n :A', 'blank': '\r\n:A ', 'host': '[]:.h1', 'ctparam': 'charset*=;"\' ',
         'ctype': 'a/;= "', 'charset': '8";= ', 'multi': '; boundry="', 'length': '+-0 9_', 'whole': '\r\n: G/', 'body': '\r\n-B:', 'part': '"\\;f=*\'', 'boundary': '"B; -'}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for name, t in TEMPLATES:
        for n in ([0, 1, 2] if quick else [0, 1, 2, 3]):
            out.append({'kind': 'any', 't': name, 'n': n})
        if name in ALPHA:
            out.append({'kind': 'alpha', 't': name, 'n': 3 if quick else 5})
    for name in ['length', 'part', 'form']:
        out.append({'kind': 'cut', 't': name})
    out.append({'kind': 'again', 't': 'authority', 'n': 2})
    out.append({'kind': 'again', 't': 'multi', 'n': 1})
    return out


def run(S, case):
    k = case['kind']
    t = dict(TEMPLATES)[case['t']]
    if k == 'cut':
        msg = t.replace('{0}', '=a' if case['t'] != 'length' else '200')
        msg = msg[:S.choice('cut', list(range(len(msg))))]
        S.reach('truncated')
    else:
        v = S.bytes('v', case['n'], ALPHA[case['t']] if k == 'alpha' else None)
        a, b = t.split('{0}')
        msg = a + v + b
    req = HttpRequest(hlib.BytesIO(msg), hlib.settings(S, MAX_HEADER_SIZE=64))
    r = S.call(req.parse)
    S.observe('r', r)
    S.require(r[0] == 'ok' or r[1] in hlib.DOCUMENTED_REQUEST, 'a malformed request gives a documented error')
    S.reach('ok' if r[0] == 'ok' else 'refused')
    if k == 'again':
        r2 = S.call(req.parse)
        S.require(r2[0] == 'ok' or r2[1] in hlib.DOCUMENTED_REQUEST, 'parsing a malformed request again gives a documented error')
        S.reach('again')
    # whatever happened, the request can be looked at
    for f in (req.get_method, req.get_path, req.get_host, req.get_port, req.get_full_path, req.get_uri, req.is_secure, req.is_plain_text, req.close):
        S.require(S.call(f)[0] == 'ok', 'a request can be looked at after parsing')
    S.require(S.call(repr, req)[0] == 'ok', 'a request can be shown after parsing')
    S.require(S.call(req.GET.lists)[0] == 'ok' and S.call(req.POST.lists)[0] == 'ok', 'the parameters can be looked at')
    b = S.call(req.body)
    S.require(b[0] == 'ok' or b[1] in hlib.DOCUMENTED_REQUEST, 'asking for the body gives it or a documented error')
    S.reach('accessors')
