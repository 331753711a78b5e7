"""Reusing or sharing parser objects leaks nothing."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('every ordered pair of 11 kinds of request (query, urlencoded in two charsets, multipart with file, text in two charsets, absolute https, empty body and three malformed ones) with 1..2 symbolic bytes '
          'each; the first one not parsed, parsed, header only, body taken, partly read, re-encoded or given its own handlers before the second stream is set; two requests with one settings '
          'object in every interleaving of their steps; change of encoding before and after parsing')
REACH = ['stream', 'body-stream', 'shared', 'encoding', 'failed', 'form', 'file', 'settings-kept', 'early-encoding']
OPTS = {'replays_quick': 700}

KINDS = ['query', 'form', 'form8', 'multi', 'text8', 'https', 'empty', 'badline', 'badbody', 'nohost', 'koi']
URLENC = 'application/x-www-form-urlencoded'


def message(S, kind, name, quick=False):
    """(header, body)"""
    c = S.bytes(name, 1 if kind in ('https', 'badline', 'nohost') or quick else 2, '%E9&' if kind in ('query', 'form', 'form8') else None)
    if kind == 'query':
        return 'GET /%s?q=%%E9%s HTTP/1.1\r\nHost: %s.org:8%s\r\nX-%s: v\r\n\r\n' % (name, c, name, len(name), name), ''
    if kind == 'form':
        return 'POST /%s HTTP/1.0\r\nHost: %s.org\r\nContent-Type: %s\r\n\r\n' % (name, name, URLENC), 'f=' + c
    if kind == 'form8':
        return 'PUT /%s?u=%%C3%%A9 HTTP/1.0\r\nHost: %s.org\r\nContent-Type: %s; charset=utf-8\r\n\r\n' % (name, name, URLENC), 'g=' + c
    if kind == 'multi':
        body = hlib.body_of([hlib.part('f', name, c), hlib.part('F', 'up' + name, c, filename='n.txt')], 'B' + name)
        return 'POST /%s HTTP/1.1\r\nHost: %s.org\r\nContent-Type: multipart/form-data; boundary=B%s\r\nContent-Length: %d\r\n\r\n' % (name, name, name, len(body)), body
    if kind == 'koi':
        return 'POST /%s?u=%%C3 HTTP/1.1\r\nHost: %s.org\r\nContent-Type: text/plain; charset=koi8-r\r\n\r\n' % (name, name), c
    if kind == 'text8':
        return 'POST /%s;p HTTP/1.1\r\nHost: %s.org\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n' % (name, name), c
    if kind == 'https':
        return 'GET https://%s.net/%s?x=1 HTTP/1.1\r\nX: ' % (name, name) + c.replace('\r', '').replace('\n', '') + '\r\n\r\n', ''
    if kind == 'empty':
        return 'DELETE /%s HTTP/1.1\r\nHost: [::1]:9\r\nContent-Type: %s\r\n\r\n' % (name, URLENC), ''
    if kind == 'badline':
        return 'GET ' + c + ' /%s HTTP/1.1\r\nHost: h\r\n\r\n' % name, ''
    if kind == 'badbody':
        return 'POST /%s?z=2 HTTP/1.1\r\nHost: %s.org\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\n' % (name, name), c
    return 'GET /%s HTTP/1.1\r\nX: ' % name + c.replace('\r', '').replace('\n', '') + '\r\n\r\n', ''


def cases(tier):
    quick = tier == 'quick'
    out = []
    for i, a in enumerate(KINDS):
        for j, b in enumerate(KINDS):
            if quick and (i + j) % 2 and a != b:
                continue
            out.append({'kind': 'stream', 'a': a, 'b': b})
    for a in ['form', 'form8', 'multi', 'text8', 'badbody', 'empty']:
        for b in (['form', 'text8'] if quick else ['form', 'form8', 'multi', 'text8', 'empty']):
            out.append({'kind': 'body', 'a': a, 'b': b})
    for a, b in [('form8', 'form'), ('query', 'text8'), ('multi', 'form8'), ('form', 'form'), ('text8', 'badline'), ('koi', 'form'), ('koi', 'text8')]:
        out.append({'kind': 'shared', 'a': a, 'b': b})
    for a in ['query', 'form', 'form8']:
        out.append({'kind': 'enc', 'a': a})
    for c in out:
        c['quick'] = 1 if quick else 0
    return out


def show(d):
    return [(k, [x if not hasattr(x, 'read') else (x.name, x.size, x.content_type, content(x)) for x in d.getlist(k)]) for k in sorted(d.keys())]


def content(f):
    f.seek(0)
    return f.read()


def lists(d):
    out = []
    for k in sorted(d.keys()):
        out.append((k, [dict(v) if isinstance(v, dict) else v for v in d.getlist(k)]))
    return out


def snapshot(S, req, full=True):
    out = [('get', lists(req.GET)), ('post', lists(req.POST)), ('files', show(req.FILES)), ('enc', req.encoding), ('type', req.content_type),
           ('method', req.get_method()), ('scheme', req.get_scheme()), ('host', req.get_host()), ('port', req.get_port()),
           ('path', req.get_path()), ('proto', req.get_protocol_info()), ('params', req.content_params)]
    h = req.META.get('REQUEST_HEADERS')
    out.append(('headers', None if h is None else lists(h)))
    out.append(('query', req.META.get('QUERY_STRING')))
    out.append(('meta', sorted(req.META.keys())))
    out.append(('fullpath', req.get_full_path()))
    out.append(('uri', req.get_uri()))
    if full:
        out.append(('body', S.call(req.body)))
    return out


def use(req, handlers):
    req.upload_handlers = handlers


def same(S, a, b):
    for (l, x), (m, y) in zip(a, b):
        S.equal(x, y, l + ' is that of a request of its own')


def run(S, case):
    k = case['kind']
    if k == 'stream':
        ha, ba = message(S, case['a'], 'a', case.get('quick'))
        hb, bb = message(S, case['b'], 'bb', case.get('quick'))
        st = hlib.settings(S)
        req = HttpRequest(hlib.BytesIO(ha + ba), st)
        how = S.choice('how', ['nothing', 'parse', 'header', 'body', 'read', 'enc', 'handlers'])
        if how == 'parse':
            r = S.call(req.parse)
            if r[0] == 'exc':
                S.reach('failed')
        elif how == 'header':
            S.call(req.parse_request_header)
        elif how == 'body':
            S.call(req.body)
        elif how == 'read':
            S.call(req.read, 3)
        elif how == 'enc':
            req.encoding = 'koi8-r'
            S.call(req.parse)
            req.encoding = 'cp1252'
        elif how == 'handlers':
            if case['a'] != 'multi':
                return
            req.upload_handlers = [hlib.Recorder()]
            S.call(req.parse)
        req.stream = hlib.BytesIO(hb + bb)
        fresh = HttpRequest(hlib.BytesIO(hb + bb), hlib.settings(S))
        r, q = S.call(req.parse), S.call(fresh.parse)
        S.observe('r', r)
        S.equal(r, q, 'the second request is parsed as one of its own')
        S.equal(sorted(vars(st).items()), sorted(vars(hlib.settings(S)).items()), 'parsing leaves the settings as they were')
        same(S, snapshot(S, req), snapshot(S, fresh))
        S.reach('stream')
        if case['b'] == 'multi' and len(req.FILES):
            S.reach('file')
        req.stream = hlib.BytesIO('')
        own = [hlib.Recorder()]
        S.require(S.call(use, req, own)[0] == 'ok', 'a request with a new stream takes new upload handlers')
        S.require(req.upload_handlers is own, 'and uses them')
        # no stream at all, as at the start
        req.stream = None
        S.equal(S.call(req.parse), S.call(HttpRequest(None, hlib.settings(S)).parse), 'a request without stream is as one of its own')
        S.require(len(req.GET.keys()) == 0 and len(req.POST.keys()) == 0 and len(req.FILES.keys()) == 0, 'nothing is left of the request before')
        if case['b'] in ('form', 'form8'):
            S.reach('form')
        return
    if k == 'body':
        ha, ba = message(S, case['a'], 'a', case.get('quick'))
        hb, bb = message(S, case['b'], 'bb', case.get('quick'))
        req = HttpRequest(hlib.BytesIO(ha + ba), hlib.settings(S))
        how = S.choice('how', ['header', 'parse', 'body'])
        if how == 'header':
            req.parse_request_header()
        elif how == 'parse':
            S.call(req.parse)
        else:
            S.call(req.body)
        if case['a'] == 'multi' and len(bb) > len(ba):
            bb = bb[:len(ba)]
        req.body_stream = hlib.BytesIO(bb)
        fresh = HttpRequest(hlib.BytesIO(ha + bb), hlib.settings(S))
        r, q = S.call(req.parse_request_body), S.call(fresh.parse)
        S.observe('r', r)
        S.equal(r, q, 'the new body is parsed as that of a request of its own')
        same(S, snapshot(S, req), snapshot(S, fresh))
        S.reach('body-stream')
        return
    if k == 'shared':
        ha, ba = message(S, case['a'], 'a', case.get('quick'))
        hb, bb = message(S, case['b'], 'bb', case.get('quick'))
        st = hlib.settings(S)
        before = sorted(vars(st).items())
        ra, rb = HttpRequest(hlib.BytesIO(ha + ba), st), HttpRequest(hlib.BytesIO(hb + bb), st)
        fa, fb = HttpRequest(hlib.BytesIO(ha + ba), hlib.settings(S)), HttpRequest(hlib.BytesIO(hb + bb), hlib.settings(S))
        left = {'a': [(ra.parse_request_header, fa.parse_request_header), (ra.parse_request_body, fa.parse_request_body)],
                'b': [(rb.parse_request_header, fb.parse_request_header), (rb.parse_request_body, fb.parse_request_body)]}
        i = 0
        while left['a'] or left['b']:
            w = S.choice('turn%d' % i, ['a', 'b']) if left['a'] and left['b'] else 'a' if left['a'] else 'b'
            i += 1
            f, g = left[w].pop(0)
            S.equal(S.call(f), S.call(g), 'a request is parsed as if its settings were its own')
        same(S, snapshot(S, ra), snapshot(S, fa))
        same(S, snapshot(S, rb), snapshot(S, fb))
        S.equal(sorted(vars(st).items()), before, 'parsing leaves the settings as they were')
        S.reach('shared')
        S.reach('settings-kept')
        return
    c = S.bytes('c', 2 if case.get('quick') else 3, '%aE9&=')
    query = 'q=%C3%A9' + c
    body = 'p=%E9' + c if case['a'] != 'query' else ''
    cs = '; charset=utf-8' if case['a'] == 'form8' else ''
    head = 'POST /x?' + query + ' HTTP/1.1\r\nHost: h\r\nContent-Type: ' + URLENC
    new = S.choice('new', ['utf-8', 'iso-8859-1', 'koi8-r'])
    req = HttpRequest(hlib.BytesIO(head + cs + '\r\n\r\n' + body), hlib.settings())
    fresh = HttpRequest(hlib.BytesIO(head + '; charset=' + new + '\r\n\r\n' + body), hlib.settings())
    S.require(S.call(fresh.parse)[0] == 'ok', 'the request is parsed')
    when = S.choice('when', ['before', 'between', 'after'])
    if when == 'before' and not cs:
        req.encoding = new
        S.reach('early-encoding')
    req.parse_request_header()
    if when == 'between':
        req.encoding = new
    req.parse_request_body()
    if when == 'after' or (when == 'before' and cs):
        req.encoding = new
    S.equal(req.encoding, new, 'the encoding set is reported')
    S.equal(lists(req.GET), lists(fresh.GET), 'the query is decoded in the new encoding')
    S.equal(lists(req.POST), lists(fresh.POST), 'the form is decoded in the new encoding')
    S.equal(req.get_full_path(), fresh.get_full_path(), 'the path stays')
    S.equal(req.settings.DEFAULT_CHARSET, 'ISO-8859-1', 'the settings stay')
    S.reach('encoding')
