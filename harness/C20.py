"""body() returns the body, once and only the body."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('bodies of 0..4 arbitrary symbolic bytes (and 40, thorough 300, symbolic bytes, and up to 140000 (300000) bytes), text, binary, urlencoded, multipart and untyped and of five other types; every sequence of up to 4 (quick: 3) calls out of body, parse, '
          'parse_request_header and parse_request_body; sources failing at each chunk of header and body, at once or at every later read; the body read by read(n), readline(n) and iteration, the source delivering it whole or in pieces of 1..3 bytes')
REACH = ['pieces', 'before', 'after', 'form', 'raw-error', 'order', 'fail-header', 'fail-body', 'fail-form', 'read', 'empty', 'big', 'wide', 'refused']
OPTS = {'loop_limit': 100000, 'replays_quick': 1000}

NOEOL = ''.join([chr(i) for i in range(256) if i not in (10, 13)])
WIDE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'
TYPES = {'text': 'text/plain', 'bin': 'application/octet-stream', 'form': 'application/x-www-form-urlencoded',
         'multi': 'multipart/form-data; boundary=B', 'none': None,
         'mixed': 'multipart/mixed; boundary=B', 'form2': 'application/x-www-form-urlencoded2', 'json': 'application/json; charset=iso-8859-1', 'bad': 'form', 'data': 'x/form-data; boundary=B'}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for t in ['text', 'bin', 'form', 'multi', 'none']:
        for n in ([0, 2] if quick else [0, 1, 3, 4]):
            out.append({'kind': 'calls', 'type': t, 'n': n, 'ops': 3 if quick else 4})
    for t in ['mixed', 'form2', 'json', 'bad', 'data']:
        out.append({'kind': 'calls', 'type': t, 'n': 2, 'ops': 2 if quick else 3})
    for big in (65531, 65532, 65533, 70000, 140000) if quick else (65500, 65530, 65531, 65532, 65533, 65534, 70000, 131068, 140000, 300000):
        out.append({'kind': 'calls', 'type': 'text', 'n': 2, 'ops': 2 if big in (70000, 140000) else 1, 'big': big})
    out.append({'kind': 'calls', 'type': 'text', 'n': 2, 'ops': 2, 'big': 70000, 'mhs': 65536})
    out.append({'kind': 'calls', 'type': 'text', 'n': 2, 'ops': 2, 'mhs': 4096})
    out.append({'kind': 'calls', 'type': 'multi', 'n': 2, 'ops': 2, 'mhs': 4096})
    for n in ([40] if quick else [7, 12, 40, 300]):
        for t in ['text', 'bin', 'form', 'none']:
            out.append({'kind': 'calls', 'type': t, 'n': n, 'ops': 2, 'wide': 1})
    for t in ['text', 'form', 'multi', 'none']:
        out.append({'kind': 'fail', 'type': t})
    for t in ['text', 'form', 'none']:
        out.append({'kind': 'refused', 'type': t, 'n': 3, 'ops': 3 if quick else 4})
    out.append({'kind': 'refused', 'type': 'form', 'n': 2, 'ops': 2, 'big': 70000})
    for how in ['read', 'readline', 'line', 'iter', 'xread']:
        out.append({'kind': 'read', 'how': how, 'n': 4 if quick else 5})
        for piece in ([2] if quick else [1, 2, 3]):
            out.append({'kind': 'read', 'how': how, 'n': 4 if quick else 5, 'piece': piece})
    return out


def message(t, body):
    msg = 'POST /p HTTP/1.1\r\nHost: h\r\n'
    if TYPES[t]:
        msg += 'Content-Type: ' + TYPES[t] + '\r\n'
    return msg + 'Content-Length: ' + str(len(body)) + '\r\n\r\n', body


class Failing(object):
    """an iterator over chunks that raises IOError in place of chunk number `at`, and from then on if `forever`"""

    def __init__(self, chunks, at, forever, error):
        self.chunks = chunks
        self.pos = 0
        self.at = at
        self.forever = forever
        self.failed = False
        self.error = error

    def __iter__(self):
        return self

    def next(self):
        if self.pos == self.at and (self.forever or not self.failed):
            self.failed = True
            raise self.error('read failed')
        if self.pos >= len(self.chunks):
            raise StopIteration()
        self.pos += 1
        return self.chunks[self.pos - 1]

    __next__ = next


def run(S, case):
    k = case['kind']
    if k == 'calls':
        t = case['type']
        c = S.bytes('b', case['n'], WIDE if case.get('wide') and t == 'form' else NOEOL if case.get('wide') else 'ab=&+' if t == 'form' else None)
        if case.get('wide'):
            S.reach('wide')
        if t == 'multi':
            if case['n'] > 2:
                S.assume('--B' not in c)
            body = hlib.body_of([hlib.part('f', 'x', c)]) if case['n'] else ''
        else:
            body = c + 'x' * case.get('big', 0) + (S.bytes('tail', 2) if case.get('big') else '')
            if case.get('big'):
                S.reach('big')
        head, _ = message(t, body)
        req = HttpRequest(hlib.BytesIO(head + body), hlib.settings(MAX_HEADER_SIZE=case.get('mhs', 16)))
        header = parsed = False
        taken = False          # body() has taken the body before it was parsed
        for i in range(case['ops']):
            op = S.choice('op%d' % i, ['body', 'parse', 'header', 'pbody'])
            if op == 'body':
                r = S.call(req.body)
                S.observe('body', r)
                if parsed and len(body) and not taken and t in ('form', 'multi'):
                    S.require(r == ('exc', 'RawPostDataException'), 'the raw body of a parsed form is the documented error')
                    S.reach('raw-error')
                else:
                    S.require(r[0] == 'ok', 'the body can be asked for')
                    S.equal(r[1], body, 'body() returns every byte after the header and nothing else')
                    S.reach('after' if parsed else 'before')
                    if not len(body):
                        S.reach('empty')
                    header = True
                    if not parsed:
                        taken = True
            elif op == 'header':
                S.require(S.call(req.parse_request_header)[0] == 'ok', 'the header can be parsed at any time')
                header = True
            else:
                if op == 'pbody' and not header:
                    r = S.call(req.parse_request_body)
                    S.require(r == ('exc', 'RequestHeaderParseException'), 'parsing the body before the header is the documented error')
                    S.reach('order')
                    continue
                r = S.call(req.parse if op == 'parse' else req.parse_request_body)
                S.observe(op, r)
                S.require(r[0] == 'ok', 'the request can be parsed')
                header = True
                parsed = True
                if t == 'multi' and len(body) and not taken:
                    S.equal([v['data'] for v in req.POST.getlist('x')], [c], 'the form is parsed')
                    S.reach('form')
        return
    if k == 'refused':
        # a body over the limit is refused whenever and however often it is asked for, never reported in part
        t = case['type']
        body = S.bytes('b', case['n'], 'ab') + 'x' * case.get('big', 0) + S.bytes('c', 1, 'ab')
        head, _ = message(t, body)
        n = len(body)
        limit = S.choice('limit', [0, 1, n - 1, n])
        req = HttpRequest(hlib.BytesIO(head + body), hlib.settings(MAX_HEADER_SIZE=16, DATA_UPLOAD_MAX_MEMORY_SIZE=limit))
        S.require(S.call(req.parse_request_header)[0] == 'ok', 'the header can be parsed')
        for i in range(case['ops']):
            op = S.choice('op%d' % i, ['body', 'parse', 'pbody', 'header'])
            if op == 'header':
                S.require(S.call(req.parse_request_header)[0] == 'ok', 'the header can be parsed')
                continue
            if op == 'body' and limit == n and i:
                continue
            r = S.call(req.body if op == 'body' else req.parse if op == 'parse' else req.parse_request_body)
            S.observe(op, r)
            if n > limit:
                S.require(r == ('exc', 'RequestDataTooBig'), 'a body over the limit is refused every time')
                S.reach('refused')
            else:
                S.require(r[0] == 'ok', 'a body within the limit is accepted every time')
                if op == 'body':
                    S.equal(r[1], body, 'body() returns every byte of it')
        if n > limit:
            S.equal(req.read(), body, 'a refused body can still be read')
        return
    if k == 'fail':
        t = case['type']
        b = S.bytes('b', 2, 'ab')
        body = b if t != 'multi' else hlib.body_of([hlib.part('f', 'x', b)])
        head, _ = message(t, body)
        n = len(head)
        chunks = [head[:10], head[10:n - 2], head[n - 2:], body[:1], body[1:]]
        at = S.choice('at', list(range(6)))
        src = Failing(chunks, at, S.bool('forever'), S.choice('error', [IOError]))
        req = HttpRequest(src, hlib.settings(MAX_HEADER_SIZE=S.choice('mhs', [1, 16, 400])))
        how = S.choice('how', ['parse', 'body', 'steps', 'read'])
        if how == 'parse':
            r = S.call(req.parse)
        elif how == 'body':
            r = S.call(req.body)
        elif how == 'read':
            r = S.call(req.read)
        else:
            r = S.call(req.parse_request_header)
            if r[0] == 'ok':
                r = S.call(req.parse_request_body)
        S.observe('r', r)
        if r[0] == 'ok':
            # the failing read was never needed
            S.require(at == 5 or (t == 'multi' and at >= 4), 'a failing read is not passed over')
        else:
            S.require(r[1] == 'UnreadablePostError', 'a failing read is the documented error')
            S.reach('fail-header' if at < 3 else 'fail-form' if t == 'multi' else 'fail-body')
        return
    body = S.bytes('b', case['n'], '\r\nab')
    head, _ = message('text', body)
    if case.get('piece'):
        n = case['piece']
        m = len(head)
        source = iter([head[:m - 1], head[m - 1:] + body[:1]] + [body[i:i + n] for i in range(1, len(body), n)])
        S.reach('pieces')
    else:
        source = hlib.BytesIO(head + body)
    req = HttpRequest(source, hlib.settings(MAX_HEADER_SIZE=1 if case.get('piece') else 16))
    req.parse_request_header()
    lines = []
    rest = body
    while rest:
        i = rest.find('\n')
        i = len(rest) if i < 0 else i + 1
        lines.append(rest[:i])
        rest = rest[i:]
    how = case['how']
    if how == 'read':
        got, p = [], 0
        for i in range(3):
            n = S.choice('n%d' % i, [0, 1, 2, 3])
            x = req.read(n)
            S.equal(x, body[p:p + n], 'read(n) gives the next n bytes of the body')
            p = min(len(body), p + n)
        S.equal(req.read(), body[p:], 'read() gives the rest of the body')
        S.equal(req.read(1), '', 'then nothing is left')
    elif how == 'readline':
        p = 0
        for i in range(3):
            n = S.choice('n%d' % i, [1, 2, 9])
            x = req.readline(n)
            j = body.find('\n', p)
            e = len(body) if j < 0 else j + 1
            S.equal(x, body[p:min(e, p + n)], 'readline(n) gives at most n bytes of the next line')
            p += len(x)
        S.equal(req.read(), body[p:], 'what readline left can be read')
    elif how == 'line':
        for l in lines:
            S.equal(req.readline(), l, 'readline() gives the next line')
        S.equal(req.readline(), '', 'then nothing is left')
    elif how == 'iter':
        S.equal(list(req), lines, 'iterating gives the lines of the body')
    else:
        S.equal([x for x in req.xreadlines()], lines, 'xreadlines gives the lines of the body')
    S.reach('read')
