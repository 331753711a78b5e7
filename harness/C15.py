"""The body starts at the byte after the first blank line, however the bytes arrive."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('requests with a header value of 0..4 and a body of 0..4 symbolic bytes over CR LF : a space (the blank line may be inside either), header read sizes 1..11, 16, 64 and 10000, '
          'streams delivered as lines, in chunks of 1..7 bytes, in one chunk, or cut at every position; header values and bodies of 30 (thorough 200) symbolic bytes; header blocks of up to 70 KB (thorough 140 KB); body taken by body(), parse(), read() and line by line, also with 1500 lines')
REACH = ['large', 'ok', 'refused', 'early', 'empty', 'nobody', 'lines', 'never', 'wide', 'many']
WIDE = ''.join([chr(i) for i in range(33, 256)])
OPTS = {}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for mhs in ([1, 2, 3, 5, 16, 10000] if quick else [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 64, 10000]):
        for deliver in (['lines', 3] if quick else ['lines', 1, 2, 3, 5, 7, 1000]):
            out.append({'kind': 'two', 'mhs': mhs, 'deliver': deliver, 'v': 2 if quick else 3, 'b': 2})
    for mhs in [4, 16]:
        out.append({'kind': 'two', 'mhs': mhs, 'deliver': 'lines', 'v': 3, 'b': 0})
        out.append({'kind': 'two', 'mhs': mhs, 'deliver': 'lines', 'v': 0, 'b': 4})
    for mhs in [1, 16]:
        out.append({'kind': 'cut', 'mhs': mhs, 'b': 3})
    for how in ['parse', 'read', 'line', 'iter', 'lines']:
        out.append({'kind': 'how', 'how': how, 'mhs': 16, 'b': 3 if quick else 4})
        if how != 'parse':
            out.append({'kind': 'how', 'how': how, 'mhs': 16, 'b': 2, 'lines': 1500})
    for n in ([30] if quick else [7, 13, 30, 200]):
        for mhs in [16, 10000]:
            out.append({'kind': 'raw', 'mhs': mhs, 'b': n, 'v': n, 'wide': 1})
    for pad in ([9000, 70000] if quick else [4000, 8100, 9000, 20000, 65500, 70000, 140000]):
        for mhs in [1000, 4096, 100000]:
            out.append({'kind': 'raw', 'mhs': mhs, 'b': 3, 'v': 2, 'wide': 1, 'pad': pad})
    out.append({'kind': 'raw', 'mhs': 16, 'b': 3})
    out.append({'kind': 'none', 'n': 3 if quick else 4})
    return out


def deliver(msg, how):
    if how == 'lines':
        return hlib.BytesIO(msg)
    out = []
    p = 0
    while p < len(msg):
        out.append(msg[p:p + how])
        p += how
    return iter(out)


def run(S, case):
    k = case['kind']
    st = hlib.settings(MAX_HEADER_SIZE=case.get('mhs', 16))
    if k == 'none':
        # no blank line at all: refused, whatever the bytes are
        v = S.bytes('v', case['n'], '\r\n:a ')
        msg = 'GET /p HTTP/1.1\r\nHost: h\r\nX:' + v
        S.assume('\r\n\r\n' not in msg)
        r = S.call(HttpRequest(hlib.BytesIO(msg), st).parse_request_header)
        S.observe('r', r)
        S.require(r == ('exc', 'InvalidHttpRequest'), 'a request without a blank line is refused')
        S.reach('never')
        return
    if k in ('two', 'raw'):
        v = S.bytes('v', case.get('v', 0), WIDE if case.get('wide') else '\r\n:a ')
        if case.get('wide'):
            S.reach('wide')
        if case.get('pad'):
            v = 'p' * case['pad'] + v
            S.reach('large')
        b = S.bytes('b', case['b'], '\r\n:a ' if k == 'two' else WIDE if case.get('wide') else None)
        d = case.get('deliver', 'lines')
    else:
        v = 'v'
        b = S.bytes('b', case['b'], '\r\n:a ')
        if case.get('lines'):
            b = b + 'ab\n' * case['lines'] + b
            S.reach('many')
        d = 'lines'
    msg = 'POST /p HTTP/1.1\r\nHost: h\r\nX:' + v + '\r\n\r\n' + b
    end = msg.find('\r\n\r\n')
    head = msg[:end]
    rest = msg[end + 4:]
    if k == 'cut':
        c = S.choice('cut', list(range(1, len(msg))))
        stream = iter([msg[:c], msg[c:]])
    else:
        stream = deliver(msg, d)
    req = HttpRequest(stream, st)
    if len(rest) > len(b):
        S.reach('early')
    how = case.get('how', 'body')
    r = S.call(req.parse_request_header)
    want = {}
    bad = False
    for line in head.split('\r\n')[2:]:
        if ':' not in line:
            bad = True
        else:
            name, value = line.split(':', 1)
            want.setdefault(name, []).append(value.strip())
    S.observe('r', r[0])
    if bad:
        S.require(r == ('exc', 'InvalidHttpRequest'), 'a header line without a colon is refused')
        S.reach('refused')
        return
    S.require(r[0] == 'ok', 'a well-formed header is accepted')
    got = req.META['REQUEST_HEADERS']
    S.require(len(list(got.keys())) == len(want), 'the headers are those of the lines before the blank line')
    for name in want:
        S.equal(got.getlist(name), want[name], 'the headers are those of the lines before the blank line')
    if how == 'body':
        r = S.call(req.body)
        S.require(r[0] == 'ok', 'the body can be read')
        S.equal(r[1], rest, 'the body is every byte after the blank line')
        S.require(S.call(req.parse_request_body)[0] == 'ok', 'the body can be parsed')
        S.equal(req.body(), rest.decode('iso-8859-1'), 'the body is the same once parsed')
    elif how == 'parse':
        S.require(S.call(req.parse_request_body)[0] == 'ok', 'the body can be parsed')
        if len(rest):
            S.equal(req.body(), rest.decode('iso-8859-1'), 'the body is every byte after the blank line')
    elif how == 'read':
        parts = [req.read(1), req.read(2), req.read()]
        S.equal(''.join(parts), rest, 'reading the request gives every byte after the blank line')
    elif how == 'line':
        lines = []
        while True:
            x = req.readline()
            if not x:
                break
            lines.append(x)
        S.equal(lines, ref_lines(rest), 'reading the request line by line gives the lines of the body')
        S.reach('lines')
    elif how == 'iter':
        S.equal([x for x in req], ref_lines(rest), 'iterating over the request gives the lines of the body')
    else:
        S.equal(req.readlines(), ref_lines(rest), 'readlines gives the lines of the body')
    S.reach('ok')
    if not len(rest):
        S.reach('empty')
    if not len(b):
        S.reach('nobody')


def ref_lines(s):
    out = []
    while s:
        i = s.find('\n')
        if i < 0:
            out.append(s)
            break
        out.append(s[:i + 1])
        s = s[i + 1:]
    return out
