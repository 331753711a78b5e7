"""Malformed multipart bodies end, with documented errors only."""
import hlib
from request_parser.files.uploadhandler import ConvenientFileUploadHandler, MemoryFileUploadHandler

BOUNDS = ('bodies with 0..3 arbitrary bytes (2 in quick; 0..4 over the structural alphabet) inserted in, or put in place of, every piece of a body with a field, a file and a base64 part; '
          'every header of a part with 1..3 arbitrary bytes in its name, value or parameters; whole bodies of up to 6 bytes over the structural alphabet; bodies cut at every position; 1..40 (thorough 120) bytes out of blanks and x before, after and between the parts; declared length shorter and longer than the body; '
          'read sizes 1..64K and short reads')
REACH = ['ok', 'error', 'insert', 'replace', 'whole', 'cut', 'length', 'suspicious', 'header', 'tail']
OPTS = {'loop_limit': 30000}
STRUCT = '\r\n-B: ;="/ax\x00\xff'
PIECES = ['--', 'BB', '\r\n', 'Content-Disposition', ': ', 'form-data', '; ', 'name=', '"a', '"', '\r\n\r\n', 'v1', '\r\n--BB', '\r\n',
          'Content-Disposition: form-data; name="f"; filename=', '"x.b', '"\r\n', 'Content-Type', ': ', 'text/p', '; charset=', 'u', '\r\nContent-Length: ', '4', "\r\nX: y; z*=utf-8'", "'%4", '1', '\r\n\r\n', 'data', '\r\n--BB\r\n',
          'Content-Disposition: form-data; name=c\r\nContent-Transfer-Encoding: ', 'base64', '\r\n\r\n', 'QUJD', '\r\n--BB', '--', '\r\n']

HEADERS = ['Content-Length: *', 'Content-Length: 1*', 'Content-Length:*', 'Content-Transfer-Encoding: *', 'Content-Transfer-Encoding: base64*', 'Content-Type: *', 'Content-Type: text/plain; charset=*',
           'Content-Type: text/plain; charset*=*', "Content-Type: text/plain; charset*=utf-8''*", "Content-Type: text/plain; charset*=*'', x", '*: x', 'Content-Disposition: *', 'Content-Length*', '*']


def cases(tier):
    quick = tier == 'quick'
    out = []
    for i in range(len(PIECES) + 1):
        if quick and i % 2:
            out.append({'kind': 'insert', 'at': i, 'n': 1, 'alpha': 1, 'chunk': None, 'short': 0})
        for n, a in ([(2, 0)] if quick else [(1, 0), (2, 0), (3, 0), (4, 1)]):
            out.append({'kind': 'insert', 'at': i, 'n': n, 'alpha': a, 'chunk': None, 'short': 0})
            if i < len(PIECES):
                out.append({'kind': 'replace', 'at': i, 'n': n, 'alpha': a, 'chunk': None, 'short': 0})
        if not quick:
            out.append({'kind': 'insert', 'at': i, 'n': 1, 'alpha': 1, 'chunk': 1, 'short': 1})
            out.append({'kind': 'replace', 'at': i, 'n': 0, 'alpha': 1, 'chunk': 7, 'short': 3})
    for n in ([0, 1, 2, 3] if quick else [0, 1, 2, 3, 4, 5, 6]):
        out.append({'kind': 'whole', 'n': n, 'chunk': None})
        if not quick:
            out.append({'kind': 'whole', 'n': n, 'chunk': 1})
    out.append({'kind': 'cut', 'chunk': None})
    out.append({'kind': 'cut', 'chunk': 3})
    for where in ('epilogue', 'preamble', 'skipped', 'fresh'):
        for n in ((1, 12, 40) if quick else (1, 5, 12, 40, 120)):
            out.append({'kind': 'tail', 'where': where, 'n': n})
    out.append({'kind': 'length'})
    out.append({'kind': 'many', 'count': 600})
    for h in HEADERS:
        for n in ([1, 2] if quick else [1, 2, 3]):
            out.append({'kind': 'header', 'h': h, 'n': n})
    for n in ([3] if quick else [1, 2, 3, 4]):
        out.append({'kind': 'b64', 'n': n})
    return out


def go(S, body, chunk=None, short=0, length=None, handler=None):
    stream = hlib.Dribble(body, short or 100000)
    h = handler or hlib.Recorder(chunk)
    r = S.call(hlib.multipart, body, 'BB', [h], hlib.settings(), stream, None, length)
    S.observe('r', r[0] if r[0] == 'ok' else r[1])
    if r[0] == 'exc':
        S.require(r[1] in hlib.DOCUMENTED_MULTIPART, 'a malformed body is a documented error')
        S.reach('error')
        return None
    S.reach('ok')
    S.require(stream.pos == len(body), 'the stream is consumed')
    return r[1]


def run(S, case):
    k = case['kind']
    if k in ('insert', 'replace'):
        x = S.bytes('x', case['n'], STRUCT if case['alpha'] else None)
        i = case['at']
        body = ''.join(PIECES[:i]) + x + ''.join(PIECES[i + (k == 'replace'):])
        r = go(S, body, case['chunk'], case['short'])
        S.reach(k)
    elif k == 'whole':
        body = S.bytes('x', case['n'], STRUCT)
        if S.bool('delim'):
            body = '--BB' + body
        go(S, body, case['chunk'], 0, 100)
        S.reach('whole')
    elif k == 'cut':
        body = ''.join(PIECES)
        n = S.choice('n', list(range(len(body))))
        go(S, body[:n], case['chunk'], 0, len(body))
        S.reach('cut')
    elif k == 'length':
        body = ''.join(PIECES)
        n = S.choice('n', [1, 2, 10, 100, len(body) - 1, len(body) + 1, 10 ** 12])
        r = go(S, body, None, 0, n, ConvenientFileUploadHandler() if S.bool('h') else MemoryFileUploadHandler())
        S.require(r is not None, 'the declared length is not used for parsing')
        S.reach('length')
    elif k == 'tail':
        # bytes that belong to no part, arriving in small reads
        x = S.bytes('x', case['n'], ' \r\n\x00x')
        p = hlib.part('F', 'a', 'QUJD')
        tail = S.choice('tail', ['', 'tail\r\n', ' ' * 40])
        if case['where'] == 'epilogue':
            body = hlib.body_of([p], 'BB') + x + tail
        elif case['where'] == 'preamble':
            body = x + tail + hlib.body_of([p], 'BB')
        elif case['where'] == 'skipped':
            body = hlib.body_of(['Content-Disposition: form-data\r\n\r\n' + x + tail, p], 'BB')
        else:
            body = x + tail
        r = go(S, body, S.choice('chunk', [None, 1, 4]), S.choice('short', [0, 1, 5]))
        S.require(r is not None, 'bytes between the parts are no error')
        S.require(r[1].getlist('a') == [] if case['where'] == 'fresh' else len(r[1].getlist('a')) == 1, 'and lose nothing')
        S.reach('tail')
    elif k == 'header':
        # one header of a field or a file with arbitrary bytes in it
        x = S.bytes('x', case['n'])
        kind = S.choice('kind', ['f', 'F'])
        i = case['h'].rindex('*')
        line = case['h'][:i] + x + case['h'][i + 1:]
        body = hlib.body_of([hlib.part(kind, 'a', 'QUJD', extra=line + '\r\n'), hlib.part('f', 'z', 'v')], 'BB')
        r = go(S, body)
        if r is not None:
            S.require(r[0].getlist('z')[0]['data'] == 'v', 'what follows is parsed')
        S.reach('header')
    elif k == 'b64':
        x = S.bytes('x', case['n'], 'A=/ \r\n-\x00\xff')
        kind = S.choice('kind', ['f', 'F'])
        body = hlib.body_of([hlib.part(kind, 'a', x, tenc='base64'), hlib.part('f', 'z', 'v')], 'BB')
        r = go(S, body, S.choice('chunk', [None, 1, 3]))
        if r is not None:
            S.require(r[0].getlist('z')[0]['data'] == 'v', 'what follows is parsed')
    else:
        # one field after another without content, each read pushes back nearly everything
        c = S.bytes('c', 1, 'a-\r')
        body = hlib.body_of([hlib.part('f', 'a', c)] + [hlib.part('f', 'a', '')] * case['count'], 'BB')
        r = go(S, body)
        if r is None:
            S.reach('suspicious')
        else:
            S.require(len(r[0].getlist('a')) == case['count'] + 1, 'nothing is lost')
            S.reach('suspicious')
