"""The limit on form data held in memory is exact; files are exempt."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('multipart bodies of 1..4 fields of 0..3 bytes (or 3..8 bytes of base64, decodable or not) and files of 0..40 bytes with every limit 0..40 or none, read sizes 1..64K; urlencoded, text and other bodies of 0..5 '
          'arbitrary bytes with every limit 0..6 or none; bodies around one and two read units of 64 KB with limits at, just below and just above the size')
REACH = ['mp-ok', 'mp-refused', 'body-ok', 'body-refused', 'none', 'big', 'form']
OPTS = {'loop_limit': 100000}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for parts in (['f2', 'f2'], ['f0', 'F9', 'f3'], ['F40', 'f1'], ['f1', 'f1', 'f1', 'f1'], ['f3', 'F0', 'f0'], ['b4', 'f1'], ['b3', 'b8'], ['B8', 'B4', 'f0'], ['w9', 'f1'], ['v9', 'w6']):
        for ch in ([None, 5] if quick else [None, 1, 5, 17]):
            out.append({'kind': 'mp', 'parts': parts, 'chunk': ch})
    for ct in ('application/x-www-form-urlencoded', 'text/plain', 'application/octet-stream', None):
        for n in ([0, 4] if quick else [0, 1, 2, 3, 4, 5]):
            out.append({'kind': 'body', 'ct': ct, 'n': n})
    for size in ([65536, 65537, 131073] if quick else [65535, 65536, 65537, 131071, 131072, 131073, 200000]):
        out.append({'kind': 'big', 'size': size})
    return out


def run(S, case):
    k = case['kind']
    if k == 'mp':
        limit = S.choice('limit', [None] + list(range(41)))
        parts = []
        total = 0
        for i, p in enumerate(case['parts']):
            n = int(p[1:])
            name = ['a', 'bb', 'a', ''][i]
            if p[0] == 'b':
                # whatever was sent as base64 counts as sent, decodable or not
                data = S.bytes('c%d' % i, 1, 'A*=') + 'A' * (n - 2) + '*'
            elif p[0] == 'w':
                # and so do the blanks around and between
                data = S.bytes('c%d' % i, 2, ' \t') + 'QUJD' + S.bytes('e%d' % i, n - 6, ' \r\n')
            elif p[0] == 'v':
                data = S.bytes('c%d' % i, 3, ' \tx') + 'v' * (n - 6) + S.bytes('e%d' % i, 3, ' \t\n')
            elif p[0] == 'B':
                data = 'QUJD' * (n // 4)
            else:
                data = S.bytes('c%d' % i, min(n, 3)) + 'z' * (n - 3)
            if p[0] in 'fvbwB':
                total += n + len(name) + 2
                parts.append((name, data))
        seq = []
        j = 0
        for i, p in enumerate(case['parts']):
            if p[0] in 'fvbwB':
                seq.append(hlib.part('f', parts[j][0], parts[j][1], tenc='base64' if p[0] in 'bwB' else None))
                j += 1
            else:
                seq.append(hlib.part('F', 'up', 'y' * int(p[1:])))
        h = hlib.Recorder(case['chunk'])
        r = S.call(hlib.multipart, hlib.body_of(seq, 'BoUnD'), 'BoUnD', [h], hlib.settings(DATA_UPLOAD_MAX_MEMORY_SIZE=limit))
        S.observe('r', r[0])
        if limit is not None and total > limit:
            S.require(r[0] == 'exc', 'more form data than the limit is refused')
            S.require(r[1] == 'RequestDataTooBig', 'the documented error of the limit')
            S.reach('mp-refused')
        else:
            S.require(r[0] == 'ok', 'form data within the limit is accepted')
            want = {}
            for n, d in parts:
                want.setdefault(n, []).append(d)
            got = dict(hlib.fields(r[1][0]))
            if case['parts'][0][0] in 'vbwB':
                S.equal(sorted([(n, len(got[n])) for n in got]), sorted([(n, len(want[n])) for n in want]), 'every field within the limit is reported')
                if case['parts'][0][0] == 'B':
                    S.equal(sorted(got.items()), sorted([(n, [d if i == 2 else 'ABC' * (len(d) // 4) for i, d in enumerate(want[n])]) for n in want]), 'base64 within the limit is decoded')
            else:
                S.equal(got, want, 'form data within the limit is unchanged')
            for f, p in zip(h.files, [p for p in case['parts'] if p[0] == 'F']):
                S.equal(f['data'], 'y' * int(p[1:]), 'files do not count')
            S.reach('mp-ok' if limit is not None else 'none')
        return
    if k == 'body':
        n = case['n']
        limit = S.choice('limit', [None] + list(range(7)))
        data = S.bytes('b', n) if case['ct'] != 'application/x-www-form-urlencoded' else S.bytes('b', n, 'ab=+')
    else:
        n = case['size']
        limit = S.choice('limit', [None, n - 1, n, n + 1, 65536, 65535])
        data = S.bytes('b', 1) + 'x' * (n - 2) + S.bytes('e', 1)
        S.reach('big')
    ct = case.get('ct')
    st = hlib.settings(DATA_UPLOAD_MAX_MEMORY_SIZE=limit)
    msg = 'POST /p HTTP/1.1\r\nHost: h\r\n' + ('Content-Type: ' + ct + '\r\n' if ct else '') + '\r\n' + data
    req = HttpRequest(hlib.BytesIO(msg), st)
    r = S.call(req.body)
    req2 = HttpRequest(hlib.BytesIO(msg), st)
    r2 = S.call(req2.parse)
    S.observe('r', [r[0], r2[0]])
    if limit is not None and n > limit:
        S.require(r == ('exc', 'RequestDataTooBig'), 'a body larger than the limit is refused')
        S.require(r2 == ('exc', 'RequestDataTooBig'), 'a body larger than the limit is refused when parsing')
        S.require(len(list(req2.POST.keys())) == 0, 'nothing of a refused body is reported')
        S.reach('body-refused')
    else:
        S.require(r[0] == 'ok', 'a body within the limit is accepted')
        S.equal(r[1], data, 'a body within the limit is unchanged')
        S.require(r2[0] == 'ok', 'a body within the limit is parsed')
        S.reach('body-ok')
        if limit is None:
            S.reach('none')
        if ct == 'application/x-www-form-urlencoded' and n > 0:
            S.reach('form')
