"""The limit on the number of form and query parameters is exact."""
import hlib
from request_parser.http.request import HttpRequest, QueryDict
from request_parser.utils.http import limited_parse_qsl

BOUNDS = ('multipart bodies of 0..5 fields and files in any order (symbolic choice) with limits 0..5 or none; query strings and urlencoded bodies of up to 6 (thorough 8) '
          'bytes over a b = & ; with limits 1..6 or none, also three times in a row with other limits; long ones of 4097 parameters against the default limit of 4096')
REACH = ['again', 'mp-ok', 'mp-refused', 'mp-none', 'qs-ok', 'qs-refused', 'qs-none', 'get', 'post', 'default']
OPTS = {'loop_limit': 200000}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in range(0, 5 if quick else 6):
        out.append({'kind': 'mp', 'n': n})
    for n in ([0, 3, 5] if quick else [0, 1, 2, 3, 4, 5, 6, 7]):
        out.append({'kind': 'qsl', 'n': n})
    for n in ([3] if quick else [3, 4, 5]):
        out.append({'kind': 'get', 'n': n})
        out.append({'kind': 'post', 'n': n})
    out.append({'kind': 'again', 'n': 3 if quick else 5})
    for k in (4096, 4097):
        out.append({'kind': 'default', 'k': k})
    out.append({'kind': 'mpdefault', 'k': 60})
    return out


LIMITS = [None, 1, 2, 3, 4, 5, 6]


def pairs_of(S, q):
    """(all segments, the non-empty ones as (name, value))"""
    segs = q.replace(';', '&').split('&')
    out = []
    for s in segs:
        if len(s) > 0:
            i = s.find('=')
            out.append((s[:i], s[i + 1:]) if i >= 0 else (s, ''))
    return segs, out


def check(S, r, q, limit, get):
    segs, pairs = pairs_of(S, q)
    if limit is not None and len(pairs) > limit:
        S.require(r[0] == 'exc', 'more parameters than the limit are refused')
        S.reach('qs-refused')
    if limit is None or len(segs) <= limit:
        S.require(r[0] == 'ok', 'no more parameters than the limit are accepted')
        S.reach('qs-ok' if limit is not None else 'qs-none')
    if r[0] == 'exc':
        S.require(r[1] == 'TooManyFieldsSent', 'the documented error of the limit')
        return False
    want = {}
    for n, v in pairs:
        want.setdefault(n, []).append(v)
    S.equal(get(), want, 'all parameters within the limit are reported')
    return True


def lists(d):
    return dict([(k, d.getlist(k)) for k in list(d.keys())])


def run(S, case):
    k = case['kind']
    if k == 'mp':
        limit = S.choice('limit', [None, 0, 1, 2, 3, 4, 5])
        parts = []
        nf = 0
        same = S.bool('same')
        first = S.choice('first', ['n0', ''])
        for i in range(case['n']):
            if S.choice('p%d' % i, ['f', 'F']) == 'f':
                nf += 1
                parts.append(hlib.part('f', first if same or i == 2 else 'n%d' % i, S.bytes('c%d' % i, 1)))
            else:
                parts.append(hlib.part('F', 'n', S.bytes('c%d' % i, 1)))
        h = hlib.Recorder()
        r = S.call(hlib.multipart, hlib.body_of(parts, 'BoUnD'), 'BoUnD', [h], hlib.settings(DATA_UPLOAD_MAX_NUMBER_FIELDS=limit))
        S.observe('r', r[0])
        if limit is not None and nf > limit:
            S.require(r[0] == 'exc', 'more fields than the limit are refused')
            S.require(r[1] == 'TooManyFieldsSent', 'the documented error of the limit')
            S.reach('mp-refused')
        else:
            S.require(r[0] == 'ok', 'no more fields than the limit are accepted')
            S.require(sum([len(v) for x, v in hlib.fields(r[1][0])]) == nf, 'all fields within the limit are reported')
            S.require(len(h.files) == case['n'] - nf, 'files do not count')
            S.reach('mp-ok' if limit is not None else 'mp-none')
    elif k == 'mpdefault':
        parts = [hlib.part('f', 'n', '1')] * case['k']
        limit = S.choice('limit', [case['k'] - 1, case['k']])
        r = S.call(hlib.multipart, hlib.body_of(parts, 'BoUnD'), 'BoUnD', [hlib.Recorder()], hlib.settings(DATA_UPLOAD_MAX_NUMBER_FIELDS=limit))
        S.require((r[0] == 'ok') == (limit == case['k']), 'the limit is exact for many fields')
    elif k == 'qsl':
        q = S.bytes('q', case['n'], 'ab=&;')
        limit = S.choice('limit', LIMITS)
        r = S.call(limited_parse_qsl, q, True, 'utf-8', 'replace', limit)
        S.observe('r', r)

        def get():
            d = {}
            for n, v in r[1]:
                d.setdefault(n, []).append(v)
            return d
        check(S, r, q, limit, get)
        r2 = S.call(QueryDict, hlib.settings(DATA_UPLOAD_MAX_NUMBER_FIELDS=limit), q)
        check(S, r2, q, limit, lambda: lists(r2[1]))
    elif k == 'again':
        # every call goes by its own limit
        q = S.bytes('q', case['n'], 'ab=&;')
        for i in range(3):
            limit = S.choice('limit%d' % i, [None, 1, 2])
            r = S.call(QueryDict, hlib.settings(DATA_UPLOAD_MAX_NUMBER_FIELDS=limit), q, True)
            if check(S, r, q, limit, lambda: lists(r[1])):
                r[1].appendlist('a', 'more')
        S.reach('again')
    elif k in ('get', 'post'):
        q = S.bytes('q', case['n'], 'ab=&;')
        limit = S.choice('limit', LIMITS[:4])
        st = hlib.settings(DATA_UPLOAD_MAX_NUMBER_FIELDS=limit)
        if k == 'get':
            msg = 'GET /p?' + q + ' HTTP/1.1\r\nHost: h\r\n\r\n'
        else:
            msg = 'POST /p HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n' % len(q) + q
        req = HttpRequest(hlib.BytesIO(msg), st)
        r = S.call(req.parse)
        check(S, r, q, limit, lambda: lists(req.GET if k == 'get' else req.POST))
        S.reach(k)
    else:
        c = S.bytes('c', 1, 'ab')
        q = '&'.join([c + '=1'] * case['k'])
        r = S.call(QueryDict, hlib.settings(), q)
        S.require((r[0] == 'ok') == (case['k'] <= 4096), 'the default limit is 4096')
        if r[0] == 'exc':
            S.require(r[1] == 'TooManyFieldsSent', 'the documented error of the limit')
        S.reach('default')
