"""Every header line is reported under its name with its trimmed value; the reported headers cannot be changed."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('1..3 header lines with names of 0..2 and values of 0..3 arbitrary symbolic bytes (no line end, no colon in names), the same or different names; header lines of up to 4 symbolic '
          'bytes over colon, space, tab and letters without a colon; Host, Content-Type and Content-Length in every letter case; every mutator of the dictionary reported; a name of up to 19 (thorough 32) and a value of up to 32 (102) symbolic characters, 8 (40) different headers at once, '
          '20 well-known header names sent twice, one name sent 12 (130) times')
REACH = ['often', 'one', 'repeat', 'different', 'trimmed', 'own-names', 'refused', 'mutators', 'none', 'colon', 'lookup', 'wide', 'known']
OPTS = {}

TOKEN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&*+-.^_`|~' + "'"
KNOWN = ['Cookie', 'Set-Cookie', 'X-Forwarded-Host', 'X-Forwarded-Proto', 'Accept', 'Authorization', 'Expect', 'Connection', 'Transfer-Encoding',
         'Content-Encoding', 'User-Agent', 'Referer', 'Date', 'X-Requested-With', 'Upgrade', 'TE', 'Range', 'Forwarded', 'Content-Disposition', 'Content-Transfer-Encoding']
ANY = ''.join(chr(c) for c in range(256) if c not in (10, 13))
NAME = ''.join(chr(c) for c in range(256) if c not in (10, 13, 58))


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n, v in ([(1, 2), (2, 1), (0, 1), (1, 0)] if quick else [(1, 2), (1, 3), (2, 2), (0, 1), (1, 0), (3, 1)]):
        out.append({'kind': 'lines', 'names': [n], 'vals': [v]})
    out.append({'kind': 'lines', 'names': [1, 1], 'vals': [1, 1]})
    out.append({'kind': 'lines', 'names': [1, 2, 1], 'vals': [1, 0, 1] if quick else [1, 1, 2]})
    for n, v, c in ([(5, 9, 1), (17, 30, 1), (4, 6, 8)] if quick else [(4, 8, 1), (5, 9, 1), (9, 16, 2), (17, 30, 1), (30, 100, 1), (4, 6, 8), (3, 5, 40)]):
        out.append({'kind': 'wide', 'n': n, 'v': v, 'count': c})
    out.append({'kind': 'known'})
    for c in ([12] if quick else [7, 9, 12, 40, 130]):
        out.append({'kind': 'often', 'count': c})
    out.append({'kind': 'crlf', 'n': 3 if quick else 4})
    out.append({'kind': 'nocolon', 'n': 2 if quick else 4})
    out.append({'kind': 'own', 'name': 'Content-Type'})
    out.append({'kind': 'own', 'name': 'Content-Length'})
    out.append({'kind': 'own', 'name': 'Host'})
    out.append({'kind': 'mutate'})
    out.append({'kind': 'empty'})
    return out


def headers(S, lines, target='/p', host='Host: h'):
    msg = 'GET ' + target + ' HTTP/1.1\r\n' + (host + '\r\n' if host else '')
    for l in lines:
        msg += l + '\r\n'
    req = HttpRequest(hlib.BytesIO(msg + '\r\n'), hlib.settings())
    r = S.call(req.parse)
    return r, req


SPACE = ' \t\x0b\x0c\r\n'


def trim(S, v):
    a, b = 0, len(v)
    while a < b and v[a] in SPACE:
        a += 1
    while b > a and v[b - 1] in SPACE:
        b -= 1
    return v[a:b]


def run(S, case):
    k = case['kind']
    if k == 'empty':
        req = HttpRequest(hlib.BytesIO('GET http://h/ HTTP/1.1\r\n\r\n'), hlib.settings())
        S.require(S.call(req.parse) == ('exc', 'InvalidHttpRequest'), 'a request without headers is refused')
        r, req = headers(S, ['A: b'], host='')
        S.require(r == ('exc', 'NoHostFoundException'), 'a request without a host is refused')
        S.reach('none')
        return
    if k == 'nocolon':
        line = S.bytes('l', case['n'], ' \ta\x00=')
        r, req = headers(S, ['A: b', line] if S.bool('last') else [line, 'A: b'])
        S.require(r == ('exc', 'InvalidHttpRequest'), 'a header line without a colon is refused')
        S.reach('refused')
        return
    if k == 'own':
        n = case['name']
        name = ''
        for i, c in enumerate(n):
            name += S.choice('c%d' % i, [c.lower(), c.upper()]) if i < 5 else c
        value = {'Content-Type': 'text/plain', 'Content-Length': '7', 'Host': 'ex:82'}[n]
        if n == 'Host':
            r, req = headers(S, [name + ': ' + value, 'A: b'], host='')
            S.require(r[0] == 'ok', 'the Host header is found in any case')
            S.equal(req.get_host(), 'ex', 'the Host header is found in any case')
        else:
            r, req = headers(S, [name + ': ' + value])
            S.require(r[0] == 'ok', 'the header is accepted')
            S.equal(req.META['REQUEST_HEADERS'].getlist(n), [value], 'the header is reported in any case')
            if n == 'Content-Type':
                S.equal(req.content_type, 'text/plain', 'the content type is found in any case')
        S.reach('own-names')
        return
    if k == 'mutate':
        v = S.bytes('v', 1, ANY)
        r, req = headers(S, ['A: b', 'A: c', 'B: ' + v])
        S.require(r[0] == 'ok', 'the headers are accepted')
        h = req.META['REQUEST_HEADERS']
        before = hlib.plain(h)
        key = S.choice('key', ['A', 'Z'])
        op = S.choice('op', ['set', 'del', 'setlist', 'append', 'setdefault', 'setlistdefault', 'update', 'updatekw', 'pop', 'popd', 'popitem', 'clear'])
        if op == 'set':
            r = S.call(h.__setitem__, key, 'x')
        elif op == 'del':
            r = S.call(h.__delitem__, key)
        elif op == 'setlist':
            r = S.call(h.setlist, key, ['x'])
        elif op == 'append':
            r = S.call(h.appendlist, key, 'x')
        elif op == 'setdefault':
            r = S.call(h.setdefault, key, 'x')
        elif op == 'setlistdefault':
            r = S.call(h.setlistdefault, key, ['x'])
        elif op == 'update':
            r = S.call(h.update, {key: 'x'})
        elif op == 'updatekw':
            r = S.call(h.update, A='x')
        elif op == 'pop':
            r = S.call(h.pop, key)
        elif op == 'popd':
            r = S.call(h.pop, key, None)
        elif op == 'popitem':
            r = S.call(h.popitem)
        else:
            r = S.call(h.clear)
        S.observe('r', r)
        S.require(r == ('exc', 'AttributeError'), 'changing the headers is refused')
        S.equal(hlib.plain(h), before, 'the headers stay as they were')
        h.getlist('A').append('x')
        S.equal(hlib.plain(h), before, 'the lists handed out are copies')
        S.reach('mutators')
        return
    if k == 'known':
        # names the library might know about are reported like any other
        name = S.choice('name', KNOWN)
        v, w = 'x' + S.bytes('v', 3, TOKEN), 'y' + S.bytes('w', 3, TOKEN)
        lines, want = [name + ': ' + v, 'Q: r', name + ':' + w], {name: [v, w], 'Q': ['r']}
        S.reach('known')
    elif k == 'often':
        # one name many times, with equal and other values
        v, w = S.bytes('v', 2, TOKEN), S.bytes('w', 2, TOKEN)
        lines, want = [], {'Q': []}
        for i in range(case['count']):
            lines.append(('Q: ' if i % 3 else 'Q:') + (v if i % 5 else w))
            want['Q'].append(v if i % 5 else w)
            if i % 4 == 0:
                lines.append('R%d: ' % i + v)
                want['R%d' % i] = [v]
        S.reach('often')
    elif k == 'wide':
        lines, want = [], {}
        for i in range(case['count']):
            name = 'N%d' % i + S.bytes('n%d' % i, case['n'], TOKEN)
            v = S.bytes('v%d' % i, case['v'], TOKEN + ' :;,="/()<>@?[]{}\x80\xff')
            lines.append(name + ': ' + 'v' + v + 'v ')
            want[name] = ['v' + v + 'v']
        S.reach('wide')
    elif k == 'crlf':
        # a lone CR or LF inside a value does not end a line
        v = S.bytes('v', case['n'], '\r\na')
        S.assume(S.both(S.neg('\r\n' in v), v[-1] != '\r'))
        lines, want = ['A:' + v, 'B: c'], {'A': [trim(S, v)], 'B': ['c']}
    else:
        lines, want = [], {}
        order = []
        for i, (n, m) in enumerate(zip(case['names'], case['vals'])):
            name = S.bytes('n%d' % i, n, NAME)
            S.assume(S.allin(name, NAME))
            v = S.bytes('v%d' % i, m, ANY)
            lines.append(name + ':' + v)
            if name in want:
                want[name].append(trim(S, v))
                S.reach('repeat')
            else:
                want[name] = [trim(S, v)]
                if i:
                    S.reach('different')
            if m and len(want[name][-1]) < m:
                S.reach('trimmed')
            if m and ':' in v:
                S.reach('colon')
    r, req = headers(S, lines)
    S.observe('r', r)
    S.require(r[0] == 'ok', 'a well-formed header is accepted')
    h = req.META['REQUEST_HEADERS']
    S.require(len(list(h.keys())) == len(want), 'exactly the names sent are reported')
    for n in want:
        S.equal(h.getlist(n), want[n], 'every value of a header is reported, in order, trimmed')
        S.equal(h[n], want[n][-1], 'looking a header up gives its last value')
        S.require(n in h, 'the name of a header is in the dictionary')
    S.reach('lookup')
    S.reach('one')
