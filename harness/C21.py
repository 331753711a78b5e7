"""Query strings and urlencoded bodies decode to their parameters."""
import hlib
from request_parser.http.request import HttpRequest, QueryDict
from request_parser.utils.http import limited_parse_qsl

BOUNDS = ('query strings and urlencoded bodies of up to 5 (thorough 6) symbolic bytes over a = & ; + % 4 e G; values of up to 3 percent-encoded arbitrary bytes in utf-8, iso-8859-1, '
          'ascii and cp1252; one and two raw bytes outside ASCII in bodies; keep_blank_values on and off; one query string parsed three times in charsets of its own; 1..3 parameters with repeated names; names and values of up to 17 (thorough 60) symbolic unescaped characters, up to 9 (40) parameters with symbolic values')
REACH = ['again', 'get', 'post', 'dict', 'blank', 'dropped', 'escape', 'charset', 'raw', 'repeat', 'badescape', 'fallback', 'wide']
OPTS = {}
ALPHA = 'a=&;+%4eG'
HEX = '0123456789ABCDEF'
HEXL = '0123456789abcdef'
PLAIN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$*,:@/?()'
BYTES = ''.join([chr(i) for i in range(256)])


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([1, 3, 4] if quick else [1, 2, 3, 4, 5]):
        out.append({'kind': 'qsl', 'n': n})
    for k in ('get', 'post', 'dict'):
        out.append({'kind': k, 'n': 3 if quick else 5})
    for cs in ['utf-8', 'iso-8859-1', 'ascii', 'cp1252']:
        for k in ('get', 'post', 'dict'):
            out.append({'kind': 'bytes', 'k': k, 'cs': cs, 'n': 1 if quick or k != 'dict' else 2})
    out.append({'kind': 'bytes', 'k': 'dict', 'cs': 'utf-8', 'n': 2 if quick else 3})
    for cs in ['utf-8', 'iso-8859-1', 'ascii']:
        out.append({'kind': 'raw', 'cs': cs, 'n': 1 if quick else 2})
    out.append({'kind': 'many', 'n': 3})
    out.append({'kind': 'again', 'n': 1 if quick else 3})
    for n, v, c in ([(9, 14, 2), (0, 4, 9)] if quick else [(4, 5, 3), (9, 14, 2), (20, 40, 2), (0, 4, 9), (0, 3, 40)]):
        for k in ('get', 'post', 'dict'):
            out.append({'kind': 'wide', 'k': k, 'n': n, 'v': v, 'count': c})
    return out


def hexval(S, c):
    """value of a hex digit, or None"""
    if '0' <= c <= '9':
        return ord(c) - 48
    if 'a' <= c <= 'f':
        return ord(c) - 87
    if 'A' <= c <= 'F':
        return ord(c) - 55
    return None


def unescape(S, s, cs):
    out = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '+':
            out += ' '
        elif c == '%' and i + 2 < len(s):
            h, l = hexval(S, s[i + 1]), hexval(S, s[i + 2])
            if h is None or l is None:
                out += '%'
                S.reach('badescape')
            else:
                out += BYTES[h * 16 + l]
                i += 2
                S.reach('escape')
        else:
            out += c
        i += 1
    return out.decode(cs, 'replace')


def reference(S, q, cs, blank=True):
    out = []
    for p in q.replace(';', '&').split('&'):
        if not p:
            continue
        i = p.find('=')
        n, v = (p, '') if i < 0 else (p[:i], p[i + 1:])
        if not v:
            if not blank:
                S.reach('dropped')
                continue
            S.reach('blank')
        out.append((unescape(S, n, cs), unescape(S, v, cs)))
    return out


def grouped(pairs):
    d = {}
    for n, v in pairs:
        d.setdefault(n, []).append(v)
    return d


def check(S, d, want):
    S.equal(dict([(k, d.getlist(k)) for k in d.keys()]), grouped(want), 'exactly the parameters sent, in order per name')


def parsed(S, k, q, cs, default):
    """the dictionary of query string or body q"""
    st = hlib.settings(DEFAULT_CHARSET=cs if default else 'koi8-r')
    if k == 'dict':
        r = S.call(QueryDict, st, q, False, None if default else cs)
        S.require(r[0] == 'ok', 'a query string is always parsed')
        S.reach('dict')
        return r[1]
    ct = 'application/x-www-form-urlencoded' if k == 'post' else 'text/plain'
    msg = ('POST /p' + ('?' + q if k == 'get' else '') + ' HTTP/1.1\r\nHost: h\r\nContent-Type: ' + ct + ('' if default else '; charset=' + cs) + '\r\n\r\n' +
           (q if k == 'post' else ''))
    req = HttpRequest(hlib.BytesIO(msg), st)
    r = S.call(req.parse)
    S.observe('r', r)
    S.require(r[0] == 'ok', 'a request with a query is parsed')
    S.reach(k)
    return req.GET if k == 'get' else req.POST


def run(S, case):
    k = case['kind']
    if k == 'qsl':
        q = S.bytes('q', case['n'], ALPHA)
        blank = S.bool('blank')
        r = S.call(limited_parse_qsl, q, blank, 'iso-8859-1')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a query string is always parsed')
        S.equal([tuple(x) for x in r[1]], reference(S, q, 'iso-8859-1', blank), 'exactly the parameters sent, in order')
        return
    if k in ('get', 'post', 'dict'):
        q = S.bytes('q', case['n'], ALPHA)
        d = parsed(S, k, q, 'iso-8859-1', S.bool('default'))
        check(S, d, reference(S, q, 'iso-8859-1'))
        return
    if k == 'bytes':
        sent, raw = '', ''
        for i in range(case['n']):
            hi, lo = S.int('h%d' % i, 0, 15), S.int('l%d' % i, 0, 15)
            sent += '%' + HEX[hi] + HEXL[lo]
            raw += BYTES[hi * 16 + lo]
        where = S.choice('where', ['value', 'name', 'mid'])
        cs = case['cs']
        if where == 'value':
            q, want = 'n=' + sent, [('n', raw.decode(cs, 'replace'))]
        elif where == 'name':
            q, want = sent + '=v', [(raw.decode(cs, 'replace'), 'v')]
        else:
            q, want = 'n=a' + sent + '+b', [('n', ('a' + raw + ' b').decode(cs, 'replace'))]
        d = parsed(S, case['k'], q, cs, S.bool('default'))
        check(S, d, want)
        S.reach('charset')
        return
    if k == 'again':
        # the same parameters in other charsets and with other settings, after the first result was changed
        hi, lo = S.choice('h', [12, 13, 14] if case['n'] > 1 else [12]), S.int('l', 0, 15)
        sent, raw = '%' + HEX[hi] + HEXL[lo], BYTES[hi * 16 + lo]
        q = S.choice('q', ['n' + sent + '=v' + sent, sent + '=%41', '%41=' + sent, 'n=' + sent + '&n=' + sent])
        for i in range(3):
            cs = first if i == 2 else S.choice('cs%d' % i, ['utf-8', 'iso-8859-1', 'koi8-r'])
            if i == 0:
                first = cs
            r = S.call(QueryDict, hlib.settings(), q, True, cs)
            S.require(r[0] == 'ok', 'a query string is always parsed')
            check(S, r[1], reference(S, q, cs))
            if i < 2:
                for name in list(r[1].keys()):
                    r[1].appendlist(name, 'more')
        S.reach('again')
        return
    if k == 'raw':
        cs = case['cs']
        v = S.bytes('v', case['n'])
        S.assume(v[0] > '\x7f')
        if case['n'] > 1:
            S.assume(S.either(v[1] > '\x7f', v[1] == 'a'))
        q = 'n=' + v + '&b=%41'
        try:
            text = v.decode(cs)
        except UnicodeDecodeError:
            text = v.decode('iso-8859-1')
            S.reach('fallback')
        d = parsed(S, S.choice('k', ['post', 'dict']), q, cs, S.bool('default'))
        check(S, d, [('n', text), ('b', 'A')])
        S.reach('raw')
        return
    if k == 'wide':
        q, want = '', []
        for i in range(case['count']):
            name = 'n%d' % (i // 2 * 2)
            if case['n']:
                if i % 2 == 0:
                    sym = S.bytes(name, case['n'], PLAIN) + 'n'
                name += sym
            v = S.bytes('v%d' % i, case['v'], PLAIN)
            q += (';' if i % 3 == 2 else '&' if i else '') + name + '=' + v + '%2b+' + '%C3%A9'
            want.append((name.decode('utf-8'), (v + '+ \xc3\xa9').decode('utf-8')))
        d = parsed(S, case['k'], q, 'utf-8', S.bool('default'))
        check(S, d, want)
        S.reach('wide')
        return
    names = [S.bytes('n%d' % i, 1, 'ab') for i in range(case['n'])]
    vals = [S.bytes('v%d' % i, 1, 'xyz') for i in range(case['n'])]
    sep = S.choice('sep', ['&', ';', '&&', '&;'])
    q = sep.join([n + '=' + v for n, v in zip(names, vals)])
    d = parsed(S, S.choice('k', ['get', 'post', 'dict']), q, 'utf-8', True)
    check(S, d, list(zip(names, vals)))
    S.reach('repeat')
