"""A URL declared safe for redirection stays on an allowed host."""
import hlib
from request_parser.utils.http import is_safe_url

BOUNDS = ('URLs of up to 3 arbitrary bytes or 2 characters below U+0100 or of the general punctuation block; 20 templates of absolute, scheme-relative and relative URLs with 1..2 (thorough 3) arbitrary bytes at the structural positions '
          '(before and inside scheme, colon, slashes, user info, host, after the host), given as bytes or text; allowed hosts none, one given as bytes or text (of which the host of the URL may be a part), several; https required or not; '
          'relative URLs, foreign hosts, user information and schemes of 80 (thorough 200) symbolic letters, digits, hyphens and dots; '
          'one URL asked about three times with different hosts and schemes; tabs and line breaks in the middle of a URL are not judged')
REACH = ['again', 'safe', 'unsafe', 'relative', 'absolute', 'https', 'text', 'plain', 'allowed', 'wide']
OPTS = {}
# '*': an arbitrary byte, '+': a byte of the URL alphabet
ALPHA = 'aeh:/\\@ ?#.\x01[]'
TEMPLATES = ['*//e', '/*e', '//*h', '//h*', '//h*e', '//+@h', '//h+e@e', 'http*//h', 'http:*/e', 'http:/*e', 'http:*e', 'http://h*', 'http://h+e', '*http://e', 'ht*p://e', 'https*//h', 'https://h*', '++e', '+++e',
             '/++e', '+//+', '//h:+', 'http:+++', '+http:+', 'x*//h', 'j*:h', '\\*e', '///*']
WIDE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.'
LOW = ''.join([chr(i) for i in range(33)])
# control and format characters, which some browsers drop as well, and the white space outside of ASCII
CONTROL = u''.join([unichr(i) for i in list(range(127, 161)) + list(range(0x2000, 0x200b)) + list(range(0x2028, 0x202a)) + [0x202f, 0x205f]]) + u'\xad\u200b\u200c\u200d\u200e\u200f\u202a\u202b\u202c\u202d\u202e\u2060\u2061\u2062\u2063\u2064'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def cases(tier):
    quick = tier == 'quick'
    out = [{'kind': 'empty'}]
    for t in TEMPLATES:
        out.append({'kind': 'template', 't': t})
    if not quick:
        for t in ('//++h++', 'http:+++h', '++//++', 'http://+++h', '++++e', 'https:/+++', '+++//e', '//+++@h'):
            out.append({'kind': 'template', 't': t})
        out.append({'kind': 'template', 't': '***'})
    out.append({'kind': 'template', 't': '**'})
    for t in ('*', '**' if not quick else '*e', '/*e', '//*h', '//h*', 'http://h*', '*//e', '*/e'):
        out.append({'kind': 'text', 't': t, 'text': 1})
    for t in ('*//e', '*/e', '/*e', '//h*', '//*h', '*http://e') + (() if quick else ('**//e',)):
        out.append({'kind': 'text', 't': t, 'text': 2})
    for n in ((12, 40) if quick else (5, 8, 12, 20, 40, 100)):
        out.append({'kind': 'wide', 'n': n})
    out.append({'kind': 'again', 'n': 2})
    for p in ('/', '', 'http://h/', 'https://h/', '//h/', '/?', '/#'):
        out.append({'kind': 'plain', 'p': p, 'n': 2 if quick else 4})
    return out


def slashes(S, s, i):
    while i < len(s) and S.isin(s[i], '/\\'):
        i += 1
    return i


def authority(S, s, i):
    i = slashes(S, s, i)
    e = i
    while e < len(s) and not S.isin(s[e], '/\\?#'):
        e += 1
    b = i
    for j in range(i, e):
        if S.isin(s[j], '@'):
            b = j + 1
    return s[b:e]


def browser(S, s):
    """(scheme or None, host or None) as a browser reads the URL"""
    low = LOW + CONTROL if isinstance(s, unicode) else LOW
    while len(s) and S.isin(s[0], low):
        s = s[1:]
    while len(s) and S.isin(s[-1], low):
        s = s[:-1]
    i = 0
    if len(s) and S.isin(s[0], LETTERS):
        i = 1
        while i < len(s) and S.isin(s[i], LETTERS + '0123456789+-.'):
            i += 1
        if i < len(s) and S.isin(s[i], ':'):
            scheme = s[:i].lower()
            if scheme == 'http' or scheme == 'https':
                return scheme, authority(S, s, i + 1)
            return 'other', None
    if len(s) > 1 and S.isin(s[0], '/\\') and S.isin(s[1], '/\\'):
        return None, authority(S, s, 0)
    return None, None


def build(S, t, text):
    url = u'' if text else ''
    for i, c in enumerate(t):
        if c == '*':
            x = S.text('x%d' % i, 1, 0x2000 if text == 2 else 0, 0x206f if text == 2 else 255) if text else S.bytes('x%d' % i, 1)
        elif c == '+':
            x = S.bytes('x%d' % i, 1, ALPHA)
        else:
            x = c
        if c in '*+' and 0 < i < len(t) - 1:
            S.assume(S.neg(S.isin(x, '\t\n\r')))
        url += x
    return url


def run(S, case):
    k = case['kind']
    hosts = S.choice('hosts', ['h', u'h', u'eh', ['h', 'g:1'], None]) if k != 'empty' else 'h'
    https = S.bool('https') if k != 'empty' else False
    allowed = {'h': ['h'], u'h': ['h'], u'eh': ['eh'], None: []}.get(hosts if not isinstance(hosts, list) else 0, ['h', 'g:1'])
    if k == 'empty':
        for u in ('', None, ' ', u'', u' '):
            S.equal(S.call(is_safe_url, u, ['h']), ('ok', False), 'an empty URL is not safe')
        return
    if k == 'wide':
        # other hosts and schemes of any length, and paths that look like nothing in particular
        a, b = S.bytes('a', case['n'], WIDE), S.bytes('b', case['n'], WIDE)
        form = S.choice('form', ['path', 'host', 'rel', 'prefix', 'suffix', 'user', 'pass', 'scheme', 'port', 'back'])
        url, ok = {'path': ('/x' + a + '/' + b, True), 'rel': ('x' + a + '?' + b, True), 'host': ('//x' + a + '/' + b, False), 'prefix': ('http://h.' + a + '/' + b, False),
                   'suffix': ('//x' + a + '.h/', False), 'user': ('http://h@x' + a + '/' + b, False), 'pass': ('//h:' + a + '@x' + b, False),
                   'scheme': ('x' + a + '://h/' + b, False), 'port': ('//h:9' + a + '/', False), 'back': ('/\\x' + a + '/' + b, False)}[form]
        S.require(S.call(is_safe_url, url, hosts, https) == ('ok', ok), 'a long URL is safe exactly if it is relative')
        S.reach('wide')
        return
    if k == 'plain':
        rest = S.bytes('rest', case['n'], 'aZ09-._~/%')
        if not case['p'] or case['p'] == '/':
            S.assume(S.neg(S.isin(rest[0], '/')))
        url = case['p'] + rest
        if S.bool('text'):
            url = url.decode('ascii')
            S.reach('text')
        r = S.call(is_safe_url, url, hosts, https)
        S.observe('r', r)
        if case['p'].startswith('http') or case['p'] == '//h/':
            ok = 'h' in allowed and (case['p'].startswith('https') or not https)
        else:
            ok = True
        S.require(r == ('ok', ok), 'a plain URL is safe exactly if relative or on an allowed host')
        S.reach('plain')
        return
    if k == 'again':
        # every call goes by its own arguments, whatever was asked before
        h = S.bytes('h', case['n'], 'he')
        rel = S.choice('rel', ['http://', 'https://', '//'])
        for i in range(3):
            hosts = S.choice('hosts%d' % i, [None, ['hh'], ['he', 'ee']])
            https = S.bool('https%d' % i)
            r = S.call(is_safe_url, rel + h + '/x', hosts, https)
            S.require(r == ('ok', hosts is not None and h in hosts and (rel == 'https://' or not https)), 'a plain URL is safe exactly if on an allowed host')
        S.reach('again')
        return
    url = build(S, case['t'], case.get('text', 0))
    r = S.call(is_safe_url, url, hosts, https)
    S.observe('r', r)
    S.require(r[0] == 'ok', 'no input makes the check fail')
    if not r[1]:
        S.reach('unsafe')
        return
    S.reach('safe')
    scheme, host = browser(S, url)
    S.require(scheme != 'other', 'a safe URL uses http or https')
    if host is None:
        S.reach('relative')
        return
    S.reach('absolute')
    if len(host) == 0:
        # browsers refuse a URL with an empty authority
        return
    S.require(host in allowed, 'a safe URL stays on an allowed host')
    S.reach('allowed')
    if https:
        S.require(scheme == 'https', 'https is used if required')
        S.reach('https')
