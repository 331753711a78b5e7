"""Domain matching never crosses a label boundary."""
from request_parser.utils.http import is_same_domain

BOUNDS = ('hosts of up to 3 (thorough 4) arbitrary bytes and patterns of up to 2 (thorough 3), hosts and patterns of up to 5 and 4 (thorough 7 and 5) characters over letters of both cases, dot and digits; bytes and text; 11 fixed relations between hosts and patterns of up to 50 (thorough 160) symbolic characters')
REACH = ['equal', 'subdomain', 'parent', 'differs', 'empty', 'case', 'boundary', 'text', 'wide']
OPTS = {}
WIDE = 'abcdefghijklmnopqrstuvwxyz0123456789-_'
SMALL = ''.join([chr(i) for i in range(256) if not 65 <= i <= 90])


def cases(tier):
    quick = tier == 'quick'
    out = []
    for h in range(0, 4 if quick else 5):
        for p in range(0, 3 if quick else 4):
            out.append({'h': h, 'p': p})
    for h in range(2, 6 if quick else 8):
        for p in range(3, 5 if quick else 6):
            out.append({'h': h, 'p': p, 'alpha': 'abB.', 'halpha': 'ab.'})
    for n, m in ([(12, 9), (30, 20)] if quick else [(5, 4), (8, 7), (12, 9), (18, 12), (30, 20), (100, 60)]):
        out.append({'h': n, 'p': m, 'wide': True})
    out.append({'h': 2, 'p': 0, 'none': True})
    return out


def run(S, case):
    if case.get('wide'):
        a, b, c = S.bytes('a', case['p'], WIDE), S.bytes('b', case['h'] - case['p'], WIDE), S.bytes('c', case['p'], WIDE)
        d = a + '.' + b
        for host, pattern, want in ((d, d, True), (d, '.' + d, True), (c + '.' + d, '.' + d, True), (c + '.' + d, d, False), ('x' + c + d, '.' + d, False), (d, c + '.' + d, False),
                                    (d, '.' + c + '.' + d, False), (d + c, '.' + d, False), (d, d.upper(), True), ('.' + d, '.' + d.upper(), True), (c + '..' + d, '.' + d, True)):
            S.require(bool(is_same_domain(host, pattern)) == want, 'a long host matches the pattern itself, its domain or a subdomain of it, and nothing else')
        S.reach('wide')
        return
    host = S.bytes('host', case['h'], case.get('halpha'))
    pattern = S.bytes('pattern', case['p'], case.get('alpha'))
    if case.get('none'):
        S.require(S.call(is_same_domain, host, None) == ('ok', False), 'no pattern matches nothing')
        return
    if case['p'] < 3 and S.bool('text'):
        S.assume(S.allin(host + pattern, ''.join([chr(i) for i in range(128)])))
        r = S.call(is_same_domain, host.decode('ascii'), pattern.decode('ascii'))
        S.reach('text')
    else:
        r = S.call(is_same_domain, host, pattern)
    S.require(r[0] == 'ok', 'the check never fails')
    r = bool(r[1])
    S.observe('r', r)
    if not len(pattern):
        S.require(not r, 'an empty pattern matches nothing')
        S.reach('empty')
        return
    p = pattern.lower()
    if S.neg(S.same(p, pattern)):
        S.reach('case')
    if S.isin(p[0], '.'):
        d = p[1:]
        if len(host) == len(p) and S.same(host, p):
            want = True                          # the pattern itself
        elif len(host) == len(d) and S.same(host, d):
            want = True
            S.reach('parent')
        elif len(host) > len(d) and S.same(host[len(host) - len(d):], d):
            want = bool(S.isin(host[len(host) - len(d) - 1], '.'))
            S.reach('subdomain' if want else 'boundary')
        else:
            want = False
    else:
        want = len(host) == len(p) and bool(S.same(host, p))
        if want:
            S.reach('equal')
    if not want:
        S.reach('differs')
    S.require(r == want, 'a host matches the pattern itself, its domain or a subdomain of it, and nothing else')
