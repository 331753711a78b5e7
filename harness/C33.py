"""Entity tags parse and quote exactly."""
from request_parser.utils.http import parse_etags, quote_etag

BOUNDS = ('tag lists of up to 2 (thorough 3) arbitrary bytes, up to 5 (thorough 7) over the tag alphabet quote, W, slash, comma, space, star and a letter, lists of up to 3 valid, weak and invalid '
          'tags with one arbitrary byte each and white space in between; single tags likewise; tags of 20 (thorough 100) symbolic bytes, lists of 10 (40) tags')
REACH = ['star', 'strong', 'weak', 'invalid', 'quote', 'keep', 'empty', 'list', 'wide']
OPTS = {}
ALPHA = '"W/, *a'
WIDE = ''.join([chr(i) for i in range(33, 256) if i not in (34, 44, 127)])
SPACE = ' \t\n\r\x0b\x0c'
NOQUOTE = ''.join([chr(i) for i in range(256) if i != 34])


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in range(0, 3 if quick else 4):
        out.append({'kind': 'list', 'n': n})
        out.append({'kind': 'quote', 'n': n})
    for n in ([3, 4, 5] if quick else [4, 5, 6]):
        out.append({'kind': 'list', 'n': n, 'alpha': ALPHA})
        out.append({'kind': 'quote', 'n': n, 'alpha': ALPHA})
    for n, c in ([(20, 2), (3, 10)] if quick else [(5, 2), (9, 3), (20, 2), (40, 2), (100, 1), (3, 10), (2, 40)]):
        out.append({'kind': 'wide', 'n': n, 'count': c})
    for n in ([1, 2] if quick else [1, 2, 3]):
        out.append({'kind': 'tags', 'n': n})
    return out


def strip(S, s):
    while len(s) and S.isin(s[0], SPACE):
        s = s[1:]
    while len(s) and S.isin(s[-1], SPACE):
        s = s[:-1]
    return s


def valid(S, t):
    """an entity tag: quoted, without quotes inside, perhaps weak"""
    if len(t) > 1 and S.isin(t[0], 'W'):
        if S.neg(S.isin(t[1], '/')):
            return False
        t = t[2:]
    return len(t) >= 2 and bool(S.isin(t[0], '"')) and bool(S.isin(t[-1], '"')) and bool(S.allin(t[1:-1], NOQUOTE))


def reference(S, s):
    if strip(S, s) == '*':
        S.reach('star')
        return ['*']
    out, cur = [], ''
    parts = []
    for c in s:
        if S.isin(c, ','):
            parts.append(cur)
            cur = ''
        else:
            cur += c
    parts.append(cur)
    for p in parts:
        p = strip(S, p)
        if valid(S, p):
            out.append(p)
            S.reach('weak' if p[0] == 'W' else 'strong')
        else:
            S.reach('invalid')
    return out


def run(S, case):
    k = case['kind']
    if k == 'wide':
        s, want = '', []
        for i in range(case['count']):
            x = S.bytes('x%d' % i, case['n'], WIDE)
            t = ('W/' if i % 3 == 1 else '') + '"' + x + '"'
            want.append(t)
            s += (', ' if i else '') + t
            S.equal(S.call(quote_etag, t), ('ok', t), 'a valid tag is left as it is')
            S.equal(S.call(quote_etag, 'v' + x), ('ok', '"v' + x + '"'), 'anything else is put in quotes')
        r = S.call(parse_etags, s)
        S.equal(r, ('ok', want), 'exactly the valid tags, in order')
        S.reach('wide')
        return
    if k == 'tags':
        s, want = '', []
        for i in range(case['n']):
            form = S.choice('f%d' % i, ['strong', 'weak', 'bare', 'small', 'open'])
            x = S.bytes('x%d' % i, 1)
            S.assume(S.neg(S.isin(x, '",')))
            if form == 'strong':
                t = '"' + x + '"'
                want.append(t)
            elif form == 'weak':
                t = 'W/"' + x + '"'
                want.append(t)
            elif form == 'bare':
                t = 'a' + x
            elif form == 'small':
                t = 'w/"' + x + '"'
            else:
                t = '"' + x
            s += (S.choice('sep%d' % i, [', ', ',', ' ,\t', ',,']) if i else '') + t
        r = S.call(parse_etags, s)
        S.observe('r', r)
        S.equal(r, ('ok', want), 'exactly the valid tags, in order')
        S.reach('list')
        return
    s = S.bytes('s', case['n'], case.get('alpha'))
    if k == 'list':
        r = S.call(parse_etags, s)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a list of tags is always parsed')
        S.equal(r[1], reference(S, s), 'exactly the valid tags, in order')
        if not r[1]:
            S.reach('empty')
    else:
        r = S.call(quote_etag, s)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a tag can be quoted')
        if valid(S, s):
            S.equal(r[1], s, 'a valid tag is left as it is')
            S.reach('keep')
        else:
            S.equal(r[1], '"' + s + '"', 'anything else is put in quotes')
            S.reach('quote')
            if S.allin(s, NOQUOTE):
                S.require(valid(S, r[1]), 'a quoted tag is valid')
        S.equal(quote_etag(r[1]) if S.allin(s, NOQUOTE) else r[1], r[1], 'quoting twice is quoting once')
