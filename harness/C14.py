"""Content-Type and Content-Length of a multipart request."""
import hlib
from request_parser.http.multipartparser import MultiPartParser

BOUNDS = ('content types "multipart/..." with 0..4 arbitrary bytes (no line feed) in the media type, the parameter name, the boundary (quoted or not) and behind it; boundaries of 199..203 '
          'characters; other content types and 0..4 arbitrary bytes instead of one; Content-Length of 0..3 characters over digits, signs, blanks, letters, separators, NUL, missing or a number')
REACH = ['ok', 'bad-boundary', 'bad-type', 'no-boundary', 'negative', 'zero', 'unparsable', 'missing', 'long-ok', 'long-bad']
OPTS = {}
PRINT = ''.join([chr(i) for i in range(32, 127)])
ASCII = ''.join([chr(i) for i in range(128)])
DIG = '017 -+aL\t\x00.\xa0,_;x'


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([1, 2] if quick else [0, 1, 2, 3]):
        for q in (0, 1):
            out.append({'kind': 'boundary', 'n': n, 'q': q})
    for n in ([2] if quick else [0, 1, 2, 3]):
        out.append({'kind': 'after', 'n': n})
        out.append({'kind': 'name', 'n': n})
        out.append({'kind': 'type', 'n': n})
    out.append({'kind': 'other'})
    for n in ([0, 2] if quick else [0, 1, 2, 3, 4]):
        out.append({'kind': 'any', 'n': n})
    out.append({'kind': 'longb'})
    for n in ([1, 2, 3] if quick else [0, 1, 2, 3, 4]):
        out.append({'kind': 'length', 'n': n})
    out.append({'kind': 'length-missing'})
    return out


def start(S, ctype, length='5'):
    """('ok', None) / ('exc', class) / result of parse for a one-field body"""
    meta = {}
    if ctype is not None:
        meta['Content-Type'] = ctype
    if length is not None:
        meta['Content-Length'] = length
    h = hlib.Recorder()
    r = S.call(MultiPartParser, meta, hlib.BytesIO('--B\r\nContent-Disposition: form-data; name="a"\r\n\r\nv\r\n--B--\r\n'), [h], hlib.settings(), 'utf-8')
    if r[0] == 'exc':
        S.require(r[1] == 'MultiPartParserError', 'a refused multipart request is the documented error')
        return None
    return r[1]



def valid(S, b):
    """the boundary syntax of RFC 2046: 1..201 characters, printable ASCII, the last one no space"""
    return S.both(len(b) > 0 and len(b) <= 201, S.both(S.allin(b, PRINT), S.neg(b.endswith(' '))))


def run(S, case):
    k = case['kind']
    if k == 'boundary':
        x = S.bytes('x', case['n'])
        S.assume('\n' not in x)
        if case['q']:
            S.assume('"' not in x and '\\' not in x)
            p = start(S, 'multipart/form-data; boundary="B' + x + '"; c=d')
            b = 'B' + x
        else:
            S.assume(';' not in x and '"' not in x)
            p = start(S, 'multipart/form-data; c=d; boundary=B' + x)
            b = ('B' + x).strip()
        ok = valid(S, b)
        S.require(S.same(p is not None, ok), 'exactly the valid boundaries are accepted')
        S.reach('ok' if p is not None else 'bad-boundary')
        if p is not None and b == 'B':
            r = p.parse()
            S.require(r[0].getlist('a')[0]['data'] == 'v', 'parsing works with it')
    elif k == 'longb':
        n = S.choice('n', [1, 2, 69, 70, 71, 199, 200, 201, 202, 203, 300])
        x = S.bytes('x', 1)
        S.assume(x not in '\n";\\')
        b = ('b' * (n - 1) + x).strip()
        p = start(S, 'multipart/mixed; boundary=' + 'b' * (n - 1) + x)
        S.require(S.same(p is not None, valid(S, b)), 'exactly the boundaries of 1 to 201 characters are accepted')
        S.reach('long-ok' if p is not None else 'long-bad')
    elif k == 'after':
        x = S.bytes('x', case['n'])
        S.assume('\n' not in x)
        p = start(S, 'multipart/form-data; boundary=B;' + x)
        if S.allin(x, ASCII):
            S.require(p is not None, 'further parameters do not matter')
        S.reach('ok')
    elif k == 'name':
        x = S.bytes('x', case['n'], 'bB*= ;\xff\x00')
        p = start(S, 'multipart/form-data; ' + x + 'oundary=B')
        if x.lstrip(' ;') == 'b' or x.lstrip(' ;') == 'B':
            S.require(p is not None, 'the boundary parameter is found in any case')
        if case['n'] == 0:
            S.require(p is None, 'no boundary, no parsing')
            S.reach('no-boundary')
        if S.allin(x, 'bB') and len(x) > 1:
            S.require(p is None, 'another parameter is no boundary')
            S.reach('no-boundary')
    elif k == 'type':
        x = S.bytes('x', case['n'])
        S.assume(';' not in x and '\n' not in x and '"' not in x)
        p = start(S, 'multipart/' + x + '; boundary=B')
        S.require(S.same(p is not None, S.allin(x, ASCII)), 'any multipart subtype, if ASCII')
        q = start(S, 'multipar' + x + '; boundary=B')
        if q is not None:
            S.require(x.startswith('t/'), 'only multipart content')
        else:
            S.reach('bad-type')
    elif k == 'other':
        c = S.choice('c', [None, '', 'text/plain; boundary=B', 'application/x-www-form-urlencoded', 'multipart', ' multipart/form-data; boundary=B', 'x-multipart/form-data; boundary=B',
                           'multipart\\form-data; boundary=B', 'multipart/form-data', 'multipart/form-data;', 'multipart/form-data; boundary', 'multipart/form-data; boundary=',
                           'multipart/form-data; boundary=""', 'multipart/form-data, boundary=B', 'multipart/form-data; boundary=\xc3\xa9', u'multipart/form-data; boundary=\xe9'])
        S.require(start(S, c) is None, 'not a multipart content type with a boundary')
        S.reach('bad-type')
        for c in ('multipart/form-data; boundary=B', u'multipart/form-data; boundary=B', 'multipart/form-data;boundary="B"', "multipart/form-data; boundary*=utf-8''B"):
            p = start(S, c)
            S.require(p is not None, 'a multipart content type with a boundary')
            S.require(p.parse()[0].getlist('a')[0]['data'] == 'v', 'parsing works with it')
    elif k == 'any':
        x = S.bytes('x', case['n'])
        S.require(start(S, x) is None, 'not a multipart content type')
    elif k == 'length-missing':
        for v in (None, 0, '0', '', '00', '-0', u'0'):
            p = start(S, 'multipart/form-data; boundary=B', v)
            r = p.parse()
            S.require(len(r[0]) == 0 and len(r[1]) == 0, 'no length, an empty form')
        for v in (5, '5', 10 ** 20, u'5', ' 5 '):
            p = start(S, 'multipart/form-data; boundary=B', v)
            S.require(len(p.parse()[0]) == 1, 'with a length the body is parsed')
        for v in (-1, '-1', '-99999999999999999999'):
            S.require(start(S, 'multipart/form-data; boundary=B', v) is None, 'a negative length is refused')
        S.reach('missing')
    else:
        x = S.bytes('x', case['n'], DIG)
        p = start(S, 'multipart/form-data; boundary=B', x)
        t = x.strip()
        neg = t.startswith('-')
        if neg or t.startswith('+'):
            t = t[1:].strip()
            S.assume(not t.startswith('-') and not t.startswith('+'))  # int('+-1') is -1 on Jython
        num = len(t) > 0 and t.isdigit()
        some = num and t.strip('0') != ''
        S.observe('p', p is None)
        if num and neg and some:
            S.require(p is None, 'a negative length is refused')
            S.reach('negative')
        else:
            S.require(p is not None, 'a length that is no negative number is accepted')
            r = p.parse()
            if some:
                S.require(len(r[0]) == 1, 'with a length the body is parsed')
            else:
                S.require(len(r[0]) == 0 and len(r[1]) == 0, 'a zero or unparsable length means an empty form')
                S.reach('zero' if num else 'unparsable')
