"""Content type and charset come from the Content-Type header."""
import hlib
from request_parser.http.request import HttpRequest

BOUNDS = ('media types of up to 4 symbolic bytes over letters, digits and the token signs; the word charset in every letter case; 10 usable and 12 unusable charset names, bare or quoted, '
          'before, between or after other parameters, given twice, in a request with a query and an urlencoded body of one percent-encoded symbolic byte each; '
          'unusable charsets of up to 3 symbolic letters; media types of up to 37 (thorough 91) symbolic characters, with the charset between 2 (6) other long symbolic parameters')
REACH = ['type', 'charset', 'quoted', 'refused', 'default', 'none', 'form', 'odd', 'twice', 'wide', 'near']
OPTS = {}
TYPE = 'abzABZ019+-._!#$&^'
WIDE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-._!#$&^'
GOOD = ['utf-8', 'UTF-8', 'utf8', 'iso-8859-1', 'ISO-8859-1', 'latin-1', 'ascii', 'US-ASCII', 'cp1252', 'koi8-r']
BAD = ['nope', 'utf-9', 'hex', 'zlib', 'base64', 'bz2', 'uu', 'quopri', 'undefined', 'utf-8x', '8', '*']


def cases(tier):
    quick = tier == 'quick'
    out = [{'kind': 'type', 'a': 1, 'b': 1}, {'kind': 'type', 'a': 3, 'b': 2 if quick else 4}, {'kind': 'none'}, {'kind': 'word'}, {'kind': 'near'}]
    for a, b in ([(11, 25)] if quick else [(5, 4), (4, 10), (11, 25), (30, 60)]):
        out.append({'kind': 'type', 'a': a, 'b': b, 'wide': 1})
    for n in ([(6, 9, 2)] if quick else [(6, 9, 2), (3, 30, 6), (12, 12, 3)]):
        out.append({'kind': 'wide', 'n': n})
    for cs in GOOD:
        out.append({'kind': 'good', 'cs': cs})
    for cs in BAD:
        out.append({'kind': 'bad', 'cs': cs})
    out.append({'kind': 'badsym', 'n': 2 if quick else 3})
    out.append({'kind': 'empty'})
    out.append({'kind': 'twice'})
    return out


def request(ct, query='q=%E9', body='p=%E9', st=None):
    msg = 'POST /p?' + query + ' HTTP/1.1\r\nHost: h\r\n' + ('Content-Type: ' + ct + '\r\n' if ct is not None else '') + '\r\n' + body
    return HttpRequest(hlib.BytesIO(msg), st or hlib.settings())


HEX = '0123456789ABCDEF'
BYTES = ''.join([chr(i) for i in range(256)])


def run(S, case):
    k = case['kind']
    if k == 'type':
        t = S.bytes('a', case['a'], WIDE if case.get('wide') else TYPE) + '/' + S.bytes('b', case['b'], WIDE if case.get('wide') else TYPE)
        after = S.choice('after', ['', ';', '; a=b', ' ; charset=utf-8', ';charset=utf-8;'])
        req = request(t + after)
        r = S.call(req.parse)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'the request is parsed')
        S.equal(req.content_type, t.lower(), 'the content type is the lower-cased media type')
        S.equal(req.encoding, 'utf-8' if 'utf-8' in after else 'ISO-8859-1', 'the encoding is the charset given, or the default')
        S.require(req.is_plain_text() == (t.lower() == 'text/plain'), 'is_plain_text()')
        S.reach('type')
        return
    if k == 'wide':
        n, m, c = case['n']
        t = 'x-' + S.bytes('a', n, WIDE) + '/y' + S.bytes('b', n, WIDE)
        params = []
        for i in range(c):
            params.append('p%d' % i + S.bytes('n%d' % i, n, WIDE[:52] + '-_.') + '=' + (S.choice('quote', ['', '"']) and '"%s"' or '%s') % ('v' + S.bytes('v%d' % i, m, WIDE[:52] + '0123456789-_.:/')))
        at = S.choice('at', list(range(c + 1)))
        params.insert(at, S.choice('cs', ['charset=utf-8', 'Charset="utf-8"']))
        req = request(t + '; ' + S.choice('sep', ['; ', ';']).join(params))
        S.require(S.call(req.parse)[0] == 'ok', 'a request with a long content type is parsed')
        S.equal(req.content_type, t.lower(), 'the content type is the lower-cased media type')
        S.equal(req.encoding, 'utf-8', 'the charset among other parameters')
        S.equal(req.GET.getlist('q'), [u'\ufffd'], 'the query is decoded in the charset')
        S.require(req.is_plain_text() is False, 'is_plain_text()')
        S.reach('wide')
        return
    if k == 'none':
        req = request(None)
        S.require(S.call(req.parse)[0] == 'ok', 'a request without content type is parsed')
        S.require(not req.content_type, 'no content type')
        S.equal(req.encoding, 'ISO-8859-1', 'the default encoding')
        S.require(req.is_plain_text() is False, 'is_plain_text()')
        req = request('TEXT/Plain')
        S.require(S.call(req.parse)[0] == 'ok', 'the request is parsed')
        S.require(req.is_plain_text() is True, 'is_plain_text() in any case')
        st = hlib.settings(DEFAULT_CHARSET='utf-8')
        req = request('text/plain', st=st)
        S.require(S.call(req.parse)[0] == 'ok', 'the request is parsed')
        S.equal(req.encoding, 'utf-8', 'the default encoding of the settings')
        # whatever else is sent
        method = S.choice('method', ['GET', 'POST', 'PUT', 'DELETE', 'HEAD'])
        other = S.choice('other', ['Content-Length: 3', 'Accept: text/plain', 'X-Content-Type: text/plain; charset=utf-8', 'Content-Encoding: utf-8', 'Content-Type2: a/b', 'Transfer-Encoding: chunked', 'Accept-Charset: utf-8'])
        req = HttpRequest(hlib.BytesIO(method + ' / HTTP/1.1\r\nHost: h\r\n' + other + '\r\n\r\n' + S.choice('body', ['', 'abc', '--B--', '{}'])), hlib.settings())
        S.require(S.call(req.parse)[0] == 'ok', 'a request without content type is parsed')
        S.require(not req.content_type and req.is_plain_text() is False, 'no content type')
        S.equal(req.encoding, 'ISO-8859-1', 'the default encoding')
        S.reach('none')
        return
    if k == 'word':
        w = ''
        for i, c in enumerate('charset'):
            w += S.choice('c%d' % i, [c, c.upper()]) if i < 5 else c
        req = request('text/plain; ' + w + '=utf-8')
        S.require(S.call(req.parse)[0] == 'ok', 'the request is parsed')
        S.equal(req.encoding, 'utf-8', 'charset in any case')
        S.reach('odd')
        return
    if k == 'near':
        # names that are not charset, before or after one that is
        c = S.bytes('c', 1, 'abzAT-_.09*')
        near = S.choice('near', [c + 'charset', 'charset' + c, 'cha' + c + 'set', 'harset', 'charse', c + 'CHARSET'])
        S.assume(near.lower() not in ('charset', 'charset*'))
        at = S.choice('at', [0, 1, 2])
        params = [near + '=' + S.choice('v', ['utf-16', 'nope', '"utf-16"'])]
        if at:
            params.insert(at - 1, 'charset=utf-8')
        req = request('text/plain; ' + '; '.join(params))
        S.require(S.call(req.parse)[0] == 'ok', 'other parameters are no charset')
        S.equal(req.encoding, 'utf-8' if at else 'ISO-8859-1', 'the encoding is the charset given, or the default')
        S.reach('near')
        return
    if k == 'empty':
        for v in ['charset=', 'charset=""', 'charset']:
            req = request('text/plain; ' + v)
            S.require(S.call(req.parse)[0] == 'ok', 'an empty charset is like none')
            S.equal(req.encoding, 'ISO-8859-1', 'an empty charset is like none')
        S.reach('default')
        return
    if k == 'twice':
        req = request('text/plain; charset=utf-8; charset=utf-8')
        S.require(S.call(req.parse)[0] == 'ok', 'the request is parsed')
        S.equal(req.encoding, 'utf-8', 'a charset given twice')
        S.reach('twice')
        return
    if k == 'badsym':
        cs = ''
        for i in range(case['n']):
            cs += S.choice('cs%d' % i, ['q', 'j', 'z', '-'])
        req = request('text/plain; charset=' + cs)
        S.require(S.call(req.parse_request_header) == ('exc', 'InvalidHttpRequest'), 'an unusable charset is the documented error')
        S.reach('refused')
        return
    cs = case['cs']
    media = 'application/x-www-form-urlencoded'
    ct = S.choice('form', [media + '; charset=%s', media + ';charset="%s"', media + '; a="b;c"; charset=%s; z=1', media + ' ; CharSet = %s', 'text/plain; charset=%s'])
    ct = ct.replace('%s', cs)
    hi = S.int('hi', 0, 15)
    lo = S.int('lo', 0, 15)
    esc = '%' + HEX[hi] + HEX[lo]
    raw = BYTES[hi * 16 + lo]
    req = request(ct, 'q=' + esc, 'p=' + esc)
    r = S.call(req.parse)
    S.observe('r', r)
    if k == 'bad':
        S.require(r == ('exc', 'InvalidHttpRequest'), 'an unusable charset is the documented error')
        S.reach('refused')
        return
    S.require(r[0] == 'ok', 'a usable charset is accepted')
    S.equal(req.content_type, 'text/plain' if ct.startswith('text') else media, 'the content type without its parameters')
    S.equal(req.encoding, cs, 'the charset is the encoding of the request')
    S.equal(req.GET.getlist('q'), [raw.decode(cs, 'replace')], 'the query is decoded in the charset')
    if not ct.startswith('text'):
        S.equal(req.POST.getlist('p'), [raw.decode(cs, 'replace')], 'the form is decoded in the charset')
        S.reach('form')
    S.reach('quoted' if '"' in ct else 'charset')
