"""Extended (RFC 2231/5987) parameters."""
import hlib
from request_parser.http.multipartparser import parse_header

BOUNDS = ('extended values of up to 3 (thorough 4) elements, each a token character, a percent-encoded arbitrary byte (upper and lower case hex) or an incomplete escape; '
          'charsets utf-8, UTF-8, iso-8859-1, ascii, cp1252, utf-16-le, empty and unknown; with and without language (languages of 1..12, thorough 35, symbolic characters); the same value again, in another charset and after the first result was changed; parameter alone, between others, as part name and file name; '
          'parameter names of up to 3 (thorough 4) characters over two letters, digit and star; values not in extended form over \' % a and one arbitrary byte')
REACH = ['language', 'twice', 'decoded', 'unknown', 'plain', 'file', 'raw', 'name']
OPTS = {}
HEX = '0123456789ABCDEF'
HEXL = '0123456789abcdef'


def cases(tier):
    quick = tier == 'quick'
    out = []
    for cs in ['utf-8', 'UTF-8', 'iso-8859-1', 'ascii', 'cp1252', '', 'x-bogus']:
        for shape in (['b', 'bb', 'tb', 'be', 'bbb'] if quick else ['', 'b', 'bb', 'tb', 'bt', 'be', 'eb', 'bbb', 'tbt', 'bbe', 'bbbb']):
            if len(shape) > 2 and cs != 'utf-8' and (quick or cs != 'cp1252'):
                continue
            out.append({'kind': 'ext', 'cs': cs, 'shape': shape})
    for cs in ['utf-8', 'iso-8859-1', 'x-bogus']:
        for enc in ['utf-8', 'iso-8859-1']:
            out.append({'kind': 'file', 'cs': cs, 'shape': 'tbbt' if quick else 'tbbbt', 'enc': enc})
    for cs in ['utf-8', 'iso-8859-1', 'x-bogus']:
        for n in ([1, 5, 7, 12] if quick else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 35]):
            out.append({'kind': 'ext', 'cs': cs, 'shape': 'be', 'lang': n})
    for cs in ['utf-8', 'x-bogus']:
        out.append({'kind': 'twice', 'cs': cs})
    for n in ([1, 3] if quick else [1, 2, 3, 4]):
        out.append({'kind': 'plain', 'n': n})
    out.append({'kind': 'raw', 'n': 1})
    for n in ([1, 2, 3] if quick else [0, 1, 2, 3, 4]):
        out.append({'kind': 'name', 'n': n})
    return out


def element(S, name, e):
    """(as sent, the bytes it stands for)"""
    if e == 't':
        c = S.bytes(name, 1, 'aZ09-._~+&$')
        return c, c
    if e == 'e':
        c = S.bytes(name, 1, 'gG%z0')
        return '%' + c, '%' + c
    hi = S.int(name + 'h', 0, 15)
    lo = S.int(name + 'l', 0, 15)
    h = HEX if name != 'e1' else HEXL
    b = ''.join([chr(i) for i in range(256)])
    return '%' + h[hi] + h[lo], b[hi * 16 + lo]


def build(S, shape):
    sent, raw = '', ''
    for i, e in enumerate(shape):
        s, r = element(S, 'e%d' % i, e)
        sent += s
        raw += r
    return sent, raw


def known(cs):
    return cs not in ('', 'x-bogus')


def run(S, case):
    k = case['kind']
    if k == 'ext':
        cs = case['cs']
        sent, raw = build(S, case['shape'])
        lang, sp, pre = S.choice('form', [('', '', ''), ('en', '', ''), ('', ' ', ''), ('', '', 'p="q;"; ')]) if case['shape'] == 'tb' else ('', '', '')
        if case.get('lang'):
            lang = S.bytes('lang', case['lang'], 'aZ-9')
            S.reach('language')
        r = S.call(parse_header, 'form-data; ' + pre + 'Name*' + sp + '=' + sp + cs + "'" + lang + "'" + sent + '; z=1')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a header with an extended parameter is parsed')
        if pre:
            S.equal(r[1][1].get('p'), 'q;', 'the parameter before it')
        if 'name' not in r[1][1]:
            S.require(False, 'the parameter is reported under its plain name')
        S.equal(r[1][1].get('z'), '1', 'the parameter after it')
        got = r[1][1]['name']
        if known(cs):
            S.equal(got, raw.decode(cs, 'replace'), 'the value is percent-decoded in its charset')
            S.reach('decoded')
        else:
            S.equal(got, sent, 'a value in an unknown charset is kept as sent')
            S.reach('unknown')
    elif k == 'file':
        cs = case['cs']
        sent, raw = build(S, case['shape'])
        h = hlib.Recorder()
        body = ('--B\r\nContent-Disposition: form-data; name*=' + cs + "''" + sent + '; filename*=' + cs + "''n" + sent + 'n\r\n\r\nv\r\n--B--\r\n')
        r = S.call(hlib.multipart, body, 'B', [h], hlib.settings(), None, None, None, case['enc'])
        S.require(r[0] == 'ok', 'a body with extended parameters is parsed')
        S.require(len(h.files) == 1, 'the file is delivered')
        f = h.files[0]
        S.observe('f', [f['field'], f['name']])
        if known(cs):
            S.equal(f['field'], raw.decode(cs, 'replace').strip().encode(case['enc'], 'replace'), 'the field name is decoded and given in the encoding of the request')
        else:
            S.equal(f['field'], sent, 'a field name in an unknown charset is kept as sent')
        S.reach('file')
    elif k == 'twice':
        # what the caller does with one result does not reach the next, nor does the charset of another value
        sent, raw = build(S, 'b')
        line = 'form-data; n*=' + case['cs'] + "''" + sent + '; z=1'
        first = S.call(parse_header, line)
        S.require(first[0] == 'ok', 'a header with an extended parameter is parsed')
        first[1][1]['n'] = 'changed'
        first[1][1]['y'] = 'added'
        second = S.call(parse_header, 'form-data; n*=' + ("iso-8859-1''" if case['cs'] == 'utf-8' else "utf-8''") + sent)
        third = S.call(parse_header, line)
        S.observe('twice', [second, third])
        S.equal(second, ('ok', ('form-data', {'n': raw.decode('iso-8859-1' if case['cs'] == 'utf-8' else 'utf-8', 'replace')})), 'every value is decoded in its own charset')
        S.equal(third, ('ok', ('form-data', {'n': raw.decode(case['cs'], 'replace') if known(case['cs']) else sent, 'z': '1'})), 'every call parses afresh')
        S.reach('twice')
    elif k == 'plain':
        v = S.bytes('v', case['n'], "'%a1-")
        S.assume(v.count("'") != 2)
        r = S.call(parse_header, 'form-data; n*=' + v + '; z=1')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a value not in extended form is no error')
        S.equal(r[1], ('form-data', {'n': v, 'z': '1'}), 'a value not in extended form is kept as sent')
        S.reach('plain')
    elif k == 'name':
        # only a star at the end of the name asks for the extended form
        n = S.bytes('n', case['n'], 'aN*0')
        ext = S.bool('ext')
        r = S.call(parse_header, 'form-data; ' + n + '=' + ("utf-8''%41b" if ext else '"b%41"') + '; z=1')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'any name is parsed')
        star = len(n) > 0 and n[-1] == '*'
        name = n[:-1] if star else n
        S.equal(r[1], ('form-data', {name.lower(): ('Ab' if star else "utf-8''%41b") if ext else 'b%41', 'z': '1'}), 'a star at the end of the name asks for the extended form, and is not part of it')
        S.reach('name')
    else:
        v = S.bytes('v', 1)
        S.assume(v > '\x7f')
        r = S.call(parse_header, "form-data; n*=utf-8''a" + v + '; z=1')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'bytes that are not percent-encoded are no error')
        S.equal(r[1], ('form-data', {'n': 'a' + v, 'z': '1'}), 'bytes that are not percent-encoded are kept as sent')
        S.reach('raw')
