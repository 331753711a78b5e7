"""Header parameters are parsed as written."""
import hlib
from request_parser.http.multipartparser import parse_header, MultiPartParser

BOUNDS = ('headers of one main value and 1..3 parameters; names of up to 3 letters of any case; quoted values of 0..4 (thorough 6) characters over '
          '" \\ ; = space , a Z and one arbitrary byte; token values of 0..4 characters with surrounding white space; '
          'any header line of up to 5 (thorough 7) bytes over ; = " \\ * \' a space and one arbitrary byte: ends without undocumented error; names of up to 5 (6) characters with asterisks, quotes and % before the last one; the same through a multipart part header; '
          'one parameter with a name of up to 15 (thorough 22) and a value of up to 22 (66) symbolic letters, digits and separators, and 8 (24) parameters at once; a header parsed again after the first result was changed')
REACH = ['again', 'quoted', 'token', 'two', 'part', 'any', 'novalue', 'wide', 'star']
OPTS = {}


def cases(tier):
    quick = tier == 'quick'
    out = []
    for n in ([0, 1, 2, 3] if quick else [0, 1, 2, 3, 4, 5]):
        out.append({'kind': 'quoted', 'n': n, 'sp': ''})
        out.append({'kind': 'quoted', 'n': n, 'sp': ' '})
    out.append({'kind': 'quotedfull', 'n': 1 if quick else 2})
    for n in ([1, 3] if quick else [1, 2, 3, 4]):
        out.append({'kind': 'token', 'n': n})
    out.append({'kind': 'case', 'n': 3})
    for n in ([1, 2] if quick else [1, 2, 3]):
        out.append({'kind': 'two', 'n': n, 'm': 2})
    for n in ([2, 3] if quick else [2, 3, 4]):
        out.append({'kind': 'part', 'n': n})
    for n in ([1, 2, 4] if quick else [1, 2, 3, 4, 5, 6]):
        out.append({'kind': 'any', 'n': n})
    out.append({'kind': 'anyfull', 'n': 2})
    out.append({'kind': 'again', 'n': 2})
    for n in ([1, 3] if quick else [1, 2, 3, 4]):
        out.append({'kind': 'star', 'n': n})
    for n, m, c in ([(6, 9, 1), (13, 20, 1), (3, 5, 8)] if quick else [(4, 7, 1), (6, 9, 1), (9, 33, 1), (13, 20, 1), (20, 64, 1), (3, 5, 8), (5, 9, 16), (2, 12, 24)]):
        out.append({'kind': 'wide', 'n': n, 'm': m, 'count': c})
    return out


def quote(S, v):
    out = '"'
    for i in range(len(v)):
        c = v[i]
        if c == '"' or c == '\\':
            out += '\\'
        out += c
    return out + '"'


LOW = 'abcdefghijklmnopqrstuvwxyz'
SAFE = LOW + LOW.upper() + '0123456789-_.+!#$&^|~`{}'
CHARS = '"\\;= ,aZ'


def run(S, case):
    k = case['kind']
    if k in ('quoted', 'quotedfull'):
        v = S.bytes('v', case['n'], CHARS) if k == 'quoted' else S.bytes('v', case['n'])
        sp = case.get('sp', '')
        line = 'form-data;' + sp + 'nAme' + sp + '=' + sp + quote(S, v) + sp + ';' + sp + 'b=1'
        r = S.call(parse_header, line)
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a header with a quoted parameter is parsed')
        S.equal(r[1][0], 'form-data', 'the main value')
        S.equal(sorted(r[1][1].keys()), ['b', 'name'], 'exactly the parameters sent')
        S.equal(r[1][1]['name'], v, 'a quoted value is reported unquoted and exact')
        S.equal(r[1][1]['b'], '1', 'the parameter after it')
        S.reach('quoted')
    elif k == 'token':
        v = S.bytes('v', case['n'], 'aZ0-./\'*%=')
        pad = S.choice('pad', ['', ' ', '\t', '  '])
        r = S.call(parse_header, 'Text/Plain;x=' + pad + v + pad + ';charset=' + v + ';flag; y=2')
        S.observe('r', r)
        S.require(r[0] == 'ok', 'a header with token parameters is parsed')
        S.equal(r[1][0], 'text/plain', 'the main value is lower-cased')
        S.equal(r[1][1], {'x': v, 'charset': v, 'y': '2'}, 'token values are trimmed and exact, a parameter without value is ignored')
        S.reach('token')
        S.reach('novalue')
    elif k == 'case':
        name = S.bytes('name', case['n'], 'aAbBzZ')
        main = S.bytes('main', 2, 'xXyY/')
        r = S.call(parse_header, main + '; ' + name + '="Vv"')
        S.require(r[0] == 'ok', 'a header is parsed')
        S.equal(r[1][0], main.lower(), 'the main value is lower-cased')
        S.equal(r[1][1], {name.lower(): 'Vv'}, 'parameter names are lower-cased, values keep their case')
    elif k == 'two':
        v = S.bytes('v', case['n'], CHARS)
        w = S.bytes('w', case['m'], CHARS)
        r = S.call(parse_header, 'a; p=' + quote(S, v) + '; q=' + quote(S, w) + '; r=' + quote(S, v))
        S.require(r[0] == 'ok', 'a header with several quoted parameters is parsed')
        S.equal(r[1], ('a', {'p': v, 'q': w, 'r': v}), 'several quoted values are reported exactly')
        S.reach('two')
    elif k == 'star':
        # only an asterisk at the end marks an encoded value
        name = 'a' + S.bytes('name', case['n'], "*b'%") + 'z'
        v = S.choice('v', ["utf-8''x%41y", "x%41", "us-ascii'en'q"]) + S.bytes('v2', 1, "*'%a")
        q = S.bool('q')
        r = S.call(parse_header, 'x; ' + name + '=' + ('"' + v + '"' if q else v) + '; w=1')
        S.require(r[0] == 'ok', 'a header with an asterisk in a name is parsed')
        S.equal(r[1], ('x', {name: v, 'w': '1'}), 'a name that does not end in an asterisk and its value are reported as written')
        S.reach('star')
    elif k == 'wide':
        line, want = 'multipart/x-' + S.bytes('main', 4, LOW), {}
        main = line
        for i in range(case['count']):
            name = 'p%d' % i + S.bytes('n%d' % i, case['n'], LOW + LOW.upper() + '-_.0123456789')
            v = S.bytes('v%d' % i, case['m'], SAFE + ('' if i % 2 else ' /:,()<>@[]?'))
            v = 'v' + v + 'v'
            line += (';' if i % 3 else ' ; ') + name + '=' + (v if i % 2 else '"' + v + '"')
            want[name.lower()] = v
        r = S.call(parse_header, line)
        S.require(r[0] == 'ok', 'a header with long parameters is parsed')
        S.equal(r[1][0], main, 'the main value')
        S.equal(sorted(r[1][1].keys()), sorted(want.keys()), 'exactly the parameters sent')
        for n in want:
            S.equal(r[1][1][n], want[n], 'the value of a long parameter is reported exactly')
        S.reach('wide')
    elif k == 'again':
        # what the caller does with one result does not reach the next
        v = S.bytes('v', case['n'], '"\\; a')
        line = S.choice('line', ['form-data', 'form-data; n=' + quote(S, v), 'form-data; N=' + quote(S, v) + '; b="1"'])
        want = S.call(parse_header, line)
        S.require(want[0] == 'ok', 'a header is parsed')
        d = want[1][1]
        was = dict(d)
        d['added'] = 'x'
        d['n'] = 'y'
        other = S.call(parse_header, 'text/css')
        S.equal(other, ('ok', ('text/css', {})), 'a header without parameters has none')
        S.equal(S.call(parse_header, line), ('ok', ('form-data', was)), 'every call parses afresh')
        S.equal(was, {} if line == 'form-data' else {'n': v} if 'b=' not in line else {'n': v, 'b': '1'}, 'exactly the parameters sent')
        S.reach('again')
    elif k == 'part':
        v = S.bytes('v', case['n'], '"\\;= aZ')
        line = 'Content-Disposition: form-data; name=' + quote(S, v) + '; filename=' + quote(S, 'n' + v + 'n') + '\r\nContent-Type: text/plain; x=' + quote(S, v)
        h = hlib.Recorder()
        body = '--B\r\n' + line + '\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name=' + quote(S, v) + '\r\n\r\nw\r\n--B--\r\n'
        r = S.call(hlib.multipart, body, 'B', [h], hlib.settings())
        S.require(r[0] == 'ok', 'a body with quoted names is parsed')
        S.require(len(h.files) == 1, 'one file')
        f = h.files[0]
        S.equal(f['field'], v.strip(), 'the field name of a file is the quoted value')
        S.equal(f['extra'], {'x': v}, 'the content type parameter is the quoted value')
        S.equal(f['name'], ('n' + v + 'n').split('\\')[-1].strip(), 'the file name is the quoted value without path')
        S.equal(hlib.fields(r[1][0]), [(v.strip(), ['w'])], 'the name of a field is the quoted value')
        S.reach('part')
    else:
        v = S.bytes('v', case['n'], ';="\\*\'a ') if k == 'any' else S.bytes('v', case['n'])
        pre = S.choice('pre', ['', 'x;', 'x; n=', 'x; n*=utf-8', 'x; n="'])
        r = S.calle(parse_header, pre + v + S.choice('post', ['', '"', '; z=1']))
        S.observe('r', r)
        if r[0] == 'exc':
            S.require(isinstance(r[1], ValueError), 'a malformed header is a ValueError at most')
            S.require(k == 'anyfull', 'an ASCII header is parsed')
        S.reach('any')
