"""A well-formed multipart body gives exactly its parts."""
import hlib
from request_parser.files.uploadhandler import ConvenientFileUploadHandler, MemoryFileUploadHandler, TemporaryFileUploadHandler

BOUNDS = ('bodies of 0..4 parts (fields and files, repeated names), each content 0..4 arbitrary symbolic bytes, or up to 7 bytes over the alphabet '
          'CR LF - B o x against boundary "Bo"; read sizes 1..64K; up to 5 content types, names and file names concrete; the file objects of the three built-in handlers with a symbolic character in name, type and parameters; 2..3 parts with symbolic names; headers of a part of up to 1019 bytes; '
          'a part whose name, file name, type, parameter (printable) and content (any) are all symbolic, of 1..8 (thorough 16) characters each')
REACH = ['wide', 'builtin', 'mix', 'head', 'field', 'file', 'empty-file', 'repeat', 'end']
OPTS = {}


def cases(tier):
    out = []
    lists = [[], ['f2'], ['F3'], ['f0'], ['F0'], ['f2', 'F2'], ['F1', 'f3'], ['f1', 'f2', 'f0'], ['F2', 'F0'], ['f2', 'F0', 'F1', 'f1']]
    if tier == 'thorough':
        lists += [['f4'], ['F4'], ['f3', 'f3'], ['F3', 'F3', 'f2'], ['f0', 'F2', 'f0']]
    for l in lists:
        for c in ([None, 5] if tier == 'quick' else [None, 1, 2, 5, 7, 13, 64]):
            out.append({'parts': l, 'chunk': c, 'boundary': 'BoUnD'})
    for kind in 'fF':
        for n in ([5, 6] if tier == 'quick' else [5, 6, 7]):
            for c in ([None, 3] if tier == 'quick' else [None, 1, 3, 8, 11]):
                out.append({'parts': [kind + str(n), 'f1'], 'chunk': c, 'boundary': 'Bo', 'near': 1})
    out.append({'parts': ['f2', 'F2', 'f2'], 'chunk': None, 'boundary': 'x' * 70})
    out.append({'parts': ['f2', 'F2', 'f2'], 'chunk': 16, 'boundary': "'()+_,-./:=? Z"})
    out.append({'parts': ['F2'], 'chunk': None, 'boundary': 'BoUnD', 'pad': 70000})
    out.append({'parts': ['f2', 'F2'], 'chunk': 512, 'boundary': 'BoUnD', 'pad': 1500})
    out.append({'parts': ['F2', 'F1'], 'chunk': 1000, 'boundary': 'BoUnD', 'pad': 3000})
    for l in ('ff', 'FF', 'fF', 'Ff') if tier == 'quick' else ('ff', 'FF', 'fF', 'Ff', 'FfF', 'fFf'):
        out.append({'kind': 'mix', 'parts': l})
    for kind in 'fF':
        for n in (200, 500, 900, 1024 - 5) if tier == 'quick' else (100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1024 - 5):
            out.append({'kind': 'head', 'part': kind, 'n': n})
    for kind in 'fF':
        for n in (1, 2, 3, 5, 8) if tier == 'quick' else range(1, 17):
            out.append({'kind': 'wide', 'part': kind, 'n': n})
    for h in ('mem', 'tmp', 'conv'):
        out.append({'kind': 'builtin', 'h': h})
    return out


TYPES = [None, 'text/plain', 'application/json; charset=utf-8', 'image/png; a="b;c"; D=e', 'x/y;q=1']


def builtin(S, case):
    h = {'mem': MemoryFileUploadHandler, 'tmp': TemporaryFileUploadHandler, 'conv': ConvenientFileUploadHandler}[case['h']]()
    x = S.bytes('x', 1, 'ab-9')
    names = ['n' + x + '.txt', 'm.bin']
    data = [S.bytes('c0', 2), S.bytes('c1', 3)]
    cs = S.bytes('cs', 3, 'utfUTF') + '-' + x
    kinds = [('text/x' + x + '; charset=' + cs + '; D="E ' + x + '"', 'text/x' + x, {'charset': cs, 'd': 'E ' + x}, cs), (None, '', {}, None)]
    order = [0, 1] if S.bool('order') else [1, 0]
    limit = S.choice('limit', [0, 2, 100000]) if case['h'] == 'conv' else 100000
    parts = [hlib.part('F', 'f%d' % i, data[i], kinds[i][0], filename=names[i], tenc='binary' if i else None) for i in order]
    body = hlib.body_of(parts, 'BoUnD')
    r = S.call(hlib.multipart, body, 'BoUnD', [h], hlib.settings(S, FILE_UPLOAD_MAX_MEMORY_SIZE=limit))
    S.require(r[0] == 'ok', 'a well-formed body is parsed')
    S.require(sorted(r[1][1].keys()) == ['f0', 'f1'], 'every file is delivered')
    for i in range(2):
        f = r[1][1]['f%d' % i]
        S.equal(f.name, names[i], 'the name of a file object')
        S.equal(f.content_type, kinds[i][1], 'the content type of a file object')
        S.equal(f.content_type_extra, kinds[i][2], 'the content type parameters of a file object')
        S.equal(f.charset, kinds[i][3], 'the charset of a file object')
        S.equal(f.transfer_encoding, 'binary' if i else None, 'the transfer encoding of a file object')
        S.equal(f.size, len(data[i]), 'the size of a file object')
        S.equal(f.read(), data[i], 'the content of a file object')
        f.close()
    S.reach('builtin')


def mix(S, case):
    """parts with symbolic names, so that any of them may share one, and any of the content types"""
    sent = []
    parts = []
    for i, kind in enumerate(case['parts']):
        name = S.bytes('n%d' % i, 1, 'ab')
        ti = S.choice('t%d' % i, list(range(len(TYPES))) if i == 0 else [0, 2])
        data = S.bytes('c%d' % i, 1)
        parts.append(hlib.part(kind, name, data, TYPES[ti], filename='x%d' % i))
        sent.append((kind, name, data, ti))
    h = MemoryFileUploadHandler()
    r = S.call(hlib.multipart, hlib.body_of(parts, 'BoUnD'), 'BoUnD', [h], hlib.settings())
    S.require(r[0] == 'ok', 'a well-formed body is parsed')
    for which, kind in ((0, 'f'), (1, 'F')):
        want = {}
        for k, name, data, ti in sent:
            if k == kind:
                want[name] = want.get(name, []) + [(data, ti)]
        got = r[1][which]
        S.require(len(got) == len(want), 'exactly the names sent are reported')
        for name in want:
            vals = got.getlist(name)
            S.require(len(vals) == len(want[name]), 'every part is kept, once')
            for v, (data, ti) in zip(vals, want[name]):
                S.equal(v.read() if which else v['data'], data, 'the content of a part, in the order sent')
                S.equal(v.content_type if which else v['content-type'], ['', 'text/plain', 'application/json', 'image/png', 'x/y'][ti], 'the content type of a part')
                S.equal(v.content_type_extra if which else v['content-type-extra'], [{}, {}, {'charset': 'utf-8'}, {'a': 'b;c', 'd': 'e'}, {'q': '1'}][ti], 'the content type parameters of a part')
    S.reach('mix')


NAMECHARS = ''.join([chr(i) for i in range(33, 127) if chr(i) not in '"\\\\'])
VALUECHARS = ''.join([chr(i) for i in range(33, 127) if chr(i) not in '"\\\\&'])
TYPECHARS = 'abcdefghijklmnopqrstuvwxyz0123456789!#$&^_.+-'
SOME = ['text/css', 'text/html', 'text/xml', 'application/json', 'application/octet-stream', 'application/x-www-form-urlencoded', 'multipart/mixed', 'multipart/form-data', 'message/rfc822', 'image/svg+xml']


def wide(S, case):
    """a part whose name, file name, content type, parameter and content are all arbitrary"""
    kind, n = case['part'], case['n']
    few = ''.join([c for c in VALUECHARS if c not in ";'%"])
    name = S.bytes('name', n, NAMECHARS if n < 3 else few)
    fn = S.bytes('fn', n, VALUECHARS if n < 3 else few)
    ctype = S.choice('some', SOME) if S.bool('known') else S.bytes('type', n, TYPECHARS) + '/' + S.bytes('subtype', n, TYPECHARS)
    q = S.bytes('q', n, NAMECHARS if n < 3 else few)
    c = S.bytes('c', n)
    S.assume('--Bo UnD' not in c)
    p = hlib.part(kind, name, c, ctype + '; q="' + q + '"', filename=fn)
    h = hlib.Recorder()
    r = S.call(hlib.multipart, hlib.body_of([p], 'Bo UnD'), 'Bo UnD', [h], hlib.settings(), ctype='multipart/form-data; boundary="Bo UnD"')
    S.require(r[0] == 'ok', 'a well-formed body is parsed')
    post, files = r[1]
    if kind == 'f':
        S.require(len(post) == 1 and len(files) == 0, 'exactly one field is reported')
        v = post.getlist(list(post.keys())[0])
        S.equal(list(post.keys())[0], name, 'the name of a form field')
        S.require(len(v) == 1, 'a field is kept once')
        S.equal(v[0]['data'], c, 'the content of a form field is intact')
        S.equal(v[0]['content-type'], ctype, 'the content type of a form field')
        S.equal(v[0]['content-type-extra'], {'q': q}, 'the content type parameters of a form field')
    else:
        S.require(len(post) == 0 and len(files) == 1 and len(h.files) == 1, 'exactly one file is reported')
        f = h.files[0]
        S.equal(f['field'], name, 'the field of a file')
        S.equal(list(files.keys())[0], name, 'the field of a file')
        S.equal(f['name'], fn, 'the name of a file')
        S.equal(f['data'], c, 'the content of a file is intact')
        S.equal(f['type'], ctype, 'the content type of a file')
        S.equal(f['extra'], {'q': q}, 'the content type parameters of a file')
    S.reach('wide')


def head(S, case):
    """headers of a part of a given length, from the delimiter to the empty line"""
    x = S.bytes('x', 1, 'ab')
    c = S.bytes('c', 2)
    kind = case['part']
    where = S.choice('where', ['name', 'type', 'other'])
    empty = len('\r\n' + hlib.part(kind, x, '', 't/p; q=' + x, filename='n', extra='X-Y: z\r\n'))
    fill = 'h' * (case['n'] - empty)
    name = x + (fill if where == 'name' else '')
    q = x + (fill if where == 'type' else '')
    p = hlib.part(kind, name, c, 't/p; q=' + q, filename='n', extra='X-Y: z' + (fill if where == 'other' else '') + '\r\n')
    h = MemoryFileUploadHandler()
    r = S.call(hlib.multipart, hlib.body_of([p, hlib.part('f', 'z', 'v')], 'BoUnD'), 'BoUnD', [h], hlib.settings())
    S.require(r[0] == 'ok', 'a well-formed body is parsed')
    got = r[1][kind == 'F'].getlist(name)
    S.require(len(got) == 1, 'a part with long headers is kept')
    S.equal(got[0].read() if kind == 'F' else got[0]['data'], c, 'its content is intact')
    S.equal(got[0].content_type_extra if kind == 'F' else got[0]['content-type-extra'], {'q': q}, 'its content type parameters')
    S.require(len(r[1][0].getlist('z')) == 1, 'the part after it is kept')
    S.reach('head')


def run(S, case):
    if case.get('kind') == 'mix':
        return mix(S, case)
    if case.get('kind') == 'wide':
        return wide(S, case)
    if case.get('kind') == 'head':
        return head(S, case)
    if case.get('kind') == 'builtin':
        return builtin(S, case)
    b = case['boundary']
    sent_fields = []
    sent_files = []
    parts = []
    for i, spec in enumerate(case['parts']):
        n = int(spec[1:])
        if i == 0 and case.get('near'):
            data = S.bytes('c%d' % i, n, '\r\n-Box')
            S.assume(('--' + b) not in data)
        else:
            data = S.bytes('c%d' % i, n)
        if case.get('pad'):
            data = data + ('0123456789\r\n--Bo' * (case['pad'] // 16)) + data
        ti = (i + len(case['parts'])) % len(TYPES)
        name = ['a', 'b', 'a'][i % 3]
        if spec[0] == 'f':
            parts.append(hlib.part('f', name, data, TYPES[ti]))
            sent_fields.append((name, data, ti))
        else:
            parts.append(hlib.part('F', name, data, TYPES[ti], filename='n%d.txt' % i))
            sent_files.append((name, data, ti, 'n%d.txt' % i))
    h = hlib.Recorder(case['chunk'])
    st = hlib.settings()
    q = '"' if ' ' in b else ''
    r = S.call(hlib.multipart, hlib.body_of(parts, b), b, [h], st, ctype='multipart/form-data; boundary=' + q + b + q)
    S.require(r[0] == 'ok', 'a well-formed body is parsed')
    post, files = r[1]
    S.observe('post', hlib.plain(post))
    S.observe('files', [f['data'] for f in h.files])
    want = {}
    for name, data, ti in sent_fields:
        want.setdefault(name, []).append((data, ti))
    S.require(sorted(post.keys()) == sorted(want.keys()), 'POST holds exactly the names of the form fields')
    for name in want:
        got = post.getlist(name)
        S.require(len(got) == len(want[name]), 'every form field is kept, once')
        for v, (data, ti) in zip(got, want[name]):
            S.equal(v['data'], data, 'the content of a form field is intact')
            S.equal(v['content-type'], ['', 'text/plain', 'application/json', 'image/png', 'x/y'][ti], 'the content type of a form field')
            S.equal(v['content-type-extra'], [{}, {}, {'charset': 'utf-8'}, {'a': 'b;c', 'd': 'e'}, {'q': '1'}][ti], 'the content type parameters of a form field')
            S.equal(v['transfer-encoding'], '', 'a form field without transfer encoding')
            S.reach('field')
        if len(got) > 1:
            S.reach('repeat')
    S.require(len(h.files) == len(sent_files), 'every file is delivered, once, in order')
    for f, (name, data, ti, fn) in zip(h.files, sent_files):
        S.equal(f['data'], data, 'the content of a file is intact')
        S.require(f['size'] == len(data), 'the size of a file')
        S.equal(f['field'], name, 'the field of a file')
        S.equal(f['name'], fn, 'the name of a file')
        S.equal(f['type'], ['', 'text/plain', 'application/json', 'image/png', 'x/y'][ti], 'the content type of a file')
        S.equal(f['extra'], [{}, {}, {'charset': 'utf-8'}, {'a': 'b;c', 'd': 'e'}, {'q': '1'}][ti], 'the content type parameters of a file')
        S.equal(f['charset'], [None, None, 'utf-8', None, None][ti], 'the charset of a file')
        S.reach('file' if len(data) else 'empty-file')
    wantf = {}
    for f in h.files:
        wantf.setdefault(f['field'], []).append(f)
    S.require(sorted(files.keys()) == sorted(wantf.keys()), 'FILES holds exactly the fields of the files')
    for name in wantf:
        got = files.getlist(name)
        S.require(len(got) == len(wantf[name]), 'FILES keeps every file of a field')
        for x, y in zip(got, wantf[name]):
            S.require(x is y, 'FILES keeps the files in order')
    S.require(h.completed == 1, 'the end of the upload is signalled once')
    S.reach('end')
